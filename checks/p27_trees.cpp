// the type-erased trees of p27_exprnd.cpp, compiled on their own
#define PART1
#define PBT_NO_MAIN
#include "p27_exprnd.cpp"
