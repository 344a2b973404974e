#define PBT_NO_MAIN
#include "p41_complex.hpp"
PBT_TEST(c64, 40000, 600000) { cx::functions<double>(s, c); }
PBT_TEST(c64_arithmetic, 20000, 300000) { cx::arithmetic<double>(s, c); }
