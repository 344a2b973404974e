#define PBT_NO_MAIN
#include "p40_math.hpp"
PBT_TEST(f64, 60000, 1000000) { mt::functions<double>(s, c); }
PBT_TEST(f64_edges, 1500, 10000) { mt::specials<double>(s, c); }
PBT_TEST(f64_groups, 5000, 60000) { mt::groups<double>(s, c); }
