#define PBT_NO_MAIN
#include "p30_lanes.hpp"
PBT_TEST(f64, 2500, 60000) { lanes::type<double>(s, c); }
PBT_TEST(f64_known, 150, 600) { lanes::known<double>(s, c); }
