#define PBT_NO_MAIN
#include "p30_lanes.hpp"
PBT_TEST(f32, 2500, 60000) { lanes::type<float>(s, c); }
PBT_TEST(f32_known, 150, 600) { lanes::known<float>(s, c); }
