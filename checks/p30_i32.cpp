#define PBT_NO_MAIN
#include "p30_lanes.hpp"
PBT_TEST(i32, 1500, 40000) { lanes::type<int32_t>(s, c); }
PBT_TEST(u32, 1500, 40000) { lanes::type<uint32_t>(s, c); }
