#include "p30_lanes.hpp"
PBT_TEST(i8, 1500, 40000) { lanes::type<int8_t>(s, c); }
PBT_TEST(u8, 1500, 40000) { lanes::type<uint8_t>(s, c); }
