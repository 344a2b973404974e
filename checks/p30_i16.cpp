#define PBT_NO_MAIN
#include "p30_lanes.hpp"
PBT_TEST(i16, 1500, 40000) { lanes::type<int16_t>(s, c); }
PBT_TEST(u16, 1500, 40000) { lanes::type<uint16_t>(s, c); }
