#define PBT_NO_MAIN
#include "p30_lanes.hpp"
PBT_TEST(i64, 1500, 40000) { lanes::type<int64_t>(s, c); }
PBT_TEST(u64, 1500, 40000) { lanes::type<uint64_t>(s, c); }
