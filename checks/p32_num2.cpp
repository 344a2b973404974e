#define PBT_NO_MAIN
#include "p32_mem.hpp"
PBT_TEST(i32, 600, 12000) { mem::sizes<int32_t>(s, c, mem::Ns_short()); }
PBT_TEST(i64, 600, 12000) { mem::sizes<int64_t>(s, c, mem::Ns_short()); }
PBT_TEST(f64, 600, 12000) { mem::sizes<double>(s, c, mem::Ns_short()); }
