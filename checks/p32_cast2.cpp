#define PBT_NO_MAIN
#include "p32_mem.hpp"
PBT_TEST(cast_i32, 300, 6000) { mem::casts<int32_t>(s, c); }
PBT_TEST(cast_u32, 300, 6000) { mem::casts<uint32_t>(s, c); }
PBT_TEST(cast_i64, 300, 6000) { mem::casts<int64_t>(s, c); }
PBT_TEST(cast_u64, 300, 6000) { mem::casts<uint64_t>(s, c); }
PBT_TEST(cast_f64, 300, 6000) { mem::casts<double>(s, c); }
