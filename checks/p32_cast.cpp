#define PBT_NO_MAIN
#include "p32_mem.hpp"
PBT_TEST(cast_i8, 300, 6000) { mem::casts<int8_t>(s, c); }
PBT_TEST(cast_u8, 300, 6000) { mem::casts<uint8_t>(s, c); }
PBT_TEST(cast_i16, 300, 6000) { mem::casts<int16_t>(s, c); }
PBT_TEST(cast_u16, 300, 6000) { mem::casts<uint16_t>(s, c); }
PBT_TEST(cast_f32, 300, 6000) { mem::casts<float>(s, c); }
