#include "p32_mem.hpp"
PBT_TEST(u8, 600, 12000) { mem::sizes<uint8_t>(s, c, mem::Ns_short()); }
PBT_TEST(i16, 600, 12000) { mem::sizes<int16_t>(s, c, mem::Ns_short()); }
PBT_TEST(f32, 800, 15000) { mem::sizes<float>(s, c, mem::Ns()); }
