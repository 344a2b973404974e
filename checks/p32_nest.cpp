#define PBT_NO_MAIN
#include "p32_mem.hpp"
PBT_TEST(c32, 600, 10000) { mem::sizes<kfr::complex<float>>(s, c, mem::Ns_short()); }
PBT_TEST(c64, 600, 10000) { mem::sizes<kfr::complex<double>>(s, c, mem::Ns_nest()); }
PBT_TEST(v2f32, 500, 8000) { mem::sizes<mem::vec<float, 2>>(s, c, mem::Ns_nest()); }
PBT_TEST(v3f32, 500, 8000) { mem::sizes<mem::vec<float, 3>>(s, c, mem::Ns_nest()); }
PBT_TEST(v4i16, 500, 8000) { mem::sizes<mem::vec<int16_t, 4>>(s, c, mem::Ns_nest()); }
