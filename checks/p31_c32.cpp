#define PBT_NO_MAIN
#include "p31_perm.hpp"
PBT_TEST(c32, 1500, 30000) { perm::sizes<kfr::complex<float>>(s, c, perm::Ns_short()); }
