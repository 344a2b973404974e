#define PBT_NO_MAIN
#include "p31_perm.hpp"
PBT_TEST(i16, 1500, 30000) { perm::sizes<int16_t>(s, c, perm::Ns_short()); }
