
#include "p31_perm.hpp"
PBT_TEST(u8, 1500, 30000) { perm::sizes<uint8_t>(s, c, perm::Ns_short()); }
