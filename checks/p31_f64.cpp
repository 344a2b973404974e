#define PBT_NO_MAIN
#include "p31_perm.hpp"
PBT_TEST(f64, 1500, 30000) { perm::sizes<double>(s, c, perm::Ns_short()); }
