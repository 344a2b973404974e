// (no main)
#define PBT_NO_MAIN
#include "p31_perm.hpp"
PBT_TEST(f32, 1500, 30000) { perm::sizes<float>(s, c, perm::Ns()); }
