#include "p40_math.hpp"
PBT_TEST(f32, 60000, 1000000) { mt::functions<float>(s, c); }
PBT_TEST(f32_edges, 1500, 10000) { mt::specials<float>(s, c); }
PBT_TEST(f32_groups, 5000, 60000) { mt::groups<float>(s, c); }
