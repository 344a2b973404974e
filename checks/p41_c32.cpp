#include "p41_complex.hpp"
PBT_TEST(c32, 40000, 600000) { cx::functions<float>(s, c); }
PBT_TEST(c32_arithmetic, 20000, 300000) { cx::arithmetic<float>(s, c); }
