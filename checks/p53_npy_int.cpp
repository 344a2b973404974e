#define PBT_NO_MAIN
#include "p53_npy.hpp"
PBT_TEST(npy_round_trip_b1, 300, 6000) { FOR_D(round_trip, bool) }
PBT_TESTS(kfr::u8, u1)
PBT_TESTS(kfr::i16, i2)
PBT_TESTS(kfr::u16, u2)
PBT_TESTS(kfr::i32, i4)
PBT_TESTS(kfr::u64, u8)
int p53_npy_int_module = 0; // a symbol of its own keeps the sanitizer's string tables of the files apart
