#define PBT_NO_MAIN
#include "p53_npy.hpp"
PBT_TESTS(float, f4)
PBT_TESTS(double, f8)
PBT_TESTS(kfr::complex<float>, c8)
PBT_TESTS(kfr::complex<double>, c16)
PBT_TESTS(kfr::i8, i1)
PBT_TESTS(kfr::u32, u4)
PBT_TESTS(kfr::i64, i8)
int p53_npy_float_module = 0; // a symbol of its own keeps the sanitizer's string tables of the files apart
