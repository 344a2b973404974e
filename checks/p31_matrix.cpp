// matrix_transpose: any rank, any lengths, in place or not
#define PBT_NO_MAIN
#include "p31_perm.hpp"
template <typename T, kfr::index_t D>
static void nd(Src& s, Case& c, const size_t* n, bool inplace)
{
    kfr::shape<D> sh;
    size_t total = 1;
    for (size_t i = 0; i < D; i++)
        sh[i] = (kfr::index_t)n[i], total *= n[i];
    Buf<T> in(total), out(total);
    Rng r = s.bulk("values");
    for (size_t i = 0; i < total; i++)
        in[i] = perm::draw<T>(r);
    std::vector<T> want(total), was(in.data(), in.data() + total);
    for (size_t i = 0; i < total; i++)
    {
        // output has the axes in reverse order
        size_t x[D], q = i, o = 0;
        for (size_t d = D; d-- > 0;)
            x[d] = q % n[d], q /= n[d];
        for (size_t d = D; d-- > 0;)
            o = o * n[d] + x[d];
        want[o] = was[i];
    }
    T* o = inplace ? in.data() : out.data();
    kfr::matrix_transpose(o, in.data(), sh);
    in.check(c, "input"), out.check(c, "output");
    for (size_t i = 0; i < total; i++)
    {
        if (!(o[i] == want[i]))
            return (void)c.fail(fmt("element %zu of the transposed array is wrong (rank %d)", i, (int)D));
        if (!inplace && !(in[i] == was[i]))
            return (void)c.fail(fmt("element %zu of the input was changed", i));
    }
    c.expect(true, "transposed");
    if (total > 1)
        c.interesting((int)D, (int)n[0], (int)n[1], (int)total, inplace, (int)sizeof(T));
}
template <typename T>
static void matrix(Src& s, Case& c)
{
    int rank     = (int)s.in("rank", 2, 4);
    bool inplace = s.flag("in place");
    size_t n[4]  = { 1, 1, 1, 1 };
    if (rank == 2)
    {
        bool thin = s.flag("thin", 1, 8);
        n[0]      = (size_t)s.skew("rows", 1, thin ? 4 : 90);
        n[1]      = thin ? (size_t)s.in("cols", 1000, 80000) : (size_t)s.skew("cols", 1, 90);
        if (s.flag("tall"))
            std::swap(n[0], n[1]);
    }
    else
        for (int i = 0; i < rank; i++)
            n[i] = (size_t)s.skew("length", 1, rank == 3 ? 20 : 9);
    rank == 2 ? nd<T, 2>(s, c, n, inplace) : rank == 3 ? nd<T, 3>(s, c, n, inplace) : nd<T, 4>(s, c, n, inplace);
}
PBT_TEST(matrix_f32, 800, 8000) { matrix<float>(s, c); }
PBT_TEST(matrix_f64, 500, 5000) { matrix<double>(s, c); }
PBT_TEST(matrix_c32, 500, 5000) { matrix<kfr::complex<float>>(s, c); }
PBT_TEST(matrix_i16, 500, 5000) { matrix<int16_t>(s, c); }
