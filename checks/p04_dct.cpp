// DCT-II / DCT-III of any size against the cosine sums.
#include <kfr/dft.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;
using ld = long double;

// cos(pi*j/(2n)) for j mod 4n
static const std::vector<ld>& costab(size_t n)
{
    static std::vector<ld> t;
    static size_t cached = 0;
    if (cached != n)
    {
        t.resize(4 * n);
        for (size_t j = 0; j < 4 * n; j++)
            t[j] = std::cos(3.14159265358979323846264338327950288L * (ld)j / (ld)(2 * n));
        cached = n;
    }
    return t;
}
template <typename T>
static void dct_case(Src& s, Case& c, size_t n)
{
    bool inverse = s.flag("inverse"), inplace = s.flag("inplace"), temp = s.flag("temp");
    size_t mis = s.flag("misaligned", 1, 4) ? (size_t)s.in("by", 1, 3) : 0;
    auto x     = real_signal<T>(s, n);
    kfr::dct_plan<T> plan(n);
    Buf<T> in(n, mis), out(n, mis);
    for (size_t i = 0; i < n; i++)
        in[i] = x[i];
    Buf<unsigned char> tmp(plan.temp_size);
    T* o = inplace ? in.data() : out.data();
    plan.execute(o, in.data(), temp ? tmp.data() : nullptr, inverse);
    in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
    if (!inplace)
        for (size_t i = 0; i < n; i++)
            c.expect(in[i] == x[i], fmt("input changed at %zu", i));
    auto& ct = costab(n);
    ld nrm = 0, mx = 0;
    for (auto v : x)
        nrm += (ld)v * v;
    nrm = std::sqrt(nrm);
    std::vector<ld> w(n);
    for (size_t k = 0; k < n; k++)
    {
        ld a = 0;
        if (!inverse)
            for (size_t i = 0; i < n; i++)
                a += x[i] * ct[((2 * i + 1) * k) % (4 * n)];
        else
        {
            a = x[0] * 0.5L;
            for (size_t i = 1; i < n; i++)
                a += x[i] * ct[((2 * k + 1) * i) % (4 * n)];
        }
        w[k] = a;
        mx   = std::max(mx, std::fabs(a));
    }
    // The rotation by pi*k/2n multiplies both parts of the complex spectrum, so a large imaginary part counts too.
    ld tol = ref::tol<T>(n, nrm, nrm * std::sqrt((ld)n) * 0.2L + mx);
    for (size_t k = 0; k < n; k++)
        c.close(o[k], w[k], tol, inverse ? "DCT-III" : "DCT-II", (long long)k);
    c.label(inverse ? "inverse" : "direct");
    c.label(n % 2 ? "odd" : "even");
    if (n > 1 && nrm > 0)
        c.interesting(n, inverse, inplace, temp, mis, s.rec.back());
}
PBT_TEST(every_size_f32, 600, 3000) { dct_case<float>(s, c, (size_t)s.sweep("n", 1, 300)); }
PBT_TEST(every_size_f64, 600, 3000) { dct_case<double>(s, c, (size_t)s.sweep("n", 1, 300)); }
PBT_TEST(larger_f32, 60, 1000) { dct_case<float>(s, c, (size_t)s.in("n", 300, 1500)); }
PBT_TEST(larger_f64, 60, 1000) { dct_case<double>(s, c, (size_t)s.in("n", 300, 1500)); }
template <typename T>
static void roundtrip(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 2000);
    auto x   = real_signal<T>(s, n);
    kfr::univector<T> u(n), f(n), b(n);
    for (size_t i = 0; i < n; i++)
        u[i] = x[i];
    kfr::dct_plan<T> plan(n);
    kfr::univector<kfr::u8> temp(plan.temp_size);
    plan.execute(f, u, temp);
    plan.execute(b, f, temp, true);
    ld nrm = 0, mx = 0;
    for (auto v : x)
        nrm += (ld)v * v, mx = std::max(mx, std::fabs((ld)v));
    nrm    = std::sqrt(nrm);
    ld tol = 2 * ref::tol<T>(n, nrm, nrm * std::sqrt((ld)n)) * std::sqrt((ld)n) + ref::tol<T>(n, nrm * std::sqrt((ld)n), mx * n);
    for (size_t i = 0; i < n; i++)
        c.close(b[i], x[i] * ((ld)n / 2), tol, "idct(dct(x))", (long long)i);
    if (n > 1 && nrm > 0)
        c.interesting(n, s.rec.back());
}
PBT_TEST(roundtrip_f32, 300, 4000) { roundtrip<float>(s, c); }
PBT_TEST(roundtrip_f64, 300, 4000) { roundtrip<double>(s, c); }
