// Complex DFT of any size against the definition.
#include <kfr/dft.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;

// sizes that select different algorithms: powers of two, smooth composites, primes, primes times smooth, special
static size_t pick_size(Src& s, size_t maxn)
{
    switch (s.in(0, 5))
    {
    case 0:
        return (size_t)s.skew("n", 1, (int64_t)std::min<size_t>(maxn, 130));
    case 1: // power of two
    {
        int mx = 0;
        while ((2u << mx) <= maxn)
            mx++;
        return (size_t)1 << s.in("log2n", 0, mx);
    }
    case 2: // product of small radices
    {
        size_t n = 1;
        for (int k = 0; k < 12; k++)
        {
            size_t r = s.pick<int>(nullptr, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13 });
            if (n * r > maxn)
                break;
            n *= r;
        }
        s.describe("n", (long long)n);
        return n;
    }
    case 3: // small radices times a larger prime
    {
        size_t n = (size_t)s.pick<int>(nullptr, { 13, 17, 19, 23, 29, 31, 37, 41, 43, 53, 61, 71, 79, 83, 89, 97, 101, 103, 107, 113, 127, 131, 151, 211, 257, 401, 509 });
        while (n > maxn)
            n /= 3;
        for (int k = 0; k < 4; k++)
        {
            size_t r = s.pick<int>(nullptr, { 1, 2, 3, 4, 5, 7 });
            if (n * r > maxn)
                break;
            n *= r;
        }
        s.describe("n", (long long)n);
        return n;
    }
    default:
        return (size_t)s.in("n", 1, (int64_t)maxn);
    }
}

template <typename T>
static void check_case(Src& s, Case& c, size_t n, bool full)
{
    using C      = kfr::complex<T>;
    bool inverse = s.flag("inverse");
    bool inplace = s.flag("inplace");
    bool temp    = s.flag("temp");
    size_t mis   = s.flag("misaligned", 1, 4) ? (size_t)s.in("by", 1, 3) : 0;
    auto x       = complex_signal<T>(s, n);
    kfr::dft_plan<T> plan(n);
    c.eq(plan.size, n, "plan.size");
    Buf<C> in(n, mis), out(n, s.flag() ? mis : 0);
    for (size_t i = 0; i < n; i++)
        in[i] = C(x[i].real(), x[i].imag());
    Buf<unsigned char> tmp(plan.temp_size);
    C* o = inplace ? in.data() : out.data();
    plan.execute(o, in.data(), temp ? tmp.data() : nullptr, inverse);
    in.check(c, "input");
    out.check(c, "output");
    tmp.check(c, "temp");
    if (!inplace)
        for (size_t i = 0; i < n; i++)
            c.expect(in[i].real() == x[i].real() && in[i].imag() == x[i].imag(),
                     fmt("out-of-place execution modified the input at %zu", i));
    long double nrm = ref::norm2(x);
    long double mx = 0;
    for (size_t k = 0; k < n; k++)
        mx = std::max(mx, (long double)std::hypot(o[k].real(), o[k].imag()));
    long double tol = ref::tol<T>(n, nrm, mx);
    std::vector<size_t> bins;
    if (full)
        for (size_t k = 0; k < n; k++)
            bins.push_back(k);
    else
    {
        Rng r(n * 31 + 7);
        bins = { 0, 1 % n, n / 2, n - 1, n / 3, n / 4 };
        for (int k = 0; k < 14; k++)
            bins.push_back(r.below(n));
    }
    for (size_t k : bins)
    {
        auto w = ref::dft_bin(x, k, inverse);
        c.close(o[k].real(), w.real(), tol, "re X", (long long)k);
        c.close(o[k].imag(), w.imag(), tol, "im X", (long long)k);
    }
    if (!full)
    {
        // Parseval: catches a wrong bin that was not sampled
        long double e = 0;
        for (size_t k = 0; k < n; k++)
            e += (long double)o[k].real() * o[k].real() + (long double)o[k].imag() * o[k].imag();
        c.close(std::sqrt(e), nrm * std::sqrt((long double)n), tol * std::sqrt((long double)n), "energy of the spectrum");
    }
    bool cplx = false;
    for (auto& v : x)
        cplx |= v.imag() != 0;
    c.label(inverse ? "inverse" : "direct");
    c.label(inplace ? "inplace" : "outofplace");
    c.label((n & (n - 1)) == 0 ? "pow2" : plan.arblen ? "arblen" : "mixed");
    if (n > 1 && nrm > 0)
        c.interesting(n, inverse, inplace, temp, mis, s.rec.back(), cplx);
}

// every size in order
PBT_TEST(every_size_f32, 512, 2048) { check_case<float>(s, c, (size_t)s.sweep("n", 1, 512), true); }
PBT_TEST(every_size_f64, 512, 2048) { check_case<double>(s, c, (size_t)s.sweep("n", 1, 512), true); }
PBT_TEST(mixed_size_f32, 400, 6000) { check_case<float>(s, c, pick_size(s, 700), true); }
PBT_TEST(mixed_size_f64, 400, 6000) { check_case<double>(s, c, pick_size(s, 700), true); }
PBT_TEST(large_size_f32, 60, 1200) { check_case<float>(s, c, pick_size(s, 40000), false); }
PBT_TEST(large_size_f64, 60, 1200) { check_case<double>(s, c, pick_size(s, 40000), false); }
PBT_TEST(large_pow2_f32, 40, 200) { check_case<float>(s, c, (size_t)1 << s.sweep("log2n", 9, 18), false); }
PBT_TEST(large_pow2_f64, 40, 200) { check_case<double>(s, c, (size_t)1 << s.sweep("log2n", 9, 18), false); }

template <typename T>
static void plan_reuse(Src& s, Case& c)
{
    // one plan, a history of executions with different inputs, directions and buffers
    using C  = kfr::complex<T>;
    size_t n = pick_size(s, 220);
    kfr::dft_plan<T> plan(n);
    size_t steps = (size_t)s.in("steps", 1, 5);
    Buf<unsigned char> tmp(plan.temp_size);
    for (size_t st = 0; st < steps; st++)
    {
        bool inverse = s.flag(), inplace = s.flag(), temp = s.flag();
        auto x = complex_signal<T>(s, n);
        Buf<C> in(n), out(n);
        for (size_t i = 0; i < n; i++)
            in[i] = C(x[i].real(), x[i].imag());
        C* o = inplace ? in.data() : out.data();
        plan.execute(o, in.data(), temp ? tmp.data() : nullptr, inverse);
        auto w          = ref::dft(x, inverse);
        long double mx = 0;
        for (auto& v : w)
            mx = std::max(mx, std::abs(v));
        long double tol = ref::tol<T>(n, ref::norm2(x), mx);
        for (size_t k = 0; k < n; k++)
        {
            c.close(o[k].real(), w[k].real(), tol, "re X", (long long)k);
            c.close(o[k].imag(), w[k].imag(), tol, "im X", (long long)k);
        }
    }
    if (n > 1 && steps > 1)
        c.interesting(n, steps, s.rec.back());
}
PBT_TEST(plan_reuse_f32, 150, 3000) { plan_reuse<float>(s, c); }
PBT_TEST(plan_reuse_f64, 150, 3000) { plan_reuse<double>(s, c); }

template <typename T>
static void roundtrip(Src& s, Case& c)
{
    using C  = kfr::complex<T>;
    size_t n = pick_size(s, 3000);
    auto x   = complex_signal<T>(s, n);
    kfr::univector<C> u(n);
    for (size_t i = 0; i < n; i++)
        u[i] = C(x[i].real(), x[i].imag());
    bool first_inverse = s.flag("inverse_first");
    kfr::univector<C> f, b;
    if (first_inverse)
    {
        f = kfr::idft(u);
        b = kfr::dft(f);
    }
    else
    {
        f = kfr::dft(u);
        b = kfr::idft(f);
    }
    c.eq(f.size(), n, "size of the spectrum");
    c.eq(b.size(), n, "size of the result");
    long double nrm = ref::norm2(x);
    long double mx = 0, mb = 0;
    for (size_t i = 0; i < n; i++)
        mx = std::max(mx, (long double)std::hypot(f[i].real(), f[i].imag())), mb = std::max(mb, (long double)n * std::abs(x[i]));
    long double tol = ref::tol<T>(n, nrm, mx) * std::sqrt((long double)n) + ref::tol<T>(n, nrm * std::sqrt((long double)n), mb);
    for (size_t i = 0; i < n; i++)
    {
        c.close(b[i].real(), (long double)n * x[i].real(), tol, "re idft(dft(x))", (long long)i);
        c.close(b[i].imag(), (long double)n * x[i].imag(), tol, "im idft(dft(x))", (long long)i);
    }
    if (n > 1 && nrm > 0)
        c.interesting(n, first_inverse, s.rec.back());
}
PBT_TEST(roundtrip_f32, 200, 4000) { roundtrip<float>(s, c); }
PBT_TEST(roundtrip_f64, 200, 4000) { roundtrip<double>(s, c); }
