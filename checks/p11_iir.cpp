// Cascades of biquad sections over any history of blocks against the difference equations in long double.
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld = long double;

struct Sec
{
    ld a1, a2, b0, b1, b2;
    ld z1 = 0, z2 = 0;
    ld run(ld x)
    {
        ld y = b0 * x + z1;
        z1   = b1 * x - a1 * y + z2;
        z2   = b2 * x - a2 * y;
        return y;
    }
};
template <typename T>
struct Cascade
{
    std::vector<kfr::biquad_section<T>> q;
    std::vector<Sec> m;
    ld rad = 0; // largest pole radius
    void reset()
    {
        for (auto& s : m)
            s.z1 = s.z2 = 0;
    }
    ld run(ld x)
    {
        for (auto& s : m)
            x = s.run(x);
        return x;
    }
};
// sections with poles of radius <= 0.9 and a worst-case gain of at most 1, so that rounding errors stay bounded
template <typename T>
static Cascade<T> make_cascade(Src& s, size_t n)
{
    Cascade<T> k;
    int kind = (int)s.in("sections", 0, 3);
    Rng r    = s.bulk("coef");
    for (size_t i = 0; i < n; i++)
    {
        ld a1 = 0, a2 = 0, rad = 0, b0, b1, b2;
        if (kind == 0)
        { // distinct pure gains / one-sample delays: exposes section order and state mix-ups
            b0 = r.range(1, 4) / 4.0, b1 = r.range(-3, 3) / 8.0, b2 = 0;
        }
        else
        {
            rad = r.unit() * 0.9;
            if (kind == 1 || r.chance(1, 2))
            {
                ld th = r.unit() * 3.14159265L;
                a1    = -2 * rad * std::cos(th);
                a2    = rad * rad;
            }
            else
            {
                ld q = (r.unit() * 2 - 1) * 0.9L;
                a1   = -(rad + q);
                a2   = rad * q;
                rad  = std::max(rad, std::fabs(q));
            }
            b0 = r.sym(), b1 = r.sym(), b2 = kind == 3 ? 0 : r.sym();
            if (r.chance(1, 6))
                b0 = 0;
        }
        Sec t{ (ld)(T)a1, (ld)(T)a2, b0, b1, b2 };
        ld g = 0;
        for (int j = 0; j < 400; j++)
            g += std::fabs(t.run(j == 0));
        ld sc = g > 0.01L ? 1 / g : 1;
        kfr::biquad_section<T> b(T(1), (T)a1, (T)a2, (T)(b0 * sc), (T)(b1 * sc), (T)(b2 * sc));
        k.q.push_back(b);
        k.m.push_back(Sec{ b.a1, b.a2, b.b0, b.b1, b.b2 });
        k.rad = std::max(k.rad, rad);
    }
    return k;
}
template <typename T>
struct Checker
{
    Case& c;
    Cascade<T>& k;
    ld amp = 0;
    void block(const T* got, const T* x, size_t n, const char* what)
    {
        for (size_t i = 0; i < n; i++)
        {
            amp  = std::max(amp, std::fabs((ld)x[i]));
            ld w = k.run(x[i]);
            ld d = 1 - k.rad;
            ld t = std::numeric_limits<T>::epsilon() * (4 + (ld)k.m.size()) * 4 * amp / (d * d) + 1e-30L;
            c.close(got[i], w, t, what, (long long)i);
        }
    }
};
template <typename T>
static bool nonzero(const kfr::univector<T>& v)
{
    for (T x : v)
        if (x)
            return true;
    return false;
}
template <typename T>
static kfr::univector<T> sig(Src& s, size_t n)
{
    auto v = real_signal<T>(s, n, "x");
    kfr::univector<T> u(n);
    std::copy(v.begin(), v.end(), u.begin());
    return u;
}

// ---- iir_filter: any number of sections, blocks of any size, reset, in place, expression input
template <typename T>
static void filter_class(Src& s, Case& c)
{
    size_t ns = (size_t)s.skew("nsec", 1, 20);
    if (s.flag(nullptr, 1, 12))
        ns = (size_t)s.in("nsec2", 21, 64);
    auto k = make_cascade<T>(s, ns);
    kfr::iir_filter<T> f(kfr::iir_params<T>(k.q.data(), k.q.size()));
    size_t rounds = (size_t)s.in("rounds", 1, 3);
    bool shortb   = false;
    for (size_t r = 0; r < rounds; r++)
    {
        if (r)
        {
            f.reset();
            k.reset();
        }
        size_t n   = (size_t)s.skew("n", 1, 400);
        auto x     = sig<T>(s, n);
        auto parts = s.splits("blocks", n, s.flag() ? n : 24);
        Buf<T> out(n, (size_t)s.in(0, 3));
        size_t p = 0;
        for (size_t b : parts)
        {
            T* o    = out.data() + p;
            T* i    = x.data() + p;
            int api = (int)s.in(0, 3);
            if (api == 0)
                f.apply(o, i, b);
            else if (api == 1)
            {
                std::copy(i, i + b, o);
                f.apply(o, b);
            }
            else if (api == 2)
            {
                auto d = kfr::make_univector(o, b);
                f.apply(d, kfr::make_univector((const T*)i, b));
            }
            else
            {
                auto d = kfr::make_univector(o, b);
                f.apply(d, kfr::make_univector((const T*)i, b) * T(1));
            }
            shortb |= b && b < ns;
            p += b;
        }
        out.check(c, "iir_filter");
        Checker<T> ch{ c, k };
        ch.block(out.data(), x.data(), n, "iir_filter");
        if (nonzero(x) && n > 1)
            c.interesting(ns, n, parts.size(), r, s.rec.back());
    }
    if (shortb)
        c.label("block shorter than the cascade");
}
PBT_TEST(filter_f32, 400, 8000) { filter_class<float>(s, c); }
PBT_TEST(filter_f64, 400, 8000) { filter_class<double>(s, c); }

// ---- iir() with owned parameters: fixed or dynamic, evaluated into a destination at any start offset
template <typename T, size_t N>
static void owned(Src& s, Case& c)
{
    size_t ns = (size_t)s.in("nsec", 1, (int64_t)N);
    auto k    = make_cascade<T>(s, ns);
    size_t n  = (size_t)s.skew("n", 1, 300);
    auto x    = sig<T>(s, n);
    Buf<T> out(n, (size_t)s.in(0, 3));
    kfr::iir_params<T, N> prm(k.q.data(), k.q.size());
    int api = (int)s.in("api", 0, 3);
    auto d  = kfr::make_univector(out.data(), n);
    size_t st = 0;
    if (api == 0)
        d = kfr::iir(x, prm);
    else if (api == 1)
        d = kfr::iir(x, kfr::iir_params<T>(k.q.data(), k.q.size()));
    else if (api == 2)
        d = kfr::iir(kfr::iir(x, prm), prm); // a cascade of cascades
    else
    { // only a part of the range: filtering starts there with a clear state
        st          = (size_t)s.in("start", 0, (int64_t)n - 1);
        auto filter = kfr::iir(x, prm);
        kfr::process(d, filter, kfr::shape<1>(st), kfr::shape<1>(n - st));
        for (size_t i = 0; i < st; i++)
            c.expect(out[i] == Buf<T>(1)[0], "elements before the start were written");
    }
    out.check(c, "iir");
    if (api == 2)
    {
        auto q = k.m;
        k.m.insert(k.m.end(), q.begin(), q.end());
    }
    Checker<T> ch{ c, k };
    ch.block(out.data() + st, x.data() + st, n - st, "iir");
    c.label(fmt("api %d", api));
    if (nonzero(x) && n > 1)
        c.interesting(ns, n, api, N, s.rec.back());
}
template <typename T>
static void owned_any(Src& s, Case& c)
{
    switch ((int)s.in("N", 0, 5))
    {
    case 0:
        return owned<T, 1>(s, c);
    case 1:
        return owned<T, 2>(s, c);
    case 2:
        return owned<T, 3>(s, c);
    case 3:
        return owned<T, 4>(s, c);
    case 4:
        return owned<T, 7>(s, c);
    default:
        return owned<T, 16>(s, c);
    }
}
PBT_TEST(owned_f32, 500, 9000) { owned_any<float>(s, c); }
PBT_TEST(owned_f64, 500, 9000) { owned_any<double>(s, c); }

// ---- iir() with a referenced state: the state carries from block to block
template <typename T, size_t N>
static void byref(Src& s, Case& c)
{
    size_t ns = (size_t)s.in("nsec", 1, (int64_t)N);
    auto k    = make_cascade<T>(s, ns);
    size_t n  = (size_t)s.skew("n", 1, 300);
    auto x    = sig<T>(s, n);
    Buf<T> out(n, (size_t)s.in(0, 3));
    kfr::iir_state<T, N> st{ kfr::iir_params<T, N>(k.q.data(), k.q.size()) };
    auto parts = s.splits("blocks", n, s.flag() ? n : 24, false);
    size_t p   = 0;
    for (size_t b : parts)
    {
        auto i = kfr::make_univector((const T*)x.data() + p, b);
        auto o = kfr::make_univector(out.data() + p, b);
        o      = kfr::iir(i, std::ref(st));
        p += b;
    }
    out.check(c, "iir");
    Checker<T> ch{ c, k };
    ch.block(out.data(), x.data(), n, "iir(ref)");
    if (nonzero(x) && n > 1)
        c.interesting(ns, n, N, parts.size(), s.rec.back());
}
template <typename T>
static void byref_any(Src& s, Case& c)
{
    switch ((int)s.in("N", 0, 4))
    {
    case 0:
        return byref<T, 1>(s, c);
    case 1:
        return byref<T, 2>(s, c);
    case 2:
        return byref<T, 4>(s, c);
    case 3:
        return byref<T, 5>(s, c);
    default:
        return byref<T, 32>(s, c);
    }
}
PBT_TEST(byref_f32, 500, 9000) { byref_any<float>(s, c); }
PBT_TEST(byref_f64, 500, 9000) { byref_any<double>(s, c); }

// ---- biquad_l: the pipelined form delays by one sample per extra section
template <typename T, size_t N>
static void pipelined(Src& s, Case& c)
{
    auto k   = make_cascade<T>(s, N);
    size_t n = (size_t)s.skew("n", 1, 300);
    auto x   = sig<T>(s, n);
    kfr::biquad_section<T> bq[N];
    std::copy(k.q.begin(), k.q.end(), bq);
    Buf<T> out(n, (size_t)s.in(0, 3));
    auto d = kfr::make_univector(out.data(), n);
    d      = kfr::biquad_l(bq, x);
    out.check(c, "biquad_l");
    for (size_t i = 0; i < N - 1 && i < n; i++)
        c.close(out[i], 0, 0, "biquad_l start", (long long)i);
    if (n > N - 1)
    {
        Checker<T> ch{ c, k };
        ch.block(out.data() + N - 1, x.data(), n - (N - 1), "biquad_l");
    }
    if (nonzero(x) && n > N)
        c.interesting(N, n, s.rec.back());
}
PBT_TEST(pipelined, 200, 4000)
{
    switch ((int)s.in("N", 0, 3))
    {
    case 0:
        return pipelined<float, 1>(s, c);
    case 1:
        return pipelined<double, 2>(s, c);
    case 2:
        return pipelined<float, 4>(s, c);
    default:
        return pipelined<double, 6>(s, c);
    }
}
