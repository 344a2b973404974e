// FIR filters, moving sums and delays over any history of blocks against the defining sums.
#include <kfr/base.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

template <typename T>
struct tr
{
    using sub                        = T;
    static constexpr bool cplx       = false;
    static T make(double a, double)  { return (T)a; }
    static cld get(T x)              { return cld(x, 0); }
};
template <typename T>
struct tr<kfr::complex<T>>
{
    using sub                                      = T;
    static constexpr bool cplx                     = true;
    static kfr::complex<T> make(double a, double b) { return { (T)a, (T)b }; }
    static cld get(const kfr::complex<T>& x)       { return cld(x.real(), x.imag()); }
};
template <typename U>
static kfr::univector<U> sig(Src& s, size_t n, std::vector<cld>& v, const char* name)
{
    kfr::univector<U> u(n);
    std::vector<double> d(n * (tr<U>::cplx ? 2 : 1));
    fill_signal(s, d.size(), [&](size_t i, double x) { d[i] = x; }, name);
    v.resize(n);
    for (size_t i = 0; i < n; i++)
    {
        u[i] = tr<U>::cplx ? tr<U>::make(d[2 * i], d[2 * i + 1]) : tr<U>::make(d[i], 0);
        v[i] = tr<U>::get(u[i]);
    }
    return u;
}
// y[n] = sum h[k] x[n-k] and the bound sum |h[k]||x[n-k]|
struct Ref
{
    cld y;
    ld mag;
};
static Ref at(const std::vector<cld>& h, const std::vector<cld>& x, size_t n)
{
    Ref r{ 0, 0 };
    for (size_t k = 0; k < h.size() && k <= n; k++)
    {
        r.y += cld(h[k].real() * x[n - k].real(), h[k].real() * x[n - k].imag());
        r.mag += std::fabs(h[k].real()) * (std::fabs(x[n - k].real()) + std::fabs(x[n - k].imag()));
    }
    return r;
}
template <typename U>
static void compare(Case& c, const U* got, const std::vector<cld>& h, const std::vector<cld>& x, ld eps,
                    const char* what)
{
    for (size_t i = 0; i < x.size(); i++)
    {
        Ref r = at(h, x, i);
        ld t  = eps * ((ld)h.size() + 8) * r.mag + 1e-36L;
        cld g = tr<U>::get(got[i]);
        c.close(g.real(), r.y.real(), t, what, (long long)i);
        c.close(g.imag(), r.y.imag(), t, what, (long long)i);
    }
}
static bool nz(const std::vector<cld>& v)
{
    for (auto& a : v)
        if (std::norm(a) > 0)
            return true;
    return false;
}
template <typename T, typename U>
static constexpr ld epsof()
{
    return std::numeric_limits<typename tr<U>::sub>::epsilon(); // products are formed in the wider type
}

// ---- class fir_filter: any history of blocks, resets and tap changes
template <typename T, typename U>
static void filter_class(Src& s, Case& c)
{
    size_t m = (size_t)s.skew("taps", 1, 140);
    std::vector<cld> h;
    auto uh = sig<T>(s, m, h, "h");
    kfr::fir_filter<T, U> f(kfr::fir_state<T, U>{ kfr::fir_params<T>(uh.data(), uh.size()) });
    size_t rounds = (size_t)s.in("rounds", 1, 3), blocks = 0;
    for (size_t r = 0; r < rounds; r++)
    {
        if (r)
        {
            if (s.flag("newtaps"))
            {
                m  = (size_t)s.skew("taps", 1, 140);
                uh = sig<T>(s, m, h, "h");
                if (s.flag())
                    f.set_taps(kfr::fir_params<T>(uh.data(), uh.size()));
                else
                    f.set_params(kfr::fir_params<T>(uh.data(), uh.size()));
            }
            else
                f.reset();
        }
        size_t n = (size_t)s.skew("n", 1, 300);
        std::vector<cld> x;
        auto ux    = sig<U>(s, n, x, "x");
        auto parts = s.splits("blocks", n, s.flag() ? n : 20);
        Buf<U> out(n, (size_t)s.in(0, 3));
        size_t p = 0;
        for (size_t k : parts)
        {
            int api = (int)s.in(0, 3);
            U* o    = out.data() + p;
            U* i    = ux.data() + p;
            if (api == 0)
                f.apply(o, i, k);
            else if (api == 1)
            {
                std::copy(i, i + k, o);
                f.apply(o, k);
            }
            else if (api == 2)
            {
                auto d = kfr::make_univector(o, k);
                f.apply(d, kfr::make_univector((const U*)i, k));
            }
            else
            {
                auto d = kfr::make_univector(o, k);
                f.apply(d, kfr::make_univector((const U*)i, k) * typename tr<U>::sub(1));
            }
            p += k;
            blocks++;
        }
        out.check(c, "fir_filter");
        compare<U>(c, out.data(), h, x, epsof<T, U>(), "fir_filter");
        if (nz(x) && nz(h) && m > 1 && parts.size() > 1)
            c.interesting(m, n, parts.size(), r, s.rec.back());
    }
}
PBT_TEST(filter_f32, 250, 6000) { filter_class<float, float>(s, c); }
PBT_TEST(filter_f64, 250, 6000) { filter_class<double, double>(s, c); }
PBT_TEST(filter_f32_f64, 150, 3000) { filter_class<float, double>(s, c); }
PBT_TEST(filter_f64_f32, 150, 3000) { filter_class<double, float>(s, c); }
PBT_TEST(filter_f32_c32, 150, 3000) { filter_class<float, kfr::complex<float>>(s, c); }
PBT_TEST(filter_f64_c64, 150, 3000) { filter_class<double, kfr::complex<double>>(s, c); }

// Evaluates expr_for(slice) over the blocks of x and stores into out
template <typename U, typename F>
static void drive(Src& s, kfr::univector<U>& ux, Buf<U>& out, const std::vector<size_t>& parts, F expr_for)
{
    size_t p = 0;
    for (size_t k : parts)
    {
        auto d = kfr::make_univector(out.data() + p, k);
        auto i = kfr::make_univector((const U*)ux.data() + p, k);
        d      = expr_for(i);
        p += k;
    }
}

// ---- fir() expressions with owned or referenced state, and preloaded delay lines
template <typename T, typename U>
static void expr_fir(Src& s, Case& c)
{
    size_t m = (size_t)s.skew("taps", 1, 140), n = (size_t)s.skew("n", 1, 300);
    std::vector<cld> h, x, pre;
    auto uh = sig<T>(s, m, h, "h");
    auto ux = sig<U>(s, n, x, "x");
    Buf<U> out(n, (size_t)s.in(0, 3));
    int api = (int)s.in("api", 0, 3);
    size_t parts = 1;
    if (api == 0)
    {
        auto d = kfr::make_univector(out.data(), n);
        d      = kfr::fir(ux, kfr::fir_params<T>(uh.data(), uh.size()));
    }
    else
    {
        kfr::fir_state<T, U> st{ kfr::fir_params<T>(uh.data(), uh.size()) };
        if (api >= 2)
        {
            size_t k = (size_t)s.skew("history", 1, 2 * (int64_t)m + 3);
            auto up  = sig<U>(s, k, pre, "pre");
            st.push_delayline(up);
        }
        auto ps = s.splits("blocks", n, s.flag() ? n : 20);
        parts   = ps.size();
        drive(s, ux, out, ps, [&](auto& i) { return kfr::fir(i, std::ref(st)); });
    }
    out.check(c, "fir");
    std::vector<cld> all = pre;
    all.insert(all.end(), x.begin(), x.end());
    for (size_t i = 0; i < n; i++)
    {
        Ref r = at(h, all, pre.size() + i);
        ld t  = epsof<T, U>() * ((ld)m + 8) * r.mag + 1e-36L;
        cld g = tr<U>::get(out[i]);
        c.close(g.real(), r.y.real(), t, "fir", (long long)i);
        c.close(g.imag(), r.y.imag(), t, "fir", (long long)i);
    }
    c.label(api == 0 ? "fir by value" : api == 1 ? "fir by reference" : "fir with history");
    if (nz(x) && nz(h) && m > 1 && n > 1)
        c.interesting(m, n, parts, api, pre.size());
}
PBT_TEST(expr_f32, 250, 6000) { expr_fir<float, float>(s, c); }
PBT_TEST(expr_f64, 250, 6000) { expr_fir<double, double>(s, c); }
PBT_TEST(expr_f32_c32, 150, 3000) { expr_fir<float, kfr::complex<float>>(s, c); }

// ---- short_fir
template <typename T, typename U, size_t M>
static void short_one(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 150);
    std::vector<cld> h, x;
    auto uh = sig<T>(s, M, h, "h");
    kfr::univector<T, M> taps = uh;
    auto ux = sig<U>(s, n, x, "x");
    Buf<U> out(n, (size_t)s.in(0, 3));
    size_t parts = 1;
    if (s.flag("byref"))
    {
        constexpr size_t I = kfr::next_poweroftwo(M - 1) + 1;
        kfr::short_fir_state<I, T, U> st(taps);
        auto ps = s.splits("blocks", n, 20);
        parts   = ps.size();
        drive(s, ux, out, ps, [&](auto& i) { return kfr::short_fir(i, std::ref(st)); });
    }
    else
    {
        auto d = kfr::make_univector(out.data(), n);
        d      = kfr::short_fir(ux, taps);
    }
    out.check(c, "short_fir");
    compare<U>(c, out.data(), h, x, epsof<T, U>(), "short_fir");
    if (nz(x) && nz(h) && n > 1)
        c.interesting(M, n, parts, s.rec.back());
}
template <typename T, typename U>
static void short_any(Src& s, Case& c)
{
    int k = (int)s.in("kind", 0, 7);
    switch (k)
    {
    case 0:
        return short_one<T, U, 2>(s, c);
    case 1:
        return short_one<T, U, 3>(s, c);
    case 2:
        return short_one<T, U, 5>(s, c);
    case 3:
        return short_one<T, U, 7>(s, c);
    case 4:
        return short_one<T, U, 9>(s, c);
    case 5:
        return short_one<T, U, 13>(s, c);
    case 6:
        return short_one<T, U, 17>(s, c);
    default:
        return short_one<T, U, 33>(s, c);
    }
}
PBT_TEST(short_f32, 400, 9000) { short_any<float, float>(s, c); }
PBT_TEST(short_f64, 400, 9000) { short_any<double, double>(s, c); }

// ---- moving_sum
template <typename U>
static void mvsum(Src& s, Case& c)
{
    size_t len = (size_t)s.skew("len", 1, 90), n = (size_t)s.skew("n", 1, 300);
    std::vector<cld> x;
    auto ux = sig<U>(s, n, x, "x");
    Buf<U> out(n, (size_t)s.in(0, 3));
    size_t parts = 1;
    if (s.flag("byref"))
    {
        kfr::moving_sum_state<U> st(len);
        auto ps = s.splits("blocks", n, s.flag() ? n : 20);
        parts   = ps.size();
        drive(s, ux, out, ps, [&](auto& i) { return kfr::moving_sum(i, std::ref(st)); });
    }
    else
    {
        auto d = kfr::make_univector(out.data(), n);
        d      = kfr::moving_sum(ux, len);
    }
    out.check(c, "moving_sum");
    for (size_t i = 0; i < n; i++)
    {
        cld y  = 0;
        ld mag = 0;
        // the running sum is restarted at each vector, so only the last len+64 inputs can leave rounding errors
        for (size_t k = 0; k < len + 64 && k <= i; k++)
        {
            if (k < len)
                y += x[i - k];
            mag += std::fabs(x[i - k].real()) + std::fabs(x[i - k].imag());
        }
        ld t  = epsof<typename tr<U>::sub, U>() * ((ld)len + 64) * mag + 1e-36L;
        cld g = tr<U>::get(out[i]);
        c.close(g.real(), y.real(), t, "moving_sum", (long long)i);
        c.close(g.imag(), y.imag(), t, "moving_sum", (long long)i);
    }
    if (nz(x) && n > 1)
        c.interesting(len, n, parts, s.rec.back());
}
PBT_TEST(movingsum_f32, 300, 8000) { mvsum<float>(s, c); }
PBT_TEST(movingsum_f64, 300, 8000) { mvsum<double>(s, c); }

// ---- delay<N>: output is the input N samples earlier, exactly
template <typename U, size_t D>
static void delay_one(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 250);
    std::vector<cld> x;
    auto ux = sig<U>(s, n, x, "x");
    Buf<U> out(n, (size_t)s.in(0, 3));
    int api      = (int)s.in("api", 0, 2);
    size_t parts = 1;
    if (api == 0)
    {
        auto d = kfr::make_univector(out.data(), n);
        d      = kfr::delay<D>(ux);
    }
    else
    {
        auto ps = s.splits("blocks", n, s.flag() ? n : 20);
        parts   = ps.size();
        if (api == 1)
        {
            kfr::delay_state<U, D> st;
            drive(s, ux, out, ps, [&](auto& i) { return kfr::delay<D>(i, std::ref(st)); });
        }
        else
        {
            kfr::delay_state<U, D, kfr::tag_dynamic_vector> st;
            drive(s, ux, out, ps, [&](auto& i) { return kfr::delay<D>(i, std::ref(st)); });
        }
    }
    out.check(c, "delay");
    for (size_t i = 0; i < n; i++)
        if (tr<U>::get(out[i]) != (i < D ? cld(0) : x[i - D]))
            c.fail(fmt("delay<%zu>[%zu]: got %g, expected %g", D, i, (double)tr<U>::get(out[i]).real(),
                       i < D ? 0.0 : (double)x[i - D].real()));
    if (nz(x) && n > D)
        c.interesting(D, n, parts, api);
}
template <typename U>
static void delay_any(Src& s, Case& c)
{
    switch ((int)s.in("kind", 0, 8))
    {
    case 0:
        return delay_one<U, 1>(s, c);
    case 1:
        return delay_one<U, 2>(s, c);
    case 2:
        return delay_one<U, 3>(s, c);
    case 3:
        return delay_one<U, 4>(s, c);
    case 4:
        return delay_one<U, 7>(s, c);
    case 5:
        return delay_one<U, 16>(s, c);
    case 6:
        return delay_one<U, 21>(s, c);
    case 7:
        return delay_one<U, 33>(s, c);
    default:
        return delay_one<U, 100>(s, c);
    }
}
PBT_TEST(delay_f32, 500, 9000) { delay_any<float>(s, c); }
PBT_TEST(delay_f64, 300, 6000) { delay_any<double>(s, c); }

// ---- fracdelay: linear interpolation between neighbouring samples
template <typename U>
static void frac(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 150);
    std::vector<cld> x;
    auto ux = sig<U>(s, n, x, "x");
    U d     = (U)s.real("delay", 0, 1);
    Buf<U> out(n);
    auto o = kfr::make_univector(out.data(), n);
    o      = kfr::fracdelay(ux, d);
    out.check(c, "fracdelay");
    compare<U>(c, out.data(), { cld(1 - (ld)d), cld(d) }, x, epsof<U, U>(), "fracdelay");
    if (nz(x) && n > 1)
        c.interesting(n, s.rec.back(), (uint64_t)(d * 1e6));
}
PBT_TEST(fracdelay_f32, 100, 2000) { frac<float>(s, c); }
PBT_TEST(fracdelay_f64, 100, 2000) { frac<double>(s, c); }

// ---- ring buffer primitives of univector, including transfers larger than the ring
PBT_TEST(ringbuf, 400, 9000)
{
    size_t n = (size_t)s.skew("size", 1, 40);
    kfr::univector<int> ring(n, 0);
    std::vector<int> model(n, 0);
    size_t cur = 0, mcur = 0;
    int next   = 1;
    size_t ops = (size_t)s.in("ops", 1, 12);
    size_t big = 0;
    for (size_t k = 0; k < ops; k++)
    {
        size_t cnt = (size_t)s.skew("count", 0, 3 * (int64_t)n);
        big += cnt > n;
        if (s.flag("write"))
        {
            kfr::univector<int> in(cnt);
            for (auto& v : in)
                v = next++;
            ring.ringbuf_write(cur, in.data(), cnt);
            for (int v : in)
                model[mcur] = v, mcur = (mcur + 1) % n;
        }
        else
        {
            Buf<int> got(cnt);
            ring.ringbuf_read(cur, got.data(), cnt);
            for (size_t i = 0; i < cnt; i++, mcur = (mcur + 1) % n)
                c.eq(got[i], model[mcur], "ringbuf_read");
            got.check(c, "ringbuf_read");
        }
        c.eq(cur, mcur, "ring cursor");
        for (size_t i = 0; i < n; i++)
            c.eq(ring[i], model[i], "ring content");
    }
    if (big)
        c.label("larger than the ring");
    if (next > 1)
        c.interesting(n, ops, next, s.rec.back());
}
