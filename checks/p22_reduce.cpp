// Reductions (sum, mean, minof, ..., dotproduct, histogram) against a plain loop over the same elements.
#include <kfr/base.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld = long double;

template <typename T>
struct nameof;
template <typename T>
static T draw_value(Rng& r, int style)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        switch (style)
        {
        case 0: return (T)r.sym();
        case 1: return (T)r.range(-4, 4);
        case 2: return (T)(r.sym() * std::pow(10.0, (double)r.range(-6, 6)));
        default: return r.chance(1, 20) ? (T)0 : (T)(0.5 + r.unit());
        }
    }
    else
    {
        using L = std::numeric_limits<T>;
        switch (style)
        {
        case 0: return (T)r.range(std::is_signed_v<T> ? -9 : 0, 9);
        case 1: return (T)r.u64();
        case 2: return r.chance(1, 2) ? L::max() : (T)(L::min() + (std::is_signed_v<T> ? 1 : 0));
        default: return (T)r.range(0, 2);
        }
    }
}
template <typename T>
static bool close_to(T got, ld want, ld tol, double* worst)
{
    ld e = std::fabs((ld)got - want);
    if (tol > 0)
        *worst = std::max(*worst, (double)(e / tol));
    return e <= tol;
}

struct Shapes
{
    int dims;
    size_t n[3];
    size_t total() const { return n[0] * (dims > 1 ? n[1] : 1) * (dims > 2 ? n[2] : 1); }
};

// every reduction of expression e whose elements in order are v
template <typename T, typename E>
static void check_all(Case& c, const E& e, const std::vector<T>& v, const char* form)
{
    constexpr bool fp = std::is_floating_point_v<T>;
    const ld eps      = fp ? (ld)std::numeric_limits<T>::epsilon() : 0;
    ld asum = 0, s = 0, sq = 0, prod = 1;
    T isum = 0, iprod = 1, isq = 0;
    T mn = v[0], mx = v[0];
    T amn = std::numeric_limits<T>::max(), amx = 0;
    bool pover  = false;
    double plog = 0; // the order of the factors is the library's: no partial product may leave the range
    for (T x : v)
    {
        if constexpr (fp)
        {
            s += x, asum += std::fabs((ld)x), sq += (ld)x * x, prod *= x;
            if (x != 0)
                plog += std::fabs(std::log10(std::fabs((double)x)));
            pover = plog > 30;
            amn = std::min<T>(amn, std::fabs(x)), amx = std::max<T>(amx, std::fabs(x));
        }
        else
        {
            using U = std::make_unsigned_t<T>;
            isum    = (T)((uint64_t)(U)isum + (uint64_t)(U)x);
            iprod   = (T)((uint64_t)(U)iprod * (uint64_t)(U)x);
            isq     = (T)((uint64_t)(U)isq + (uint64_t)(U)x * (uint64_t)(U)x);
            T a     = x < 0 ? (T)-x : x;
            amn = std::min(amn, a), amx = std::max(amx, a);
        }
        mn = std::min(mn, x), mx = std::max(mx, x);
    }
    size_t N = v.size();
    auto ex  = [&](const char* what, T got, T want)
    { c.expect(got == want, fmt("%s of %s, %zu elements: %.17g instead of %.17g", what, form, N, (double)got, (double)want)); };
    auto ap = [&](const char* what, T got, ld want, ld tol)
    {
        c.expect(close_to(got, want, tol, &c.worst),
                 fmt("%s of %s, %zu elements: %.17g instead of %.17Lg (tolerance %Lg)", what, form, N, (double)got, want, tol));
    };
    ex("minof", kfr::minof(e), mn);
    ex("maxof", kfr::maxof(e), mx);
    ex("absminof", kfr::absminof(e), amn);
    ex("absmaxof", kfr::absmaxof(e), amx);
    if constexpr (fp)
    {
        ld t = eps * N + 1e-44L;
        ap("sum", kfr::sum(e), s, t * asum);
        ap("mean", kfr::mean(e), s / N, (eps * (N + 2)) * asum / N);
        ap("sumsqr", kfr::sumsqr(e), sq, eps * (N + 2) * sq + 1e-37L);
        ld rms = std::sqrt(sq / N);
        ap("rms", kfr::rms(e), rms, eps * (N + 4) * rms + 1e-18L);
        if (!pover)
            ap("product", kfr::product(e), prod, eps * (N + 1) * std::fabs(prod));
    }
    else
    {
        ex("sum", kfr::sum(e), isum);
        ex("sumsqr", kfr::sumsqr(e), isq);
        ex("product", kfr::product(e), iprod);
        if (N <= (size_t)std::numeric_limits<T>::max())
            ex("mean", kfr::mean(e), (T)(isum / (T)N));
    }
}

template <typename T>
static void reductions(Src& s, Case& c)
{
    int form  = (int)s.in("form", 0, 7);
    int style = (int)s.in("style", 0, 3);
    Shapes sh{ 1, { 1, 1, 1 } };
    if (form <= 4)
        sh.n[0] = s.flag("everysize") ? (size_t)s.sweep("n", 1, 150) : (size_t)s.skew("n", 1, 3000);
    else
    {
        sh.dims = 2 + (form == 7 || s.flag("3d"));
        for (int i = 0; i < sh.dims; i++)
            sh.n[i] = (size_t)s.skew(fmt("dim%d", i).c_str(), 1, 24);
    }
    Rng r    = s.bulk("seed");
    size_t N = sh.total();
    std::vector<T> v(N);
    for (auto& x : v)
        x = draw_value<T>(r, style);
    using kfr::shape;
    switch (form)
    {
    case 0:
    {
        kfr::univector<T> u(N);
        std::copy(v.begin(), v.end(), u.begin());
        check_all<T>(c, u, v, "univector");
        break;
    }
    case 1:
    {
        size_t off = (size_t)s.in("offset", 0, 20);
        std::vector<T> raw(N + 2 * off + 1, std::numeric_limits<T>::max());
        std::copy(v.begin(), v.end(), raw.begin() + off);
        check_all<T>(c, kfr::make_univector(raw.data() + off, N), v, "misaligned reference");
        break;
    }
    case 2:
    {
        size_t off = (size_t)s.in("offset", 0, 20);
        kfr::univector<T> u(N + 2 * off + 1, std::numeric_limits<T>::max());
        std::copy(v.begin(), v.end(), u.begin() + off);
        check_all<T>(c, kfr::slice(u, off, N), v, "slice");
        break;
    }
    case 3:
    {
        kfr::univector<T> u(N), w(N);
        for (size_t i = 0; i < N; i++)
        {
            u[i] = draw_value<T>(r, 0), w[i] = draw_value<T>(r, 0);
            v[i] = (T)(u[i] - w[i]);
            if (!std::is_floating_point_v<T> && v[i] == std::numeric_limits<T>::min())
                u[i] = w[i], v[i] = 0;
        }
        check_all<T>(c, u - w, v, "expression");
        break;
    }
    case 4:
    {
        kfr::univector<T> u(N);
        std::copy(v.begin(), v.end(), u.begin());
        std::reverse(u.begin(), u.end());
        check_all<T>(c, kfr::reverse(u), v, "reversed");
        break;
    }
    case 5:
    case 6:
    case 7:
    {
        std::string f = fmt("tensor %zux%zux%zu", sh.n[0], sh.n[1], sh.n[2]);
        if (sh.dims == 2)
        {
            kfr::tensor<T, 2> t(shape<2>{ (kfr::index_t)sh.n[0], (kfr::index_t)sh.n[1] });
            std::copy(v.begin(), v.end(), t.begin());
            check_all<T>(c, t, v, f.c_str());
        }
        else
        {
            kfr::tensor<T, 3> t(shape<3>{ (kfr::index_t)sh.n[0], (kfr::index_t)sh.n[1], (kfr::index_t)sh.n[2] });
            std::copy(v.begin(), v.end(), t.begin());
            check_all<T>(c, t, v, f.c_str());
        }
    }
    }
    if (N > 1)
        c.interesting(form, style, N, sh.n[0], s.rec.back());
}
PBT_TEST(reduce_f32, 900, 20000) { reductions<float>(s, c); }
PBT_TEST(reduce_f64, 900, 20000) { reductions<double>(s, c); }
PBT_TEST(reduce_i32, 600, 20000) { reductions<int32_t>(s, c); }
PBT_TEST(reduce_i16, 600, 20000) { reductions<int16_t>(s, c); }
PBT_TEST(reduce_u8, 600, 20000) { reductions<uint8_t>(s, c); }
PBT_TEST(reduce_i64, 600, 20000) { reductions<int64_t>(s, c); }
PBT_TEST(reduce_u32, 600, 20000) { reductions<uint32_t>(s, c); }

template <typename T>
static void dots(Src& s, Case& c)
{
    size_t n = s.flag("everysize") ? (size_t)s.sweep("n", 1, 150) : (size_t)s.skew("n", 1, 3000);
    Rng r    = s.bulk("seed");
    kfr::univector<T> a(n), b(n);
    for (size_t i = 0; i < n; i++)
        a[i] = draw_value<T>(r, 0), b[i] = draw_value<T>(r, 0);
    ld want = 0, mag = 0;
    for (size_t i = 0; i < n; i++)
        want += (ld)a[i] * b[i], mag += std::fabs((ld)a[i] * b[i]);
    T got = kfr::dotproduct(a, b);
    if constexpr (std::is_floating_point_v<T>)
        c.close(got, want, std::numeric_limits<T>::epsilon() * (n + 2) * mag, "dotproduct");
    else
        c.eq((ld)got, want, "dotproduct");
    T g2 = kfr::dotproduct(kfr::slice(a, n / 2), kfr::slice(b, n / 2));
    ld w2 = 0;
    for (size_t i = n / 2; i < n; i++)
        w2 += (ld)a[i] * b[i];
    c.close(g2, w2, std::numeric_limits<T>::epsilon() * (n + 2) * mag, "dotproduct of slices");
    if (n > 1)
        c.interesting(n, s.rec.back());
}
PBT_TEST(dot_f32, 400, 10000) { dots<float>(s, c); }
PBT_TEST(dot_f64, 400, 10000) { dots<double>(s, c); }
PBT_TEST(dot_i32, 200, 5000) { dots<int32_t>(s, c); }

template <typename T>
static void complex_sums(Src& s, Case& c)
{
    using C  = kfr::complex<T>;
    size_t n = (size_t)s.skew("n", 1, 1000);
    Rng r    = s.bulk("seed");
    kfr::univector<C> a(n), b(n);
    std::complex<ld> sum = 0, dot = 0;
    ld mag = 0, dmag = 0;
    for (size_t i = 0; i < n; i++)
    {
        a[i] = C((T)r.sym(), (T)r.sym()), b[i] = C((T)r.sym(), (T)r.sym());
        std::complex<ld> x(a[i].real(), a[i].imag()), y(b[i].real(), b[i].imag());
        sum += x, mag += std::abs(x), dot += x * y, dmag += std::abs(x * y);
    }
    ld eps = std::numeric_limits<T>::epsilon();
    C g    = kfr::sum(a), d = kfr::dotproduct(a, b), m = kfr::mean(a);
    c.close(g.real(), sum.real(), eps * n * mag, "sum, real part");
    c.close(g.imag(), sum.imag(), eps * n * mag, "sum, imaginary part");
    c.close(m.real(), sum.real() / n, eps * (n + 3) * mag / n, "mean, real part");
    c.close(m.imag(), sum.imag() / n, eps * (n + 3) * mag / n, "mean, imaginary part");
    c.close(d.real(), dot.real(), eps * (n + 4) * dmag, "dot product, real part");
    c.close(d.imag(), dot.imag(), eps * (n + 4) * dmag, "dot product, imaginary part");
    if (n > 1)
        c.interesting(n, s.rec.back());
}
PBT_TEST(complex_f32, 300, 5000) { complex_sums<float>(s, c); }
PBT_TEST(complex_f64, 300, 5000) { complex_sums<double>(s, c); }

template <typename T>
static void histograms(Src& s, Case& c)
{
    size_t n    = (size_t)s.skew("n", 1, 600);
    bool fixed  = s.flag("fixed");
    size_t bins = fixed ? (s.flag("bins10") ? 10 : 256) : (size_t)s.skew("bins", 1, 300);
    int form    = (int)s.in("form", 0, 2);
    int style   = (int)s.in("style", 0, 3);
    Rng r       = s.bulk("seed");
    kfr::univector<T> v(n);
    std::vector<uint64_t> want(bins);
    uint64_t below = 0, above = 0;
    for (auto& x : v)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            // stay away from the middle between two bins, where rounding decides
            long k = (long)r.range(-3, (long)bins + 3);
            ld p   = (ld)k + 0.4L * r.sym();
            if (style == 0)
                p = r.range(-1000, 1000) * (ld)bins;
            else if (style == 1)
                p = r.chance(1, 2) ? 0 : bins;
            x = (T)(p / bins);
            p = (ld)x * bins;
            if (style == 3 && r.chance(1, 8))
                x = std::numeric_limits<T>::quiet_NaN(), p = -1;
            if (!(x >= 0))
            {
                below++;
                continue;
            }
            if (x > 1)
                above++;
            else
                want[std::min<size_t>(bins - 1, (size_t)std::lround((double)p))]++;
        }
        else
        {
            x = style == 0   ? (T)r.u64()
                : style == 1 ? (r.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min())
                : style == 2 ? (T)r.range(0, (long)bins)
                             : (T)r.range(-3, 12);
            if (x < 0)
                below++;
            else if ((uint64_t)x >= bins)
                above++;
            else
                want[(size_t)x]++;
        }
    }
    auto check = [&](const auto& h)
    {
        c.eq((uint64_t)h.size(), (uint64_t)bins, "number of bins");
        c.eq(h.total(), (uint64_t)n, "total");
        c.eq((uint64_t)h.below(), below, "below");
        c.eq((uint64_t)h.above(), above, "above");
        for (size_t i = 0; i < bins; i++)
        {
            c.expect(h[i] == want[i], fmt("bin %zu of %zu holds %u, not %u", i, bins, (unsigned)h[i], (unsigned)want[i]));
            c.expect(h.values()[i] == want[i], "values()");
        }
    };
    if (form == 0)
    {
        if (!fixed)
            check(kfr::histogram(v, bins));
        else if (bins == 10)
            check(kfr::histogram<10>(v));
        else
            check(kfr::histogram<256>(v));
    }
    else if (form == 1)
    {
        // as the data flows through
        kfr::univector<T> out(n);
        auto e = kfr::histogram_expression(v, bins);
        out    = e;
        check(e.data);
        for (size_t i = 0; i < n; i++)
            c.expect(out[i] == v[i] || v[i] != v[i], "the data must pass unchanged");
    }
    else
    {
        kfr::histogram_data<0> d(bins);
        for (T x : v)
            d.put(x);
        check(d);
    }
    c.interesting(n, bins, form, style, fixed, s.rec.back());
}
PBT_TEST(histogram_f32, 400, 10000) { histograms<float>(s, c); }
PBT_TEST(histogram_f64, 400, 10000) { histograms<double>(s, c); }
PBT_TEST(histogram_i32, 400, 10000) { histograms<int32_t>(s, c); }
PBT_TEST(histogram_u8, 400, 10000) { histograms<uint8_t>(s, c); }
PBT_TEST(histogram_i8, 300, 10000) { histograms<int8_t>(s, c); }
PBT_TEST(histogram_i16, 300, 10000) { histograms<int16_t>(s, c); }
PBT_TEST(histogram_u32, 300, 10000) { histograms<uint32_t>(s, c); }
