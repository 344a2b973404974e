// Window functions against their definitions, and windowed-sinc FIR designs.
#include <kfr/base.hpp>
#include <kfr/dsp/fir_design.hpp>
#include <kfr/dsp/window.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld = long double;
using kfr::window_symmetry;
using kfr::window_type;
static const ld PI = 3.14159265358979323846264338327950288L;

static ld bessel_i0(ld x)
{
    ld s = 1, t = 1;
    for (int k = 1; k < 400; k++)
    {
        t *= (x / 2 / k) * (x / 2 / k);
        s += t;
        if (t < s * 1e-22L)
            break;
    }
    return s;
}
static const int TYPES = 17;
static const char* wname[] = { "",        "rectangular", "triangular", "bartlett",        "cosine", "hann",
                               "bartlett_hann", "hamming", "bohman",   "blackman",        "blackman_harris",
                               "kaiser",  "flattop",     "gaussian",   "lanczos",         "cosine_np", "planck_taper",
                               "tukey" };
// value at fraction u = n/(M-1) of a symmetric window of M points
static ld wdef(int t, ld u, ld M, ld a)
{
    ld x = 2 * u - 1, c;
    switch (t)
    {
    case 1:
        return 1;
    case 2:
        return 1 - std::fabs(x) * (std::fmod(M, 2) == 1 ? (M - 1) / (M + 1) : (M - 1) / M);
    case 3:
        return 1 - std::fabs(x);
    case 4:
        return std::sin(PI * u);
    case 5:
        return 0.5L - 0.5L * std::cos(2 * PI * u);
    case 6:
        return 0.62L - 0.48L * std::fabs(u - 0.5L) + 0.38L * std::cos(2 * PI * (u - 0.5L));
    case 7:
        return a - (1 - a) * std::cos(2 * PI * u);
    case 8:
        x = std::fabs(x);
        return (1 - x) * std::cos(PI * x) + std::sin(PI * x) / PI;
    case 9:
        return (1 - a) / 2 - 0.5L * std::cos(2 * PI * u) + a / 2 * std::cos(4 * PI * u);
    case 10:
        return 0.35875L - 0.48829L * std::cos(2 * PI * u) + 0.14128L * std::cos(4 * PI * u) -
               0.01168L * std::cos(6 * PI * u);
    case 11:
        c = 1 - x * x;
        return bessel_i0(a * std::sqrt(c > 0 ? c : 0)) / bessel_i0(a);
    case 12:
        return 0.21557895L - 0.41663158L * std::cos(2 * PI * u) + 0.277263158L * std::cos(4 * PI * u) -
               0.083578947L * std::cos(6 * PI * u) + 0.006947368L * std::cos(8 * PI * u);
    case 13:
        return std::exp(-0.5L * std::pow(a * x * (M - 1) / M, 2));
    case 14:
        return x == 0 ? 1 : std::sin(PI * x) / (PI * x);
    case 15:
        return std::sin(PI / 2 * (1 + x * (M - 1) / M));
    case 16:
        c = (1 - std::fabs(x)) / (2 * a);
        return c <= 0 ? 0 : c >= 1 ? 1 : 1 / (1 + std::exp(1 / c - 1 / (1 - c)));
    default:
        c = (1 - std::fabs(x)) / a;
        return c <= 0 ? 0 : c >= 1 ? 1 : 0.5L * (1 - std::cos(PI * c));
    }
}
static ld param_for(Src& s, int t)
{
    switch (t)
    {
    case 7:
        return s.real("alpha", 0.4, 0.7);
    case 9:
        return s.real("alpha", 0.1, 0.3);
    case 11:
        return s.real("beta", 0.0, 18);
    case 13:
        return s.real("alpha", 0.5, 4);
    case 16:
        return s.real("eps", 0.05, 0.5);
    case 17:
        return s.real("alpha", 0.05, 1);
    default:
        return 0;
    }
}
template <typename T>
static bool by_function(int t, size_t n, T a, bool periodic, T* out)
{
    auto d = kfr::make_univector(out, n);
    auto y = periodic ? window_symmetry::periodic : window_symmetry::symmetric;
    bool has = t == 9 || t == 10 || t == 16 || t == 17;
    if (periodic && !has)
        return false;
    switch (t)
    {
    case 1:
        d = kfr::window_rectangular<T>(n);
        break;
    case 2:
        d = kfr::window_triangular<T>(n);
        break;
    case 3:
        d = kfr::window_bartlett<T>(n);
        break;
    case 4:
        d = kfr::window_cosine<T>(n);
        break;
    case 5:
        d = kfr::window_hann<T>(n);
        break;
    case 6:
        d = kfr::window_bartlett_hann<T>(n);
        break;
    case 7:
        d = kfr::window_hamming<T>(n, a);
        break;
    case 8:
        d = kfr::window_bohman<T>(n);
        break;
    case 9:
        d = kfr::window_blackman<T>(n, a, y);
        break;
    case 10:
        d = kfr::window_blackman_harris<T>(n, y);
        break;
    case 11:
        d = kfr::window_kaiser<T>(n, a);
        break;
    case 12:
        d = kfr::window_flattop<T>(n);
        break;
    case 13:
        d = kfr::window_gaussian<T>(n, a);
        break;
    case 14:
        d = kfr::window_lanczos<T>(n);
        break;
    case 15:
        d = kfr::window_cosine_np<T>(n);
        break;
    case 16:
        d = kfr::window_planck_taper<T>(n, a, y);
        break;
    default:
        d = kfr::window_tukey<T>(n, a, y);
    }
    return true;
}
template <typename T>
static void windows(Src& s, Case& c)
{
    int t    = (int)s.in("type", 1, TYPES);
    size_t n = (size_t)s.skew("n", 2, 400);
    T a      = (T)param_for(s, t);
    bool per = s.flag("periodic", 1, 3);
    Buf<T> out(n, (size_t)s.in(0, 3));
    if (s.flag("by function") && by_function<T>(t, n, a, per, out.data()))
        ;
    else
    {
        auto d = kfr::make_univector(out.data(), n);
        d      = kfr::window<T>(n, (window_type)t, a, per ? window_symmetry::periodic : window_symmetry::symmetric);
    }
    out.check(c, "window");
    ld eps = std::numeric_limits<T>::epsilon();
    // a periodic window is the symmetric one that is one point longer, without its last point
    size_t M = per ? n + 1 : n;
    for (size_t i = 0; i < n; i++)
    {
        ld u = (ld)i / (ld)(M - 1);
        ld w = wdef(t, u, (ld)M, a);
        ld lo = wdef(t, std::max<ld>(0, u - 4 * eps), (ld)M, a), hi = wdef(t, std::min<ld>(1, u + 4 * eps), (ld)M, a);
        ld tol = std::fabs(hi - w) + std::fabs(lo - w) + 24 * eps;
        if (t == 11)
            tol += eps * 16 * a; // rounding of the argument of the Bessel function
        if (t == 16)
            tol += 64 * eps * w / std::max<ld>(0.01L, a); // steep exponent
        c.close(out[i], w, tol, wname[t], (long long)i);
    }
    c.label(wname[t]);
    if (n > 2)
        c.interesting(t, n, per, (int64_t)(a * 1e5));
}
PBT_TEST(windows_f32, 3000, 150000) { windows<float>(s, c); }
PBT_TEST(windows_f64, 3000, 150000) { windows<double>(s, c); }

// ---- windowed-sinc designs
template <typename T>
static void fir(Src& s, Case& c)
{
    int kind = (int)s.in("kind", 0, 3); // low, high, bandpass, bandstop
    size_t n = (size_t)s.skew("taps", 3, 300);
    if (kind)
        n |= 1; // the pass band includes the Nyquist frequency or a unit impulse is subtracted: odd lengths only
    int t = (int)s.pick<int>("window", { 1, 5, 7, 9, 10, 11, 13, 3 });
    T a   = (T)param_for(s, t);
    T f1  = (T)s.real("f1", 0.01, 0.45);
    T f2  = (T)s.real("f2", (double)f1 + 0.01, 0.49);
    bool norm = s.flag("normalize");
    auto w = kfr::window<T>(n, (window_type)t, a);
    kfr::univector<T> taps(n);
    if (kind == 0)
        kfr::fir_lowpass(taps, f1, w, norm);
    else if (kind == 1)
        kfr::fir_highpass(taps, f1, w, norm);
    else if (kind == 2)
        kfr::fir_bandpass(taps, f1, f2, w, norm);
    else
        kfr::fir_bandstop(taps, f1, f2, w, norm);
    ld eps = std::numeric_limits<T>::epsilon();
    std::vector<ld> h(n);
    ld sum = 0, mag = 0;
    for (size_t i = 0; i < n; i++)
    {
        ld x   = (ld)i - (ld)(n - 1) / 2;
        auto lp = [&](ld f) { return x == 0 ? 2 * f : std::sin(2 * PI * f * x) / (PI * x); };
        ld d   = x == 0;
        ld v   = kind == 0 ? lp(f1) : kind == 1 ? d - lp(f1) : kind == 2 ? lp(f2) - lp(f1) : d - (lp(f2) - lp(f1));
        h[i]   = v * (x == 0 ? 1 : wdef(t, (ld)i / (ld)(n - 1), (ld)n, a));
        sum += h[i];
        mag += std::fabs(h[i]);
    }
    // error of a tap: rounding of the sine argument and of the window
    ld terr = eps * (24 + PI * (ld)n) / 3;
    if (!norm)
    {
        for (size_t i = 0; i < n; i++)
            c.close(taps[i], h[i], terr, "tap", (long long)i);
    }
    else
    {
        // normalised: the same taps times a constant
        ld dot = 0, hh = 0, gs = 0, gm = 0;
        for (size_t i = 0; i < n; i++)
            dot += h[i] * taps[i], hh += h[i] * h[i], gs += taps[i], gm += std::fabs((ld)taps[i]);
        ld k = dot / hh;
        for (size_t i = 0; i < n; i++)
            c.close(taps[i], h[i] * k, 4 * terr * std::max<ld>(1, std::fabs(k)), "normalized tap", (long long)i);
        if (kind == 0 || kind == 3)
            c.close(gs, 1, eps * (8 + (ld)n) * gm, "gain at zero frequency");
        else
            c.close(k, 1 / (1 + sum), 4 * terr * (ld)n * k * k, "normalisation of a filter that blocks zero frequency");
    }
    c.label(kind == 0 ? "lowpass" : kind == 1 ? "highpass" : kind == 2 ? "bandpass" : "bandstop");
    c.interesting(kind, n, t, norm, (uint64_t)(f1 * 1e6), (uint64_t)(f2 * 1e6));
}
PBT_TEST(fir_f32, 1500, 80000) { fir<float>(s, c); }
PBT_TEST(fir_f64, 1500, 80000) { fir<double>(s, c); }
