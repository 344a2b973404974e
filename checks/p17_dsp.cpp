// Small signal generators and processors: oscillators, Goertzel, mixdown, wave shapers, units, weighting curves.
#include <kfr/base.hpp>
#include <kfr/dsp/dcremove.hpp>
#include <kfr/dsp/goertzel.hpp>
#include <kfr/dsp/mixdown.hpp>
#include <kfr/dsp/oscillators.hpp>
#include <kfr/dsp/special.hpp>
#include <kfr/dsp/units.hpp>
#include <kfr/dsp/waveshaper.hpp>
#include <kfr/dsp/weighting.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld = long double;
static const ld PI = 3.14159265358979323846264338327950288L;

template <typename T>
static void fill(T* p, size_t n, Rng& r)
{
    bool wide = r.chance(1, 3);
    for (size_t i = 0; i < n; i++)
        p[i] = r.chance(1, 10) ? (T)0 : (T)(r.sym() * (wide ? std::exp2((double)r.range(-10, 10)) : 1.0));
}
// evaluate an expression into a checked buffer, optionally in two pieces
template <typename T, typename E>
static std::vector<T> eval(Src& s, Case& c, size_t n, E&& e)
{
    Buf<T> out(n, (size_t)s.in(0, 3));
    kfr::make_univector(out.data(), n) = std::forward<E>(e);
    out.check(c, "output");
    return std::vector<T>(out.data(), out.data() + n);
}

// ---- waveforms of the phase: one function per shape and phase unit
static ld fract_(ld x) { return x - std::floor(x); }
// shape at phase u in periods; jump: distance to a discontinuity of the wave
static ld shape(int k, ld u, ld& jump)
{
    ld f = fract_(u), v;
    jump = 1;
    switch (k)
    {
    case 0: // sine
        return std::sin(2 * PI * f);
    case 1: // square
        jump = std::min({ f, 1 - f, std::fabs(f - 0.5L) });
        return f < 0.5L ? 1 : -1;
    case 2: // sawtooth, falling
        jump = std::min(f, 1 - f);
        return 1 - 2 * f;
    case 3: // rising sawtooth, zero at phase zero
        v    = fract_(u + 0.5L);
        jump = std::min(v, 1 - v);
        return -1 + 2 * v;
    default: // triangle, in phase with the sine
        v = fract_(u + 0.25L);
        return 1 - std::fabs(4 * v - 2);
    }
}
template <typename T>
static void waves(Src& s, Case& c)
{
    int k    = (int)s.in("shape", 0, 4);
    int unit = (int)s.in("unit", 0, 2); // 0 raw [0,1), 1 periods, 2 radians
    if (k == 3 && unit == 0)
        unit = 1;
    size_t n = (size_t)s.in("n", 1, 70);
    ld range = unit == 0 ? 1 : std::pow(10.0L, (ld)s.in("magnitude", 0, 3)) * (unit == 2 ? 6 : 1);
    Rng r    = s.bulk("data");
    Buf<T> in(n, (size_t)s.in(0, 3));
    for (size_t i = 0; i < n; i++)
    {
        in[i] = unit == 0 ? (T)(r.unit() * 0.9999) : (T)(r.sym() * (double)range);
        if (r.chance(1, 6))
            in[i] = unit == 0 ? (T)(r.below(8) / 8.0) : (T)(int64_t)r.range(-(int64_t)range, (int64_t)range);
    }
    auto x = kfr::make_univector((const T*)in.data(), n);
    std::vector<T> y;
    bool scalar = s.flag("scalar", 1, 4);
    auto go = [&](auto f, auto fs)
    {
        if (scalar)
            for (size_t i = 0; i < n; i++)
                y.push_back(fs(in[i]));
        else
            y = eval<T>(s, c, n, f(x));
    };
#define SHAPE(id, fn)                                                                                        \
    case id:                                                                                                 \
        go([](const auto& v) { return kfr::fn(v); }, [](T v) { return (T)kfr::fn(v); });                     \
        break;
    switch (k * 3 + unit)
    {
        SHAPE(0, rawsine) SHAPE(1, sinenorm) SHAPE(2, sine) SHAPE(3, rawsquare) SHAPE(4, squarenorm)
        SHAPE(5, square) SHAPE(6, rawsawtooth) SHAPE(7, sawtoothnorm) SHAPE(8, sawtooth) SHAPE(10, isawtoothnorm)
        SHAPE(11, isawtooth) SHAPE(12, rawtriangle) SHAPE(13, trianglenorm) SHAPE(14, triangle)
    }
    ld eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
    {
        ld jump, u = unit == 2 ? (ld)in[i] / (2 * PI) : (ld)in[i];
        if (unit == 0 && k == 4)
            u -= 0.25L; // the raw triangle starts at its minimum
        ld w = shape(k, u, jump), perr = eps * (2 + 3 * std::fabs(u));
        if (unit == 0 && k != 0)
            perr = eps, jump = k == 1 ? std::fabs((ld)in[i] - 0.5L) * 0 + 1 : 1;
        if (jump <= perr)
            continue; // the phase is rounded across the jump
        // fastsin is a polynomial approximation
        c.close(y[i], w, k == 0 ? 8 * perr + 3e-3L : 8 * perr, "waveform", (long long)i);
    }
    c.label(k == 0 ? "sine" : k == 1 ? "square" : k == 2 ? "sawtooth" : k == 3 ? "isawtooth" : "triangle");
    c.interesting(k, unit, n, (int64_t)range, scalar, (int64_t)((double)in[0] * 1e6));
}
PBT_TEST(waves_f32, 1500, 60000) { waves<float>(s, c); }
PBT_TEST(waves_f64, 1500, 60000) { waves<double>(s, c); }

template <typename T>
static void phasors(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 1, 400);
    T f = (T)s.real("frequency", 0, 4000), sr = (T)s.pick<double>("rate", { 1, 8000, 44100, 96000 });
    if (sr == 1)
        f = (T)s.real("norm", 0, 0.5);
    T ph = (T)s.real("phase", 0, 1);
    auto y = eval<T>(s, c, n, kfr::phasor<T>(f, sr, ph));
    ld eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
    {
        ld u = (ld)ph + (ld)i * (ld)f / (ld)sr, w = fract_(u), err = eps * (2 + 4 * std::fabs(u));
        c.expect(y[i] >= 0 && y[i] < 1, "phase outside [0, 1)");
        ld d = std::fabs((ld)y[i] - w);
        c.close(std::min(d, 1 - d), 0, err, "phase", (long long)i);
    }
    if (n > 1)
        c.interesting(n, (int64_t)(f * 1000), (int64_t)sr, (int64_t)(ph * 1e5));
}
PBT_TEST(phasor_f32, 500, 20000) { phasors<float>(s, c); }
PBT_TEST(phasor_f64, 500, 20000) { phasors<double>(s, c); }

// ---- Goertzel: one DFT bin
template <typename T, size_t W>
static void goertzel_w(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 1, 300);
    Buf<T> x(n, (size_t)s.in(0, 3));
    Rng r = s.bulk("data");
    fill(x.data(), n, r);
    T omega[W];
    for (auto& o : omega)
        o = (T)s.real("omega", 0.05, 3.09);
    kfr::complex<T> res[W];
    if constexpr (W == 1)
        kfr::process(kfr::goertzel(res[0], omega[0]), kfr::make_univector((const T*)x.data(), n));
    else
        kfr::process(kfr::goertzel(res, omega), kfr::make_univector((const T*)x.data(), n));
    ld mag = 0, eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
        mag += std::fabs((ld)x[i]);
    for (size_t k = 0; k < W; k++)
    {
        ld re = 0, im = 0;
        for (size_t i = 0; i < n; i++)
        {
            // sum x[i] e^(-j w (i - (n-1))): the phase reference is the last sample
            ld a = (ld)omega[k] * ((ld)(n - 1) - (ld)i);
            re += (ld)x[i] * std::cos(a);
            im += (ld)x[i] * std::sin(a);
        }
        ld sn  = std::sin((ld)omega[k]);
        ld tol = eps * (ld)(n + 4) * 4 * mag / (sn * sn);
        c.close(res[k].real(), re, tol, "real part of the bin", (long long)k);
        c.close(res[k].imag(), im, tol, "imaginary part of the bin", (long long)k);
    }
    if (n > 1 && mag > 0)
        c.interesting(W, n, (int64_t)(omega[0] * 1e6));
}
PBT_TEST(goertzel_f32, 400, 20000) { s.flag("parallel") ? goertzel_w<float, 4>(s, c) : goertzel_w<float, 1>(s, c); }
PBT_TEST(goertzel_f64, 400, 20000)
{
    switch (s.in("width", 0, 2))
    {
    case 0:
        return goertzel_w<double, 1>(s, c);
    case 1:
        return goertzel_w<double, 3>(s, c);
    default:
        return goertzel_w<double, 8>(s, c);
    }
}

// ---- mixing
template <typename T>
static void mixing(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 1, 120), k = (size_t)s.in("channels", 1, 4);
    std::vector<std::vector<T>> x(4, std::vector<T>(n));
    Rng r = s.bulk("data");
    for (auto& v : x)
        fill(v.data(), n, r);
    auto u = [&](size_t i) { return kfr::make_univector((const T*)x[i].data(), n); };
    std::vector<T> y = k == 1   ? eval<T>(s, c, n, kfr::mixdown(u(0)))
                       : k == 2 ? eval<T>(s, c, n, kfr::mixdown(u(0), u(1)))
                       : k == 3 ? eval<T>(s, c, n, kfr::mixdown(u(0), u(1), u(2)))
                                : eval<T>(s, c, n, kfr::mixdown(u(0), u(1), u(2), u(3)));
    ld eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
    {
        ld w = 0, m = 0;
        for (size_t j = 0; j < k; j++)
            w += (ld)x[j][i], m += std::fabs((ld)x[j][i]);
        c.close(y[i], w, 4 * eps * m, "sum of the channels", (long long)i);
    }
    if (n > 1 && k > 1)
        c.interesting(n, k, (int64_t)(x[0][0] * 1e5));
}
PBT_TEST(mixdown_f32, 300, 10000) { mixing<float>(s, c); }
PBT_TEST(mixdown_f64, 300, 10000) { mixing<double>(s, c); }
PBT_TEST(mixdown_stereo, 300, 10000)
{
    size_t n = (size_t)s.in("n", 1, 120);
    std::vector<double> l(n), r(n);
    Rng g = s.bulk("data");
    fill(l.data(), n, g);
    fill(r.data(), n, g);
    int k     = (int)s.in("matrix", 0, 2);
    double m[4] = { 1, 1, 1, -1 };
    if (k == 1)
        m[0] = m[1] = m[2] = 0.5, m[3] = -0.5;
    if (k == 2)
        for (auto& v : m)
            v = s.real("m", -2, 2);
    kfr::f64x2x2 mat = k == 0   ? kfr::matrix_sum_diff()
                       : k == 1 ? kfr::matrix_halfsum_halfdiff()
                                : kfr::f64x2x2{ kfr::f64x2{ m[0], m[1] }, kfr::f64x2{ m[2], m[3] } };
    auto e = kfr::mixdown_stereo(kfr::make_univector((const double*)l.data(), n),
                                 kfr::make_univector((const double*)r.data(), n), mat);
    kfr::univector<kfr::vec<double, 2>> y(n);
    y = e;
    for (size_t i = 0; i < n; i++)
    {
        double mg = std::fabs(l[i]) + std::fabs(r[i]);
        c.close(y[i][0], (ld)m[0] * l[i] + (ld)m[1] * r[i], 1e-15L * mg * 2, "first output", (long long)i);
        c.close(y[i][1], (ld)m[2] * l[i] + (ld)m[3] * r[i], 1e-15L * mg * 2, "second output", (long long)i);
    }
    if (n > 1)
        c.interesting(n, k, (int64_t)(l[0] * 1e5), (int64_t)(m[3] * 1e5));
}

// ---- wave shapers
template <typename T>
static void shapers(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 1, 80);
    int k    = (int)s.in("shaper", 0, 6);
    Buf<T> in(n, (size_t)s.in(0, 3));
    Rng r    = s.bulk("data");
    double m = std::pow(10.0, (double)s.in("magnitude", -2, 2));
    for (size_t i = 0; i < n; i++)
        in[i] = (T)(r.chance(1, 12) ? 0 : r.sym() * m);
    auto x   = kfr::make_univector((const T*)in.data(), n);
    double p = s.real("amount", 0.1, 5);
    double c1 = s.real("c1", -2, 2), c3 = s.real("c3", -2, 2), c5 = s.real("c5", -2, 2);
    std::vector<T> y;
    auto sat1 = [](ld v) { return v / (std::fabs(v) + 1); };
    auto sat2 = [](ld v)
    {
        ld q = (std::fabs(v) + 1) * (std::fabs(v) + 1);
        return std::copysign((q - 1) / (q + 1), v);
    };
    switch (k)
    {
    case 0:
        if constexpr (std::is_same_v<T, double>)
            y = eval<T>(s, c, n, kfr::waveshaper_hardclip(x, p));
        else // the clip level is a double: clamp does not mix types
            y = eval<T>(s, c, n, kfr::clamp(x, (T)-p, (T)p));
        break;
    case 1:
        y = eval<T>(s, c, n, kfr::waveshaper_tanh(x, p));
        break;
    case 2:
        y = eval<T>(s, c, n, kfr::saturate_I(x));
        break;
    case 3:
        y = eval<T>(s, c, n, kfr::saturate_II(x));
        break;
    case 4:
        y = eval<T>(s, c, n, kfr::waveshaper_saturate_I(x, p));
        break;
    case 5:
        y = eval<T>(s, c, n, kfr::waveshaper_saturate_II(x, p));
        break;
    default:
        y = eval<T>(s, c, n, kfr::waveshaper_poly(x, c1, c3, c5));
    }
    ld eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
    {
        ld v = in[i], w, tol = 0;
        switch (k)
        {
        case 0:
            w   = std::min((ld)p, std::max(-(ld)p, v));
            tol = eps * (ld)p;
            break;
        case 1:
            w   = std::tanh((ld)p * v) / std::tanh((ld)p);
            tol = 16 * eps * (1 + 1 / (ld)p);
            break;
        case 2:
            w   = sat1(v);
            tol = 4 * eps;
            break;
        case 3:
            w   = sat2(v);
            tol = 4 * eps;
            break;
        case 4:
            w   = sat1((ld)p * v) / sat1(p);
            tol = 8 * eps / sat1(p);
            break;
        case 5:
            w   = sat2((ld)p * v) / sat2(p);
            tol = 8 * eps / sat2(p);
            break;
        default:
            w   = (ld)(T)c1 * v + (ld)(T)c3 * v * v * v + (ld)(T)c5 * v * v * v * v * v;
            tol = 8 * eps * (std::fabs(c1 * v) + std::fabs(c3 * v * v * v) + std::fabs(c5 * v * v * v * v * v));
        }
        c.close(y[i], w, tol, "shaped sample", (long long)i);
    }
    c.interesting(k, n, (int64_t)(p * 1e5), (int64_t)(in[0] * 1e4));
}
PBT_TEST(shapers_f32, 800, 30000) { shapers<float>(s, c); }
PBT_TEST(shapers_f64, 800, 30000) { shapers<double>(s, c); }

// ---- units and weighting curves
template <typename T>
static void units(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 1, 60);
    int k    = (int)s.in("function", 0, 8);
    Buf<T> in(n, (size_t)s.in(0, 3));
    Rng r = s.bulk("data");
    for (size_t i = 0; i < n; i++)
        switch (k)
        {
        case 0: // amplitude
        case 4:
            in[i] = (T)(std::pow(10.0, r.sym() * 8) * (r.chance(1, 3) ? -1 : 1));
            break;
        case 1: // dB
        case 5:
            in[i] = (T)(r.sym() * 200);
            break;
        case 2: // notes
            in[i] = (T)(r.unit() * 140);
            break;
        default: // hertz
            in[i] = (T)std::pow(10.0, 0.5 + r.unit() * 4);
        }
    auto x = kfr::make_univector((const T*)in.data(), n);
    std::vector<T> y;
    bool scalar = s.flag("scalar", 1, 4);
    auto go = [&](auto f, auto fs)
    {
        if (scalar)
            for (size_t i = 0; i < n; i++)
                y.push_back(fs(in[i]));
        else
            y = eval<T>(s, c, n, f(x));
    };
    switch (k)
    {
        SHAPE(0, amp_to_dB) SHAPE(1, dB_to_amp) SHAPE(2, note_to_hertz) SHAPE(3, hertz_to_note) SHAPE(4, power_to_dB)
        SHAPE(6, aweighting) SHAPE(7, bweighting) SHAPE(8, cweighting)
    case 5:
        for (size_t i = 0; i < n; i++)
            y.push_back(kfr::dB_to_power(in[i]));
        break;
    }
    ld eps = std::numeric_limits<T>::epsilon();
    auto A = [](ld f)
    {
        ld q = f * f;
        return 12200.0L * 12200 * q * q /
               ((q + 20.6L * 20.6L) * std::sqrt((q + 107.7L * 107.7L) * (q + 737.9L * 737.9L)) * (q + 12200.0L * 12200));
    };
    auto B = [](ld f)
    {
        ld q = f * f;
        return 12200.0L * 12200 * q * f / ((q + 20.6L * 20.6L) * std::sqrt(q + 158.5L * 158.5L) * (q + 12200.0L * 12200));
    };
    auto C = [](ld f)
    {
        ld q = f * f;
        return 12200.0L * 12200 * q / ((q + 20.6L * 20.6L) * (q + 12200.0L * 12200));
    };
    for (size_t i = 0; i < n; i++)
    {
        ld v = in[i], w, tol;
        switch (k)
        {
        case 0:
            w   = 20 * std::log10(std::fabs(v));
            tol = 8 * eps * (4 + std::fabs(w));
            break;
        case 1:
            w   = std::pow(10.0L, v / 20);
            tol = 8 * eps * w * (1 + std::fabs(v) * 0.12L);
            break;
        case 2:
            w   = 440 * std::pow(2.0L, (v - 69) / 12);
            tol = 8 * eps * w * (4 + std::fabs(v) * 0.06L);
            break;
        case 3:
            w   = 69 + 12 * std::log2(v / 440);
            tol = 8 * eps * (40 + 17.4L * std::fabs(std::log(v)));
            break;
        case 4:
            w   = 10 * std::log10(std::fabs(v));
            tol = 8 * eps * (4 + std::fabs(w));
            break;
        case 5:
            w   = std::pow(10.0L, v / 10);
            tol = 8 * eps * w * (1 + std::fabs(v) * 0.24L);
            break;
        case 6: // normalised to 0 dB at 1 kHz
            w   = A(v) / A(1000);
            tol = w * (32 * eps + 1e-5L);
            break;
        case 7:
            w   = B(v) / B(1000);
            tol = w * (32 * eps + 1e-5L);
            break;
        default:
            w   = C(v) / C(1000);
            tol = w * (32 * eps + 1e-5L);
        }
        c.close(y[i], w, tol, "value", (long long)i);
    }
    c.interesting(k, n, scalar, (int64_t)(in[0] * 1e4));
}
PBT_TEST(units_f32, 800, 30000) { units<float>(s, c); }
PBT_TEST(units_f64, 800, 30000) { units<double>(s, c); }

// ---- test signals and DC removal
template <typename T>
static void special(Src& s, Case& c)
{
    size_t n = (size_t)s.in("n", 2, 300);
    ld eps   = std::numeric_limits<T>::epsilon();
    int k    = (int)s.in("signal", 0, 3);
    if (k == 0)
    {
        auto y = eval<T>(s, c, n, kfr::unitimpulse<T>());
        for (size_t i = 0; i < n; i++)
            c.eq(y[i], (T)(i == 0), "impulse");
    }
    else if (k == 3)
    {
        std::vector<T> x(n);
        Rng r = s.bulk("data");
        fill(x.data(), n, r);
        T cut   = (T)s.real("cutoff", 0.001, 0.2);
        auto y  = eval<T>(s, c, n, kfr::dcremove(kfr::make_univector((const T*)x.data(), n), cut));
        // second-order high pass with Q = 1/2
        ld K = std::tan(PI * (ld)cut), nm = 1 / (1 + 2 * K + K * K), a1 = 2 * (K * K - 1) * nm, a2 = (1 - 2 * K + K * K) * nm;
        ld x1 = 0, x2 = 0, y1 = 0, y2 = 0, m = 0;
        for (size_t i = 0; i < n; i++)
        {
            ld v = x[i], w = nm * (v - 2 * x1 + x2) - a1 * y1 - a2 * y2;
            x2 = x1, x1 = v, y2 = y1, y1 = w;
            m = std::max(m, std::fabs(v));
            c.close(y[i], w, 64 * eps * m / (K * K), "high-passed sample", (long long)i);
        }
    }
    else
    {
        T magn = (T)s.real("magnitude", 0.1, 4);
        auto y = k == 1 ? eval<T>(s, c, n, kfr::jaehne<T>(magn, n)) : eval<T>(s, c, n, kfr::swept<T>(magn, n));
        for (size_t i = 0; i < n; i++)
        {
            ld t = (ld)i / (ld)n, a = k == 1 ? PI / 2 * t * t * (ld)n : PI / 4 * t * t * t * t * (ld)n;
            c.close(y[i], (ld)magn * std::sin(a), (ld)magn * eps * (8 + 16 * a), "sweep", (long long)i);
        }
    }
    c.interesting(k, n);
}
PBT_TEST(special_f32, 400, 20000) { special<float>(s, c); }
PBT_TEST(special_f64, 400, 20000) { special<double>(s, c); }
