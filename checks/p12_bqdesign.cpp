// Second-order section designs against their analogue prototypes under the bilinear transform, in long double.
#include <kfr/base.hpp>
#include <kfr/dsp/biquad_design.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;
static const ld PI = 3.14159265358979323846264338327950288L;

enum
{
    LP,
    HP,
    BP,
    NOTCH,
    PEAK,
    LOWSHELF,
    HIGHSHELF,
    ALLPASS,
    KINDS
};
static const char* names[] = { "lowpass", "highpass", "bandpass", "notch", "peak", "lowshelf", "highshelf", "allpass" };

// analogue prototype with corner at s = j
static cld analog(int kind, cld s, ld Q, ld gain)
{
    ld V = std::pow(10.0L, std::fabs(gain) / 20);
    ld r2 = std::sqrt(2.0L), rv = std::sqrt(2 * V);
    cld den = s * s + s / Q + 1.0L, h;
    switch (kind)
    {
    case LP:
        return 1.0L / den;
    case HP:
        return s * s / den;
    case BP:
        return s / Q / den;
    case NOTCH:
        return (s * s + 1.0L) / den;
    case ALLPASS:
        return (s * s - s / Q + 1.0L) / den;
    case PEAK:
        h = (s * s + V * s / Q + 1.0L) / den;
        break;
    case LOWSHELF:
        h = (s * s + rv * s + V) / (s * s + r2 * s + 1.0L);
        break;
    default:
        h = (V * s * s + rv * s + 1.0L) / (s * s + r2 * s + 1.0L);
    }
    return gain >= 0 ? h : 1.0L / h;
}

template <typename T>
static void design(Src& s, Case& c)
{
    int kind = (int)s.in("kind", 0, KINDS - 1);
    T f      = (T)s.real("f", 0.002, 0.495);
    T Q      = (T)s.logreal("Q", 0.2, 20);
    T gain   = (T)s.real("gain", -24, 24);
    if (s.flag(nullptr, 1, 10))
        gain = 0;
    kfr::biquad_section<T> b;
    switch (kind)
    {
    case LP:
        b = kfr::biquad_lowpass<T>(f, Q);
        break;
    case HP:
        b = kfr::biquad_highpass<T>(f, Q);
        break;
    case BP:
        b = kfr::biquad_bandpass<T>(f, Q);
        break;
    case NOTCH:
        b = kfr::biquad_notch<T>(f, Q);
        break;
    case PEAK:
        b = kfr::biquad_peak<T>(f, Q, gain);
        break;
    case LOWSHELF:
        b = kfr::biquad_lowshelf<T>(f, gain);
        break;
    case HIGHSHELF:
        b = kfr::biquad_highshelf<T>(f, gain);
        break;
    default:
        b = kfr::biquad_allpass<T>(f, Q);
    }
    c.label(names[kind]);
    ld eps = std::numeric_limits<T>::epsilon();
    c.close(b.a0, 1, 2 * eps, "a0 of a ready-to-use section");
    // stability: |a2| < 1 and |a1| < 1 + a2
    c.expect(std::fabs((ld)b.a2) < 1 + 4 * eps && std::fabs((ld)b.a1) <= 1 + (ld)b.a2 + 8 * eps,
             fmt("%s f=%g Q=%g gain=%g: unstable section a1=%.9g a2=%.9g", names[kind], (double)f, (double)Q,
                 (double)gain, (double)b.a1, (double)b.a2));
    // frequency response
    ld g0 = PI * f, K = std::tan(g0);
    ld cond = 1 + g0 / (std::sin(g0) * std::cos(g0)); // relative error of K per relative error of its argument
    for (int i = 0; i < 6; i++)
    {
        ld w = i == 0 ? 0 : i == 1 ? 0.5L : i == 2 ? (ld)f : (ld)s.real("at", 0.0005, 0.4995);
        cld z1 = std::polar(1.0L, -2 * PI * w), z2 = z1 * z1;
        cld num = (ld)b.b0 + (ld)b.b1 * z1 + (ld)b.b2 * z2;
        cld den = (ld)b.a0 + (ld)b.a1 * z1 + (ld)b.a2 * z2;
        cld got = num / den;
        // in terms of tan(pi w) and tan(pi f); at the Nyquist frequency use a very large s
        ld tw = w == 0.5L ? 1e15L : std::tan(PI * w);
        auto H = [&](ld k) { return analog(kind, cld(0, tw / k), Q, gain); };
        cld want = H(K);
        ld sens  = 4 * cond * eps;
        ld t     = std::abs(H(K * (1 + sens)) - want) + std::abs(H(K * (1 - sens)) - want);
        // rounding of the coefficients themselves
        ld B = std::fabs((ld)b.b0) + std::fabs((ld)b.b1) + std::fabs((ld)b.b2);
        ld A = 1 + std::fabs((ld)b.a1) + std::fabs((ld)b.a2);
        t += 12 * eps * (B + std::abs(want) * A) / std::abs(den) + (w == 0.5L ? 1e-12L * (1 + std::abs(want)) : 0);
        c.close(std::abs(got - want), 0, t,
                fmt("%s f=%.9g Q=%.9g gain=%.9g: response at %.9g (|got|=%.9g, |want|=%.9g)", names[kind], (double)f,
                    (double)Q, (double)gain, (double)w, (double)std::abs(got), (double)std::abs(want))
                    .c_str());
    }
    c.interesting(kind, (uint64_t)(f * 1e7), (uint64_t)(Q * 1e5), (int64_t)(gain * 1e4));
}
PBT_TEST(design_f32, 4000, 400000) { design<float>(s, c); }
PBT_TEST(design_f64, 4000, 400000) { design<double>(s, c); }

// normalising a section does not change its transfer function
PBT_TEST(normalize, 500, 20000)
{
    auto cf = [&](const char* n) { double v = s.real(n, -2, 2); return std::fabs(v) < 0.01 ? 1.0 : v; };
    kfr::biquad_section<double> b(cf("a0"), cf("a1"), cf("a2"), cf("b0"), cf("b1"), cf("b2"));
    auto a = b.normalized_a0();
    c.close(a.a0, 1, 0, "normalized_a0");
    double w[5] = { b.a1 / b.a0, b.a2 / b.a0, b.b0 / b.a0, b.b1 / b.a0, b.b2 / b.a0 };
    double g[5] = { a.a1, a.a2, a.b0, a.b1, a.b2 };
    for (int i = 0; i < 5; i++)
        c.close(g[i], w[i], 4e-16L * std::fabs(w[i]), "normalized_a0", i);
    auto n = b.normalized_b0();
    c.close(n.b0, 1, 0, "normalized_b0");
    c.close(n.b1, b.b1 / b.b0, 4e-16L * std::fabs(b.b1 / b.b0), "normalized_b0 b1");
    c.close(n.b2, b.b2 / b.b0, 4e-16L * std::fabs(b.b2 / b.b0), "normalized_b0 b2");
    c.close(n.a1, b.a1, 0, "normalized_b0 a1");
    c.interesting((uint64_t)(std::fabs(b.a0) * 1e6), (uint64_t)(std::fabs(b.b1) * 1e6));
}
