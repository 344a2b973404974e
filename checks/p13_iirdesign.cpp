// Classic IIR designs: analogue prototype -> frequency transform -> bilinear transform -> second-order sections.
// Oracle: the transfer function evaluated from the analogue definition in long double.
#include <kfr/base.hpp>
#include <kfr/dsp/iir_design.hpp>
#include "pbt.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;
static const ld PI = 3.14159265358979323846264338327950288L;

struct Proto
{
    std::vector<cld> z, p;
    ld k = 1;
};
enum
{
    BUTTER,
    CHEB1,
    CHEB2,
    BESSEL
};
static const char* pnames[] = { "butterworth", "chebyshev1", "chebyshev2", "bessel" };
// textbook prototypes
static Proto prototype(int kind, int N, ld r)
{
    Proto q;
    if (kind == BUTTER)
    {
        for (int m = -N + 1; m < N; m += 2)
            q.p.push_back(-std::polar(1.0L, PI * m / (2 * N)));
    }
    else if (kind == CHEB1)
    {
        ld e = std::sqrt(std::pow(10.0L, r / 10) - 1), mu = std::asinh(1 / e) / N;
        for (int m = -N + 1; m < N; m += 2)
            q.p.push_back(-std::sinh(cld(mu, PI * m / (2 * N))));
        cld k = 1;
        for (auto& p : q.p)
            k *= -p;
        q.k = k.real() / (N % 2 ? 1 : std::sqrt(1 + e * e));
    }
    else
    {
        ld de = 1 / std::sqrt(std::pow(10.0L, r / 10) - 1), mu = std::asinh(1 / de) / N;
        for (int m = -N + 1; m < N; m += 2)
        {
            if (m)
                q.z.push_back(cld(0, 1 / std::sin(m * PI / (2 * N))));
            cld p = -std::polar(1.0L, PI * m / (2 * N));
            p     = cld(std::sinh(mu) * p.real(), std::cosh(mu) * p.imag());
            q.p.push_back(1.0L / p);
        }
        cld k = 1;
        for (auto& p : q.p)
            k *= -p;
        for (auto& z : q.z)
            k /= -z;
        q.k = k.real();
    }
    return q;
}
// the Bessel prototype: poles are the roots of the reverse Bessel polynomial, scaled so that the product of the poles
// has modulus one
static void check_bessel(Case& c, const kfr::zpk<double>& f, int N)
{
    c.eq(f.z.size(), (size_t)0, "bessel zeros");
    c.eq(f.p.size(), (size_t)N, "bessel poles");
    // theta_N(s) = sum a_k s^k, a_k = (2N-k)! / (2^(N-k) k! (N-k)!)
    std::vector<ld> a(N + 1);
    for (int k = 0; k <= N; k++)
        a[k] = std::exp(std::lgamma((ld)(2 * N - k + 1)) - (N - k) * std::log(2.0L) - std::lgamma((ld)(k + 1)) -
                        std::lgamma((ld)(N - k + 1)));
    ld scale = std::pow(a[0], 1.0L / N);
    for (size_t i = 0; i < f.p.size(); i++)
    {
        cld s = cld(f.p[i].real(), f.p[i].imag()) * scale, v = 0;
        ld mag = 0;
        cld d  = 0;
        for (int k = N; k >= 0; k--)
        {
            d = d * s + v;
            v = v * s + a[k];
        }
        for (int k = 0; k <= N; k++)
            mag += a[k] * std::pow(std::abs(s), (ld)k);
        // the tabulated pole is within 1e-9 of a root
        c.close(std::abs(v), 0, 1e-9L * std::abs(d) * std::abs(s) + 1e-14L * mag, "bessel pole", (long long)i);
    }
}
enum
{
    LOW,
    HIGH,
    BAND,
    STOP
};
static const char* tnames[] = { "lowpass", "highpass", "bandpass", "bandstop" };

// 1/distances to poles and zeros measure how much a relative error of the roots is amplified
static cld eval(const Proto& q, cld s)
{
    cld h = q.k;
    // interleave to keep the product in range
    for (size_t i = 0; i < q.p.size(); i++)
    {
        if (i < q.z.size())
            h *= s - q.z[i];
        h /= s - q.p[i];
    }
    return h;
}
template <typename T>
static void design(Src& s, Case& c, int maxN)
{
    int kind = (int)s.in("proto", 0, 3);
    int N    = (int)s.in("N", 1, maxN);
    int type = (int)s.in("type", 0, 3);
    ld r     = kind == CHEB1 ? s.real("ripple", 0.1, 6) : s.real("atten", 15, 80);
    T fs     = (T)s.pick<double>("fs", { 2, 1, 44100, 48000, 100 });
    T f1, f2;
    if (type <= HIGH)
        f1 = f2 = (T)(fs * s.real("f", 0.02, 0.47));
    else
    {
        f1 = (T)(fs * s.real("flo", 0.02, 0.4));
        f2 = (T)(f1 + (fs * T(0.48) - f1) * s.real("bw", 0.15, 1));
    }
    kfr::zpk<T> proto = kind == BUTTER  ? kfr::butterworth<T>(N)
                        : kind == CHEB1 ? kfr::chebyshev1<T>(N, (T)r)
                        : kind == CHEB2 ? kfr::chebyshev2<T>(N, (T)r)
                                        : kfr::bessel<T>(N);
    Proto q;
    if (kind == BESSEL)
    {
        for (auto& p : proto.p)
            q.p.push_back(cld(p.real(), p.imag()));
        q.k = proto.k;
        if (N <= 20 && sizeof(T) == 8)
            check_bessel(c, kfr::bessel<double>(N), N);
    }
    else
        q = prototype(kind, N, (ld)(T)r);
    c.label(std::string(pnames[kind]) + " " + tnames[type]);
    c.eq(proto.p.size(), (size_t)N, "prototype order");
    kfr::zpk<T> d = type == LOW    ? kfr::iir_lowpass<T>(proto, f1, fs)
                    : type == HIGH ? kfr::iir_highpass<T>(proto, f1, fs)
                    : type == BAND ? kfr::iir_bandpass<T>(proto, f1, f2, fs)
                                   : kfr::iir_bandstop<T>(proto, f1, f2, fs);
    size_t order = type >= BAND ? 2 * N : N;
    c.eq(d.p.size(), order, "digital poles");
    c.eq(d.z.size(), order, "digital zeros");
    for (auto& p : d.p)
        c.expect(std::hypot((ld)p.real(), (ld)p.imag()) < 1 + 8 * std::numeric_limits<T>::epsilon(), "a pole is outside the unit circle");
    kfr::iir_params<T> sos = kfr::to_sos(d);
    c.eq(sos.size(), (order + 1) / 2, "number of second-order sections");
    for (auto& b : sos)
        c.expect(b.a0 == 1 && std::fabs(b.a2) < 1 + 8 * std::numeric_limits<T>::epsilon() &&
                     std::fabs(b.a1) < 1 + b.a2 + 8 * std::numeric_limits<T>::epsilon(),
                 "unstable section");

    ld eps = std::numeric_limits<T>::epsilon();
    ld w1 = std::tan(PI * (ld)f1 / (ld)fs), w2 = std::tan(PI * (ld)f2 / (ld)fs);
    ld cancel = 0;
    for (auto& v : { q.p, q.z })
        for (auto& x : v)
            if (type >= BAND)
                cancel = std::max(cancel, 4 * (w2 - w1) / 2 * (type == BAND ? std::abs(x) : 1 / std::abs(x)));
    for (int i = 0; i < 8; i++)
    {
        ld w = i == 0 ? 0.003L : i == 1 ? 0.494L : i == 2 ? (ld)f1 / (ld)fs : i == 3 ? (ld)f2 / (ld)fs
                                                                                : (ld)s.real("at", 0.005, 0.495);
        cld z = std::polar(1.0L, 2 * PI * w);
        cld a(0, std::tan(PI * w)); // bilinear: s = j tan(pi w)
        cld lp = type == LOW    ? a / w1
                 : type == HIGH ? w1 / a
                 : type == BAND ? (a * a + w1 * w2) / (a * (w2 - w1))
                                : a * (w2 - w1) / (a * a + w1 * w2);
        cld want = eval(q, lp);
        cld zk = d.k, so = 1;
        ld amp = 1, ampz = 1;
        for (size_t k = 0; k < order; k++)
        {
            cld dz = z - cld(d.z[k].real(), d.z[k].imag()), dp = z - cld(d.p[k].real(), d.p[k].imag());
            zk *= dz / dp;
            amp += 1 / std::abs(dp) + 1 / std::max(std::abs(dz), (ld)1e-12L);
            // p +- sqrt(p^2 - wo^2) cancels when one root of a pair is much smaller than the other
            amp += cancel / std::abs(dp) + cancel / std::max(std::abs(dz), (ld)1e-12L);
        }
        for (auto& b : sos)
        {
            cld num = (ld)b.b0 + (ld)b.b1 / z + (ld)b.b2 / (z * z), den = 1.0L + (ld)b.a1 / z + (ld)b.a2 / (z * z);
            so *= num / den;
            ampz += (1 + std::fabs((ld)b.a1) + std::fabs((ld)b.a2)) / std::abs(den) +
                    (std::fabs((ld)b.b0) + std::fabs((ld)b.b1) + std::fabs((ld)b.b2)) /
                        std::max(std::abs(num), 1e-12L * std::fabs((ld)b.b0));
        }
        // relative: roots carry errors of a few eps (conjugate pairs are merged within 100 eps)
        ld rel = 80 * eps * (amp + ampz) * (1 + (ld)N / 4);
        if (rel > 0.05L)
            continue; // too ill-conditioned to compare in this precision
        std::string at = fmt("%s %s N=%d f=%g..%g fs=%g at %g", pnames[kind], tnames[type], N, (double)f1, (double)f2,
                             (double)fs, (double)w);
        c.close(std::abs(zk - want), 0, rel * std::max(std::abs(want), 1e-9L), ("zpk response: " + at).c_str());
        c.close(std::abs(so - want), 0, rel * std::max(std::abs(want), 1e-9L), ("sections response: " + at).c_str());
        c.label("response compared");
    }
    c.interesting(kind, N, type, (uint64_t)((double)f1 / (double)fs * 1e7), (uint64_t)((double)f2 / (double)fs * 1e7));
}
PBT_TEST(design_f64, 3000, 200000) { design<double>(s, c, 14); }
PBT_TEST(design_high_order, 600, 40000) { design<double>(s, c, 24); }
PBT_TEST(design_f32, 1000, 60000) { design<float>(s, c, 5); }

// to_sos keeps the transfer function of any real filter given as zeros, poles and gain
PBT_TEST(sections, 3000, 200000)
{
    kfr::zpk<double> f;
    f.k        = s.real("k", 0.25, 4);
    size_t np  = (size_t)s.in("pole pairs", 0, 4), rp = (size_t)s.in("real poles", 0, 3);
    size_t nz_ = (size_t)s.in("zero pairs", 0, 4), rz = (size_t)s.in("real zeros", 0, 3);
    Rng r      = s.bulk("roots");
    bool grid  = s.flag("grid"); // repeated and equal-real-part roots
    auto rad   = [&](double m) { return grid ? m * (double)r.range(0, 4) / 4.0 : r.unit() * m; };
    auto ang   = [&]() { return grid ? 3.14159265358979 * (double)r.range(1, 5) / 6.0 : 0.05 + r.unit() * 3.0; };
    auto add   = [&](kfr::univector<kfr::complex<double>>& v, size_t pairs, size_t reals, double m)
    {
        for (size_t i = 0; i < pairs; i++)
        {
            double rr = 0.1 + rad(m - 0.1), t = ang(), re = rr * std::cos(t), im = rr * std::sin(t);
            v.push_back({ re, im });
            v.push_back({ re, -im });
        }
        for (size_t i = 0; i < reals; i++)
            v.push_back({ (r.chance(1, 2) ? 1 : -1) * rad(m), 0.0 });
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
    };
    add(f.p, np, rp, 0.9);
    add(f.z, nz_, rz, 1.2);
    if (f.z.size() > f.p.size())
        f.z.resize(0);
    size_t len = std::max(f.p.size(), f.z.size());
    auto sos   = kfr::to_sos(f);
    c.eq(sos.size(), len ? (len + 1) / 2 : (size_t)1, "number of sections");
    for (int i = 0; i < 5; i++)
    {
        ld w  = s.real("at", 0.0, 0.5);
        cld z = std::polar(1.0L, 2 * PI * w), want = f.k, got = 1;
        ld amp = 1, ceil = std::fabs(f.k);
        for (auto& p : f.p)
        {
            ld dd = std::abs(z - cld(p.real(), p.imag()));
            want /= z - cld(p.real(), p.imag());
            ceil /= dd, amp += 1 / dd;
        }
        for (auto& q : f.z)
            want *= z - cld(q.real(), q.imag()), ceil *= 1 + std::hypot((ld)q.real(), (ld)q.imag());
        // missing zeros are at the origin
        for (size_t k = f.z.size(); k < len; k++)
            want *= z;
        for (auto& b : sos)
            got *= ((ld)b.b0 + (ld)b.b1 / z + (ld)b.b2 / (z * z)) / ((ld)b.a0 + (ld)b.a1 / z + (ld)b.a2 / (z * z));
        c.close(std::abs(got - want), 0, 50 * 2.3e-16L * amp * ceil,
                fmt("sections of %zu poles, %zu zeros: response at %g", f.p.size(), f.z.size(), (double)w).c_str());
    }
    if (len)
        c.interesting(np, rp, nz_, rz, s.rec[5], grid);
}
