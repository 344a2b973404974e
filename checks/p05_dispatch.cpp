// Run-time dispatch, as the library is shipped: every instruction set computes the same thing.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include <kfr/runtime.hpp>
#include <array>
#include <memory>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

static const kfr::cpu_t CPUS[] = { kfr::cpu_t::sse2,  kfr::cpu_t::sse3, kfr::cpu_t::ssse3, kfr::cpu_t::sse41,
                                   kfr::cpu_t::sse42, kfr::cpu_t::avx,  kfr::cpu_t::avx2,  kfr::cpu_t::avx512 };
static const char* NAMES[]     = { "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512" };

struct Using
{
    kfr::cpu_t old;
    Using(kfr::cpu_t c) : old(kfr::override_cpu(c)) {}
    ~Using() { kfr::override_cpu(old); }
};
// run f on every instruction set; compare with `want` (real numbers)
template <typename F>
static void everywhere(Case& c, const std::vector<ld>& want, ld tol, F f)
{
    static const kfr::cpu_t machine = kfr::get_cpu();
    for (size_t k = 0; k < 8 && CPUS[k] <= machine; k++)
    {
        Using u(CPUS[k]);
        c.expect(kfr::get_cpu() == CPUS[k], "override_cpu");
        std::vector<ld> got = f();
        if (got.size() != want.size())
            c.fail(pbt::fmt("%s: %zu values, expected %zu", NAMES[k], got.size(), want.size()));
        for (size_t i = 0; i < got.size(); i++)
            c.close(got[i], want[i], tol, NAMES[k], (long long)i);
    }
}
static ld maxabs(const std::vector<ld>& v)
{
    ld m = 0;
    for (ld x : v)
        m = std::max(m, std::fabs(x));
    return m;
}

template <typename T>
static void transforms(Src& s, Case& c)
{
    int kind     = (int)s.in("kind", 0, 2); // complex, real, dct
    size_t n     = (size_t)s.skew("n", 1, 600);
    bool inverse = s.flag("inverse"), temp = s.flag("temp"), inplace = kind == 0 && s.flag("inplace"), perm = s.flag("perm");
    if (kind == 1)
        n = (n + 1) & ~(size_t)1;
    auto x = complex_signal<T>(s, n);
    std::vector<ld> want;
    std::vector<cld> w(n);
    for (size_t i = 0; i < n; i++)
        w[i] = kind ? cld(x[i].real(), 0) : cld(x[i].real(), x[i].imag());
    ld nrm = ref::norm2(w), tol;
    const ld PI = 3.14159265358979323846264338327950288L;
    if (kind == 0)
    {
        for (auto v : ref::dft(w, inverse))
            want.push_back(v.real()), want.push_back(v.imag());
        tol = ref::tol<T>(n, nrm, maxabs(want));
        everywhere(c, want, tol,
                   [&]
                   {
                       kfr::dft_plan<T> plan(n);
                       Buf<kfr::complex<T>> in(n), out(n);
                       Buf<unsigned char> t(plan.temp_size);
                       for (size_t i = 0; i < n; i++)
                           in[i] = kfr::complex<T>(x[i].real(), x[i].imag());
                       auto* o = inplace ? in.data() : out.data();
                       plan.execute(o, in.data(), temp ? t.data() : nullptr, inverse);
                       in.check(c, "input"), out.check(c, "output"), t.check(c, "temp");
                       std::vector<ld> r;
                       for (size_t i = 0; i < n; i++)
                           r.push_back(o[i].real()), r.push_back(o[i].imag());
                       return r;
                   });
    }
    else if (kind == 1)
    {
        auto X    = ref::dft(w, false);
        size_t h  = n / 2, bins = perm ? h : h + 1;
        auto fmt_ = perm ? kfr::dft_pack_format::Perm : kfr::dft_pack_format::CCs;
        std::vector<ld> spec;
        for (size_t k = 0; k < bins; k++)
            spec.push_back(X[k].real()), spec.push_back(k == 0 || k == h ? 0 : X[k].imag());
        if (perm)
            spec[1] = X[h].real();
        tol = ref::tol<T>(n, nrm, maxabs(spec));
        if (inverse)
        {
            tol = tol * n + std::numeric_limits<T>::epsilon() * maxabs(spec) * n;
            for (size_t i = 0; i < n; i++)
                want.push_back(w[i].real() * n);
        }
        else
            want = spec;
        everywhere(c, want, tol,
                   [&]
                   {
                       kfr::dft_plan_real<T> plan(n, fmt_);
                       Buf<kfr::complex<T>> sp(bins);
                       Buf<T> re(n);
                       Buf<unsigned char> t(plan.temp_size);
                       std::vector<ld> r;
                       if (inverse)
                       {
                           for (size_t k = 0; k < bins; k++)
                               sp[k] = kfr::complex<T>((T)spec[2 * k], (T)spec[2 * k + 1]);
                           plan.execute(re.data(), sp.data(), temp ? t.data() : nullptr);
                           r.assign(re.data(), re.data() + n);
                       }
                       else
                       {
                           for (size_t i = 0; i < n; i++)
                               re[i] = x[i].real();
                           plan.execute(sp.data(), re.data(), temp ? t.data() : nullptr);
                           for (size_t k = 0; k < bins; k++)
                               r.push_back(sp[k].real()), r.push_back(sp[k].imag());
                       }
                       sp.check(c, "spectrum"), re.check(c, "samples"), t.check(c, "temp");
                       return r;
                   });
    }
    else
    {
        n = std::min<size_t>(n, 200);
        for (size_t k = 0; k < n; k++)
        {
            ld v = 0;
            for (size_t i = 0; i < n; i++)
                v += inverse ? w[i].real() * (i ? std::cos(PI * i * (k + 0.5L) / n) : 0.5L)
                             : w[i].real() * std::cos(PI * k * (i + 0.5L) / n);
            want.push_back(v);
        }
        tol = ref::tol<T>(2 * n, 2 * nrm, 2 * nrm) + 16 * std::numeric_limits<T>::epsilon() * nrm * std::sqrt((ld)n);
        everywhere(c, want, tol,
                   [&]
                   {
                       kfr::dct_plan<T> plan(n);
                       std::vector<T> in(n), out(n);
                       for (size_t i = 0; i < n; i++)
                           in[i] = x[i].real();
                       plan.execute(out.data(), in.data(), nullptr, inverse);
                       return std::vector<ld>(out.begin(), out.end());
                   });
    }
    c.label(kind == 0 ? "complex" : kind == 1 ? "real" : "dct");
    if (n > 1 && nrm > 0)
        c.interesting(kind, n, inverse, temp, inplace, perm, s.rec.back());
}
PBT_TEST(transforms_f32, 500, 30000) { transforms<float>(s, c); }
PBT_TEST(transforms_f64, 500, 30000) { transforms<double>(s, c); }

template <typename T>
static void convolutions(Src& s, Case& c)
{
    int kind = (int)s.in("kind", 0, 2);
    size_t n = (size_t)s.skew("n", 1, 200), m = kind == 2 ? n : (size_t)s.skew("m", 1, 200);
    auto a = real_signal<T>(s, n), b = kind == 2 ? a : real_signal<T>(s, m);
    std::vector<ld> want(n + m - 1, 0);
    ld na = 0, nb = 0;
    for (auto v : a)
        na += (ld)v * v;
    for (auto v : b)
        nb += (ld)v * v;
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < m; j++)
            want[i + (kind ? m - 1 - j : j)] += (ld)a[i] * b[j];
    if (kind == 2)
        want.erase(want.begin(), want.begin() + (long)(m - 1));
    ld tol = 64 * std::numeric_limits<T>::epsilon() * std::sqrt(na * nb) * std::log2((ld)(n + m + 2));
    everywhere(c, want, tol,
               [&]
               {
                   kfr::univector<T> x(a.begin(), a.end()), y(b.begin(), b.end());
                   kfr::univector<T> r = kind == 0 ? kfr::convolve(x, y) : kind == 1 ? kfr::correlate(x, y) : kfr::autocorrelate(x);
                   return std::vector<ld>(r.begin(), r.end());
               });
    if (n + m > 2)
        c.interesting(kind, n, m, s.rec.back());
}
PBT_TEST(convolutions_f32, 150, 8000) { convolutions<float>(s, c); }
PBT_TEST(convolutions_f64, 150, 8000) { convolutions<double>(s, c); }

// stateful objects: the same history on every instruction set
template <typename T>
static void streams(Src& s, Case& c)
{
    int kind = (int)s.in("kind", 0, 3); // fir, iir, convolution, resampler
    Rng r    = s.bulk("data");
    size_t n = (size_t)s.in("n", 1, kind == 1 ? 10 : 60);
    size_t total = (size_t)s.in("total", 1, 500);
    auto parts   = s.splits("blocks", total, 120);
    std::vector<T> x(total), taps(n);
    for (auto& v : x)
        v = (T)r.sym();
    for (auto& v : taps)
        v = (T)(r.sym() / (double)n);
    std::vector<kfr::biquad_section<T>> sec;
    std::vector<ld> want;
    ld eps = std::numeric_limits<T>::epsilon(), tol = 64 * eps;
    int64_t ip = 1, dc = 1;
    if (kind == 0 || kind == 2)
        for (size_t i = 0; i < total; i++)
        {
            ld v = 0;
            for (size_t k = 0; k < n && k <= i; k++)
                v += (ld)taps[k] * x[i - k];
            want.push_back(v);
        }
    else if (kind == 1)
    {
        for (size_t k = 0; k < n; k++)
        {
            double rad = 0.9 * r.unit(), w = 3.14 * r.unit();
            sec.push_back(kfr::biquad_section<T>{ (T)1, (T)(-2 * rad * std::cos(w)), (T)(rad * rad), (T)(r.sym() * 0.3),
                                                  (T)(r.sym() * 0.3), (T)(r.sym() * 0.3) });
        }
        std::vector<std::array<ld, 2>> st(n, { 0, 0 });
        ld peak = 1;
        for (T v0 : x)
        {
            ld v = v0;
            for (size_t k = 0; k < n; k++)
            {
                ld y     = sec[k].b0 * v + st[k][0];
                st[k][0] = sec[k].b1 * v - sec[k].a1 * y + st[k][1];
                st[k][1] = sec[k].b2 * v - sec[k].a2 * y;
                v        = y;
                peak     = std::max(peak, std::fabs(v));
            }
            want.push_back(v);
        }
        tol = 2000 * eps * n * peak;
    }
    else
    {
        ip = s.in("interpolation", 1, 8), dc = s.in("decimation", 1, 8);
    }
    int quality = (int)s.in("quality", 0, 2);
    bool first  = true;
    auto run    = [&]
    {
        std::vector<ld> out;
        size_t pos = 0;
        if (kind == 3)
        {
            kfr::samplerate_converter<T> sc(kfr::resample_quality::draft, ip, dc, T(1), 0.49);
            size_t want_out = (size_t)(total * (size_t)ip / (size_t)dc);
            for (size_t p : parts)
            {
                size_t o = sc.output_size_for_input(p);
                if (pos + sc.input_size_for_output(o) > total)
                    break;
                kfr::univector<T> y(o), in(x.begin() + (long)pos, x.end());
                pos += sc.process(y, in);
                out.insert(out.end(), y.begin(), y.end());
            }
            (void)want_out;
            return out;
        }
        std::unique_ptr<kfr::filter<T>> f;
        if (kind == 0)
            f.reset(new kfr::fir_filter<T>(kfr::univector<T>(taps.begin(), taps.end())));
        else if (kind == 1)
            f.reset(new kfr::iir_filter<T>(kfr::iir_params{ sec }));
        else
            f.reset(new kfr::convolve_filter<T>(kfr::univector<T>(taps.begin(), taps.end()), (size_t)8 << quality));
        for (size_t p : parts)
        {
            Buf<T> in(p, 1), o(p, 2);
            for (size_t i = 0; i < p; i++)
                in[i] = x[pos + i];
            f->apply(o.data(), in.data(), p);
            o.check(c, "output");
            out.insert(out.end(), o.data(), o.data() + p);
            pos += p;
        }
        return out;
    };
    if (kind == 3)
    {
        // the converter itself is checked elsewhere; here the instruction sets must agree
        Using u(kfr::cpu_t::sse2);
        want = run();
        tol  = 256 * eps;
    }
    (void)first;
    everywhere(c, want, tol, run);
    c.label(kind == 0 ? "fir" : kind == 1 ? "iir" : kind == 2 ? "convolution" : "resampler");
    if (total > 1)
        c.interesting(kind, n, total, parts.size(), ip, dc, s.rec.size());
}
PBT_TEST(streams_f32, 250, 12000) { streams<float>(s, c); }
PBT_TEST(streams_f64, 250, 12000) { streams<double>(s, c); }

// the machine's own choice is one of the sets it supports and works
PBT_TEST(native, 40, 400)
{
    static const kfr::cpu_t detected = kfr::get_cpu();
    c.expect(detected >= kfr::cpu_t::sse2 && detected <= kfr::cpu_t::avx512, "detected instruction set");
    __builtin_cpu_init();
    kfr::cpu_t best = kfr::cpu_t::sse2;
    if (__builtin_cpu_supports("sse3"))
        best = kfr::cpu_t::sse3;
    if (__builtin_cpu_supports("ssse3"))
        best = kfr::cpu_t::ssse3;
    if (__builtin_cpu_supports("sse4.1"))
        best = kfr::cpu_t::sse41;
    if (__builtin_cpu_supports("sse4.2"))
        best = kfr::cpu_t::sse42;
    if (__builtin_cpu_supports("avx"))
        best = kfr::cpu_t::avx;
    if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma"))
        best = kfr::cpu_t::avx2;
    if (__builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512cd") && __builtin_cpu_supports("avx512bw") &&
        __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512vl"))
        best = kfr::cpu_t::avx512;
    c.expect((int)detected <= (int)best, "detected an instruction set this machine does not have");
    size_t n = (size_t)s.in("n", 1, 100);
    c.interesting(n);
}
