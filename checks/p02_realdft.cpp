// Real-input DFT in both packed layouts, forward and inverse, and the spectrum products defined on them.
#include <kfr/dft.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

static size_t pick_even(Src& s, size_t maxn)
{
    size_t h = maxn / 2;
    switch (s.in(0, 3))
    {
    case 0:
        return 2 * (size_t)s.skew("n/2", 1, (int64_t)std::min<size_t>(h, 70));
    case 1:
    {
        int mx = 0;
        while ((4u << mx) <= maxn)
            mx++;
        return (size_t)2 << s.in("log2(n/2)", 0, mx);
    }
    case 2:
    {
        size_t n = 2;
        for (int k = 0; k < 8; k++)
        {
            size_t r = s.pick<int>(nullptr, { 1, 2, 3, 4, 5, 6, 7, 9, 11, 13 });
            if (n * r > maxn)
                break;
            n *= r;
        }
        s.describe("n", (long long)n);
        return n;
    }
    default:
        return 2 * (size_t)s.in("n/2", 1, (int64_t)h);
    }
}

template <typename T>
static void forward_inverse(Src& s, Case& c, size_t n, bool full)
{
    using C     = kfr::complex<T>;
    auto fmt    = s.flag("perm") ? kfr::dft_pack_format::Perm : kfr::dft_pack_format::CCs;
    bool perm   = fmt == kfr::dft_pack_format::Perm;
    bool inplace = s.flag("inplace"), temp = s.flag("temp");
    bool backward = s.flag("inverse");
    size_t mis    = s.flag("misaligned", 1, 4) ? (size_t)s.in("by", 1, 3) : 0;
    kfr::dft_plan_real<T> plan(n, fmt);
    c.eq(plan.size, n, "plan.size");
    c.eq(plan.complex_size(), perm ? n / 2 : n / 2 + 1, "complex_size");
    c.eq(kfr::dft_plan_real<T>::complex_size_for(n, fmt), plan.complex_size(), "complex_size_for");
    Buf<unsigned char> tmp(plan.temp_size);
    auto x = real_signal<T>(s, n);
    std::vector<std::complex<ld>> cx(n);
    for (size_t i = 0; i < n; i++)
        cx[i] = (ld)x[i];
    size_t half = n / 2;
    ld nrm      = ref::norm2(cx);
    if (!backward)
    {
        Buf<C> spec(plan.complex_size(), mis);
        Buf<T> in(n, mis);
        for (size_t i = 0; i < n; i++)
            in[i] = x[i];
        T* ip = inplace ? (T*)spec.data() : in.data();
        for (size_t i = 0; i < n; i++)
            ip[i] = x[i];
        plan.execute(spec.data(), ip, temp ? tmp.data() : nullptr);
        spec.check(c, "spectrum");
        in.check(c, "input");
        tmp.check(c, "temp");
        for (size_t i = 0; i < n; i++)
            c.expect(in[i] == x[i], pbt::fmt("input changed at %zu", i));
        ld mx = 0;
        for (size_t k = 0; k < plan.complex_size(); k++)
            mx = std::max(mx, (ld)std::hypot(spec[k].real(), spec[k].imag()));
        ld tol = ref::tol<T>(n / 2, nrm, mx) + ref::tol<T>(n, nrm, mx);
        std::vector<size_t> bins;
        if (full)
            for (size_t k = 0; k <= half; k++)
                bins.push_back(k);
        else
        {
            Rng r(n * 17 + 3);
            bins = { 0, half, half / 2, half - 1, std::min<size_t>(1, half) };
            for (int k = 0; k < 16; k++)
                bins.push_back(r.below(half + 1));
        }
        for (size_t k : bins)
        {
            auto w = ref::dft_bin(cx, k, false);
            if (perm && (k == 0 || k == half))
                c.close(k == 0 ? spec[0].real() : spec[0].imag(), w.real(), tol,
                        k == 0 ? "Perm DC" : "Perm Nyquist");
            else
            {
                c.close(spec[k].real(), w.real(), tol, "re X", (long long)k);
                if (k == 0 || k == half)
                    c.expect(spec[k].imag() == 0, pbt::fmt("CCs bin %zu must have a zero imaginary part", k));
                c.close(spec[k].imag(), k == 0 || k == half ? 0 : w.imag(), tol, "im X", (long long)k);
            }
        }
    }
    else
    {
        // a Hermitian spectrum given by its first half
        auto h = complex_signal<T>(s, half + 1, "spec");
        h[0].imag(0), h[half].imag(0);
        Buf<C> spec(plan.complex_size(), mis);
        std::vector<C> orig(plan.complex_size());
        for (size_t k = 0; k < plan.complex_size(); k++)
            orig[k] = C(h[k].real(), h[k].imag());
        if (perm)
            orig[0] = C(h[0].real(), h[half].real());
        for (size_t k = 0; k < orig.size(); k++)
            spec[k] = orig[k];
        Buf<T> out(n, mis);
        T* op = inplace ? (T*)spec.data() : out.data();
        plan.execute(op, spec.data(), temp ? tmp.data() : nullptr);
        spec.check(c, "spectrum");
        out.check(c, "output");
        tmp.check(c, "temp");
        if (!inplace)
            for (size_t k = 0; k < orig.size(); k++)
                c.expect(spec[k].real() == orig[k].real() && spec[k].imag() == orig[k].imag(),
                         pbt::fmt("spectrum changed at %zu", k));
        std::vector<std::complex<ld>> fullspec(n);
        for (size_t k = 0; k <= half; k++)
        {
            fullspec[k] = std::complex<ld>(h[k].real(), h[k].imag());
            if (k && k < half)
                fullspec[n - k] = std::conj(fullspec[k]);
        }
        ld fn = ref::norm2(fullspec), mx = 0;
        for (size_t i = 0; i < n; i++)
            mx = std::max(mx, (ld)std::fabs(op[i]));
        ld tol = ref::tol<T>(n / 2, fn, mx) + ref::tol<T>(n, fn, mx);
        Rng r(n);
        for (size_t i = 0; i < (full ? n : 20); i++)
        {
            size_t k = full ? i : r.below(n);
            auto w   = ref::dft_bin(fullspec, k, true);
            c.close(op[k], w.real(), tol, "x", (long long)k);
        }
    }
    c.label(perm ? "Perm" : "CCs");
    c.label(backward ? "c2r" : "r2c");
    c.label(inplace ? "inplace" : "outofplace");
    if (nrm > 0)
        c.interesting(n, perm, backward, inplace, temp, mis, s.rec.back());
}
PBT_TEST(every_even_size_f32, 400, 2000) { forward_inverse<float>(s, c, 2 * (size_t)s.sweep("n/2", 1, 200), true); }
PBT_TEST(every_even_size_f64, 400, 2000) { forward_inverse<double>(s, c, 2 * (size_t)s.sweep("n/2", 1, 200), true); }
PBT_TEST(mixed_size_f32, 400, 6000) { forward_inverse<float>(s, c, pick_even(s, 600), true); }
PBT_TEST(mixed_size_f64, 400, 6000) { forward_inverse<double>(s, c, pick_even(s, 600), true); }
PBT_TEST(large_size_f32, 80, 1500) { forward_inverse<float>(s, c, pick_even(s, 70000), false); }
PBT_TEST(large_size_f64, 80, 1500) { forward_inverse<double>(s, c, pick_even(s, 70000), false); }

template <typename T>
static void roundtrip(Src& s, Case& c)
{
    size_t n = pick_even(s, 3000);
    auto x   = real_signal<T>(s, n);
    kfr::univector<T> u(n);
    for (size_t i = 0; i < n; i++)
        u[i] = x[i];
    auto sp = kfr::realdft(u);
    c.eq(sp.size(), n / 2 + 1, "realdft size");
    auto b = kfr::irealdft(sp);
    c.eq(b.size(), n, "irealdft size");
    // agreement with the complex transform of the same samples
    kfr::univector<kfr::complex<T>> cu(n);
    for (size_t i = 0; i < n; i++)
        cu[i] = kfr::complex<T>(x[i], 0);
    auto cs = kfr::dft(cu);
    ld nrm = 0, mx = 0, mb = 0;
    for (size_t i = 0; i < n; i++)
        nrm += (ld)x[i] * x[i], mb = std::max(mb, std::fabs((ld)x[i]) * n);
    nrm = std::sqrt(nrm);
    for (size_t k = 0; k <= n / 2; k++)
        mx = std::max(mx, (ld)std::hypot(sp[k].real(), sp[k].imag()));
    ld tol = 2 * ref::tol<T>(n, nrm, mx) + ref::tol<T>(n / 2, nrm, mx);
    for (size_t k = 0; k <= n / 2; k++)
    {
        c.close(sp[k].real(), cs[k].real(), tol, "re realdft vs dft", (long long)k);
        c.close(sp[k].imag(), cs[k].imag(), tol, "im realdft vs dft", (long long)k);
    }
    ld t2 = tol * std::sqrt((ld)n) + 2 * ref::tol<T>(n, nrm * std::sqrt((ld)n), mb);
    for (size_t i = 0; i < n; i++)
        c.close(b[i], (ld)n * x[i], t2, "irealdft(realdft(x))", (long long)i);
    if (nrm > 0)
        c.interesting(n, s.rec.back());
}
PBT_TEST(roundtrip_f32, 200, 4000) { roundtrip<float>(s, c); }
PBT_TEST(roundtrip_f64, 200, 4000) { roundtrip<double>(s, c); }

// fft_multiply & co. treat bin 0 of the Perm layout as two independent real bins
template <typename T>
static void products(Src& s, Case& c)
{
    using C   = kfr::complex<T>;
    size_t n  = (size_t)s.skew("bins", 1, 70);
    bool perm = s.flag("perm");
    auto f    = perm ? kfr::dft_pack_format::Perm : kfr::dft_pack_format::CCs;
    int op    = (int)s.in("op", 0, 2);
    auto A = complex_signal<T>(s, n), B = complex_signal<T>(s, n), D = complex_signal<T>(s, n);
    kfr::univector<C> a(n), b(n), d(n);
    for (size_t i = 0; i < n; i++)
        a[i] = C(A[i].real(), A[i].imag()), b[i] = C(B[i].real(), B[i].imag()), d[i] = C(D[i].real(), D[i].imag());
    bool alias = s.flag("alias");
    kfr::univector<C> r(n);
    if (op == 0)
    {
        if (alias)
            r = a, kfr::fft_multiply(r, r, b, f);
        else
            kfr::fft_multiply(r, a, b, f);
    }
    else if (op == 1)
        r = d, kfr::fft_multiply_accumulate(r, a, b, f);
    else if (alias)
        r = d, kfr::fft_multiply_accumulate(r, r, a, b, f);
    else
        kfr::fft_multiply_accumulate(r, d, a, b, f);
    for (size_t i = 0; i < n; i++)
    {
        cld p = (perm && i == 0)
                    ? cld((ld)A[0].real() * B[0].real(), (ld)A[0].imag() * B[0].imag())
                    : cld((ld)A[i].real() * B[i].real() - (ld)A[i].imag() * B[i].imag(),
                          (ld)A[i].real() * B[i].imag() + (ld)A[i].imag() * B[i].real());
        ld m = std::hypot((ld)A[i].real(), (ld)A[i].imag()) * std::hypot((ld)B[i].real(), (ld)B[i].imag());
        if (op)
            p += cld(D[i].real(), D[i].imag()), m += std::hypot((ld)D[i].real(), (ld)D[i].imag());
        ld tol = 6 * std::numeric_limits<T>::epsilon() * m + 1e-37L;
        c.close(r[i].real(), p.real(), tol, "re product", (long long)i);
        c.close(r[i].imag(), p.imag(), tol, "im product", (long long)i);
    }
    c.interesting(n, perm, op, alias, s.rec.back());
}
PBT_TEST(spectrum_products_f32, 400, 8000) { products<float>(s, c); }
PBT_TEST(spectrum_products_f64, 400, 8000) { products<double>(s, c); }
