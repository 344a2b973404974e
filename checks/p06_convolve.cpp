// convolve / correlate / autocorrelate and the streaming convolve_filter against direct summation.
#include <kfr/dft.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

template <typename T>
struct info
{
    using sub                     = T;
    static constexpr bool cplx    = false;
    static T make(ld re, ld)      { return (T)re; }
    static cld get(const T& x)    { return cld(x, 0); }
};
template <typename T>
struct info<kfr::complex<T>>
{
    using sub                              = T;
    static constexpr bool cplx             = true;
    static kfr::complex<T> make(ld re, ld im) { return kfr::complex<T>((T)re, (T)im); }
    static cld get(const kfr::complex<T>& x) { return cld(x.real(), x.imag()); }
};
template <typename T>
static kfr::univector<T> signal(Src& s, size_t n, std::vector<cld>& v, const char* name)
{
    kfr::univector<T> u(n);
    v.resize(n);
    if (info<T>::cplx)
    {
        auto x = complex_signal<typename info<T>::sub>(s, n, name);
        for (size_t i = 0; i < n; i++)
            u[i] = info<T>::make(x[i].real(), x[i].imag());
    }
    else
    {
        auto x = real_signal<typename info<T>::sub>(s, n, name);
        for (size_t i = 0; i < n; i++)
            u[i] = info<T>::make(x[i], 0);
    }
    for (size_t i = 0; i < n; i++)
        v[i] = info<T>::get(u[i]);
    return u;
}
static ld norm(const std::vector<cld>& v)
{
    ld s = 0;
    for (auto& x : v)
        s += std::norm(x);
    return std::sqrt(s);
}
static std::vector<cld> direct(const std::vector<cld>& a, const std::vector<cld>& b)
{
    std::vector<cld> r(a.size() + b.size() - 1);
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < b.size(); j++)
            r[i + j] += cld(a[i].real() * b[j].real() - a[i].imag() * b[j].imag(),
                            a[i].real() * b[j].imag() + a[i].imag() * b[j].real());
    return r;
}
// FFT convolution: each output carries an error of a few eps of ||a||*||b|| per stage
template <typename T>
static ld tol(size_t n, ld na, ld nb)
{
    return std::numeric_limits<T>::epsilon() * (12 + 8 * std::log2((ld)n + 1)) * na * nb + 1e-36L;
}

template <typename T>
static void oneshot(Src& s, Case& c)
{
    using S  = typename info<T>::sub;
    size_t n = (size_t)s.skew("n", 1, 300), m = (size_t)s.skew("m", 1, 300);
    int op   = (int)s.in("op", 0, 2);
    std::vector<cld> a, b;
    auto u = signal<T>(s, n, a, "a");
    auto v = signal<T>(s, m, b, "b");
    if (op == 2)
        b = a, m = n;
    kfr::univector<T> r = op == 0 ? kfr::convolve(u, v) : op == 1 ? kfr::correlate(u, v) : kfr::autocorrelate(u);
    std::vector<cld> rb = b;
    if (op)
        std::reverse(rb.begin(), rb.end());
    auto w = direct(a, rb);
    if (op == 2)
        w.erase(w.begin(), w.begin() + w.size() / 2);
    c.eq(r.size(), w.size(), "result size");
    ld t = tol<S>(n + m, norm(a), norm(b));
    for (size_t i = 0; i < w.size(); i++)
    {
        auto g = info<T>::get(r[i]);
        c.close(g.real(), w[i].real(), t, "re", (long long)i);
        c.close(g.imag(), w[i].imag(), t, "im", (long long)i);
    }
    c.label(op == 0 ? "convolve" : op == 1 ? "correlate" : "autocorrelate");
    if (norm(a) > 0 && norm(b) > 0 && n > 1)
        c.interesting(n, m, op, s.rec.back());
}
PBT_TEST(oneshot_f32, 400, 8000) { oneshot<float>(s, c); }
PBT_TEST(oneshot_f64, 400, 8000) { oneshot<double>(s, c); }
PBT_TEST(oneshot_c32, 300, 6000) { oneshot<kfr::complex<float>>(s, c); }
PBT_TEST(oneshot_c64, 300, 6000) { oneshot<kfr::complex<double>>(s, c); }

// A history of pushes, resets and data changes against causal direct summation since the last reset.
template <typename T>
static void stream(Src& s, Case& c)
{
    using S   = typename info<T>::sub;
    size_t bs = s.flag() ? (size_t)1 << s.in("log2block", 0, 8) : (size_t)s.in("block", 1, 200);
    size_t m  = (size_t)s.skew("taps", 1, 500);
    std::vector<cld> h;
    auto uh = signal<T>(s, m, h, "h");
    kfr::convolve_filter<T> f(uh.slice(), bs);
    c.expect(f.input_block_size() >= bs && (f.input_block_size() & (f.input_block_size() - 1)) == 0,
             "block size must be the next power of two");
    size_t fb     = f.input_block_size();
    size_t rounds = (size_t)s.in("rounds", 1, 3);
    size_t npush = 0, nsplit = 0;
    for (size_t round = 0; round < rounds; round++)
    {
        if (round)
        {
            if (s.flag("newdata"))
            {
                m  = (size_t)s.skew("taps", 1, 500);
                uh = signal<T>(s, m, h, "h");
                f.set_data(uh.slice());
            }
            else
                f.reset();
        }
        size_t n = (size_t)s.skew("n", 1, 700);
        std::vector<cld> x;
        auto ux    = signal<T>(s, n, x, "x");
        auto parts = s.splits("push", n, s.flag() ? n : fb * 2);
        Buf<T> out(n);
        size_t p = 0;
        int api  = (int)s.in("api", 0, 2);
        for (size_t k : parts)
        {
            if (api == 0)
                f.apply(out.data() + p, ux.data() + p, k);
            else if (api == 1)
            { // in place
                for (size_t i = 0; i < k; i++)
                    out[p + i] = ux[p + i];
                f.apply(out.data() + p, k);
            }
            else
            {
                kfr::univector<T> in(k), o(k);
                for (size_t i = 0; i < k; i++)
                    in[i] = ux[p + i];
                if (k)
                    f.apply(o, in);
                for (size_t i = 0; i < k; i++)
                    out[p + i] = o[i];
            }
            p += k;
            npush += k > 0;
        }
        nsplit += parts.size() > 1;
        out.check(c, "output");
        auto w = direct(x, h);
        ld t   = tol<S>(2 * fb, norm(x), norm(h)) * 2;
        for (size_t i = 0; i < n; i++)
        {
            auto g = info<T>::get(out[i]);
            c.close(g.real(), w[i].real(), t, "re y", (long long)i);
            c.close(g.imag(), w[i].imag(), t, "im y", (long long)i);
        }
    }
    c.label(m > fb ? "several segments" : "one segment");
    if (npush > 1)
        c.interesting(bs, m, npush, rounds, s.rec.back());
}
PBT_TEST(stream_f32, 400, 8000) { stream<float>(s, c); }
PBT_TEST(stream_f64, 400, 8000) { stream<double>(s, c); }
PBT_TEST(stream_c32, 300, 6000) { stream<kfr::complex<float>>(s, c); }
PBT_TEST(stream_c64, 300, 6000) { stream<kfr::complex<double>>(s, c); }
