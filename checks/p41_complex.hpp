// Complex arithmetic and functions on numbers, vectors of any width and expressions against std::complex<long double>.
#include <kfr/base.hpp>
#include <kfr/math.hpp>
#include <kfr/simd.hpp>
#include "pbt.hpp"
using namespace pbt;

namespace cx
{
using ld = long double;
using cl = std::complex<ld>;
using kfr::complex;
using kfr::vec;
template <typename T>
using L = std::numeric_limits<T>;
constexpr ld pi = 3.14159265358979323846264338327950288L;

enum Style
{
    Moderate,
    Magnitude, // any magnitude whose square and square root are normal numbers
    Grid, // small whole parts: zeros, equal parts, the axes and diagonals
    Mixed
};

template <typename T>
static complex<T> arg(Rng& r, int style, double top)
{
    if (style == Mixed)
        style = (int)r.below(3);
    switch (style)
    {
    case Moderate: return { (T)(r.sym() * std::min(top, 3.0)), (T)(r.sym() * std::min(top, 3.0)) };
    case Magnitude:
    {
        const double e = std::min(top, sizeof(T) == 4 ? 1e15 : 1e140), lo = 1 / (sizeof(T) == 4 ? 1e15 : 1e140);
        auto one       = [&] { return (T)((r.chance(1, 2) ? 1 : -1) * std::exp(std::log(lo) + std::log(e / lo) * r.unit())); };
        T a = one(), b = one();
        if (r.chance(1, 2)) // comparable parts
            b = (T)std::max(std::min(a * (0.5 + r.unit()), e), -e);
        return { a, b };
    }
    default: return { (T)r.range(-2, 2), (T)r.range(-2, 2) };
    }
}

static std::string show(cl x) { return fmt("(%.17Lg, %.17Lg)", x.real(), x.imag()); }

#ifdef CALIBRATE
static void calib(const char* n, double v)
{
    static std::map<std::string, double> worst_of;
    double& w = worst_of[n];
    if (!(v <= w))
    {
        w = v;
        if (FILE* f = fopen("/tmp/p40.cal", "a"))
        {
            fprintf(f, "%s %.3g\n", n, v);
            fclose(f);
        }
    }
}
#endif

template <typename T>
static void near(Case& c, const char* name, const std::string& at, complex<T> got, cl want, ld tr, ld ti)
{
    for (int p = 0; p < 2; p++)
    {
        ld g = p ? got.imag() : got.real(), w = p ? want.imag() : want.real(), t = p ? ti : tr, e = std::fabs(g - w);
#ifdef CALIBRATE
        calib((std::string(name) + (p ? " im" : " re") + (sizeof(T) == 4 ? " f32" : " f64")).c_str(), (double)(e / t));
        if (!(e <= t))
            fprintf(stderr, "%s\n", fmt("%s part of %s(%s) is %.17Lg, expected %.17Lg, |error| %.3Lg > tolerance %.3Lg (%zu-bit)", p ? "imaginary" : "real", name, at.c_str(), g, w, e, t, sizeof(T) * 8).c_str());
        continue;
#endif
        if (t > 0 && (double)(e / t) > c.worst)
            c.worst = (double)(e / t);
        if (!(e <= t))
            c.fail(fmt("%s part of %s(%s) is %.17Lg, expected %.17Lg, |error| %.3Lg > tolerance %.3Lg (%zu-bit)", p ? "imaginary" : "real", name, at.c_str(), g, w, e, t, sizeof(T) * 8));
    }
}
template <typename T>
static void near(Case& c, const char* name, const std::string& at, T got, cl want, ld tr, ld)
{
    near<T>(c, name, at, complex<T>(got, 0), cl(want.real(), 0), tr, 1);
}

constexpr size_t total = 24;
template <size_t N, typename T, typename R, typename Fn>
static void by_vectors(Fn fn, const std::vector<complex<T>>& x, std::vector<R>& y)
{
    for (size_t i = 0; i + N <= x.size(); i += N)
        kfr::write(y.data() + i, vec<R, N>(fn(kfr::read<N>(x.data() + i))));
}
template <size_t N, typename T, typename R, typename Fn>
static void by_vectors(Fn fn, const std::vector<complex<T>>& x, const std::vector<complex<T>>& z, std::vector<R>& y)
{
    for (size_t i = 0; i + N <= x.size(); i += N)
        kfr::write(y.data() + i, vec<R, N>(fn(kfr::read<N>(x.data() + i), kfr::read<N>(z.data() + i))));
}

// one argument; R is T or complex<T>; tol gives the tolerance of both parts
template <typename T, typename R, typename Fn, typename Ref, typename Tol>
static void unary(Src& s, Case& c, const char* name, double top, Fn fn, Ref ref, Tol tol)
{
    const int form  = (int)s.in("form", 0, 5);
    const int style = (int)s.in("style", 0, 3);
    Rng r           = s.bulk("x");
    const size_t n  = form == 5 ? (size_t)s.in("n", 1, 30) : total;
    s.say(name);
    std::vector<complex<T>> x(n);
    std::vector<R> y(n, R(77));
    for (auto& v : x)
        v = arg<T>(r, style, top);
    switch (form)
    {
    case 0:
        for (size_t i = 0; i < n; i++)
            y[i] = fn(x[i]);
        break;
    case 1: by_vectors<1>(fn, x, y); break;
    case 2: by_vectors<3>(fn, x, y); break;
    case 3: by_vectors<4>(fn, x, y); break;
    case 4: by_vectors<8>(fn, x, y); break;
    default:
    {
        kfr::univector<complex<T>> ux(n);
        kfr::univector<R> uy(n);
        std::copy(x.begin(), x.end(), ux.begin());
        uy = fn(ux);
        std::copy(uy.begin(), uy.end(), y.begin());
    }
    }
    for (size_t i = 0; i < n; i++)
    {
        cl w = ref((cl)x[i]);
        if (!(std::isfinite(w.real()) && std::isfinite(w.imag())))
            continue;
        auto t = tol((cl)x[i], w);
        near(c, name, show(x[i]), y[i], w, t.first, t.second);
    }
    c.label(name);
    c.label(form == 0 ? "number" : form == 5 ? "expression" : "vector");
    c.interesting(hash_bytes(x.data(), n * sizeof(x[0])), hash_bytes(name, strlen(name)), form);
}

#define F(NAME) [](const auto& v) { return kfr::NAME(v); }

template <typename T>
static void functions(Src& s, Case& c)
{
    const ld eps = L<T>::epsilon();
    using C      = complex<T>;
    using P      = std::pair<ld, ld>;
    auto norm    = [=](ld k) { return [=](cl, cl w) { return P{ k * eps * std::abs(w), k * eps * std::abs(w) }; }; };
    switch (s.sweep("fn", 0, 16))
    {
    case 0: return unary<T, C>(s, c, "csin", 20, F(csin), [](cl x) { return std::sin(x); }, [=](cl x, cl) { return P{ 10 * eps * coshl(x.imag()), 10 * eps * coshl(x.imag()) }; });
    case 1: return unary<T, C>(s, c, "ccos", 20, F(ccos), [](cl x) { return std::cos(x); }, [=](cl x, cl) { return P{ 10 * eps * coshl(x.imag()), 10 * eps * coshl(x.imag()) }; });
    case 2: return unary<T, C>(s, c, "csinh", 20, F(csinh), [](cl x) { return std::sinh(x); }, [=](cl x, cl) { return P{ 10 * eps * coshl(x.real()), 10 * eps * coshl(x.real()) }; });
    case 3: return unary<T, C>(s, c, "ccosh", 20, F(ccosh), [](cl x) { return std::cosh(x); }, [=](cl x, cl) { return P{ 10 * eps * coshl(x.real()), 10 * eps * coshl(x.real()) }; });
    case 4: return unary<T, C>(s, c, "cexp", 20, F(cexp), [](cl x) { return std::exp(x); }, norm(10));
    case 5: return unary<T, C>(s, c, "cexp2", 20, F(cexp2), [](cl x) { return std::exp(x * logl(2)); }, [=](cl x, cl w) { ld t = (10 + 2 * std::abs(x)) * eps * std::abs(w); return P{ t, t }; });
    case 6: return unary<T, C>(s, c, "cexp10", 10, F(cexp10), [](cl x) { return std::exp(x * logl(10)); }, [=](cl x, cl w) { ld t = (10 + 5 * std::abs(x)) * eps * std::abs(w); return P{ t, t }; });
    case 7: return unary<T, C>(s, c, "clog", 1e300, F(clog), [](cl x) { return std::log(x); }, [=](cl, cl w) { return P{ 4 * eps * (1 + 2 * fabsl(w.real())), 7 * eps * fabsl(w.imag()) }; });
    case 8: return unary<T, C>(s, c, "clog2", 1e300, F(clog2), [](cl x) { return std::log(x) / logl(2); }, [=](cl, cl w) { return P{ 6 * eps * (1 + 2 * fabsl(w.real())), 9 * eps * fabsl(w.imag()) }; });
    case 9: return unary<T, C>(s, c, "clog10", 1e300, F(clog10), [](cl x) { return std::log(x) / logl(10); }, [=](cl, cl w) { return P{ 6 * eps * (1 + 2 * fabsl(w.real())), 9 * eps * fabsl(w.imag()) }; });
    case 10: return unary<T, C>(s, c, "csqrt", 1e300, F(csqrt), [](cl x) { return std::sqrt(x); }, norm(6));
    case 11: return unary<T, C>(s, c, "csqr", 1e300, F(csqr), [](cl x) { return x * x; }, [=](cl x, cl) { return P{ 3 * eps * std::norm(x), 3 * eps * std::norm(x) }; });
    case 12: return unary<T, C>(s, c, "polar", 1e300, F(polar), [](cl x) { return cl(std::abs(x), std::arg(x)); }, [=](cl, cl w) { return P{ 4 * eps * w.real(), 7 * eps * fabsl(w.imag()) }; });
    case 13: return unary<T, C>(s, c, "cartesian", 50, F(cartesian), [](cl x) { return cl(x.real() * cosl(x.imag()), x.real() * sinl(x.imag())); }, [=](cl x, cl) { return P{ 4 * eps * fabsl(x.real()), 4 * eps * fabsl(x.real()) }; });
    case 14: return unary<T, T>(s, c, "cabs", 1e300, F(cabs), [](cl x) { return cl(std::abs(x)); }, norm(3));
    case 15: return unary<T, T>(s, c, "carg", 1e300, F(carg), [](cl x) { return cl(std::arg(x)); }, norm(7));
    case 16: return unary<T, T>(s, c, "cabssqr", 1e300, F(cabssqr), [](cl x) { return cl(std::norm(x)); }, norm(4));
    }
}

// arithmetic with complex and real numbers in all combinations of vector, number and expression
template <typename T, size_t N>
static void ring(Case& c, Rng& r, int style, int op)
{
    using C      = complex<T>;
    const ld eps = L<T>::epsilon();
    C a[N], b[N];
    T t[N];
    for (size_t i = 0; i < N; i++)
    {
        a[i] = arg<T>(r, style, 1e100), b[i] = arg<T>(r, style, 1e100);
        if (b[i] == C(0, 0))
            b[i] = C(1, -1);
        t[i] = a[i].imag() == 0 ? T(2) : a[i].imag();
        if (sizeof(T) == 8 && style != Grid) // keep quotients and products of products finite
            a[i] = C((T)r.sym(), (T)r.sym()) * (T)std::exp2((double)r.range(-200, 200));
    }
    const vec<C, N> x = kfr::read<N>(a), y = kfr::read<N>(b);
    const vec<T, N> z = kfr::read<N>(t);
    auto all = [&](const char* name, const auto& got, auto ref, auto tol)
    {
        static_assert(std::decay_t<decltype(got)>::size() == N, "");
        for (size_t i = 0; i < N; i++)
        {
            cl w   = ref((cl)a[i], (cl)b[i], (ld)t[i]);
            ld tt  = tol((cl)a[i], (cl)b[i], (ld)t[i], w);
            C g    = C(got[i]);
            near<T>(c, fmt("%s, lane %zu of %zu", name, i, N).c_str(), show(a[i]) + " " + show(b[i]) + fmt(" %Lg", (ld)t[i]), g, w, tt, tt);
        }
    };
    auto sum  = [=](cl u, cl v, ld q, cl) { return eps * (std::abs(u) + std::abs(v) + fabsl(q)); };
    auto prod = [=](cl, cl, ld, cl w) { return 4 * eps * std::abs(w); };
    auto quot = [=](cl, cl, ld, cl w) { return 8 * eps * std::abs(w); };
    auto none = [=](cl, cl, ld, cl) -> ld { return 0; };
    switch (op)
    {
    case 0:
        all("vec + vec", x + y, [](cl u, cl v, ld) { return u + v; }, sum);
        all("vec - vec", x - y, [](cl u, cl v, ld) { return u - v; }, sum);
        all("vec + number", x + b[0], [&](cl u, cl, ld) { return u + (cl)b[0]; }, [&](cl u, cl, ld, cl) { return eps * (std::abs(u) + std::abs((cl)b[0])); });
        all("number - vec", b[0] - x, [&](cl u, cl, ld) { return (cl)b[0] - u; }, [&](cl u, cl, ld, cl) { return eps * (std::abs(u) + std::abs((cl)b[0])); });
        all("-vec", -x, [](cl u, cl, ld) { return -u; }, none);
        break;
    case 1:
        all("vec * vec", x * y, [](cl u, cl v, ld) { return u * v; }, prod);
        all("vec * number", x * b[0], [&](cl u, cl, ld) { return u * (cl)b[0]; }, prod);
        all("number * vec", b[0] * x, [&](cl u, cl, ld) { return u * (cl)b[0]; }, prod);
        all("vec * real", x * t[0], [&](cl u, cl, ld) { return u * (ld)t[0]; }, prod);
        all("vec * reals", x * z, [](cl u, cl, ld q) { return u * q; }, prod);
        all("reals * vec", z * x, [](cl u, cl, ld q) { return u * q; }, prod);
        all("reals * number", z * b[0], [&](cl, cl, ld q) { return (cl)b[0] * q; }, prod);
        {
            vec<C, N> w = x;
            w *= y;
            all("vec *= vec", w, [](cl u, cl v, ld) { return u * v; }, prod);
        }
        break;
    case 2:
        all("vec / vec", x / y, [](cl u, cl v, ld) { return u / v; }, quot);
        all("vec / number", x / b[0], [&](cl u, cl, ld) { return u / (cl)b[0]; }, quot);
        all("number / vec", b[0] / vec<C, N>(y), [&](cl, cl v, ld) { return (cl)b[0] / v; }, quot);
        all("vec / reals", x / z, [](cl u, cl, ld q) { return u / q; }, quot);
        all("vec / real", x / t[0], [&](cl u, cl, ld) { return u / (ld)t[0]; }, quot);
        all("reals / vec", z / y, [](cl, cl v, ld q) { return q / v; }, quot);
        break;
    case 3:
        all("cconj", kfr::cconj(x), [](cl u, cl, ld) { return std::conj(u); }, none);
        all("cnegreal", kfr::cnegreal(x), [](cl u, cl, ld) { return -std::conj(u); }, none);
        all("cnegimag", kfr::cnegimag(x), [](cl u, cl, ld) { return std::conj(u); }, none);
        all("cswapreim", kfr::cswapreim(x), [](cl u, cl, ld) { return cl(u.imag(), u.real()); }, none);
        all("cdupreal", kfr::cdupreal(x), [](cl u, cl, ld) { return cl(u.real(), u.real()); }, none);
        all("cdupimag", kfr::cdupimag(x), [](cl u, cl, ld) { return cl(u.imag(), u.imag()); }, none);
        all("real", kfr::real(x), [](cl u, cl, ld) { return cl(u.real()); }, none);
        all("imag", kfr::imag(x), [](cl u, cl, ld) { return cl(u.imag()); }, none);
        all("make_complex", kfr::make_complex(kfr::imag(x), kfr::real(y)), [](cl u, cl v, ld) { return cl(u.imag(), v.real()); }, none);
        all("make_complex of reals", vec<C, N>(z), [](cl, cl, ld q) { return cl(q); }, none);
        for (size_t i = 0; i < N; i++)
        {
            c.expect(kfr::cconj(a[i]) == std::conj(a[i]), "cconj of a number");
            c.expect(kfr::isreal(a[i]) == (a[i].imag() == 0), "isreal of a number");
        }
        break;
    case 4:
    {
        cl s = 0;
        ld m = 0;
        for (size_t i = 0; i < N; i++)
            s += (cl)a[i], m += std::abs((cl)a[i]);
        near<T>(c, "hadd", fmt("%zu lanes", N), kfr::hadd(x), s, 2 * N * eps * m, 2 * N * eps * m);
        if constexpr (N <= 4)
        {
            if (style == Grid || style == Moderate)
            {
                cl p = 1;
                ld q = 1;
                for (size_t i = 0; i < N; i++)
                    p *= (cl)b[i];
                q = std::abs(p);
                near<T>(c, "hmul", fmt("%zu lanes", N), kfr::hmul(y), p, 8 * N * eps * q, 8 * N * eps * q);
            }
        }
        // equality compares both parts
        for (size_t i = 0; i < N; i++)
        {
            vec<C, N> w = x;
            c.expect(kfr::all(kfr::vec<T, 2 * N>(x.flatten()) == w.flatten()), "a copy differs from the original");
        }
        break;
    }
    case 5:
    {
        // expressions over complex and real vectors
        kfr::univector<C> ux(N), uy(N), got;
        kfr::univector<T> uz(N);
        for (size_t i = 0; i < N; i++)
            ux[i] = a[i], uy[i] = b[i], uz[i] = t[i];
        auto each = [&](const char* name, const kfr::univector<C>& g, auto ref, auto tol)
        {
            c.expect(g.size() == N, fmt("%s has %zu elements of %zu", name, g.size(), N));
            for (size_t i = 0; i < N; i++)
            {
                cl w  = ref((cl)a[i], (cl)b[i], (ld)t[i]);
                ld tt = tol((cl)a[i], (cl)b[i], (ld)t[i], w);
                near<T>(c, name, show(a[i]) + " " + show(b[i]), g[i], w, tt, tt);
            }
        };
        each("expression x * y", kfr::univector<C>(ux * uy), [](cl u, cl v, ld) { return u * v; }, prod);
        each("expression x / y", kfr::univector<C>(ux / uy), [](cl u, cl v, ld) { return u / v; }, quot);
        each("expression x + y", kfr::univector<C>(ux + uy), [](cl u, cl v, ld) { return u + v; }, sum);
        each("expression x * t", kfr::univector<C>(ux * uz), [](cl u, cl, ld q) { return u * q; }, prod);
        each("expression x * number", kfr::univector<C>(ux * b[0]), [&](cl u, cl, ld) { return u * (cl)b[0]; }, prod);
        each("expression cconj(x)", kfr::univector<C>(kfr::cconj(ux)), [](cl u, cl, ld) { return std::conj(u); }, none);
        each("expression make_complex(imag(x), t)", kfr::univector<C>(kfr::make_complex(kfr::imag(ux), uz)), [](cl u, cl, ld q) { return cl(u.imag(), q); }, none);
        kfr::univector<T> re = kfr::real(ux), im = kfr::imag(ux);
        for (size_t i = 0; i < N; i++)
            c.expect(re[i] == a[i].real() && im[i] == a[i].imag(), "expression real or imag");
        break;
    }
    }
}
template <typename T>
static void arithmetic(Src& s, Case& c)
{
    const int op    = (int)s.sweep("op", 0, 5);
    const int lanes = (int)s.in("lanes", 0, 5);
    const int style = (int)s.in("style", 0, 3);
    Rng r           = s.bulk("x");
    switch (lanes)
    {
    case 0: ring<T, 1>(c, r, style, op); break;
    case 1: ring<T, 2>(c, r, style, op); break;
    case 2: ring<T, 3>(c, r, style, op); break;
    case 3: ring<T, 4>(c, r, style, op); break;
    case 4: ring<T, 8>(c, r, style, op); break;
    default: ring<T, 13>(c, r, style, op); break;
    }
    c.label(fmt("arithmetic %d", op));
    c.interesting(op, lanes, style, s.rec.back());
}
} // namespace cx
