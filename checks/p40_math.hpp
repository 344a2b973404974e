// Elementary functions on numbers, vectors of any width and expressions, against the C library in long double.
#include <kfr/base.hpp>
#include <kfr/dsp.hpp>
#include <kfr/math.hpp>
#include "pbt.hpp"
using namespace pbt;

namespace mt
{
using ld = long double;
using kfr::vec;
template <typename T>
using L = std::numeric_limits<T>;
constexpr ld pi = 3.14159265358979323846264338327950288L;

enum Dom
{
    Any, // every finite magnitude, both signs
    Positive, // every positive finite number
    Trig, // where the reduction of the argument keeps full precision
    TrigSmall, // |x| <= 100
    TrigMid,
    Turn, // 0 .. 2 pi
    Quarter3, // 0 .. 3/2 pi
    Unit, // -1 .. 1
    Exp, // where exp, exp2, exp10 neither overflow nor underflow, and beyond
    Hyp, // where cosh does not overflow
    Bessel,
    Gamma,
    Degrees
};

// Style is drawn per case; one vector mixes small and large arguments in some styles.
template <typename T>
static T arg(Rng& r, Dom d, int style)
{
    auto lg = [&](double lo, double hi) { return (double)expl(logl(lo) + (logl(hi) - logl(lo)) * r.unit()); };
    auto sg = [&](double v) { return r.chance(1, 2) ? -v : v; };
    constexpr bool f = sizeof(T) == 4;
    auto kpi         = [&](int64_t lim, ld unit) { return (T)((ld)r.range(-lim, lim) * unit); };
    const int mode   = style == 3 ? (int)r.below(3) : style;
    switch (d)
    {
    case Any:
    case Positive:
    {
        double v = mode == 0 ? lg(0.01, 100) : mode == 1 ? lg(L<T>::min(), L<T>::max() * 0.999) : std::ldexp(1.0, (int)r.range(L<T>::min_exponent, L<T>::max_exponent - 2));
        if (mode == 2 && r.chance(1, 3))
            v = 1 + sg(lg(L<T>::epsilon(), 0.1));
        if (r.chance(1, 16))
            v = (double)(T)(L<T>::denorm_min() * lg(1e3, 1e6));
        return d == Any ? (T)sg(v) : (T)v;
    }
    case Trig:
    {
        const double top = f ? 1000 : 1e9;
        return mode == 0 ? (T)(r.sym() * 10) : mode == 1 ? (T)sg(lg(1e-10, top)) : kpi(f ? 600 : 400000000, pi / 2);
    }
    case TrigSmall: return mode == 0 ? (T)(r.sym() * 10) : mode == 1 ? (T)sg(lg(1e-10, 100)) : kpi(60, pi / 2);
    case TrigMid: return mode == 0 ? (T)(r.sym() * 10) : mode == 1 ? (T)sg(lg(1e-10, f ? 100 : 1e5)) : kpi(60, pi / 4);
    case Turn: return mode == 2 ? (T)std::min<ld>(6.283185, (ld)r.below(9) * pi / 4) : (T)(r.unit() * 6.283185);
    case Quarter3: return mode == 2 ? (T)std::min<ld>(4.712388, (ld)r.below(7) * pi / 4) : (T)(r.unit() * 4.712388);
    case Unit:
        return mode == 0 ? (T)r.sym() : mode == 1 ? (T)sg(lg(1e-18, 1)) : (T)sg(r.chance(1, 2) ? 1 - lg(L<T>::epsilon(), 0.1) : r.below(3) * 0.5);
    case Exp:
    {
        const double top = f ? 100 : 720;
        return mode == 0 ? (T)(r.sym() * 10) : mode == 1 ? (T)(r.sym() * top) : (T)(r.chance(1, 2) ? r.range(-top, top) : sg(lg(1e-20, L<T>::max() * 0.99)));
    }
    case Hyp: return mode == 0 ? (T)(r.sym() * 3) : mode == 1 ? (T)(r.sym() * (f ? 85 : 700)) : (T)sg(lg(1e-10, 10));
    case Bessel: return mode == 2 ? (T)sg(lg(1e-6, 1)) : (T)(r.sym() * (f ? 15 : 20));
    case Gamma: return mode == 2 ? (T)r.range(1, f ? 30 : 140) : mode == 0 ? (T)(0.1 + r.unit() * 10) : (T)(0.1 + r.unit() * (f ? 33 : 139));
    case Degrees: return mode == 0 ? (T)(r.sym() * 360) : mode == 1 ? (T)sg(lg(1e-6, 5000)) : (T)(r.range(-100, 100) * 15);
    }
    return 0;
}

#ifdef CALIBRATE
static std::map<std::string, double> worst_of;
static void calib(const char* n, double v)
{
    double& w = worst_of[n];
    if (!(v <= w))
    {
        w = v;
        if (FILE* f = fopen("/tmp/p40.cal", "a"))
        {
            fprintf(f, "%s %.3g\n", n, v);
            fclose(f);
        }
    }
}
#define CAL(n, v) calib(n, v)
#else
#define CAL(n, v) (void)0
#endif

template <typename T>
static bool over(ld w)
{
    return std::fabs(w) > (ld)L<T>::max();
}

// |got - want| <= tol; results too large for T must be infinite of the right sign; one ulp of slack at the limit.
template <typename T>
static void near(Case& c, const char* name, const std::string& at, T got, ld want, ld tol)
{
    if (tol == (ld)INFINITY) // nothing is promised
        return;
    if (std::isnan(want))
        c.expect(std::isnan(got), fmt("%s(%s) is %.9g, not NaN", name, at.c_str(), (double)got));
    else if (over<T>(want))
    {
        CAL((std::string(name) + (sizeof(T) == 4 ? " f32" : " f64")).c_str(), 0);
        // the tolerance may reach back into the finite range
        c.expect((std::isinf(got) && std::signbit(got) == std::signbit(want)) || std::fabs((ld)got - (want > 0 ? (ld)L<T>::max() : -(ld)L<T>::max())) <= tol,
                 fmt("%s(%s) is %.9g, expected %Lg", name, at.c_str(), (double)got, want));
    }
    else
    {
        ld e = std::isinf(got) && std::fabs(want) + tol > L<T>::max() && std::signbit(got) == std::signbit(want) ? 0 : std::fabs((ld)got - want);
        CAL((std::string(name) + (sizeof(T) == 4 ? " f32" : " f64")).c_str(), (double)(e / tol));
        if (tol > 0 && (double)(e / tol) > c.worst)
            c.worst = (double)(e / tol);
#ifndef CALIBRATE
        if (!(e <= tol))
#else
        if (!(e <= tol))
            fprintf(stderr, "%s(%s) is %.17g, expected %.17Lg, |error| %.3Lg > tolerance %.3Lg (%zu-bit)\n", name, at.c_str(), (double)got, want, e, tol, sizeof(T) * 8);
        if (false)
#endif
            c.fail(fmt("%s(%s) is %.17g, expected %.17Lg, |error| %.3Lg > tolerance %.3Lg (%zu-bit)", name, at.c_str(), (double)got, want, e, tol, sizeof(T) * 8));
    }
}

// Evaluates fn over n arguments in one of three forms: numbers, vectors of `width` lanes, an expression.
template <size_t N, typename T, typename Fn>
static void by_vectors(Fn fn, const std::vector<T>& x, std::vector<T>& y)
{
    for (size_t i = 0; i + N <= x.size(); i += N)
        kfr::write(y.data() + i, vec<T, N>(fn(kfr::read<N>(x.data() + i))));
}
template <size_t N, typename T, typename Fn>
static void by_vectors(Fn fn, const std::vector<T>& x, const std::vector<T>& z, std::vector<T>& y)
{
    for (size_t i = 0; i + N <= x.size(); i += N)
        kfr::write(y.data() + i, vec<T, N>(fn(kfr::read<N>(x.data() + i), kfr::read<N>(z.data() + i))));
}

static int forms(Src& s) { return (int)s.in("form", 0, 5); }
constexpr size_t total = 48; // a multiple of every width

#define P40_FORMS(...)                                                                                       \
    switch (form)                                                                                            \
    {                                                                                                        \
    case 1: by_vectors<1>(fn, __VA_ARGS__); break;                                                           \
    case 2: by_vectors<3>(fn, __VA_ARGS__); break;                                                           \
    case 3: by_vectors<4>(fn, __VA_ARGS__); break;                                                           \
    case 4: by_vectors<16>(fn, __VA_ARGS__); break;                                                          \
    }

template <typename T, typename Fn, typename Ref, typename Tol>
static void unary(Src& s, Case& c, const char* name, Dom dom, Fn fn, Ref ref, Tol tol)
{
    const int form  = forms(s);
    const int style = (int)s.in("style", 0, 3);
    Rng r           = s.bulk("x");
    const size_t n  = form == 5 ? (size_t)s.in("n", 1, 47) : total;
    s.say(name);
    std::vector<T> x(n), y(n, T(77));
    for (auto& v : x)
        v = arg<T>(r, dom, style);
    if (form == 0)
        for (size_t i = 0; i < n; i++)
            y[i] = fn(x[i]);
    else if (form == 5)
    {
        kfr::univector<T> ux(n), uy(n);
        std::copy(x.begin(), x.end(), ux.begin());
        uy = fn(ux);
        std::copy(uy.begin(), uy.end(), y.begin());
    }
    else
        P40_FORMS(x, y)
    for (size_t i = 0; i < n; i++)
        near<T>(c, name, fmt("%.17g", (double)x[i]), y[i], ref((ld)x[i]), tol((ld)x[i], ref((ld)x[i])));
    c.label(name);
    c.label(form == 0 ? "number" : form == 5 ? "expression" : "vector");
    c.interesting(hash_bytes(x.data(), n * sizeof(T)), hash_bytes(name, strlen(name)), form);
}

template <typename T, typename Fn, typename Ref, typename Tol, typename Draw>
static void binary(Src& s, Case& c, const char* name, Fn fn, Ref ref, Tol tol, Draw draw)
{
    const int form  = forms(s);
    const int style = (int)s.in("style", 0, 3);
    Rng r           = s.bulk("x");
    const size_t n  = form == 5 ? (size_t)s.in("n", 1, 47) : total;
    s.say(name);
    std::vector<T> x(n), z(n), y(n, T(77));
    for (size_t i = 0; i < n; i++)
        draw(r, style, x[i], z[i]);
    if (form == 0)
        for (size_t i = 0; i < n; i++)
            y[i] = fn(x[i], z[i]);
    else if (form == 5)
    {
        kfr::univector<T> ux(n), uz(n), uy(n);
        std::copy(x.begin(), x.end(), ux.begin());
        std::copy(z.begin(), z.end(), uz.begin());
        uy = fn(ux, uz);
        std::copy(uy.begin(), uy.end(), y.begin());
    }
    else
        P40_FORMS(x, z, y)
    for (size_t i = 0; i < n; i++)
    {
        ld w = ref((ld)x[i], (ld)z[i]);
        near<T>(c, name, fmt("%.17g, %.17g", (double)x[i], (double)z[i]), y[i], w, tol((ld)x[i], (ld)z[i], w));
    }
    c.label(name);
    c.label(form == 0 ? "number" : form == 5 ? "expression" : "vector");
    c.interesting(hash_bytes(x.data(), n * sizeof(T)), hash_bytes(z.data(), n * sizeof(T)), hash_bytes(name, strlen(name)), form);
}

#define F(NAME) [](const auto& v) { return kfr::NAME(v); }
#define F2(NAME) [](const auto& u, const auto& v) { return kfr::NAME(u, v); }
#define REF(EXPR) [](ld x) -> ld { return EXPR; }
#define TOL(EXPR) [=](ld x, ld w) -> ld { return (void)x, (void)w, (EXPR); }

template <typename T>
static void functions(Src& s, Case& c)
{
    const ld eps        = L<T>::epsilon();
    constexpr bool f    = sizeof(T) == 4;
    auto rel            = [=](ld k) { return [=](ld, ld w) -> ld { return k * eps * std::max<ld>(std::fabs(w), L<T>::min()); }; };
    auto ab             = [=](ld k) { return [=](ld, ld) -> ld { return k * eps; }; };
    const ld deg        = pi / 180;
    (void)deg;
    switch (s.sweep("fn", 0, 35))
    {
    case 0: return unary<T>(s, c, "sin", Trig, F(sin), REF(sinl(x)), ab(1.7));
    case 1: return unary<T>(s, c, "cos", Trig, F(cos), REF(cosl(x)), ab(1.7));
    case 2: return unary<T>(s, c, "sin", TrigSmall, F(sin), REF(sinl(x)), TOL(5 * eps * fabsl(w) + 32 * fabsl(x) * eps * eps));
    case 3: return unary<T>(s, c, "cos", TrigSmall, F(cos), REF(cosl(x)), TOL(5 * eps * fabsl(w) + 32 * fabsl(x) * eps * eps));
    case 4: return unary<T>(s, c, "tan", TrigMid, F(tan), REF(tanl(x)), TOL(8 * eps * fabsl(w) + (1 + w * w) * 32 * fabsl(x) * eps * eps));
    case 5: return unary<T>(s, c, "fastsin", Turn, F(fastsin), REF(sinl(x)), TOL(4e-6));
    case 6: return unary<T>(s, c, "fastcos", Quarter3, F(fastcos), REF(cosl(x)), TOL(4e-6));
    case 7: return unary<T>(s, c, "sinc", TrigSmall, F(sinc), REF(x == 0 ? 1 : sinl(x) / x), TOL(6 * eps * fabsl(w) + 32 * eps * eps));
    case 8: return unary<T>(s, c, "exp", Exp, F(exp), REF(expl(x)), TOL((4 + (sizeof(T) == 8 ? fabsl(x) : 0)) * eps * std::max<ld>(w, L<T>::min())));
    case 9: return unary<T>(s, c, "exp2", Exp, F(exp2), REF(exp2l(x)), TOL((4 + 2 * fabsl(x)) * eps * std::max<ld>(w, L<T>::min())));
    case 10: return unary<T>(s, c, "exp10", Exp, F(exp10), REF(powl(10, x)), TOL((4 + 5 * fabsl(x)) * eps * std::max<ld>(w, L<T>::min())));
    case 11: return unary<T>(s, c, "log", Positive, F(log), REF(logl(x)), rel(6));
    case 12: return unary<T>(s, c, "log2", Positive, F(log2), REF(log2l(x)), rel(8));
    case 13: return unary<T>(s, c, "log10", Positive, F(log10), REF(log10l(x)), rel(8));
    case 14: return unary<T>(s, c, "logb", Any, F(logb), REF(logbl(x)), [](ld, ld) -> ld { return 0; });
    case 15: return unary<T>(s, c, "cbrt", Any, F(cbrt), REF(cbrtl(x)), TOL((4 + 2 * fabsl(logl(fabsl(x)))) * eps * fabsl(w)));
    case 16: return unary<T>(s, c, "sinh", Hyp, F(sinh), REF(sinhl(x)), TOL((4 + (f ? 0 : fabsl(x))) * eps * coshl(x)));
    case 17: return unary<T>(s, c, "cosh", Hyp, F(cosh), REF(coshl(x)), TOL((4 + (f ? 0 : fabsl(x))) * eps * w));
    case 18: return unary<T>(s, c, "tanh", Hyp, F(tanh), REF(tanhl(x)), ab(4));
    case 19: return unary<T>(s, c, "coth", Hyp, F(coth), REF(1 / tanhl(x)), TOL(fabsl(x) < 1e-3 ? INFINITY : (4 + 4 / fabsl(x)) * eps * fabsl(w)));
    case 20: return unary<T>(s, c, "atan", Any, F(atan), REF(atanl(x)), rel(5));
    case 21: return unary<T>(s, c, "asin", Unit, F(asin), REF(asinl(x)), TOL((4 + (fabsl(x) < 1 ? 1 / sqrtl(1 - x * x) : 0)) * eps));
    case 22: return unary<T>(s, c, "acos", Unit, F(acos), REF(acosl(x)), TOL((4 + (fabsl(x) < 1 ? 1 / sqrtl(1 - x * x) : 0)) * eps));
    case 23: return unary<T>(s, c, "sqrt", Positive, F(sqrt), REF(sqrtl(x)), rel(0.51));
    case 24: return unary<T>(s, c, "gamma", Gamma, F(gamma), REF(tgammal(x)), TOL((f ? 1e-3L : 4e-12L) * fabsl(w)));
    case 25: return unary<T>(s, c, "factorial_approx", Gamma, F(factorial_approx), REF(x > (f ? 32 : 138) ? 0 : tgammal(x + 1)), TOL(w == 0 ? INFINITY : (f ? 2e-3L : 8e-12L) * fabsl(w)));
    case 26:
        return unary<T>(s, c, "modzerobessel", Bessel, [](const auto& v) { return kfr::modzerobessel(v); }, REF(std::cyl_bessel_il(0, fabsl(x))), rel(24));
    case 27: return unary<T>(s, c, "sindeg", Degrees, F(sindeg), [=](ld x) -> ld { return sinl(x * deg); }, TOL(2 * eps + 2 * eps * fabsl(x * deg)));
    case 28: return unary<T>(s, c, "cosdeg", Degrees, F(cosdeg), [=](ld x) -> ld { return cosl(x * deg); }, TOL(2 * eps + 2 * eps * fabsl(x * deg)));
    case 29:
    {
        // numerically the angle x deg carries an error of eps |x|; tan amplifies it
        return unary<T>(s, c, "tandeg", Degrees, F(tandeg), [=](ld x) -> ld { return fabsl(fmodl(fabsl(x), 180) - 90) < 1 ? 0 : tanl(x * deg); },
                        [=](ld x, ld w) -> ld { return fabsl(fmodl(fabsl(x), 180) - 90) < 1 ? INFINITY : (8 * fabsl(w) + (1 + w * w) * 2 * (1 + fabsl(x * deg))) * eps; });
    }
    case 30: return unary<T>(s, c, "atandeg", Any, F(atandeg), [=](ld x) -> ld { return atanl(x) / deg; }, rel(7));
    case 31:
        return binary<T>(s, c, "pow", F2(pow), [](ld a, ld b) -> ld { return powl(a, b); },
                         [=](ld a, ld b, ld w) -> ld { return (8 + 6 * fabsl(b * logl(fabsl(a)))) * eps * std::max<ld>(fabsl(w), L<T>::min()); },
                         [](Rng& r, int style, T& a, T& b)
                         {
                             if (style == 0 || (style == 3 && r.chance(1, 2)))
                                 a = arg<T>(r, Any, 0), b = (T)r.range(-9, 9);
                             else if (style == 1)
                                 a = (T)(0.001 + 10 * r.unit()), b = (T)(r.sym() * 12);
                             else
                                 a = arg<T>(r, Positive, 1), b = (T)(r.range(-12, 12) / 4.0);
                         });
    case 32:
        return binary<T>(s, c, "atan2", F2(atan2), [](ld a, ld b) -> ld { return atan2l(a, b); }, [=](ld, ld, ld w) -> ld { return 6 * eps * std::max<ld>(fabsl(w), L<T>::min()) + L<T>::min() * 4; },
                         [](Rng& r, int style, T& a, T& b)
                         {
                             a = arg<T>(r, Any, style & 1 ? 1 : 0), b = arg<T>(r, Any, style & 1 ? 1 : 0);
                             if (style >= 2 && r.chance(1, 3))
                                 (r.chance(1, 2) ? a : b) = 0;
                             else if (style >= 2 && r.chance(1, 3))
                                 b = r.chance(1, 2) ? a : -a;
                             if (style >= 2 && a == 0 && b == 0)
                                 a = 1;
                         });
    case 33:
        return binary<T>(s, c, "root", F2(root), [](ld a, ld b) -> ld { return powl(a, 1 / b); },
                         [=](ld a, ld b, ld w) -> ld { return (8 + 6 * fabsl(logl(a) / b)) * eps * std::max<ld>(fabsl(w), L<T>::min()); },
                         [](Rng& r, int style, T& a, T& b) { a = arg<T>(r, Positive, style == 2 ? 0 : style), b = (T)(style == 2 ? r.range(2, 9) : 1 + 8 * r.unit()); });
    case 34:
        return binary<T>(s, c, "logn", F2(logn), [](ld a, ld b) -> ld { return logl(a) / logl(b); }, [=](ld, ld, ld w) -> ld { return 14 * eps * fabsl(w) + L<T>::min(); },
                         [](Rng& r, int style, T& a, T& b)
                         {
                             a = arg<T>(r, Positive, style);
                             b = (T)(style == 2 ? r.range(2, 16) : 1.5 + 20 * r.unit());
                         });
    case 35:
        return binary<T>(s, c, "logm", F2(logm), [](ld a, ld b) -> ld { return logl(a) * b; }, [=](ld, ld, ld w) -> ld { return 10 * eps * fabsl(w) + L<T>::min(); },
                         [](Rng& r, int style, T& a, T& b) { a = arg<T>(r, Positive, style), b = (T)(r.sym() * 10); });
    }
}

// exact results at the edges of the domains
template <typename T>
static void specials(Src& s, Case& c)
{
    const T inf = L<T>::infinity(), nan = L<T>::quiet_NaN(), z = 0;
    const int form = (int)s.in("form", 0, 2);
    const int lane = (int)s.in("lane", 0, 6);
    Rng r          = s.bulk("others");
    // the special argument is one lane of seven, the others are ordinary
    auto at1 = [&](auto fn, T x) -> T
    {
        if (form == 0)
            return fn(x);
        vec<T, 7> v = (T)(0.25 + r.unit());
        if (form == 1)
            v = x;
        v[lane] = x;
        return vec<T, 7>(fn(v))[lane];
    };
    auto at2 = [&](auto fn, T x, T y) -> T
    {
        if (form == 0)
            return fn(x, y);
        vec<T, 7> v = (T)(0.25 + r.unit()), w = (T)(0.25 + r.unit());
        if (form == 1)
            v = x, w = y;
        v[lane] = x, w[lane] = y;
        return vec<T, 7>(fn(v, w))[lane];
    };
    auto same = [&](const char* name, T x, T got, T want)
    {
        if (std::isnan(want))
            c.expect(std::isnan(got), fmt("%s(%g) is %g, not NaN", name, (double)x, (double)got));
        else
            c.expect(got == want, fmt("%s(%g) is %.17g, expected %.17g", name, (double)x, (double)got, (double)want));
    };
#define S1(NAME, X, W) same(#NAME, X, at1(F(NAME), X), W)
    const int which = (int)s.sweep("which", 0, 5);
    switch (which)
    {
    case 0:
        S1(exp, z, T(1)), S1(exp, inf, inf), S1(exp, -inf, z), S1(exp, nan, nan), S1(exp, L<T>::max(), inf), S1(exp, L<T>::lowest(), z);
        S1(exp2, z, T(1)), S1(exp2, inf, inf), S1(exp2, -inf, z), S1(exp10, z, T(1)), S1(exp10, inf, inf), S1(exp10, -inf, z);
        break;
    case 1:
        S1(log, T(1), z), S1(log, inf, inf), S1(log, z, -inf), S1(log, T(-1), nan), S1(log, -inf, nan), S1(log, nan, nan);
        S1(log2, T(1), z), S1(log2, inf, inf), S1(log2, z, -inf), S1(log2, T(-2), nan), S1(log10, T(1), z), S1(log10, inf, inf), S1(log10, z, -inf), S1(log10, T(-2), nan);
        break;
    case 2:
        S1(sqrt, z, z), S1(sqrt, inf, inf), S1(sqrt, T(-1), nan), S1(sqrt, nan, nan), S1(sin, z, z), S1(cos, z, T(1)), S1(sin, nan, nan), S1(tan, z, z), S1(sinc, z, T(1));
        S1(cbrt, T(1), T(1)), S1(asin, z, z), S1(acos, T(1), z);
        break;
    case 3:
        S1(atan, z, z), S1(atan, nan, nan), S1(sinh, z, z), S1(cosh, z, T(1)), S1(tanh, z, z);
        near<T>(c, "atan", "inf", at1(F(atan), inf), pi / 2, 2 * L<T>::epsilon());
        near<T>(c, "atan", "-inf", at1(F(atan), -inf), -pi / 2, 2 * L<T>::epsilon());
        near<T>(c, "asin", "1", at1(F(asin), T(1)), pi / 2, 2 * L<T>::epsilon());
        near<T>(c, "acos", "-1", at1(F(acos), T(-1)), pi, 4 * L<T>::epsilon());
        break;
    case 4:
    {
        const T v[] = { z, T(-0.0), T(1), T(-1), T(2.5), T(-3), inf, -inf };
        T a = v[s.in("a", 0, 7)], b = v[s.in("b", 0, 7)];
        if (b == 0 && std::signbit(b) && std::fabs(a) == 0) // the sign of two zeros is not kept
            break;
        if (a == 0 && std::signbit(a))
            break;
        near<T>(c, "atan2", fmt("%g, %g", (double)a, (double)b), at2(F2(atan2), a, b), std::atan2((ld)a, (ld)b), 4 * L<T>::epsilon());
        break;
    }
    case 5:
    {
        const T v[] = { z, T(1), T(-1), T(2), T(-2), T(3), T(-3), T(0.5), T(-0.5) };
        T a = v[s.in("a", 0, 8)], b = v[s.in("b", 0, 8)];
        T w = (T)std::pow((ld)a, (ld)b), g = at2(F2(pow), a, b);
        near<T>(c, "pow", fmt("%g, %g", (double)a, (double)b), g, std::isinf(w) ? (ld)w : std::pow((ld)a, (ld)b), std::isinf(w) ? 0 : 8 * L<T>::epsilon() * std::fabs(w));
        break;
    }
    }
    c.label(fmt("edge %d", which));
    c.interesting(form, lane, which, s.rec.back());
}

// two functions at once, whole-number arguments, several arguments, interpolation
template <typename T>
static void groups(Src& s, Case& c)
{
    const ld eps  = L<T>::epsilon();
    Rng r         = s.bulk("x");
    const int kind = (int)s.sweep("kind", 0, 9);
    constexpr size_t N = 8;
    vec<T, N> x = (T)0, y = (T)0;
    T a[N], b[N];
    auto fill = [&](T* p, double lo, double hi)
    {
        for (size_t i = 0; i < N; i++)
            p[i] = (T)(lo + (hi - lo) * r.unit());
        return kfr::read<N>(p);
    };
    switch (kind)
    {
    case 0:
        x = fill(a, -30, 30);
        // both functions of every angle, on the alternate lanes
        for (size_t i = 0; i < N; i++)
        {
            near<T>(c, "sincos", fmt("%g, lane %zu", (double)a[i], i), kfr::sincos(x)[i], i & 1 ? cosl(a[i]) : sinl(a[i]), 2 * eps);
            near<T>(c, "cossin", fmt("%g, lane %zu", (double)a[i], i), kfr::cossin(x)[i], i & 1 ? sinl(a[i]) : cosl(a[i]), 2 * eps);
        }
        break;
    case 1:
        x = fill(a, -720, 720);
        for (size_t i = 0; i < N; i++)
        {
            ld t = a[i] * pi / 180;
            near<T>(c, "sincosdeg", fmt("%g, lane %zu", (double)a[i], i), kfr::sincosdeg(x)[i], i & 1 ? cosl(t) : sinl(t), 2 * eps * (1 + fabsl(t)));
            near<T>(c, "cossindeg", fmt("%g, lane %zu", (double)a[i], i), kfr::cossindeg(x)[i], i & 1 ? sinl(t) : cosl(t), 2 * eps * (1 + fabsl(t)));
        }
        break;
    case 2:
        x = fill(a, -20, 20);
        for (size_t i = 0; i < N; i++)
        {
            near<T>(c, "sinhcosh", fmt("%g, lane %zu", (double)a[i], i), kfr::sinhcosh(x)[i], i & 1 ? coshl(a[i]) : sinhl(a[i]), 4 * eps * coshl(a[i]));
            near<T>(c, "coshsinh", fmt("%g, lane %zu", (double)a[i], i), kfr::coshsinh(x)[i], i & 1 ? sinhl(a[i]) : coshl(a[i]), 4 * eps * coshl(a[i]));
        }
        break;
    case 3:
        x = fill(a, -3.1, 3.1);
        for (size_t i = 0; i < N; i++)
        {
            T sn = std::sin(a[i]), cs = std::cos(a[i]);
            near<T>(c, "sin2x", fmt("%g", (double)a[i]), kfr::sin2x(sn, cs), sinl(2 * (ld)a[i]), 8 * eps);
            near<T>(c, "cos2x", fmt("%g", (double)a[i]), kfr::cos2x(sn, cs), cosl(2 * (ld)a[i]), 8 * eps);
            near<T>(c, "sin3x", fmt("%g", (double)a[i]), kfr::sin3x(sn, cs), sinl(3 * (ld)a[i]), 16 * eps);
            near<T>(c, "cos3x", fmt("%g", (double)a[i]), kfr::cos3x(sn, cs), cosl(3 * (ld)a[i]), 16 * eps);
        }
        break;
    case 4:
    {
        vec<T, N> y = fill(b, -2, 2), z;
        T d[N];
        z = fill(d, -2, 2), x = fill(a, -3, 3);
        for (size_t i = 0; i < N; i++)
        {
            ld e = expl((ld)a[i] * b[i] + d[i]);
            near<T>(c, "exp_fmadd", fmt("%g, %g, %g", (double)a[i], (double)b[i], (double)d[i]), kfr::exp_fmadd(x, y, z)[i], e, 12 * eps * e);
            T p  = std::fabs(a[i]) + T(0.01);
            ld l = logl(p) * b[i] + d[i];
            near<T>(c, "log_fmadd", fmt("%g, %g, %g", (double)p, (double)b[i], (double)d[i]), kfr::log_fmadd(vec<T, N>(p), y, z)[i], l, 8 * eps * (fabsl(logl(p) * b[i]) + fabsl(d[i]) + 1));
        }
        break;
    }
    case 5:
        x = fill(a, 0, 6.283), y = fill(b, -1, 1);
        for (size_t i = 0; i < N; i++)
        {
            near<T>(c, "fastsindeg", fmt("%g", a[i] * 57.29), kfr::fastsindeg(vec<T, N>(x * (T)(180 / pi)))[i], sinl(a[i]), 4e-6);
            near<T>(c, "fastcosdeg", fmt("%g", a[i] * 0.7 * 57.29), kfr::fastcosdeg(vec<T, N>(x * (T)(0.7 * 180 / pi)))[i], cosl(a[i] * 0.7), 4e-6);
            near<T>(c, "atan2deg", fmt("%g, %g", (double)a[i], (double)b[i]), kfr::atan2deg(x, y)[i], atan2l(a[i], b[i]) * 180 / pi, 8 * eps * 180);
        }
        break;
    case 6:
    {
        // whole numbers give the same results as the numbers they convert to
        int32_t v[N];
        for (size_t i = 0; i < N; i++)
            v[i] = (int32_t)r.range(-30, 30);
        vec<int32_t, N> iv = kfr::read<N>(v);
        for (size_t i = 0; i < N; i++)
        {
            near<double>(c, "sin of int", fmt("%d", v[i]), kfr::sin(iv)[i], sinl(v[i]), 2 * L<double>::epsilon());
            near<double>(c, "exp of int", fmt("%d", v[i]), kfr::exp(iv)[i], expl(v[i]), (4 + std::fabs(v[i])) * L<double>::epsilon() * expl(v[i]));
            near<double>(c, "exp of one int", fmt("%d", v[i]), kfr::exp(v[i]), expl(v[i]), (4 + std::fabs(v[i])) * L<double>::epsilon() * expl(v[i]));
            near<float>(c, "cos of one int8", fmt("%d", v[i]), kfr::cos((int8_t)v[i]), cosl(v[i]), 2 * L<float>::epsilon());
            near<float>(c, "sqrt of one uint16", fmt("%d", v[i] * v[i]), kfr::sqrt((uint16_t)(v[i] * v[i])), std::abs(v[i]), 0);
            near<double>(c, "log of int64", fmt("%d", v[i] + 31), kfr::log((int64_t)v[i] + 31), logl(v[i] + 31), 8 * L<double>::epsilon() * logl(v[i] + 31));
            near<double>(c, "pow of ints", fmt("%d", v[i]), kfr::pow(v[i], 2), v[i] * v[i], 40 * L<double>::epsilon() * v[i] * v[i]);
            near<float>(c, "sin of int16s", fmt("%d", v[i]), kfr::sin(vec<int16_t, 4>((int16_t)v[i]))[1], sinl(v[i]), 4 * L<float>::epsilon());
        }
        break;
    }
    case 7:
    {
        T p[4];
        for (auto& v : p)
            v = (T)(r.sym() * 10);
        T mu = (T)(r.chance(1, 4) ? r.below(3) * 0.5 : r.unit());
        ld m = mu, m2 = m * m, m3 = m2 * m;
        std::string at = fmt("%g; %g %g %g %g", (double)mu, (double)p[0], (double)p[1], (double)p[2], (double)p[3]);
        const ld tol = 400 * eps;
        near<T>(c, "nearest", at, kfr::nearest(vec<T, 3>(mu), vec<T, 3>(p[1]), vec<T, 3>(p[2]))[1], mu < T(0.5) ? p[1] : p[2], 0);
        near<T>(c, "linear", at, kfr::linear(mu, p[1], p[2]), p[1] + m * ((ld)p[2] - p[1]), tol);
        near<T>(c, "cosine", at, kfr::cosine(mu, p[1], p[2]), p[1] + (1 - cosl(m * pi)) / 2 * ((ld)p[2] - p[1]), 4e-6 * (std::fabs(p[2] - p[1])) + tol);
        ld a0 = (ld)p[3] - p[2] - p[0] + p[1], a1 = (ld)p[0] - p[1] - a0, a2 = (ld)p[2] - p[0];
        near<T>(c, "cubic", at, kfr::cubic(mu, p[0], p[1], p[2], p[3]), a0 * m3 + a1 * m2 + a2 * m + p[1], tol);
        ld q = 0.5L * (2 * (ld)p[1] + (-(ld)p[0] + p[2]) * m + (2 * (ld)p[0] - 5 * (ld)p[1] + 4 * (ld)p[2] - p[3]) * m2 + (-(ld)p[0] + 3 * (ld)p[1] - 3 * (ld)p[2] + p[3]) * m3);
        near<T>(c, "catmullrom", at, kfr::catmullrom(mu, p[0], p[1], p[2], p[3]), q, tol);
        break;
    }
    case 8:
    {
        T v  = (T)(r.sym() * 100);
        T v2 = (T)(r.unit() * 6);
        near<T>(c, "compiletime::sin", fmt("%g", (double)v), kfr::compiletime::sin<T>(v), sinl(v), 2e-5);
        near<T>(c, "compiletime::cos", fmt("%g", (double)v2), kfr::compiletime::cos<T>(v2), cosl(v2), 2e-5);
        break;
    }
    case 9:
    {
        // the degrees of what one gets from radians, and back
        T v = (T)(r.sym() * 100);
        near<T>(c, "rad2deg", fmt("%g", (double)v), v * kfr::c_radtodeg<T>, (ld)v * 180 / pi, 2 * eps * fabsl(v) * 180 / pi);
        near<T>(c, "deg2rad", fmt("%g", (double)v), v * kfr::c_degtorad<T>, (ld)v * pi / 180, 2 * eps * fabsl(v) * pi / 180);
        near<T>(c, "amp to dB", "", kfr::amp_to_dB((T)std::exp(v / 20)), 20 * (v / 20.L) / logl(10), 16 * eps * (1 + fabsl(v)));
        break;
    }
    }
    (void)y;
    c.label(fmt("group %d", kind));
    c.interesting(kind, s.rec.front(), r.u64());
}
} // namespace mt
