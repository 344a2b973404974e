// Lane-wise operations on vec<T, N> against the same operation on one number at a time.
#include <kfr/base.hpp>
#include <kfr/simd.hpp>
#include "pbt.hpp"
using namespace pbt;

namespace lanes
{
using kfr::mask;
using kfr::vec;

template <typename T>
constexpr bool fp = std::is_floating_point_v<T>;
template <typename T>
using L = std::numeric_limits<T>;
template <typename T>
using U = std::make_unsigned_t<std::conditional_t<fp<T>, std::conditional_t<sizeof(T) == 4, int32_t, int64_t>, T>>;

template <typename T>
static U<T> bits(T x)
{
    U<T> u;
    memcpy(&u, &x, sizeof(T));
    return u;
}
template <typename T>
static T unbits(U<T> u)
{
    T x;
    memcpy(&x, &u, sizeof(T));
    return x;
}
template <typename T>
static std::string show(T x)
{
    if constexpr (fp<T>)
        return fmt("%.9g [%llx]", (double)x, (unsigned long long)bits(x));
    else if constexpr (std::is_signed_v<T>)
        return fmt("%lld", (long long)x);
    else
        return fmt("%llu", (unsigned long long)x);
}
template <typename T>
static T draw(Rng& r, int style)
{
    if constexpr (fp<T>)
    {
        static const double limits[] = { 0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.49999997f, 0.49999999999999994, -0.49999997f, 8388608, 8388609, 8388607.5,
                                         -8388609, 16777215, 4503599627370497.0, 4503599627370495.5, 9007199254740991.0, 1, -1, 2147483648.0, -2147483648.0, 4294967296.0,
                                         9223372036854775808.0, -1e30, 1e30, INFINITY, -INFINITY, NAN, (double)L<T>::min(), (double)L<T>::max(), (double)L<T>::lowest(), 4194304.5 };
        switch (style)
        {
        case 0: return (T)(r.sym() * 100);
        case 1: return (T)(r.range(-200, 200) / 2.0);
        case 2: return (T)limits[r.below(sizeof(limits) / sizeof(limits[0]))];
        case 3: return (T)std::ldexp(r.sym(), (int)r.range(-40, 60));
        case 4: return r.chance(1, 2) ? (T)limits[r.below(sizeof(limits) / sizeof(limits[0]))] : (T)r.range(-3, 3);
        default: return unbits<T>((U<T>)r.u64());
        }
    }
    else
    {
        switch (style)
        {
        case 0: return (T)r.range(std::is_signed_v<T> ? -9 : 0, 9);
        case 1: return (T)r.u64();
        case 2: return (T)((r.chance(1, 2) ? L<T>::max() : L<T>::min()) + (T)(r.chance(1, 2) ? r.range(-3, 3) : 0));
        case 3: return (T)((uint64_t)1 << r.below(sizeof(T) * 8)) - (T)r.below(2);
        case 4: return r.chance(1, 2) ? (T)r.u64() : (T)r.range(0, 2);
        default: return (T)(r.u64() >> r.below(64));
        }
    }
}

// one vector size of one type
template <typename T, size_t N>
struct One
{
    Case& c;
    T a[N], b[N], d[N];
    T k;
    unsigned sh;
    vec<T, N> va, vb, vd;

    One(Src& s, Case& c, Rng& r, int style) : c(c)
    {
        for (size_t i = 0; i < N; i++)
            a[i] = draw<T>(r, style), b[i] = r.chance(1, 6) ? a[i] : draw<T>(r, style), d[i] = draw<T>(r, style);
        k  = draw<T>(r, style);
        sh = (unsigned)r.below(sizeof(T) * 8);
        va = load(a), vb = load(b), vd = load(d);
        if (N > 1)
            c.interesting((int)N, (int)sizeof(T), fp<T>, std::is_signed_v<T>, style, s.rec.back());
    }
    template <typename X>
    static vec<X, N> load(const X* p)
    {
        return kfr::read<N>(p);
    }
    template <typename R, typename F>
    void is(const char* op, const vec<R, N>& got, F want)
    {
        R g[N];
        kfr::write(g, got);
        for (size_t i = 0; i < N; i++)
        {
            R w = (R)want(i);
            if (!(g[i] == w || (g[i] != g[i] && w != w)))
                return (void)c.fail(fmt("%s, lane %zu of %zu: %s instead of %s (a=%s b=%s c=%s scalar=%s)", op, i, N, show(g[i]).c_str(), show(w).c_str(),
                                        show(a[i]).c_str(), show(b[i]).c_str(), show(d[i]).c_str(), show(k).c_str()));
        }
        c.expect(true, op);
    }
    // an accepted set of results
    template <typename R, typename F>
    void in(const char* op, const vec<R, N>& got, F ok)
    {
        R g[N];
        kfr::write(g, got);
        for (size_t i = 0; i < N; i++)
            if (!ok(i, g[i]))
                return (void)c.fail(fmt("%s, lane %zu of %zu: %s (a=%s b=%s c=%s scalar=%s)", op, i, N, show(g[i]).c_str(), show(a[i]).c_str(), show(b[i]).c_str(),
                                        show(d[i]).c_str(), show(k).c_str()));
        c.expect(true, op);
    }
    template <typename R, typename F>
    void mk(const char* op, const mask<R, N>& got, F want)
    {
        bool al = true, an = false;
        for (size_t i = 0; i < N; i++)
        {
            bool w = want(i), g = got[i];
            al = al && w, an = an || w;
            if (w != g)
                return (void)c.fail(fmt("%s, lane %zu of %zu: %d instead of %d (a=%s b=%s scalar=%s)", op, i, N, g, w, show(a[i]).c_str(), show(b[i]).c_str(), show(k).c_str()));
        }
        bool ga = kfr::all(got), gn = kfr::any(got);
        if (ga != al || gn != an)
            return (void)c.fail(fmt("%s: all is %d instead of %d, any is %d instead of %d, of %zu lanes", op, ga, al, gn, an, N));
        c.expect(true, op);
    }
    void compare()
    {
        mk("a == b", va == vb, [&](size_t i) { return a[i] == b[i]; });
        mk("a != b", va != vb, [&](size_t i) { return a[i] != b[i]; });
        mk("a < b", va < vb, [&](size_t i) { return a[i] < b[i]; });
        mk("a <= b", va <= vb, [&](size_t i) { return a[i] <= b[i]; });
        mk("a > b", va > vb, [&](size_t i) { return a[i] > b[i]; });
        mk("a >= b", va >= vb, [&](size_t i) { return a[i] >= b[i]; });
        mk("a < scalar", va < k, [&](size_t i) { return a[i] < k; });
        mk("scalar <= b", k <= vb, [&](size_t i) { return k <= b[i]; });
        mk("a == scalar", va == k, [&](size_t i) { return a[i] == k; });
        mk("!(a < b)", !(va < vb), [&](size_t i) { return !(a[i] < b[i]); });
        mk("a < b && b < c", va < vb && vb < vd, [&](size_t i) { return a[i] < b[i] && b[i] < d[i]; });
        mk("a < b || b < c", va < vb || vb < vd, [&](size_t i) { return a[i] < b[i] || b[i] < d[i]; });
        mk("(a < b) ^ (b < c)", (va < vb) ^ (vb < vd), [&](size_t i) { return (a[i] < b[i]) != (b[i] < d[i]); });
        mk("iszero", kfr::iszero(va), [&](size_t i) { return a[i] == 0; });
        is("select(a < b, c, a)", kfr::select(va < vb, vd, va), [&](size_t i) { return a[i] < b[i] ? d[i] : a[i]; });
        is("select(a < b, scalar, c)", kfr::select(va < vb, k, vd), [&](size_t i) { return a[i] < b[i] ? k : d[i]; });
        is("select(a >= b, c, 0)", kfr::select(va >= vb, vd, T(0)), [&](size_t i) { return a[i] >= b[i] ? d[i] : T(0); });
        if constexpr (sizeof(T) <= 4)
            is("select(a < b, double, double)", kfr::select(va < vb, 1.5, -2.5), [&](size_t i) { return a[i] < b[i] ? 1.5 : -2.5; });
        is("select(a < b, 8-bit, 8-bit)", kfr::select(va < vb, (int8_t)3, (int8_t)-7), [&](size_t i) { return (int8_t)(a[i] < b[i] ? 3 : -7); });
    }
    void bitwise()
    {
        auto bw = [](auto f) { return [f](T x, T y) { return unbits<T>((U<T>)f(bits(x), bits(y))); }; };
        auto o  = bw([](auto x, auto y) { return x | y; });
        auto n  = bw([](auto x, auto y) { return x & y; });
        auto x  = bw([](auto x, auto y) { return x ^ y; });
        auto an = bw([](auto x, auto y) { return x & ~y; });
        // compared as bits, floating point included
        auto raw = [&](const char* op, const vec<T, N>& got, auto want)
        {
            T g[N];
            kfr::write(g, got);
            for (size_t i = 0; i < N; i++)
                if (bits(g[i]) != bits((T)want(i)))
                    return (void)c.fail(fmt("%s, lane %zu of %zu: %s instead of %s", op, i, N, show(g[i]).c_str(), show((T)want(i)).c_str()));
            c.expect(true, op);
        };
        raw("a | b", va | vb, [&](size_t i) { return o(a[i], b[i]); });
        raw("a & b", va & vb, [&](size_t i) { return n(a[i], b[i]); });
        raw("a ^ b", va ^ vb, [&](size_t i) { return x(a[i], b[i]); });
        raw("a & scalar", va & k, [&](size_t i) { return n(a[i], k); });
        raw("scalar | b", k | vb, [&](size_t i) { return o(k, b[i]); });
        raw("~a", ~va, [&](size_t i) { return unbits<T>((U<T>)~bits(a[i])); });
        raw("bitwiseandnot", kfr::bitwiseandnot(va, vb), [&](size_t i) { return an(a[i], b[i]); });
        raw("swapbyteorder", kfr::swapbyteorder(va),
            [&](size_t i)
            {
                T v = a[i];
                std::reverse((char*)&v, (char*)&v + sizeof(T));
                return v;
            });
        vec<T, N> t = va;
        t ^= vb;
        raw("a ^= b", t, [&](size_t i) { return x(a[i], b[i]); });
        if constexpr (!fp<T>)
        {
            raw("a << scalar", va << sh, [&](size_t i) { return (T)(bits(a[i]) << sh); });
            raw("a >> scalar", va >> sh, [&](size_t i) { return (T)(a[i] >> sh); });
            U<T> m[N];
            for (size_t i = 0; i < N; i++)
                m[i] = (U<T>)(bits(b[i]) % (sizeof(T) * 8));
            vec<U<T>, N> vm = load(m);
            raw("a << b", va << vm, [&](size_t i) { return (T)(bits(a[i]) << m[i]); });
            raw("a >> b", va >> vm, [&](size_t i) { return (T)(a[i] >> m[i]); });
            t = va;
            t <<= vm;
            raw("a <<= b", t, [&](size_t i) { return (T)(bits(a[i]) << m[i]); });
            t = va;
            t >>= sh;
            raw("a >>= scalar", t, [&](size_t i) { return (T)(a[i] >> sh); });
            if constexpr (!std::is_signed_v<T>)
            {
                constexpr unsigned W = sizeof(T) * 8;
                raw("rol", kfr::rol(va, sh), [&](size_t i) { return (T)(a[i] << sh | (sh ? a[i] >> (W - sh) : 0)); });
                raw("ror", kfr::ror(va, sh), [&](size_t i) { return (T)(a[i] >> sh | (sh ? a[i] << (W - sh) : 0)); });
                raw("rol by lane", kfr::rol(va, vm), [&](size_t i) { return (T)(a[i] << m[i] | (m[i] ? a[i] >> (W - m[i]) : 0)); });
                raw("ror by lane", kfr::ror(va, vm), [&](size_t i) { return (T)(a[i] >> m[i] | (m[i] ? a[i] << (W - m[i]) : 0)); });
            }
        }
    }
    void minmax()
    {
        auto nan = [&](size_t i) { return a[i] != a[i] || b[i] != b[i] || d[i] != d[i] || k != k; };
        auto ab  = [](T x) { return x < 0 ? (T)(0 - x) : x; };
        auto or_ = [&](auto f) { return [&, f](size_t i, T g) { return nan(i) || g == f(i); }; };
        in("min(a,b)", kfr::min(va, vb), or_([&](size_t i) { return std::min(a[i], b[i]); }));
        in("max(a,b)", kfr::max(va, vb), or_([&](size_t i) { return std::max(a[i], b[i]); }));
        in("min(a,scalar)", kfr::min(va, k), or_([&](size_t i) { return std::min(a[i], k); }));
        in("max(scalar,b)", kfr::max(k, vb), or_([&](size_t i) { return std::max(k, b[i]); }));
        if constexpr (std::is_signed_v<T>)
        {
            auto lo = [&](size_t i) { return !fp<T> && (a[i] == L<T>::min() || b[i] == L<T>::min()); };
            in("abs", kfr::abs(va), [&](size_t i, T g) { return lo(i) || a[i] != a[i] ? true : g == ab(a[i]); });
            in("absmin", kfr::absmin(va, vb), [&](size_t i, T g) { return lo(i) || nan(i) || g == std::min(ab(a[i]), ab(b[i])); });
            in("absmax", kfr::absmax(va, vb), [&](size_t i, T g) { return lo(i) || nan(i) || g == std::max(ab(a[i]), ab(b[i])); });
        }
        else
            is("abs", kfr::abs(va), [&](size_t i) { return a[i]; });
        T lo[N], hi[N];
        for (size_t i = 0; i < N; i++)
            lo[i] = std::min(b[i], d[i]), hi[i] = std::max(b[i], d[i]);
        in("clamp(a,lo,hi)", kfr::clamp(va, load(lo), load(hi)), or_([&](size_t i) { return std::min(std::max(a[i], lo[i]), hi[i]); }));
        if (k >= 0)
            in("clamp(a,scalar)", kfr::clamp(va, k), or_([&](size_t i) { return std::min(std::max(a[i], T(0)), k); }));
        if (k <= T(100))
            in("clamp(a,scalar,scalar)", kfr::clamp(va, k, T(100)), or_([&](size_t i) { return std::min(std::max(a[i], k), T(100)); }));
        if constexpr (!fp<T>)
        {
            using W = __int128;
            auto sat = [](W x) { return (T)(x < (W)L<T>::min() ? (W)L<T>::min() : x > (W)L<T>::max() ? (W)L<T>::max() : x); };
            is("satadd", kfr::satadd(va, vb), [&](size_t i) { return sat((W)a[i] + b[i]); });
            is("satsub", kfr::satsub(va, vb), [&](size_t i) { return sat((W)a[i] - b[i]); });
            is("satadd with a scalar", kfr::satadd(va, k), [&](size_t i) { return sat((W)a[i] + k); });
            is("satsub from a scalar", kfr::satsub(k, vb), [&](size_t i) { return sat((W)k - b[i]); });
        }
    }
    void arithmetic()
    {
        if constexpr (!fp<T>)
        {
            using W   = U<T>;
            auto w    = [](auto x) { return (uint64_t)(W)x; };
            is("a+b", va + vb, [&](size_t i) { return (T)(w(a[i]) + w(b[i])); });
            is("a-b", va - vb, [&](size_t i) { return (T)(w(a[i]) - w(b[i])); });
            is("a*b", va * vb, [&](size_t i) { return (T)(w(a[i]) * w(b[i])); });
            is("a+scalar", va + k, [&](size_t i) { return (T)(w(a[i]) + w(k)); });
            is("scalar-b", k - vb, [&](size_t i) { return (T)(w(k) - w(b[i])); });
            is("-a", -va, [&](size_t i) { return (T)(0 - w(a[i])); });
            is("sqr", kfr::sqr(va), [&](size_t i) { return (T)(w(a[i]) * w(a[i])); });
            is("cub", kfr::cub(va), [&](size_t i) { return (T)(w(a[i]) * w(a[i]) * w(a[i])); });
            is("add of three", kfr::add(va, vb, vd), [&](size_t i) { return (T)(w(a[i]) + w(b[i]) + w(d[i])); });
            is("mul of three", kfr::mul(va, vb, vd), [&](size_t i) { return (T)(w(a[i]) * w(b[i]) * w(d[i])); });
            is("fmadd", kfr::fmadd(va, vb, vd), [&](size_t i) { return (T)(w(a[i]) * w(b[i]) + w(d[i])); });
            is("sqrdiff", kfr::sqrdiff(va, vb), [&](size_t i) { return (T)((w(a[i]) - w(b[i])) * (w(a[i]) - w(b[i]))); });
            is("ipow(a,5)", kfr::ipow(va, 5), [&](size_t i) { return (T)(w(a[i]) * w(a[i]) * w(a[i]) * w(a[i]) * w(a[i])); });
            is("horner", kfr::horner(va, vb, vd, vb), [&](size_t i) { return (T)(w(b[i]) + w(a[i]) * (w(d[i]) + w(a[i]) * w(b[i]))); });
            vec<T, N> t = va;
            t *= vb;
            t -= k;
            is("a*=b, -=scalar", t, [&](size_t i) { return (T)(w(a[i]) * w(b[i]) - w(k)); });
            T e[N];
            for (size_t i = 0; i < N; i++)
                e[i] = b[i] == 0 || (std::is_signed_v<T> && b[i] == (T)-1) ? T(3) : b[i];
            vec<T, N> ve = load(e);
            is("a/b", va / ve, [&](size_t i) { return (T)(a[i] / e[i]); });
            is("a%b", va % ve, [&](size_t i) { return (T)(a[i] % e[i]); });
            is("rem", kfr::rem(va, ve), [&](size_t i) { return (T)(a[i] % e[i]); });
            is("a/scalar", va / e[0], [&](size_t i) { return (T)(a[i] / e[0]); });
            is("scalar%b", k % ve, [&](size_t i) { return (T)(k % e[i]); });
        }
        else
        {
            is("a+b", va + vb, [&](size_t i) { return a[i] + b[i]; });
            is("a-b", va - vb, [&](size_t i) { return a[i] - b[i]; });
            is("a*b", va * vb, [&](size_t i) { return a[i] * b[i]; });
            is("a/b", va / vb, [&](size_t i) { return a[i] / b[i]; });
            is("a+scalar", va + k, [&](size_t i) { return a[i] + k; });
            is("scalar-b", k - vb, [&](size_t i) { return k - b[i]; });
            is("scalar/b", k / vb, [&](size_t i) { return k / b[i]; });
            is("-a", -va, [&](size_t i) { return -a[i]; });
            is("reciprocal", kfr::reciprocal(va), [&](size_t i) { return T(1) / a[i]; });
            is("sqr", kfr::sqr(va), [&](size_t i) { return a[i] * a[i]; });
            in("fmadd", kfr::fmadd(va, vb, vd),
               [&](size_t i, T g)
               {
                   volatile T p = a[i] * b[i]; // not to be contracted
                   T w = p + d[i], f = std::fma(a[i], b[i], d[i]);
                   return g == w || g == f || (g != g && (w != w || f != f));
               });
            vec<T, N> t = va;
            t *= vb;
            is("a*=b", t, [&](size_t i) { return a[i] * b[i]; });
            t = va;
            t /= k;
            is("a/=scalar", t, [&](size_t i) { return a[i] / k; });
            if constexpr (N >= 2)
            {
                is("subadd", kfr::subadd(va, vb), [&](size_t i) { return i % 2 ? a[i] + b[i] : a[i] - b[i]; });
                is("addsub", kfr::addsub(va, vb), [&](size_t i) { return i % 2 ? a[i] - b[i] : a[i] + b[i]; });
            }
            if constexpr (N % 2 == 0)
            {
                is("negeven", kfr::negeven(va), [&](size_t i) { return i % 2 ? a[i] : -a[i]; });
                is("negodd", kfr::negodd(va), [&](size_t i) { return i % 2 ? -a[i] : a[i]; });
            }
            is("copysign", kfr::copysign(va, vb), [&](size_t i) { return std::copysign(a[i], b[i]); });
            is("mulsign", kfr::mulsign(va, vb), [&](size_t i) { return std::signbit(b[i]) ? -a[i] : a[i]; });
            mk("isnan", kfr::isnan(va), [&](size_t i) { return std::isnan(a[i]); });
            mk("isinf", kfr::isinf(va), [&](size_t i) { return std::isinf(a[i]); });
            mk("isfinite", kfr::isfinite(va), [&](size_t i) { return std::isfinite(a[i]); });
            mk("isnegative", kfr::isnegative(va), [&](size_t i) { return std::signbit(a[i]); });
            mk("ispositive", kfr::ispositive(va), [&](size_t i) { return !std::signbit(a[i]); });
        }
    }
    void rounding()
    {
        if constexpr (fp<T>)
        {
            is("floor", kfr::floor(va), [&](size_t i) { return std::floor(a[i]); });
            is("ceil", kfr::ceil(va), [&](size_t i) { return std::ceil(a[i]); });
            is("trunc", kfr::trunc(va), [&](size_t i) { return std::trunc(a[i]); });
            // halves may go either way
            auto ok = [&](size_t i, T g) { return g == std::round(a[i]) || g == std::nearbyint(a[i]) || (a[i] != a[i] && g != g); };
            in("round", kfr::round(va), ok);
            in("fract", kfr::fract(va), [&](size_t i, T g) { return !std::isfinite(a[i]) || g == a[i] - std::floor(a[i]); });
            using I        = kfr::itype<T>;
            const T range = (T)((uint64_t)1 << (sizeof(I) * 8 - 1));
            auto fits      = [&](size_t i) { return a[i] >= -range && a[i] < range; };
            in("ifloor", kfr::ifloor(va), [&](size_t i, I g) { return !fits(i) || g == (I)std::floor(a[i]); });
            in("iceil", kfr::iceil(va), [&](size_t i, I g) { return !fits(i) || g == (I)std::ceil(a[i]); });
            in("itrunc", kfr::itrunc(va), [&](size_t i, I g) { return !fits(i) || g == (I)std::trunc(a[i]); });
            in("iround", kfr::iround(va), [&](size_t i, I g) { return !fits(i) || ok(i, (T)g); });
            in("fmod", kfr::fmod(va, vb),
               [&](size_t i, T g)
               {
                   T q = a[i] / b[i];
                   if (!std::isfinite(a[i]) || !std::isfinite(b[i]) || !(std::fabs(q) < 1000) || std::fabs(b[i]) < L<T>::min() * 1e6)
                       return true;
                   T w = std::fmod(a[i], b[i]), e = 2 * L<T>::epsilon() * std::fabs(a[i]);
                   // the quotient may round up to an integer
                   return std::fabs(g - w) <= e || std::fabs(std::fabs(g - w) - std::fabs(b[i])) <= e;
               });
        }
        else
        {
            is("floor", kfr::floor(va), [&](size_t i) { return a[i]; });
            is("round", kfr::round(va), [&](size_t i) { return a[i]; });
            is("fract", kfr::fract(va), [&](size_t) { return 0; });
        }
    }
    // another type on the other side
    template <typename V>
    void mixed(const char* name)
    {
        using C = std::common_type_t<T, V>;
        if constexpr (fp<T> == fp<V> || fp<C>)
        {
            V e[N], q;
            for (size_t i = 0; i < N; i++)
                e[i] = (V)(int)(bits(b[i]) % 100), q = e[i];
            T f[N];
            for (size_t i = 0; i < N; i++)
                f[i] = (T)(int)(bits(a[i]) % 100);
            vec<V, N> ve = load(e);
            vec<T, N> vf = load(f);
            is(name, vf + ve, [&](size_t i) { return (C)((C)f[i] + (C)e[i]); });
            is(name, ve * vf, [&](size_t i) { return (C)((C)e[i] * (C)f[i]); });
            is(name, vf - q, [&](size_t i) { return (C)((C)f[i] - (C)q); });
            is(name, q - vf, [&](size_t i) { return (C)((C)q - (C)f[i]); });
            mk(name, vf < ve, [&](size_t i) { return (C)f[i] < (C)e[i]; });
            mk(name, vf >= q, [&](size_t i) { return (C)f[i] >= (C)q; });
        }
    }
    void horizontal()
    {
        if constexpr (!fp<T>)
        {
            using W = U<T>;
            T sum = 0, prod = 1, n = (T)~(W)0, o = 0, x = 0, mn = a[0], mx = a[0], dot = 0;
            for (size_t i = 0; i < N; i++)
            {
                sum  = (T)((uint64_t)(W)sum + (W)a[i]);
                prod = (T)((uint64_t)(W)prod * (W)a[i]);
                dot  = (T)((uint64_t)(W)dot + (uint64_t)(W)a[i] * (W)b[i]);
                n = n & a[i], o = o | a[i], x = x ^ a[i], mn = std::min(mn, a[i]), mx = std::max(mx, a[i]);
            }
            auto one = [&](const char* op, T got, T want) { c.expect(got == want, fmt("%s of %zu lanes: %s instead of %s", op, N, show(got).c_str(), show(want).c_str())); };
            one("hadd", kfr::hadd(va), sum);
            one("hsum", kfr::hsum(va), sum);
            one("hmul", kfr::hmul(va), prod);
            one("hbitwiseand", kfr::hbitwiseand(va), n);
            one("hbitwiseor", kfr::hbitwiseor(va), o);
            one("hbitwisexor", kfr::hbitwisexor(va), x);
            one("hdot", kfr::hdot(va, vb), dot);
            one("hmin", kfr::hmin(va), mn);
            one("hmax", kfr::hmax(va), mx);
            // small enough not to overflow
            T s[N];
            long total = 0;
            for (size_t i = 0; i < N; i++)
                s[i] = (T)((long)(bits(a[i]) % 5) - (std::is_signed_v<T> ? 4 : 0)), total += (long)s[i];
            if (total >= (long)(std::is_signed_v<T> && sizeof(T) < 8 ? L<T>::min() : (T)0) - (std::is_signed_v<T> ? 500 : 0) &&
                (sizeof(T) > 1 || (total >= -128 && total <= 127)))
                one("havg", kfr::havg(load(s)), (T)(total / (long)N));
        }
        else
        {
            using ld = long double;
            bool finite = true;
            ld sum = 0, as = 0, dot = 0, ad = 0, sq = 0;
            T mn = a[0], mx = a[0];
            for (size_t i = 0; i < N; i++)
            {
                finite = finite && std::fabs(a[i]) < 1e15 && std::fabs(b[i]) < 1e15;
                sum += a[i], as += std::fabs(a[i]), dot += (ld)a[i] * b[i], ad += std::fabs((ld)a[i] * b[i]), sq += (ld)a[i] * a[i];
                mn = std::min(mn, a[i]), mx = std::max(mx, a[i]);
            }
            if (!finite)
                return;
            const ld eps = L<T>::epsilon(), tiny = L<T>::min() * N;
            auto near = [&](const char* op, T got, ld want, ld tol)
            { c.expect(std::fabs((ld)got - want) <= tol + tiny, fmt("%s of %zu lanes: %.9g instead of %.9Lg", op, N, (double)got, want)); };
            near("hadd", kfr::hadd(va), sum, as * eps * 8);
            near("hdot", kfr::hdot(va, vb), dot, ad * eps * 10);
            near("havg", kfr::havg(va), sum / N, as / N * eps * 9);
            if (sq / N > L<T>::min() * 1e10L)
                near("hrms", kfr::hrms(va), std::sqrt(sq / N), std::sqrt(sq / N) * eps * 10);
            near("hmin", kfr::hmin(va), mn, 0);
            near("hmax", kfr::hmax(va), mx, 0);
        }
    }
    void everything()
    {
        arithmetic();
        compare();
        bitwise();
        minmax();
        rounding();
        horizontal();
        if constexpr (N == 3 || N == 8)
        {
            mixed<int32_t>("with a 32-bit integer");
            mixed<float>("with a float");
            mixed<uint8_t>("with an 8-bit integer");
        }
    }
};

template <typename T>
static void type(Src& s, Case& c)
{
    static const int sizes[] = { 1, 2, 3, 4, 7, 8, 16, 32, 64 };
    int n     = sizes[s.in("size", 0, 8)];
    int style = (int)s.in("values", 0, 5);
    Rng r     = s.bulk("seed");
    s.say(fmt("%d lanes", n));
    auto go = [&](auto N)
    {
        One<T, decltype(N)::value> o(s, c, r, style);
        o.everything();
    };
    switch (n)
    {
#define P30_N(n) case n: go(kfr::csize<n>); break;
        P30_N(1) P30_N(2) P30_N(3) P30_N(4) P30_N(7) P30_N(8) P30_N(16) P30_N(32)
    default: go(kfr::csize<64>);
    }
    c.label(fmt("%d lanes, style %d", n, style));
}

// rounding of numbers that the compiler knows
template <typename T, size_t N>
static void known(Src& s, Case& c)
{
    const int which = (int)s.sweep("value", 0, 11);
    switch (which)
    {
#define P30_KNOWN(I, X)                                                                                      \
    case I:                                                                                                  \
    {                                                                                                        \
        const T x          = (T)(X);                                                                         \
        volatile T y       = x;                                                                              \
        const vec<T, N> v  = x;                                                                              \
        T want[5]          = { std::floor(y), std::ceil(y), std::trunc(y), std::round(y), 0 };               \
        T got[2][4]        = { { kfr::floor(x), kfr::ceil(x), kfr::trunc(x), kfr::round(x) },                \
                               { kfr::floor(v)[N - 1], kfr::ceil(v)[N - 1], kfr::trunc(v)[N - 1], kfr::round(v)[N - 1] } }; \
        for (int form = 0; form < 2; form++)                                                                 \
            for (int i = 0; i < 4; i++)                                                                      \
                c.expect(got[form][i] == want[i] || (std::isnan(want[i]) && std::isnan(got[form][i])),       \
                         fmt("%s of %g known at compile time is %g, expected %g", i == 0 ? "floor" : i == 1 ? "ceil" : i == 2 ? "trunc" : "round", (double)y, (double)got[form][i], (double)want[i])); \
        break;                                                                                               \
    }
        P30_KNOWN(0, 1.25)
        P30_KNOWN(1, -1.25)
        P30_KNOWN(2, 1e10)
        P30_KNOWN(3, -1e10)
        P30_KNOWN(4, 1e30)
        P30_KNOWN(5, -1e30)
        P30_KNOWN(6, INFINITY)
        P30_KNOWN(7, -INFINITY)
        P30_KNOWN(8, NAN)
        P30_KNOWN(9, 0)
        P30_KNOWN(10, 16777215.0)
        P30_KNOWN(11, 4294967296.0)
    }
    c.interesting(which, N);
}
template <typename T>
static void known(Src& s, Case& c)
{
    switch (s.in("lanes", 0, 3))
    {
    case 0: return known<T, 1>(s, c);
    case 1: return known<T, 3>(s, c);
    case 2: return known<T, 4>(s, c);
    case 3: return known<T, 16>(s, c);
    }
}
} // namespace lanes
