// Pseudorandom values against a scalar model of the documented generator, its distributions and its use in expressions.
#include <kfr/base.hpp>
#include <kfr/math.hpp>
#include <kfr/simd.hpp>
#include "pbt.hpp"
using namespace pbt;
using kfr::random_state;
using kfr::vec;

// Four linear congruential generators whose 16 bytes are rotated together
struct Model
{
    uint32_t v[4];
    void next()
    {
        static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u };
        static const uint32_t add[4] = { 2531011u, 10395331u, 13737667u, 1u };
        unsigned char b[16], o[16];
        for (int i = 0; i < 4; i++)
        {
            uint32_t x = v[i] * mul[i] + add[i];
            memcpy(b + 4 * i, &x, 4);
        }
        for (int i = 0; i < 16; i++)
            o[i] = b[(i + 13) % 16];
        memcpy(v, o, 16);
    }
    // more than 16 bytes: the largest power of two first, then the rest
    void bits(size_t n, std::vector<unsigned char>& out)
    {
        if (n <= 16)
        {
            next();
            out.insert(out.end(), (unsigned char*)v, (unsigned char*)v + n);
            return;
        }
        size_t p = 16;
        while (p * 2 < n)
            p *= 2;
        bits(p, out);
        bits(n - p, out);
    }
    template <typename T>
    std::vector<T> values(size_t n)
    {
        std::vector<unsigned char> b;
        bits(n * sizeof(T), b);
        std::vector<T> r(n);
        memcpy(r.data(), b.data(), n * sizeof(T));
        return r;
    }
    // [0, 1): the low bits become the fraction of a number in [1, 2)
    template <typename T>
    std::vector<T> units(size_t n)
    {
        using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
        std::vector<T> r(n);
        const int bits   = std::numeric_limits<T>::digits - 1;
        std::vector<U> u = values<U>(n);
        for (size_t i = 0; i < n; i++)
            r[i] = (T)std::ldexp((long double)(u[i] & ((U(1) << bits) - 1)), -bits);
        return r;
    }
};

static bool same(const random_state& s, const Model& m) { return memcmp(&s, m.v, 16) == 0; }

static void seed(Src& s, random_state& st, Model& m, Rng& r)
{
    int kind = s.in("seeding", 0, 2);
    for (int i = 0; i < 4; i++)
        m.v[i] = kind == 2 ? (uint32_t)r.below(3) : (uint32_t)r.u64();
    st = kind == 1 ? kfr::random_init((uint64_t)m.v[0] | (uint64_t)m.v[1] << 32, (uint64_t)m.v[2] | (uint64_t)m.v[3] << 32)
                   : kfr::random_init(m.v[0], m.v[1], m.v[2], m.v[3]);
    m.next();
}

template <typename F, size_t... N>
static void each_width(size_t n, F&& f, std::index_sequence<N...>)
{
    (void)((n == N + 1 ? (f(std::integral_constant<size_t, N + 1>()), true) : false) || ...);
}
template <size_t Max, typename F>
static void with_width(size_t n, F&& f)
{
    each_width(n, f, std::make_index_sequence<Max>());
}

template <typename T>
static void integers(Src& s, Case& c, random_state& st, Model& m, Rng& r, size_t n, int calls)
{
    constexpr bool small = sizeof(T) <= 4;
    bool ranged          = small && s.flag("range", 3, 5);
    T lo = 0, hi = 0;
    if (ranged)
    {
        switch (s.in("bounds", 0, 3))
        {
        case 0: lo = (T)r.u64(), hi = (T)r.u64(); break;
        case 1: lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); break;
        case 2: lo = (T)r.u64(), hi = (T)(lo + (T)r.range(1, 20)); break;
        default: lo = (T)r.below(20), hi = (T)(lo + (T)r.range(1, 100)); break;
        }
        if (hi < lo)
            std::swap(lo, hi);
        if (hi == lo)
            throw Discard();
    }
    c.label(ranged ? "integers of a range" : "integers");
    s.say(fmt("bounds %lld %lld", (long long)lo, (long long)hi));
    with_width<20>(n, [&](auto w) {
        constexpr size_t N = decltype(w)::value;
        for (int k = 0; k < calls; k++)
        {
            vec<T, N> got;
            if constexpr (small)
                got = ranged ? kfr::random_range<N, T>(st, lo, hi) : kfr::random_uniform<T, N>(st);
            else
                got = kfr::random_uniform<T, N>(st);
            using U             = std::make_unsigned_t<T>;
            std::vector<U> want = m.values<U>(N);
            for (size_t i = 0; i < N; i++)
            {
                T e = (T)want[i];
                if (ranged)
                {
                    c.expect(got[i] >= lo && got[i] < hi, fmt("value %lld is outside of [%lld, %lld) (%zu-byte, lane %zu of %zu)", (long long)got[i], (long long)lo, (long long)hi, sizeof(T), i, N));
                    uint64_t range = (uint64_t)((int64_t)hi - (int64_t)lo);
                    e              = (T)((int64_t)lo + (int64_t)((want[i] * range) >> (sizeof(T) * 8)));
                }
                c.expect(got[i] == e, fmt("value is %lld, expected %lld (%zu-byte, lane %zu of %zu, call %d)", (long long)got[i], (long long)e, sizeof(T), i, N, k));
            }
            c.expect(same(st, m), "the state after integers differs");
        }
    });
}

template <typename T>
static void reals(Src& s, Case& c, random_state& st, Model& m, Rng& r, size_t n, int calls)
{
    int kind = s.in("distribution", 0, 2);
    T a = 0, b = 1;
    if (kind)
    {
        double sc = std::pow(10.0, (double)r.range(-6, 6));
        a = (T)(r.sym() * sc), b = (T)(r.sym() * sc);
        if (kind == 1 && r.chance(1, 4))
            a = (T)(sc * 1e3), b = (T)(a * (1 + r.unit() * 1e-5));
        if (kind == 1 && b < a)
            std::swap(a, b);
        if (kind == 2)
            b = std::fabs(b);
    }
    // clang 18 generates wrong code for the masks of 4 lanes of which 3 are used on SSE2 (its IR is correct)
    if (kind == 2 && n == 3 && sizeof(T) == 8)
        throw Discard();
    c.label(kind == 0 ? "uniform" : kind == 1 ? "uniform of a range" : "normal");
    s.say(fmt("parameters %.17g %.17g", (double)a, (double)b));
    const double eps = std::numeric_limits<T>::epsilon();
    with_width<20>(n, [&](auto w) {
        constexpr size_t N = decltype(w)::value;
        for (int k = 0; k < calls; k++)
        {
            vec<T, N> got = kind == 0   ? kfr::random_uniform<T, N>(st)
                            : kind == 1 ? kfr::random_range<N, T>(st, a, b)
                                        : kfr::random_normal<N, T>(st, a, b);
            std::vector<T> u = m.units<T>(kind == 2 ? (N + 1) / 2 * 2 : N);
            for (size_t i = 0; i < N; i++)
            {
                double x    = got[i];
                auto where = [&] { return fmt("(%zu-byte, lane %zu of %zu, call %d, parameters %.17g %.17g)", sizeof(T), i, N, k, (double)a, (double)b); };
                if (kind == 0)
                    c.expect(x == u[i], fmt("uniform value is %.17g, expected %.17g ", x, (double)u[i]) + where());
                else if (kind == 1)
                {
                    c.expect(x >= a && x <= b, fmt("%.17g is outside of the range ", x) + where());
                    double e = a + u[i] * ((double)b - a), t = 2 * eps * std::max(std::fabs(a), std::fabs(b));
                    c.expect(std::fabs(x - e) <= t, fmt("value is %.17g, expected %.17g ", x, e) + where());
                }
                else
                {
                    double mag = std::sqrt(-2 * std::log1p(-(double)u[i / 2 * 2])), ph = 2 * 3.14159265358979323846 * u[i | 1];
                    double e = a + b * mag * (i % 2 ? std::sin(ph) : std::cos(ph)), t = eps * (64 * b * (mag + 1) + 2 * std::fabs(a));
                    c.expect(std::fabs(x - e) <= t, fmt("value is %.17g, expected %.17g ", x, e) + where());
                }
            }
            c.expect(same(st, m), "the state after reals differs");
        }
    });
}

PBT_TEST(values, 40000, 800000)
{
    Rng r = s.bulk("seeds");
    random_state st;
    Model m;
    seed(s, st, m, r);
    c.expect(same(st, m), "the state after initialization differs");
    size_t n  = s.sweep("lanes", 1, 20);
    int calls = s.in("calls", 1, 4), type = s.in("type", 0, 10);
    c.interesting(n, type, m.v[0], m.v[1]);
    switch (type)
    {
    case 0: return integers<uint8_t>(s, c, st, m, r, n, calls);
    case 1: return integers<int8_t>(s, c, st, m, r, n, calls);
    case 2: return integers<uint16_t>(s, c, st, m, r, n, calls);
    case 3: return integers<int16_t>(s, c, st, m, r, n, calls);
    case 4: return integers<uint32_t>(s, c, st, m, r, n, calls);
    case 5: return integers<int32_t>(s, c, st, m, r, n, calls);
    case 6: return integers<uint64_t>(s, c, st, m, r, n, calls);
    case 7: return integers<int64_t>(s, c, st, m, r, n, calls);
    case 8: return reals<double>(s, c, st, m, r, n, calls);
    default: return reals<float>(s, c, st, m, r, n, calls);
    }
}

// States from which the next value is zero or the largest one: the tails of the normal distribution
template <typename T>
static void extreme(Src& s, Case& c)
{
    Rng r = s.bulk("seeds");
    // the state before the step is found by undoing the rotation and the four generators
    Model want, m;
    for (auto& v : want.v)
        v = r.chance(1, 2) ? (r.chance(1, 2) ? 0 : 0xFFFFFFFFu) : (uint32_t)r.u64();
    unsigned char b[16], o[16];
    memcpy(o, want.v, 16);
    for (int i = 0; i < 16; i++)
        b[(i + 13) % 16] = o[i];
    static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u };
    static const uint32_t add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    for (int i = 0; i < 4; i++)
    {
        uint32_t x, inv = 1;
        memcpy(&x, b + 4 * i, 4);
        for (int k = 0; k < 6; k++)
            inv *= 2 - mul[i] * inv;
        m.v[i] = (x - add[i]) * inv;
    }
    random_state st;
    memcpy((void*)&st, m.v, 16);
    m.next();
    c.expect(memcmp(m.v, want.v, 16) == 0, "(check) the inverse of the step is wrong");
    c.interesting(want.v[0], want.v[1], want.v[2], want.v[3], sizeof(T));
    random_state st2   = st, st3 = st;
    constexpr size_t N = 16 / sizeof(T);
    vec<T, N> u = kfr::random_uniform<T, N>(st), g = kfr::random_range<N, T>(st2, T(-2), T(3)), z = kfr::random_normal<N, T>(st3, T(10), T(2));
    for (size_t i = 0; i < N; i++)
    {
        c.expect(u[i] >= 0 && u[i] < 1, fmt("uniform value %.17g", (double)u[i]));
        c.expect(g[i] >= -2 && g[i] <= 3, fmt("value %.17g of [-2, 3)", (double)g[i]));
        // the rarest value the fraction can represent is 2^-52 (2^-23)
        c.expect(std::fabs(z[i] - 10) <= 2 * std::sqrt(2 * 53 * std::log(2.0)), fmt("normal value %.17g", (double)z[i]));
    }
}
PBT_TEST(extremes_f32, 5000, 100000) { extreme<float>(s, c); }
PBT_TEST(extremes_f64, 5000, 100000) { extreme<double>(s, c); }

enum Kind
{
    Uniform,
    Range,
    Normal
};

template <typename T, typename State>
static kfr::univector<T> draw(int kind, State&& st, T a, T b, size_t n)
{
    kfr::univector<T> v(n);
    if constexpr (std::is_floating_point_v<T>)
    {
        if (kind == Normal)
        {
            v = kfr::gen_random_normal<T>(st, b, a);
            return v;
        }
    }
    if (kind == Uniform)
        v = kfr::gen_random_uniform<T>(st);
    else
        v = kfr::gen_random_range<T>(st, a, b);
    return v;
}
template <typename T>
static kfr::univector<T> draw_seeded(int kind, T a, T b, size_t n)
{
    kfr::univector<T> v(n);
    if constexpr (std::is_floating_point_v<T>)
    {
        if (kind == Normal)
        {
            v = kfr::gen_random_normal<T>(b, a);
            return v;
        }
    }
    if (kind == Uniform)
        v = kfr::gen_random_uniform<T>();
    else
        v = kfr::gen_random_range<T>(a, b);
    return v;
}

// Bounds, the average, the spread and the shares of 16 equally likely parts
template <typename T>
static void judge(Case& c, const char* how, int kind, double lo, double hi, const T* v, size_t n)
{
    double sum = 0, sq = 0;
    size_t part[16] = {};
    for (size_t i = 0; i < n; i++)
    {
        double x = v[i], p;
        if (kind == Normal)
        {
            c.expect(std::isfinite(x), fmt("%s: normal value %zu is %g", how, i, x));
            p = 0.5 * std::erfc(-(x - lo) / hi / std::sqrt(2.0));
        }
        else
        {
            bool in = x >= lo && (std::is_floating_point<T>::value && kind == Range ? x <= hi : x < hi);
            c.expect(in, fmt("%s: value %zu is %.17g, outside of [%.17g, %.17g)", how, i, x, lo, hi));
            p = (x - lo) / (hi - lo);
            if (std::is_integral<T>::value)
                p += 0.5 / (hi - lo);
        }
        sum += p;
        sq += p * p;
        part[std::min(15, (int)(p * 16))]++;
    }
    if (n < 500 || (std::is_integral<T>::value && hi - lo < 256))
        return;
    double mean = sum / n, var = sq / n - mean * mean, chi = 0;
    // p is uniform on [0, 1): mean 1/2 with deviation sqrt(1/12n), mean of squares 1/3 with deviation sqrt(4/45n)
    double dm = std::fabs(mean - 0.5) / std::sqrt(1 / (12.0 * n)), dv = std::fabs(sq / n - 1 / 3.0) / std::sqrt(4 / (45.0 * n));
    for (size_t k : part)
        chi += (k - n / 16.0) * (k - n / 16.0) / (n / 16.0);
#ifdef CALIBRATE
    if (FILE* f = fopen("/tmp/p25.cal", "a"))
    {
        fprintf(f, "%g %g %g\n", dm, dv, chi);
        fclose(f);
    }
    return;
#endif
    c.expect(dm < 8, fmt("%s: the average of %zu values mapped to [0, 1) is %g (variance %g)", how, n, mean, var));
    c.expect(dv < 8, fmt("%s: the variance of %zu values mapped to [0, 1) is %g", how, n, var));
    c.expect(chi < 120, fmt("%s: shares of %zu values are uneven (chi-square %g with 15 degrees of freedom)", how, n, chi));
}

template <typename T>
static void expression(Src& s, Case& c)
{
    Rng r = s.bulk("seeds");
    random_state st;
    Model m;
    seed(s, st, m, r);
    int kind = s.in("kind", 0, std::is_floating_point_v<T> ? 2 : 1);
    size_t n = s.flag("long", 1, 3) ? (size_t)s.in("size", 500, 4000) : (size_t)s.skew("size", 0, 400);
    T a = 0, b = 1;
    double lo, hi;
    if (std::is_floating_point_v<T>)
    {
        if (kind == Range)
            a = (T)(r.sym() * 10), b = (T)(a + 0.1 + r.unit() * 10);
        if (kind == Normal)
            a = (T)(r.sym() * 10), b = (T)(0.1 + r.unit() * 10);
        lo = a, hi = b;
    }
    else if (kind == Range)
    {
        a = (T)r.u64(), b = (T)r.u64();
        if (b < a)
            std::swap(a, b);
        if (a == b)
            throw Discard();
        lo = a, hi = b;
    }
    else
        lo = std::numeric_limits<T>::min(), hi = (double)std::numeric_limits<T>::max() + 1;
    c.label(kind == Uniform ? "uniform" : kind == Range ? "range" : "normal");
    c.interesting(kind, n, sizeof(T), m.v[0]);
    const random_state start = st;
    kfr::univector<T> v = draw<T>(kind, (const random_state&)st, a, b, n);
    c.expect(same(st, m), "an expression of a copied state changed the state");
    judge(c, "copied state", kind, lo, hi, v.data(), n);
    kfr::univector<T> w = draw<T>(kind, (const random_state&)st, a, b, n);
    for (size_t i = 0; i < n; i++)
        c.expect(v[i] == w[i], fmt("value %zu is %g and then %g with the same state", i, (double)v[i], (double)w[i]));
    w = draw<T>(kind, std::ref(st), a, b, n);
    for (size_t i = 0; i < n; i++)
        c.expect(v[i] == w[i], fmt("value %zu is %g with a copied and %g with a referenced state", i, (double)v[i], (double)w[i]));
    judge(c, "referenced state", kind, lo, hi, w.data(), n);
    if (n)
    {
        c.expect(memcmp(&st, &start, 16) != 0, "a referenced state has not advanced");
        // the state has advanced by at least the bytes of the values that were drawn, and not by much more than one step for each
        size_t steps = 0, least = (n * sizeof(T) + 15) / 16, most = n * 2 + 64;
        while (!same(st, m) && steps <= most)
            m.next(), steps++;
        c.expect(steps >= least && steps <= most, fmt("a referenced state has advanced by %zu steps for %zu values of %zu bytes", steps, n, sizeof(T)));
    }
    if (n >= 32 && (std::is_floating_point_v<T> || hi - lo >= 64))
    {
        kfr::univector<T> x = draw<T>(kind, std::ref(st), a, b, n);
        size_t eq           = 0;
        for (size_t i = 0; i < n; i++)
            eq += x[i] == v[i];
        c.expect(eq <= n / 2 + 8, fmt("%zu of %zu values repeat after the referenced state has advanced", eq, n));
    }
    if (s.flag("2D", 1, 3))
    {
        size_t rows = s.in("rows", 1, 9), cols = s.in("cols", 1, 40);
        kfr::tensor<T, 2> t(kfr::shape{ rows, cols });
        t = kfr::gen_random_range<T, 2>(start, std::is_floating_point_v<T> ? T(-3) : T(5), T(60));
        judge(c, "tensor", Range, std::is_floating_point_v<T> ? -3 : 5, 60, t.data(), rows * cols);
        if constexpr (std::is_floating_point_v<T>)
        {
            t = kfr::gen_random_uniform<T, 2>(start);
            judge(c, "tensor", Uniform, 0, 1, t.data(), rows * cols);
            t = kfr::gen_random_normal<T, 2>(start, 2, 1);
            judge(c, "tensor", Normal, 1, 2, t.data(), rows * cols);
        }
        random_state st2 = start;
        t = kfr::gen_random_range<T, 2>(std::ref(st2), T(1), T(2));
        judge(c, "tensor", Range, 1, 2, t.data(), rows * cols);
        c.expect(memcmp(&st2, &start, 16) != 0, "a referenced state has not advanced (tensor)");
    }
    if (s.flag("cycle counter", 1, 4))
    {
        // not reproducible: only what holds for every seed
        kfr::univector<T> v = draw_seeded<T>(kind, a, b, std::min(n, size_t(400)));
        judge(c, "seeded by the cycle counter", kind, lo, hi, v.data(), v.size());
    }
}

PBT_TEST(expressions, 6000, 120000)
{
    switch (s.in("type", 0, 7))
    {
    case 0: return expression<uint8_t>(s, c);
    case 1: return expression<int16_t>(s, c);
    case 2: return expression<uint32_t>(s, c);
    case 3: return expression<int32_t>(s, c);
    case 4: case 5: return expression<double>(s, c);
    default: return expression<float>(s, c);
    }
}
