// Vectors in memory: loads, stores, gathers, scatters, element access and conversions name exactly the elements they say.
#include <kfr/base.hpp>
#include <kfr/simd.hpp>
#include "pbt.hpp"
using namespace pbt;

namespace mem
{
using kfr::csize;
using kfr::csizes_t;
using kfr::vec;

enum { NUM, CPX, NEST };
template <typename T>
struct kind
{
    static constexpr int is       = NUM;
    static constexpr size_t width = 1;
    using sub                     = T;
};
template <typename T>
struct kind<kfr::complex<T>>
{
    static constexpr int is       = CPX;
    static constexpr size_t width = 2;
    using sub                     = T;
};
template <typename T, size_t N>
struct kind<vec<T, N>>
{
    static constexpr int is       = NEST;
    static constexpr size_t width = N;
    using sub                     = T;
};
template <typename T>
static T draw(Rng& r)
{
    using S = typename kind<T>::sub;
    if constexpr (kind<T>::is == CPX)
    {
        S x = draw<S>(r), y = draw<S>(r);
        return T(x, y);
    }
    else if constexpr (kind<T>::is == NEST)
    {
        T x{};
        for (size_t i = 0; i < kind<T>::width; i++)
            x[i] = draw<S>(r);
        return x;
    }
    else if constexpr (std::is_floating_point_v<T>)
        return (T)(r.range(-100000, 100000) * 0.25);
    else
        return (T)r.u64();
}
template <typename T>
static bool same(const T& a, const T& b)
{
    if constexpr (kind<T>::is == NEST)
    {
        for (size_t i = 0; i < kind<T>::width; i++)
            if (!(a[i] == b[i]))
                return false;
        return true;
    }
    else
        return a == b;
}

template <typename T, size_t N>
struct One
{
    Src& s;
    Case& c;
    Rng& r;
    static constexpr size_t area = 2600;
    // every load and store happens inside this, and the whole of it is compared with the model after each store
    Buf<T> buf;
    std::vector<T> model;

    One(Src& s, Case& c, Rng& r) : s(s), c(c), r(r), buf(area), model(area)
    {
        for (size_t i = 0; i < area; i++)
            buf[i] = model[i] = draw<T>(r);
    }
    template <size_t M, typename F>
    void loaded(const char* op, const vec<T, M>& got, F where)
    {
        for (size_t i = 0; i < M; i++)
            if (!same(T(got[i]), model[where(i)]))
                return (void)c.fail(fmt("%s, %zu lanes: lane %zu is not element %zu of the memory it reads", op, N, i, (size_t)where(i)));
        c.expect(true, op);
    }
    // after a store: element where(i) holds x[i], all others what they held
    template <size_t M, typename F>
    void stored(const char* op, const T (&x)[M], F where)
    {
        for (size_t i = 0; i < M; i++)
            model[where(i)] = x[i];
        for (size_t i = 0; i < area; i++)
            if (!same(buf[i], model[i]))
            {
                std::string w;
                for (size_t k = 0; k < M && k < 40; k++)
                    w += fmt(" %zu", (size_t)where(k));
                if constexpr (kind<T>::is == NUM)
                    w += fmt("; it holds %g instead of %g", (double)buf[i], (double)model[i]);
                c.fail(fmt("%s, %zu lanes: element %zu of the memory is wrong after the store to%s", op, N, i, w.c_str()));
                return;
            }
        buf.check(c, op);
        c.expect(true, op);
    }
    template <size_t M>
    vec<T, M> make(T (&x)[M])
    {
        vec<T, M> v;
        for (size_t i = 0; i < M; i++)
            x[i] = draw<T>(r), v.set(i, x[i]);
        return v;
    }
    void plain()
    {
        size_t at = r.below(area - N);
        T* p      = buf.data() + at;
        loaded("read", kfr::read<N>(p), [&](size_t i) { return at + i; });
        loaded("vec(pointer)", vec<T, N>(p), [&](size_t i) { return at + i; });
        T x[N];
        auto v = make(x);
        kfr::write(p, v);
        stored("write", x, [&](size_t i) { return at + i; });
        at = r.below(area - N), p = buf.data() + at;
        auto w = make(x);
        w.write(p);
        stored("vec::write", x, [&](size_t i) { return at + i; });
        // aligned forms at an address that is
        if constexpr (kind<T>::is == NUM)
        {
            size_t al = alignof(vec<T, N>);
            at        = (al - (size_t)buf.data() % al) % al / sizeof(T);
            p         = buf.data() + at;
            if ((size_t)p % al == 0)
            {
                loaded("aligned read", kfr::read<N, true>(p), [&](size_t i) { return at + i; });
                auto q = make(x);
                kfr::write<true>(p, q);
                stored("aligned write", x, [&](size_t i) { return at + i; });
            }
        }
    }
    template <size_t Count, size_t G>
    void group()
    {
        if constexpr (kind<T>::is == NUM && Count * N * G <= 64)
        {
            size_t stride = N + r.below(20), at = r.below(area - Count * stride * G - N * G);
            T* p       = buf.data() + at;
            auto where = [&](size_t i) { return at + i / (N * G) * stride * G + i % (N * G); };
            loaded("read_group", kfr::read_group<Count, N, G>(p, stride), where);
            T x[Count * N * G];
            auto v = make(x);
            kfr::write_group<Count, N, G>(p, stride, v);
            stored("write_group", x, where);
        }
    }
    template <size_t G>
    void stride()
    {
        // (groups of three bytes: clang 18 itself miscompiles the 12-lane byte shuffle at -O1, not at -O0)
        if constexpr (kind<T>::is == NUM && N * G <= 64 && (G != 3 || sizeof(T) >= 4))
        {
            size_t stride = r.chance(1, 8) ? 1 : 1 + r.below(9), at = r.below(area - N * stride * G - G);
            T* p       = buf.data() + at;
            auto where = [&](size_t i) { return at + i / G * stride * G + i % G; };
            loaded("gather_stride", kfr::gather_stride<N, G>(p, stride), where);
            T x[N * G];
            auto v = make(x);
            kfr::scatter_stride<G>(p, v, stride);
            stored("scatter_stride", x, where);
            // through indices
            uint32_t perm[N];
            bool used[256] = {};
            vec<uint32_t, N> idx;
            for (size_t i = 0; i < N; i++)
            {
                uint32_t k = (uint32_t)r.below(256);
                while (used[k])
                    k = (k + 1) % 256;
                used[k] = true, perm[i] = k, idx.set(i, k);
            }
            at = r.below(area - 257 * G), p = buf.data() + at;
            auto w2 = [&](size_t i) { return at + perm[i / G] * G + i % G; };
            vec<int64_t, N> idx64(idx);
            loaded("gather", kfr::gather<G>(p, idx64), w2);
            auto u = make(x);
            kfr::scatter<G>(p, idx64, u);
            stored("scatter", x, w2);
        }
    }
    void masks()
    {
        if constexpr (kind<T>::is == NUM && N <= 32)
        {
            size_t n = r.below(N + 1);
            T b[N];
            kfr::write(b, kfr::partial_mask<T, N>(n));
            T ones;
            memset(&ones, 0xff, sizeof(T));
            T none{};
            for (size_t i = 0; i < N; i++)
                if (memcmp(&b[i], i < n ? &ones : &none, sizeof(T)))
                    return (void)c.fail(fmt("partial_mask of %zu of %zu lanes: lane %zu", n, N, i));
        }
    }
    // element access against an array
    void elements()
    {
        T x[N];
        vec<T, N> v  = make(x);
        auto compare = [&](const char* op)
        {
            for (size_t i = 0; i < N; i++)
                if (!same(T(v[i]), x[i]) || !same(T(v.get(i)), x[i]))
                    return (void)c.fail(fmt("%s, %zu lanes: lane %zu differs from an array treated alike", op, N, i));
        };
        for (int step = 0; step < 12; step++)
        {
            size_t i = r.below(N), j = r.below(N);
            T y = draw<T>(r);
            switch (r.below(12))
            {
            case 0: v[i] = y, x[i] = y, compare("v[i] = y"); break;
            case 1: v.set(i, y), x[i] = y, compare("set"); break;
            case 2: v[i] = v[j], x[i] = x[j], compare("v[i] = v[j]"); break;
            case 3: v.front() = y, x[0] = y, compare("front"); break;
            case 4: v.back() = y, x[N - 1] = y, compare("back"); break;
            case 5:
                c.expect(same(T(v.front()), x[0]) && same(T(v.back()), x[N - 1]), "reading front and back");
                c.expect(same(T(const_cast<const vec<T, N>&>(v)[i]), x[i]), "reading a constant vector");
                c.expect(same(T(v.get(csize<N / 2>)), x[N / 2]), "get<i>");
                break;
            case 6:
                if constexpr (kind<T>::is != NEST)
                    v[i] += y, x[i] = (T)(x[i] + y), compare("v[i] += y");
                break;
            case 7:
                if constexpr (kind<T>::is != NEST)
                    v[i] -= y, x[i] = (T)(x[i] - y), compare("v[i] -= y");
                break;
            case 8:
                if constexpr (kind<T>::is == NUM)
                    v[i] *= (T)3, x[i] = (T)(x[i] * 3), compare("v[i] *= 3");
                break;
            case 9:
                if constexpr (kind<T>::is == NUM)
                {
                    T was = x[i];
                    x[i]  = (T)(x[i] + 1);
                    if (step % 2)
                        c.expect(same(T(++v[i]), x[i]), "++v[i] is the new value");
                    else
                        c.expect(same(T(v[i]++), was), "v[i]++ is the old value");
                    compare("increment");
                }
                break;
            case 10:
                if constexpr (kind<T>::is == NUM)
                {
                    T was = x[i];
                    x[i]  = (T)(x[i] - 1);
                    if (step % 2)
                        c.expect(same(T(--v[i]), x[i]), "--v[i] is the new value");
                    else
                        c.expect(same(T(v[i]--), was), "v[i]-- is the old value");
                    compare("decrement");
                }
                break;
            case 11:
            {
                vec<T, N> all(y);
                for (size_t k = 0; k < N; k++)
                    c.expect((kind<T>::is == NEST && kind<T>::width == N) || same(T(all[k]), y), "vec(scalar)"); // else lane-wise
                vec<T, N> fn([&](size_t k) { return x[N - 1 - k]; });
                for (size_t k = 0; k < N; k++)
                    c.expect(same(T(fn[k]), x[N - 1 - k]), "vec(lambda)");
                auto f = v.flatten();
                for (size_t k = 0; k < N; k++)
                    if constexpr (kind<T>::is == CPX)
                        c.expect(f[2 * k] == x[k].real() && f[2 * k + 1] == x[k].imag(), "flatten");
                    else if constexpr (kind<T>::is == NEST)
                        for (size_t q = 0; q < kind<T>::width; q++)
                            c.expect(f[k * kind<T>::width + q] == x[k][q], "flatten");
                v = vec<T, N>::from_flatten(f);
                compare("from_flatten(flatten)");
                if constexpr (N == 2)
                    c.expect(same(T(vec<T, N>(x[0], x[1])[1]), x[1]), "vec(x, y)");
                if constexpr (N == 3)
                    c.expect(same(T(vec<T, N>(x[0], x[1], x[2])[2]), x[2]), "vec(x, y, z)");
                if constexpr (N == 4)
                    c.expect(same(T(vec<T, N>(x[0], x[1], x[2], x[3])[3]), x[3]), "vec(x, y, z, w)");
                break;
            }
            }
        }
    }
    void all()
    {
        plain();
        group<2, 1>(), group<3, 1>(), group<4, 1>(), group<4, 2>(), group<2, 3>(), group<1, 4>();
        stride<1>(), stride<2>(), stride<3>(), stride<4>();
        masks();
        elements();
    }
};
template <typename T, size_t... Ns>
static void sizes(Src& s, Case& c, csizes_t<Ns...>)
{
    size_t which = (size_t)s.sweep("size", 0, sizeof...(Ns) - 1);
    Rng r        = s.bulk("values");
    size_t i     = 0;
    ((i++ == which ? (s.say(fmt("%zu lanes", Ns)), One<T, Ns>(s, c, r).all()) : (void)0), ...);
    c.interesting((int)which, (int)sizeof(T), kind<T>::is, s.rec.back());
}
using Ns       = csizes_t<1, 2, 3, 4, 5, 7, 8, 16, 24, 32>;
using Ns_short = csizes_t<1, 2, 3, 4, 5, 8, 16>;
using Ns_nest  = csizes_t<1, 2, 3, 4, 8>;

// ------------------------------------------------------------------ conversions
template <typename T>
static T edge(Rng& r)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
        switch (r.below(4))
        {
        case 0: return (T)(r.range(-400, 400) * 0.25);
        case 1: return (T)(r.sym() * 40000);
        case 2: return (T)std::ldexp(r.sym(), (int)r.range(0, 62));
        default: return (T)std::ldexp(1.0, (int)r.range(0, 62));
        }
    else
        switch (r.below(4))
        {
        case 0: return (T)r.u64();
        case 1: return (T)(L::max() - (T)r.below(3));
        case 2: return (T)(L::min() + (T)r.below(3));
        default: return (T)(r.u64() >> r.below(64));
        }
}
template <typename To, typename From, size_t N>
static void cast_one(Case& c, Rng& r)
{
    From x[N];
    for (size_t i = 0; i < N; i++)
    {
        x[i] = edge<From>(r);
        if constexpr (std::is_floating_point_v<From> && !std::is_floating_point_v<To>)
        {
            // only values the target can hold
            double lo = (double)std::numeric_limits<To>::min(), hi = std::ldexp(1.0, std::numeric_limits<To>::digits);
            if (!((double)x[i] > lo - 1 && (double)x[i] >= lo && (double)x[i] < hi))
                x[i] = (From)(std::is_signed_v<To> ? r.range(-127, 127) / 2.0 : (double)r.range(0, 500) / 2.0);
        }
    }
    To g[N];
    kfr::write(g, vec<To, N>(kfr::read<N>(x)));
    for (size_t i = 0; i < N; i++)
        if (!(g[i] == (To)x[i]))
            return (void)c.fail(fmt("conversion from %s%zu to %s%zu, lane %zu of %zu: %.17g became %.17g instead of %.17g",
                                    std::is_floating_point_v<From> ? "f" : std::is_signed_v<From> ? "i" : "u", sizeof(From) * 8,
                                    std::is_floating_point_v<To> ? "f" : std::is_signed_v<To> ? "i" : "u", sizeof(To) * 8, i, N, (double)x[i], (double)g[i],
                                    (double)(To)x[i]));
    c.expect(true, "conversion");
    // bits survive
    if constexpr (sizeof(To) <= sizeof(From) && !std::is_same_v<To, From>)
    {
        auto b = kfr::bitcast<To>(kfr::read<N>(x));
        c.expect(b.size() * sizeof(To) == sizeof x, "bitcast size");
        To y[N * sizeof(From) / sizeof(To)];
        kfr::write(y, b);
        c.expect(memcmp(y, x, sizeof x) == 0, "bitcast keeps the bits");
    }
    if constexpr (N <= 8)
    {
        auto cc = kfr::promoteto<kfr::complex<To>>(kfr::read<N>(x));
        for (size_t i = 0; i < N; i++)
            c.expect(kfr::complex<To>(cc[i]) == kfr::complex<To>((To)x[i], (To)0), "promoteto complex puts the value in the real part");
    }
}
template <typename From>
static void casts(Src& s, Case& c)
{
    Rng r = s.bulk("values");
    auto to = [&](auto t)
    {
        using To = decltype(t);
        cast_one<To, From, 2>(c, r), cast_one<To, From, 3>(c, r), cast_one<To, From, 8>(c, r), cast_one<To, From, 16>(c, r);
    };
    to(int8_t()), to(uint8_t()), to(int16_t()), to(uint16_t()), to(int32_t()), to(uint32_t()), to(int64_t()), to(uint64_t()), to(float()), to(double());
    c.interesting((int)sizeof(From), std::is_signed_v<From>, std::is_floating_point_v<From>, s.rec.back());
}
} // namespace mem
