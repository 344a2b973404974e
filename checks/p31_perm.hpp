// Permutations of vectors: every one is compared with the index map its definition gives, on arbitrary contents.
#include <kfr/base.hpp>
#include <kfr/simd.hpp>
#include "pbt.hpp"
using namespace pbt;

namespace perm
{
using kfr::csize;
using kfr::csizes_t;
using kfr::elements_t;
using kfr::index_t;
using kfr::vec;

template <typename T>
struct cplx
{
    static constexpr bool value = false;
};
template <typename T>
struct cplx<kfr::complex<T>>
{
    static constexpr bool value = true;
};

template <typename T>
static T draw(Rng& r)
{
    if constexpr (cplx<T>::value)
        return T((typename T::value_type)(r.sym() * 1000), (typename T::value_type)(r.sym() * 1000));
    else if constexpr (std::is_floating_point_v<T>)
        return (T)(r.sym() * 1000);
    else
        return (T)r.u64();
}
template <typename T>
static std::string show(T x)
{
    if constexpr (cplx<T>::value)
        return fmt("%g%+gi", (double)x.real(), (double)x.imag());
    else
        return fmt("%g", (double)x);
}
constexpr uint64_t mixed(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
// an arbitrary but fixed pattern
constexpr size_t pat(size_t k, size_t i, size_t n) { return (size_t)(mixed(k * 1000 + i) % n); }
template <size_t K, size_t Range, size_t... i>
constexpr auto pattern_(std::index_sequence<i...>)
{
    return elements_t<pat(K, i, Range)...>();
}
template <size_t K, size_t Count, size_t Range>
constexpr auto pattern() { return pattern_<K, Range>(std::make_index_sequence<Count>()); }

constexpr bool pow2(size_t n) { return n && !(n & (n - 1)); }
constexpr size_t lowpart(size_t n)
{
    size_t p = 1;
    while (p * 2 < n)
        p *= 2;
    return n == 1 ? 0 : p;
}
constexpr size_t rev(size_t x, size_t n, size_t radix)
{
    size_t y = 0;
    for (size_t m = 1; m < n; m *= radix)
        y = y * radix + x % radix, x /= radix;
    return y;
}
constexpr bool power(size_t n, size_t radix)
{
    while (n > 1 && n % radix == 0)
        n /= radix;
    return n == 1;
}

template <typename T, size_t N>
struct One
{
    static constexpr long any = -1, scalar = -2;
    Case& c;
    T a[N], b[N], k;
    vec<T, N> va, vb;

    One(Src& s, Case& c, Rng& r) : c(c)
    {
        for (size_t i = 0; i < N; i++)
            a[i] = draw<T>(r), b[i] = draw<T>(r);
        k  = draw<T>(r);
        va = kfr::read<N>(a), vb = kfr::read<N>(b);
        (void)s;
    }
    // where(i) names the source of output i: 0..N-1 in a, N..2N-1 in b
    template <size_t M, typename F>
    void is(const char* op, const vec<T, M>& got, F where)
    {
        T g[M];
        kfr::write(g, got);
        for (size_t i = 0; i < M; i++)
        {
            long w = (long)where(i);
            if (w == any)
                continue;
            T want = w == scalar ? k : w < (long)N ? a[w] : b[w - N];
            if (!(g[i] == want))
            {
                std::string from = "none of the inputs";
                for (size_t j = 0; j < 2 * N; j++)
                    if (g[i] == (j < N ? a[j] : b[j - N]))
                        from = fmt("element %zu", j);
                return (void)c.fail(fmt("%s of %zu lanes: lane %zu is %s (%s) instead of element %ld", op, N, i, show(g[i]).c_str(), from.c_str(), w));
            }
            // what subscripts see
            if (!(T(got[i]) == want))
                return (void)c.fail(fmt("%s of %zu lanes: lane %zu read by subscript differs from the one written", op, N, i));
        }
        c.expect(true, op);
    }
    void parts()
    {
        if constexpr (N > 1)
        {
            constexpr size_t P = lowpart(N);
            is("low", kfr::low(va), [](size_t i) { return i; });
            is("high", kfr::high(va), [=](size_t i) { return i + P; });
            is("lowhalf", kfr::lowhalf(va), [](size_t i) { return i; });
            is("highhalf", kfr::highhalf(va), [=](size_t i) { return i + N / 2; });
            is("concat(low, high)", kfr::concat(kfr::low(va), kfr::high(va)), [](size_t i) { return i; });
            is("slice", kfr::slice<1, N - 1>(va), [](size_t i) { return i + 1; });
            is("slice of two", kfr::slice<N / 2 + 1, N>(va, vb), [](size_t i) { return i + N / 2 + 1; });
            is("narrow", kfr::narrow<N - 1>(va), [](size_t i) { return i; });
            is("replace", kfr::replace<1, N / 2>(va, vb), [](size_t i) { return i >= 1 && i < 1 + N / 2 ? i + N : i; });
            is("concat_and_slice", kfr::concat_and_slice<N / 2, N>(va, vb), [](size_t i) { return i + N / 2; });
            is("concat_and_slice shorter second", kfr::concat_and_slice<1, N>(va, kfr::slice<0, N - 1>(vb)), [](size_t i) { return i + 1; });
            is("concat_and_slice shorter first", kfr::concat_and_slice<N - 2, N>(kfr::slice<0, N - 1>(va), vb),
               [](size_t i) { return i + N - 2 < N - 1 ? i + N - 2 : i + N - 2 - (N - 1) + N; });
            is("insertright", kfr::insertright(k, va), [](size_t i) { return i + 1 < N ? (long)i + 1 : scalar; });
            is("insertleft", kfr::insertleft(k, va), [](size_t i) { return i ? (long)i - 1 : scalar; });
            is("combine", kfr::combine(va, kfr::slice<0, N / 2>(vb)), [](size_t i) { return i < N / 2 ? i + N : i; });
            {
                vec<T, 1> h;
                vec<T, N - 1> t;
                kfr::split(va, h, t);
                is("split head", h, [](size_t i) { return i; });
                is("split tail", t, [](size_t i) { return i + 1; });
            }
            if constexpr (N % 2 == 0)
            {
                vec<T, N / 2> h, t;
                kfr::split(va, h, t);
                is("split low", h, [](size_t i) { return i; });
                is("split high", t, [](size_t i) { return i + N / 2; });
                is("part 0 of 2", kfr::part<2, 0>(va), [](size_t i) { return i; });
                is("part 1 of 2", kfr::part<2, 1>(va), [](size_t i) { return i + N / 2; });
            }
            if constexpr (N % 4 == 0)
            {
                vec<T, N / 4> p, q, u, w;
                kfr::split(va, p, q, u, w);
                is("split in four", kfr::concat4(p, q, u, w), [](size_t i) { return i; });
                is("part 2 of 4", kfr::part<4, 2>(va), [](size_t i) { return i + N / 2; });
            }
        }
        is("concat", kfr::concat(va, vb, va), [](size_t i) { return i < 2 * N ? i : i - 2 * N; });
        is("concat2", kfr::concat2(va, vb), [](size_t i) { return i; });
        is("concat4", kfr::concat4(va, vb, vb, va), [](size_t i) { return i < 2 * N ? i : i < 3 * N ? i - N : i - 3 * N; });
        is("repeat", kfr::repeat<3>(va), [](size_t i) { return i % N; });
        is("resize down", kfr::resize<(N + 1) / 2>(va), [](size_t i) { return i; });
        is("resize up", kfr::resize<N + 3>(va), [](size_t i) { return i % N; });
        is("extend", kfr::extend<N + 2>(va), [](size_t i) { return i < N ? (long)i : N == 1 ? 0 : any; });
        is("padhigh", kfr::padhigh<3>(va), [](size_t i) { return i < N ? (long)i : any; });
        is("padhigh with a value", kfr::padhigh<3>(va, k), [](size_t i) { return i < N ? (long)i : scalar; });
        is("padlow", kfr::padlow<2>(va), [](size_t i) { return i >= 2 ? (long)i - 2 : any; });
        is("padlow with a value", kfr::padlow<3>(va, k), [](size_t i) { return i >= 3 ? (long)i - 3 : scalar; });
        is("widen", kfr::widen<N + 3>(va, k), [](size_t i) { return i < N ? (long)i : scalar; });
        is("broadcast", kfr::broadcast<N * 2>(a[0], k, a[N - 1]), [](size_t i) { return i % 3 == 0 ? 0 : i % 3 == 1 ? scalar : (long)N - 1; });
        is("duphalves", kfr::duphalves(va), [](size_t i) { return i % N; });
        is("dup", kfr::dup(va), [](size_t i) { return i / 2; });
        is("blend", kfr::blend<0, 1, 1>(va, vb), [](size_t i) { return i % 3 ? i + N : i; });
        is("blend alternating", kfr::blend<1, 0>(va, vb), [](size_t i) { return i % 2 ? i : i + N; });
    }
    void patterns()
    {
        is("shuffle by a pattern", va.shuffle(pattern<1, N, N>()), [](size_t i) { return pat(1, i, N); });
        is("shuffle of two by a pattern", va.shuffle(vb, pattern<2, N, 2 * N>()), [](size_t i) { return pat(2, i, 2 * N); });
        is("shuffle of two to more lanes", va.shuffle(vb, pattern<3, N + 1, 2 * N>()), [](size_t i) { return pat(3, i, 2 * N); });
        is("permute by a pattern", kfr::permute(va, pattern<4, N, N>()), [](size_t i) { return pat(4, i, N); });
        is("shuffle()", kfr::shuffle(va, vb, pattern<5, N, N>()), [](size_t i) { return pat(5, i, N); });
        if constexpr (N % 2 == 0)
        {
            is("permute<1, 0>", kfr::permute<1, 0>(va), [](size_t i) { return i ^ 1; });
            is("swap", kfr::swap(va), [](size_t i) { return i ^ 1; });
            is("dupeven", kfr::dupeven(va), [](size_t i) { return i & ~1ul; });
            is("dupodd", kfr::dupodd(va), [](size_t i) { return i | 1; });
            is("duplow", kfr::duplow(va), [](size_t i) { return i % (N / 2); });
            is("duphigh", kfr::duphigh(va), [](size_t i) { return i % (N / 2) + N / 2; });
        }
        if constexpr (N % 4 == 0)
        {
            constexpr long p[] = { 3, 1, 1, 2 };
            is("permute<3, 1, 1, 2>", kfr::permute<3, 1, 1, 2>(va), [&](size_t i) { return p[i % 4] + (long)(i / 4 * 4); });
            is("swap<4>", kfr::swap<4>(va), [](size_t i) { return i ^ 3; });
        }
        is("rotateright<0>", kfr::rotateright<0>(va), [](size_t i) { return i; });
        is("rotateleft<0>", kfr::rotateleft<0>(va), [](size_t i) { return i; });
        if constexpr (N > 1)
        {
            constexpr size_t h = N / 2;
            is("rotateright<1>", kfr::rotateright<1>(va), [](size_t i) { return (i + N - 1) % N; });
            is("rotateleft<1>", kfr::rotateleft<1>(va), [](size_t i) { return (i + 1) % N; });
            is("rotateright", kfr::rotateright<h>(va), [](size_t i) { return (i + N - h) % N; });
            is("rotateleft", kfr::rotateleft<N - 1>(va), [](size_t i) { return (i + N - 1) % N; });
            is("rotatetwo", kfr::rotatetwo<h>(va, vb), [](size_t i) { return i < h ? i + N - h + N : i - h; });
        }
        is("rotatetwo<0>", kfr::rotatetwo<0>(va, vb), [](size_t i) { return i; });
        is("rotatetwo<N>", kfr::rotatetwo<N>(va, vb), [](size_t i) { return i + N; });
        is("reverse", kfr::reverse(va), [](size_t i) { return N - 1 - i; });
    }
    template <size_t G>
    void groups()
    {
        if constexpr (N % G == 0)
        {
            constexpr size_t S = N / G;
            auto at            = [](size_t group, size_t i) { return group * G + i % G; };
            is("reverse of groups", kfr::reverse<G>(va), [&](size_t i) { return at(S - 1 - i / G, i); });
            is("permutegroups", kfr::permutegroups<G>(va, pattern<6, S, S>()), [&](size_t i) { return at(pat(6, i / G, S), i); });
            is("shufflegroups", kfr::shufflegroups<G>(va, vb, pattern<7, S, S>()), [&](size_t i) { return at(pat(7, i / G, S), i); });
            is("interleave", kfr::interleave<G>(va, vb), [&](size_t i) { return at(i / G / 2, i) + (i / G % 2 ? N : 0); });
            if constexpr (S % 2 == 0)
            {
                is("even", kfr::even<G>(va), [&](size_t i) { return at(i / G * 2, i); });
                is("odd", kfr::odd<G>(va), [&](size_t i) { return at(i / G * 2 + 1, i); });
                is("interleavehalves", kfr::interleavehalves<G>(va), [&](size_t i) { return at(i / G / 2 + (i / G % 2 ? S / 2 : 0), i); });
                is("splitpairs", kfr::splitpairs<G>(va), [&](size_t i) { return at(i / G < S / 2 ? i / G * 2 : (i / G - S / 2) * 2 + 1, i); });
                is("interleavehalves(splitpairs)", kfr::interleavehalves<G>(kfr::splitpairs<G>(va)), [](size_t i) { return i; });
            }
            matrix<G, 2>(), matrix<G, 3>(), matrix<G, 4>(), matrix<G, 8>();
            if constexpr (pow2(S))
                is("bitreverse", kfr::bitreverse<G>(va), [&](size_t i) { return at(rev(i / G, S, 2), i); });
            if constexpr (power(S, 4))
                is("digitreverse4", kfr::digitreverse4<G>(va), [&](size_t i) { return at(rev(i / G, S, 4), i); });
        }
    }
    // rows of Side groups
    template <size_t G, size_t Side>
    void matrix()
    {
        constexpr size_t S = N / G;
        if constexpr (S > 3 && S % Side == 0)
        {
            constexpr size_t Rows = S / Side;
            auto at               = [](size_t group, size_t i) { return group * G + i % G; };
            // transpose<side>: rows of `side` become columns
            is("transpose", kfr::transpose<Side, G>(va), [&](size_t i) { return at(i / G % Rows * Side + i / G / Rows, i); });
            is("transposeinverse", kfr::transposeinverse<Side, G>(va), [&](size_t i) { return at(i / G % Side * Rows + i / G / Side, i); });
            is("transposeinverse of transpose", kfr::transposeinverse<Side, G>(kfr::transpose<Side, G>(va)), [](size_t i) { return i; });
            if constexpr (G == 2)
            {
                is("ctranspose", kfr::ctranspose<Side>(va), [&](size_t i) { return at(i / G % Rows * Side + i / G / Rows, i); });
                is("ctransposeinverse", kfr::ctransposeinverse<Side>(va), [&](size_t i) { return at(i / G % Side * Rows + i / G / Side, i); });
            }
        }
    }
    void nested()
    {
        if constexpr (!cplx<T>::value && pow2(N) && N > 1 && N <= 16)
        {
            auto z = kfr::zip(va, vb);
            for (size_t i = 0; i < N; i++)
                c.expect(T(z[i][0]) == a[i] && T(z[i][1]) == b[i], fmt("zip: pair %zu of %zu", i, N));
            is("column 0", kfr::column<0>(z), [](size_t i) { return i; });
            is("column 1", kfr::column<1>(z), [](size_t i) { return i + N; });
            is("flatten of zip", z.flatten(), [](size_t i) { return i / 2 + (i % 2 ? N : 0); });
        }
        if constexpr (!cplx<T>::value && (N == 4 || N == 16))
        {
            constexpr size_t M = N == 4 ? 2 : 4;
            auto m             = vec<vec<T, M>, M>::from_flatten(va);
            auto t             = kfr::transpose(m);
            for (size_t i = 0; i < M; i++)
                for (size_t j = 0; j < M; j++)
                    c.expect(T(t[i][j]) == a[j * M + i], fmt("transpose of nested vectors: (%zu,%zu)", i, j));
        }
    }
    void one(const char* op, size_t i, T got, T want)
    {
        if (!(got == want))
            c.fail(fmt("%s of %zu lanes: lane %zu is %s instead of %s", op, N, i, show(got).c_str(), show(want).c_str()));
    }
    void values()
    {
        if constexpr (!cplx<T>::value)
        {
            T g[N];
            kfr::write(g, kfr::enumerate<T, N, 3, 2>());
            for (size_t i = 0; i < N; i++)
                one("enumerate<3, 2>", i, g[i], (T)(3 + 2 * i));
            T step = (T)((int)(size_t)std::fabs((double)(int8_t)(int)(double)k) % 50);
            kfr::write(g, kfr::enumerate(kfr::vec_shape<T, N>(), step));
            for (size_t i = 0; i < N; i++)
                one("enumerate with a step", i, g[i], (T)((T)i * step));
            kfr::write(g, kfr::onoff<1, 2, 7, 3>(kfr::vec_shape<T, N>()));
            for (size_t i = 0; i < N; i++)
                one("onoff", i, g[i], (T)(i >= 1 && i < 3 ? 7 : 3));
            if constexpr (pow2(N) && N > 2)
            {
                T w[N];
                std::copy(a, a + N, w);
                std::sort(w, w + N);
                kfr::write(g, kfr::sort(va));
                for (size_t i = 0; i < N; i++)
                    one("sort", i, g[i], w[i]);
                kfr::write(g, kfr::sortdesc(va));
                for (size_t i = 0; i < N; i++)
                    one("sortdesc", i, g[i], w[N - 1 - i]);
            }
        }
    }
    void all()
    {
        parts();
        patterns();
        groups<1>();
        groups<2>();
        groups<4>();
        nested();
        values();
    }
};

template <typename T, size_t... Ns>
static void sizes(Src& s, Case& c, csizes_t<Ns...>)
{
    size_t which = (size_t)s.sweep("size", 0, sizeof...(Ns) - 1);
    bool few     = s.flag("few values", 1, 4); // equal elements matter to sort
    Rng r        = s.bulk("values");
    size_t i     = 0;
    (void)few;
    ((i++ == which ? (s.say(fmt("%zu lanes", Ns)), One<T, Ns>(s, c, r).all()) : (void)0), ...);
    c.interesting((int)which, (int)sizeof(T), cplx<T>::value, s.rec.back());
}
using Ns = csizes_t<1, 2, 3, 4, 6, 7, 8, 12, 16, 32, 64>;
using Ns_short = csizes_t<1, 2, 3, 4, 5, 8, 16, 32>;
} // namespace perm
