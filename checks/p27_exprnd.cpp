// Expressions of two and three dimensions: the element at any index is the same whichever axis and vector width are used
// to evaluate the expression, and equals the definition; writes through output adapters reach exactly their elements.
#include <kfr/base.hpp>
#include "pbt.hpp"
#include <functional>
using namespace pbt;
using ld = long double;
using kfr::index_t;
using kfr::shape;
using kfr::tensor;

template <typename T, index_t D>
using H = kfr::expression_handle<T, D>;
template <typename T, index_t D>
struct Node
{
    H<T, D> e;
    std::function<T(const shape<D>&)> at;
    shape<D> sh;
    std::string text;
};
template <index_t D>
static std::string text(const shape<D>& s)
{
    std::string r = "(";
    for (index_t i = 0; i < D; i++)
        r += fmt(i ? ",%lld" : "%lld", (long long)s[i]);
    return r + ")";
}
template <index_t D>
static size_t count(const shape<D>& s)
{
    size_t n = 1;
    for (index_t i = 0; i < D; i++)
        n *= (size_t)s[i];
    return n;
}
template <index_t D, typename Fn>
static void each(const shape<D>& s, Fn&& fn)
{
    size_t n = count(s);
    for (size_t k = 0; k < n; k++)
    {
        size_t f = k;
        shape<D> i;
        for (index_t a = D; a-- > 0;)
        {
            i[a] = f % s[a];
            f /= s[a];
        }
        fn(i);
    }
}
template <index_t D>
static size_t flat(const shape<D>& s, const shape<D>& i)
{
    size_t f = 0;
    for (index_t a = 0; a < D; a++)
        f = f * s[a] + i[a];
    return f;
}
template <index_t D>
static shape<D> unflat(const shape<D>& s, size_t f)
{
    shape<D> i;
    for (index_t a = D; a-- > 0;)
    {
        i[a] = f % s[a];
        f /= s[a];
    }
    return i;
}
template <typename T, index_t D, typename E>
static Node<T, D> erase(E&& e, std::function<T(const shape<D>&)> at, const shape<D>& sh, std::string t)
{
    return { kfr::to_handle(std::move(e)), std::move(at), sh, std::move(t) };
}
// a tensor with random contents, contiguous or a transposed, reversed or strided view of a larger one
template <typename T, index_t D>
static tensor<T, D> storage(Src& s, const shape<D>& sh, T fill, std::vector<T>* all = nullptr)
{
    int kind = (int)s.in(0, 3);
    if (kind == 0 || count(sh) == 0)
        return tensor<T, D>(sh, fill);
    if (kind == 1)
        return tensor<T, D>(sh.transpose(), fill).transpose();
    shape<D> big = sh, st, step;
    for (index_t a = 0; a < D; a++)
    {
        int k   = (int)s.in(1, 2);
        step[a] = k;
        big[a]  = sh[a] * k + (index_t)s.in(0, 2);
    }
    tensor<T, D> t(big, fill);
    bool neg = kind == 3;
    auto R   = [&](index_t a)
    {
        int64_t k = (int64_t)step[a], n = (int64_t)sh[a];
        if (neg && s.flag())
            return kfr::trange((n - 1) * k, std::nullopt, -k);
        return kfr::trange(0, (n - 1) * k + 1, k);
    };
    if constexpr (D == 1)
        return t(R(0));
    else if constexpr (D == 2)
    {
        auto a = R(0), b = R(1);
        return t(a, b);
    }
    else
    {
        auto a = R(0), b = R(1), d = R(2);
        return t(a, b, d);
    }
}
template <typename T, index_t D>
static Node<T, D> data(Src& s, Rng& r, const shape<D>& sh)
{
    tensor<T, D> t = storage<T, D>(s, sh, T(7));
    std::vector<T> v(count(sh));
    for (auto& x : v)
        x = (T)r.range(-9, 9);
    each(sh, [&](const shape<D>& i) { t.access(i) = v[flat(sh, i)]; });
    std::string name = (t.is_contiguous() ? "data" : "view") + text(sh);
    return erase<T, D>(tensor<T, D>(t), [v, sh](const shape<D>& i) { return v[flat(sh, i)]; }, sh, name);
}
template <index_t D>
static shape<D> refactor(Src& s, size_t n)
{
    shape<D> r;
    for (index_t a = 0; a + 1 < D; a++)
    {
        std::vector<size_t> f;
        for (size_t k = 1; k <= n; k++)
            if (n % k == 0)
                f.push_back(k);
        size_t k = f[(size_t)s.in(0, (int64_t)f.size() - 1)];
        r[a]     = k;
        n /= k;
    }
    r[D - 1] = n;
    return r;
}
template <typename T, index_t D>
static Node<T, D> gen(Src& s, Rng& r, const shape<D>& sh, int depth);

template <typename T, index_t D, index_t E>
static Node<T, D> reshaped(Src& s, Rng& r, const shape<D>& sh, int depth)
{
    shape<E> in = refactor<E>(s, count(sh));
    auto a      = gen<T, E>(s, r, in, depth - 1);
    auto f      = a.at;
    return erase<T, D>(kfr::reshape(std::move(a.e), sh), [f, in, sh](const shape<D>& i) { return f(unflat(in, flat(sh, i))); }, sh,
                       "reshape(" + a.text + ")");
}
// the same tree with one axis of extent 1 stretched, or with fewer axes
template <index_t D, index_t E>
static shape<E> squeeze(Src& s, const shape<D>& sh)
{
    shape<E> r;
    for (index_t a = 0; a < E; a++)
        r[a] = s.flag(nullptr, 1, 3) ? 1 : sh[a + D - E];
    return r;
}
template <index_t D, index_t E>
static shape<E> clip(const shape<D>& i, const shape<E>& in)
{
    shape<E> r;
    for (index_t a = 0; a < E; a++)
        r[a] = in[a] == 1 ? 0 : i[a + D - E];
    return r;
}
template <typename T, index_t D, index_t E>
static Node<T, D> broadcast(Src& s, Rng& r, const shape<D>& sh, int depth)
{
    shape<D> sa = sh;
    shape<E> sb = squeeze<D, E>(s, sh);
    // the two sides may stretch different axes
    bool cross = D == E && s.flag();
    if (cross)
        for (index_t a = 0; a < D; a++)
            if (sb[a + E - D] == sh[a] && s.flag(nullptr, 1, 3))
                sa[a] = 1;
    auto a = gen<T, D>(s, r, sa, depth - 1);
    auto b = gen<T, E>(s, r, sb, depth - 1);
    auto f = a.at;
    auto g = b.at;
    std::string t = "(" + a.text + "," + b.text + ")";
    auto F = [f, sa](const shape<D>& i) { return f(clip<D, D>(i, sa)); };
    auto G = [g, sb](const shape<D>& i) { return g(clip<D, E>(i, sb)); };
    switch (s.in(0, 2))
    {
    case 0: return erase<T, D>(std::move(a.e) + std::move(b.e), [F, G](const shape<D>& i) { return (T)(F(i) + G(i)); }, sh, "add" + t);
    case 1: return erase<T, D>(std::move(b.e) - std::move(a.e), [F, G](const shape<D>& i) { return (T)(G(i) - F(i)); }, sh, "rsub" + t);
    default:
        return erase<T, D>(kfr::max(std::move(a.e), std::move(b.e)), [F, G](const shape<D>& i) { return std::max(F(i), G(i)); }, sh,
                           "max" + t);
    }
}
template <typename T, index_t D, index_t Ax>
static Node<T, D> joined(Src& s, Rng& r, const shape<D>& sh, int depth)
{
    index_t k   = (index_t)s.in(0, (int64_t)sh[Ax]);
    shape<D> sa = sh, sb = sh;
    sa[Ax] = k;
    sb[Ax] = sh[Ax] - k;
    auto a = gen<T, D>(s, r, sa, depth - 1), b = gen<T, D>(s, r, sb, depth - 1);
    auto f = a.at, g = b.at;
    return erase<T, D>(kfr::concatenate<Ax>(std::move(a.e), std::move(b.e)),
                       [f, g, k](const shape<D>& i)
                       {
                           if (i[Ax] < k)
                               return f(i);
                           shape<D> j = i;
                           j[Ax] -= k;
                           return g(j);
                       },
                       sh, fmt("concatenate<%d>(", (int)Ax) + a.text + "," + b.text + ")");
}
template <typename T, index_t D>
static Node<T, D> gen(Src& s, Rng& r, const shape<D>& sh, int depth)
{
    if (depth <= 0 || count(sh) == 0)
        return data<T, D>(s, r, sh);
    switch (s.in("node", 0, 11))
    {
    case 0: return data<T, D>(s, r, sh);
    case 1:
    {
        // a counter
        T a = (T)s.in(0, 5), p = (T)s.in(-3, 3), q = (T)s.in(-3, 3), w = (T)s.in(1, 3);
        std::array<T, 3> st{ p, q, w };
        std::function<T(const shape<D>&)> at = [a, st](const shape<D>& i)
        {
            T x = a;
            for (index_t k = 0; k < D; k++)
                x += (T)i[k] * st[k + 3 - D];
            return x;
        };
        if constexpr (D == 1)
            return erase<T, D>(kfr::truncate(kfr::counter<T>(a, w), sh), at, sh, "counter");
        else if constexpr (D == 2)
            return erase<T, D>(kfr::truncate(kfr::counter<T>(a, q, w), sh), at, sh, "counter");
        else
            return erase<T, D>(kfr::truncate(kfr::counter<T>(a, p, q, w), sh), at, sh, "counter");
    }
    case 2:
    {
        auto fn = [](const shape<D>& i)
        {
            T x = 0;
            for (index_t k = 0; k < D; k++)
                x = (T)(x * 5 + (T)(i[k] % 7));
            return x;
        };
        return erase<T, D>(kfr::truncate(kfr::lambda<T, D>(fn), sh), fn, sh, "lambda");
    }
    case 3:
    {
        // a slice
        shape<D> off, big;
        for (index_t a = 0; a < D; a++)
        {
            off[a] = (index_t)s.in(0, 4);
            big[a] = sh[a] + off[a] + (index_t)s.in(0, 2);
        }
        auto a = gen<T, D>(s, r, big, depth - 1);
        auto f = a.at;
        return erase<T, D>(kfr::slice(std::move(a.e), off, sh) + T(0),
                           [f, off](const shape<D>& i) { return f(i.add(off)); }, sh, "slice(" + a.text + ")+" + text(off));
    }
    case 4:
    {
        // padded to a larger box
        shape<D> small;
        for (index_t a = 0; a < D; a++)
            small[a] = (index_t)s.in(1, (int64_t)sh[a] + 1);
        T fill = (T)s.in(-9, 9);
        auto a = gen<T, D>(s, r, small, depth - 1);
        auto f = a.at;
        return erase<T, D>(kfr::truncate(kfr::padded(std::move(a.e), fill), sh),
                           [f, small, fill](const shape<D>& i)
                           {
                               for (index_t k = 0; k < D; k++)
                                   if (i[k] >= small[k])
                                       return fill;
                               return f(i);
                           },
                           sh, "padded(" + a.text + ")");
    }
    case 5:
    {
        // reversal wants random access, which a type-erased expression does not offer
        tensor<T, D> t = storage<T, D>(s, sh, T(7));
        std::vector<T> v(count(sh));
        for (auto& x : v)
            x = (T)r.range(-9, 9);
        each(sh, [&](const shape<D>& i) { t.access(i) = v[flat(sh, i)]; });
        auto rev = [sh](const shape<D>& i)
        {
            shape<D> j;
            for (index_t k = 0; k < D; k++)
                j[k] = sh[k] - 1 - i[k];
            return j;
        };
        if (s.flag("twice"))
            return erase<T, D>(kfr::reverse(kfr::reverse(std::move(t)) + T(1)), [v, sh](const shape<D>& i) { return v[flat(sh, i)] + 1; }, sh,
                               "reverse(reverse(data)+1)");
        return erase<T, D>(kfr::reverse(std::move(t)), [v, sh, rev](const shape<D>& i) { return v[flat(sh, rev(i))]; }, sh, "reverse(data)");
    }
    case 6:
        if (D == 1 || s.in("axis", 0, (int64_t)D - 1) == 0)
            return joined<T, D, 0>(s, r, sh, depth);
        else
            return joined<T, D, D - 1>(s, r, sh, depth);
    case 7:
        switch (s.in("from", 1, 3))
        {
        case 1: return reshaped<T, D, 1>(s, r, sh, depth);
        case 2: return reshaped<T, D, 2>(s, r, sh, depth);
        default: return reshaped<T, D, 3>(s, r, sh, depth);
        }
    case 8: return broadcast<T, D, D>(s, r, sh, depth);
    case 9:
        if constexpr (D > 1)
            return broadcast<T, D, D - 1>(s, r, sh, depth);
        else
            return broadcast<T, D, D>(s, r, sh, depth);
    case 10:
    {
        auto a = gen<T, D>(s, r, sh, depth - 1);
        auto f = a.at;
        T k    = (T)s.in(-2, 2);
        return erase<T, D>(k - std::move(a.e) * T(2), [f, k](const shape<D>& i) { return (T)(k - f(i) * 2); }, sh, "scale(" + a.text + ")");
    }
    default:
        // an expression of fewer dimensions stretched over the leading axes
        if constexpr (D > 1)
        {
            shape<D - 1> in = sh.template trim<D - 1>();
            auto a          = gen<T, D - 1>(s, r, in, depth - 1);
            auto f          = a.at;
            return erase<T, D>(kfr::truncate(kfr::dimensions<D>(std::move(a.e)), sh),
                               [f](const shape<D>& i) { return f(i.template trim<D - 1>()); }, sh, "dimensions(" + a.text + ")");
        }
        else
            return data<T, D>(s, r, sh);
    }
}
template <index_t D>
static shape<D> box(Src& s, const char* what, int lim)
{
    shape<D> sh;
    for (index_t a = 0; a < D; a++)
        sh[a] = (index_t)s.skew(what, 1, lim);
    return sh;
}
// process() of any expression into any tensor, by axis and width
template <typename T, index_t D, typename E>
static void evaluate(Src& s, Case& c, const E& e, const std::function<T(const shape<D>&)>& at, const shape<D>& sh, const char* what)
{
    c.expect(shape<D>(kfr::get_shape(e)) == sh, fmt("%s: shape is %s instead of %s", what, text<D>(kfr::get_shape(e)).c_str(), text(sh).c_str()));
    auto same = [&](T got, const shape<D>& i, const std::string& how)
    {
        T want = at(i);
        c.expect(got == want, fmt("%s, element %s of %s, %s: %g instead of %g", what, text(i).c_str(), text(sh).c_str(), how.c_str(),
                                  (double)got, (double)want));
    };
    int width = (int)s.in("width", 0, 4), axis = (int)s.in("axis", 0, (int64_t)D - 1);
    if (s.in("how", 0, 3) > 0)
    {
        shape<D> from(0), len(kfr::infinite_size);
        if (s.flag("part"))
            for (index_t a = 0; a < D; a++)
            {
                from[a] = (index_t)s.in(0, (int64_t)sh[a] - 1);
                len[a]  = (index_t)s.in(0, (int64_t)(sh[a] - from[a]));
            }
        tensor<T, D> out = storage<T, D>(s, sh, T(99));
        auto run         = [&](auto A)
        {
            constexpr index_t Ax = decltype(A)::value;
            switch (width)
            {
            case 0: return kfr::process<0, Ax>(out, e, from, len);
            case 1: return kfr::process<1, Ax>(out, e, from, len);
            case 2: return kfr::process<2, Ax>(out, e, from, len);
            case 3: return kfr::process<4, Ax>(out, e, from, len);
            default: return kfr::process<8, Ax>(out, e, from, len);
            }
        };
        if (axis == 0 || D == 1)
            run(kfr::csize<0>);
        else if (axis == 1 || D == 2)
            run(kfr::csize<(D > 1 ? 1 : 0)>);
        else
            run(kfr::csize<D - 1>);
        std::string how = fmt("by axis %d, width %d, from %s size %s, %s output", axis, width ? 1 << (width - 1) : 0, text(from).c_str(),
                              text(len).c_str(), out.is_contiguous() ? "contiguous" : "strided");
        each(sh,
             [&](const shape<D>& i)
             {
                 bool in = true;
                 for (index_t a = 0; a < D; a++)
                     in = in && i[a] >= from[a] && i[a] - from[a] < len[a];
                 if (in)
                     same(out.access(i), i, how);
                 else
                     c.expect(out.access(i) == T(99), fmt("%s, %s: element %s outside the box changed", what, how.c_str(), text(i).c_str()));
             });
        return;
    }
    Rng r = s.bulk("where");
    for (int k = 0; k < 12; k++)
    {
        index_t w = (index_t)1 << r.below(5);
        if (w > sh[axis])
            continue;
        shape<D> i;
        for (index_t a = 0; a < D; a++)
            i[a] = r.below(sh[a] - (a == (index_t)axis ? w - 1 : 0));
        auto test = [&](auto A, auto W)
        {
            constexpr index_t Ax = decltype(A)::value;
            constexpr size_t N   = decltype(W)::value;
            kfr::vec<T, N> v     = get_elements(e, i, kfr::axis_params_v<Ax, N>);
            for (size_t j = 0; j < N; j++)
                same(v[j], i.add_at(j, kfr::cindex<Ax>), fmt("in a vector of %zu along axis %d", N, (int)Ax));
        };
        auto pick = [&](auto A)
        {
            switch (w)
            {
            case 1: test(A, kfr::csize<1>); break;
            case 2: test(A, kfr::csize<2>); break;
            case 4: test(A, kfr::csize<4>); break;
            case 8: test(A, kfr::csize<8>); break;
            default: test(A, kfr::csize<16>); break;
            }
        };
        if (axis == 0 || D == 1)
            pick(kfr::csize<0>);
        else if (axis == 1 || D == 2)
            pick(kfr::csize<(D > 1 ? 1 : 0)>);
        else
            pick(kfr::csize<D - 1>);
    }
}
template <typename T, index_t D>
static void trees(Src& s, Case& c)
{
    shape<D> sh = box<D>(s, "size", D == 1 ? 60 : D == 2 ? 20 : 10);
    int depth   = (int)s.in("depth", 0, 4);
    Rng r       = s.bulk("seed");
    auto t      = gen<T, D>(s, r, sh, depth);
    s.say(t.text.size() > 500 ? t.text.substr(0, 500) : t.text);
    c.label(fmt("depth%d", depth));
    evaluate<T, D>(s, c, t.e, t.at, sh, "tree");
    if (count(sh) > 1)
        c.interesting((int)D, count(sh), depth, (int)std::hash<std::string>()(t.text), s.rec.back());
}
#ifdef PART1
PBT_TEST(trees_2d, 3000, 80000) { trees<float, 2>(s, c); }
PBT_TEST(trees_3d, 2500, 80000) { trees<float, 3>(s, c); }
#else
// the same without type erasure: tensors of different shapes combined directly, by every axis
template <typename T>
static void direct(Src& s, Case& c)
{
    shape<2> sh = box<2>(s, "size", 24);
    int form    = (int)s.in("form", 0, 13);
    Rng r       = s.bulk("seed");
    auto fill = [&](auto sz)
    {
        auto t = storage<T>(s, sz, T(7));
        each(sz, [&](const auto& i) { t.access(i) = (T)r.range(-9, 9); });
        return t;
    };
    tensor<T, 2> a = fill(sh), row = fill(shape<2>{ 1, sh[1] }), col = fill(shape<2>{ sh[0], 1 }), one = fill(shape<2>{ 1, 1 });
    tensor<T, 1> line = fill(shape<1>{ sh[1] }), dot = fill(shape<1>{ 1 });
    auto ev = [&](const auto& e, std::function<T(const shape<2>&)> at, const char* what) { evaluate<T, 2>(s, c, e, at, sh, what); };
    using I = const shape<2>&;
    switch (form)
    {
    case 0: ev(a + row, [&](I i) { return a(i[0], i[1]) + row(0, i[1]); }, "a+row"); break;
    case 1: ev(a + col, [&](I i) { return a(i[0], i[1]) + col(i[0], 0); }, "a+column"); break;
    case 2: ev(row * col, [&](I i) { return row(0, i[1]) * col(i[0], 0); }, "row*column"); break;
    case 3: ev(a - one, [&](I i) { return a(i[0], i[1]) - one(0, 0); }, "a-one"); break;
    case 4: ev(a + T(3) * row - col, [&](I i) { return a(i[0], i[1]) + 3 * row(0, i[1]) - col(i[0], 0); }, "a+3*row-column"); break;
    case 5: ev(kfr::reverse(a), [&](I i) { return a(sh[0] - 1 - i[0], sh[1] - 1 - i[1]); }, "reverse(a)"); break;
    case 6: ev(kfr::reverse(tensor<T, 2>(a)) + a, [&](I i) { return a(sh[0] - 1 - i[0], sh[1] - 1 - i[1]) + a(i[0], i[1]); }, "reverse(temporary)+a"); break;
    case 7:
        ev(kfr::reshape(tensor<T, 2>(a), shape<2>(sh)) + row, [&](I i) { return a(i[0], i[1]) + row(0, i[1]); }, "reshape(temporary)+row");
        break;
    case 8:
    {
        shape<2> in = refactor<2>(s, count(sh));
        tensor<T, 2> b = fill(in);
        ev(kfr::reshape(b, shape<2>(sh)), [&](I i) { return b.access(unflat(in, flat(sh, i))); }, fmt("reshape(b%s)", text(in).c_str()).c_str());
        break;
    }
    case 9: ev(a * a, [&](I i) { return a(i[0], i[1]) * a(i[0], i[1]); }, "a*a"); break;
    case 10:
    {
        tensor<T, 1> b = fill(shape<1>{ count(sh) });
        ev(kfr::reshape(b * T(2), shape<2>(sh)) - a, [&](I i) { return b(flat(sh, i)) * 2 - a(i[0], i[1]); }, "reshape(vector)-a");
        break;
    }
    case 11:
        ev(kfr::slice(kfr::padded(kfr::reverse(a), T(5)), shape<2>{ 1, 2 }, sh),
           [&](I i) { return i[0] + 1 < sh[0] && i[1] + 2 < sh[1] ? a(sh[0] - 2 - i[0], sh[1] - 3 - i[1]) : T(5); }, "slice(padded(reverse(a)))");
        break;
    case 12:
        ev(kfr::select(a > row, a, col), [&](I i) { return a(i[0], i[1]) > row(0, i[1]) ? a(i[0], i[1]) : col(i[0], 0); }, "select(a>row,a,column)");
        break;
    default:
        ev(kfr::cast<T>(kfr::cast<double>(a) + 1.0) + kfr::truncate(kfr::counter<T>(0, 2, 1), sh),
           [&](I i) { return a(i[0], i[1]) + 1 + (T)(2 * i[0] + i[1]); }, "cast(cast(a)+1)+counter");
    }
    c.label(fmt("form%d", form));
    if (count(sh) > 1)
        c.interesting(form, count(sh), s.rec.back(), s.rec.size());
}
PBT_TEST(direct_2d, 3000, 60000) { direct<float>(s, c); }

// a line along the last axis of a matrix: only the last axis makes sense for it
PBT_TEST(lower_rank, 1500, 30000)
{
    using T     = float;
    shape<3> sh = box<3>(s, "size", 12);
    Rng r       = s.bulk("seed");
    auto fill = [&](auto sz)
    {
        auto t = storage<T>(s, sz, T(7));
        each(sz, [&](const auto& i) { t.access(i) = (T)r.range(-9, 9); });
        return t;
    };
    tensor<T, 3> a = fill(sh), b = fill(shape<3>{ sh[0], 1, sh[2] });
    tensor<T, 2> m = fill(shape<2>{ sh[1], sh[2] }), k = fill(shape<2>{ sh[1], 1 });
    tensor<T, 1> l = fill(shape<1>{ sh[2] }), u = fill(shape<1>{ 1 });
    int form = (int)s.in("form", 0, 6);
    tensor<T, 3> out = storage<T, 3>(s, sh, T(99));
    auto go = [&](auto&& e, auto&& at, const char* what)
    {
        switch (s.in("width", 0, 3))
        {
        case 0: kfr::process(out, e); break;
        case 1: kfr::process<1>(out, e); break;
        case 2: kfr::process<4>(out, e); break;
        default: kfr::process<8>(out, e);
        }
        each(sh, [&](const shape<3>& i)
             { c.expect(out.access(i) == at(i), fmt("%s, element %s of %s: %g instead of %g", what, text(i).c_str(), text(sh).c_str(),
                                                    (double)out.access(i), (double)at(i))); });
    };
    using I = const shape<3>&;
    switch (form)
    {
    case 0: go(a + m, [&](I i) { return a.access(i) + m(i[1], i[2]); }, "a+m"); break;
    case 1: go(a + l * u, [&](I i) { return a.access(i) + l(i[2]) * u(0); }, "a+l*u"); break;
    case 2: go(b + m, [&](I i) { return b(i[0], 0, i[2]) + m(i[1], i[2]); }, "b+m"); break;
    case 3: go(b - k, [&](I i) { return b(i[0], 0, i[2]) - k(i[1], 0); }, "b-k"); break;
    case 4: go(m, [&](I i) { return m(i[1], i[2]); }, "m"); break;
    case 5: go(l, [&](I i) { return l(i[2]); }, "l"); break;
    default: go(a * T(2) + u, [&](I i) { return a.access(i) * 2 + u(0); }, "a*2+u");
    }
    if (count(sh) > 1)
        c.interesting(form, count(sh), s.rec.back(), (int)s.rec.size());
}

// writing through adapters
PBT_TEST(outputs, 3000, 60000)
{
    using T     = float;
    shape<2> sh = box<2>(s, "size", 20);
    Rng r       = s.bulk("seed");
    auto src    = gen<T, 2>(s, r, sh, (int)s.in("depth", 0, 2));
    s.say(src.text);
    int form = (int)s.in("form", 0, 4), width = (int)s.in("width", 0, 3), axis = (int)s.in("axis", 0, 1);
    auto go = [&](auto&& out)
    {
        auto run = [&](auto A)
        {
            constexpr index_t Ax = decltype(A)::value;
            switch (width)
            {
            case 0: kfr::process<0, Ax>(out, src.e); break;
            case 1: kfr::process<1, Ax>(out, src.e); break;
            case 2: kfr::process<4, Ax>(out, src.e); break;
            default: kfr::process<8, Ax>(out, src.e);
            }
        };
        if (axis == 0)
            run(kfr::csize<0>);
        else
            run(kfr::csize<1>);
    };
    std::string how = fmt("form %d, axis %d, width %d", form, axis, width);
    auto want = [&](T got, T w, size_t i, size_t j)
    { c.expect(got == w, fmt("%s: cell (%zu,%zu) is %g instead of %g", how.c_str(), i, j, (double)got, (double)w)); };
    switch (form)
    {
    case 0: // a slice of a larger tensor
    {
        shape<2> off{ (index_t)s.in("row", 0, 5), (index_t)s.in("column", 0, 5) };
        shape<2> big{ sh[0] + off[0] + (index_t)s.in("rows", 0, 3), sh[1] + off[1] + (index_t)s.in("columns", 0, 3) };
        tensor<T, 2> t = storage<T, 2>(s, big, T(99));
        go(kfr::slice(t, off, sh));
        each(big, [&](const shape<2>& i)
             {
                 bool in = i[0] >= off[0] && i[1] >= off[1] && i[0] < off[0] + sh[0] && i[1] < off[1] + sh[1];
                 want(t.access(i), in ? src.at(i.sub(off)) : T(99), i[0], i[1]);
             });
        break;
    }
    case 1: // a tensor of another shape
    {
        shape<2> in    = refactor<2>(s, count(sh));
        tensor<T, 2> t = storage<T, 2>(s, in, T(99));
        go(kfr::reshape(t, shape<2>(sh)));
        each(in, [&](const shape<2>& i) { want(t.access(i), src.at(unflat(sh, flat(in, i))), i[0], i[1]); });
        break;
    }
    case 2: // a vector
    {
        Buf<T> b(count(sh), (size_t)s.in("align", 0, 7));
        auto ref = kfr::make_univector(b.data(), count(sh));
        go(kfr::reshape(ref, shape<2>(sh)));
        for (size_t k = 0; k < count(sh); k++)
            want(b[k], src.at(unflat(sh, k)), 0, k);
        b.check(c, "output");
        break;
    }
    case 3: // a tensor of three dimensions
    {
        shape<3> in    = refactor<3>(s, count(sh));
        tensor<T, 3> t = storage<T, 3>(s, in, T(99));
        go(kfr::reshape(t, shape<2>(sh)));
        each(in, [&](const shape<3>& i) { want(t.access(i), src.at(unflat(sh, flat(in, i))), i[0] * in[1] + i[1], i[2]); });
        break;
    }
    default: // a type-erased tensor
    {
        tensor<T, 2> t = storage<T, 2>(s, sh, T(99));
        auto h         = kfr::to_handle(tensor<T, 2>(t));
        go(h);
        each(sh, [&](const shape<2>& i) { want(t.access(i), src.at(i), i[0], i[1]); });
    }
    }
    c.label(how);
    if (count(sh) > 1)
        c.interesting(form, axis, width, count(sh), s.rec.back());
}
// pack and unpack of vectors
PBT_TEST(packs, 800, 10000)
{
    using T  = float;
    size_t n = (size_t)s.skew("n", 1, 200);
    Rng r    = s.bulk("seed");
    kfr::univector<T> a(n), b(n), d(n);
    for (size_t i = 0; i < n; i++)
        a[i] = (T)r.range(-99, 99), b[i] = (T)r.range(-99, 99), d[i] = (T)r.range(-99, 99);
    kfr::univector<kfr::vec<T, 2>> p = kfr::pack(a, b);
    kfr::univector<kfr::vec<T, 3>> q = kfr::pack(a, b, d * T(2));
    for (size_t i = 0; i < n; i++)
    {
        c.expect(p[i][0] == a[i] && p[i][1] == b[i], fmt("pack of two, element %zu of %zu", i, n));
        c.expect(q[i][0] == a[i] && q[i][1] == b[i] && q[i][2] == d[i] * 2, fmt("pack of three, element %zu of %zu", i, n));
    }
    kfr::univector<T> x(n), y(n), z(n);
    kfr::unpack(x, y) = p;
    for (size_t i = 0; i < n; i++)
        c.expect(x[i] == a[i] && y[i] == b[i], fmt("unpack of two, element %zu of %zu", i, n));
    kfr::unpack(x, y, z) = q;
    for (size_t i = 0; i < n; i++)
        c.expect(x[i] == a[i] && y[i] == b[i] && z[i] == d[i] * 2, fmt("unpack of three, element %zu of %zu", i, n));
    kfr::pack(x, y) *= kfr::broadcast<2>(T(3));
    for (size_t i = 0; i < n; i++)
        c.expect(x[i] == a[i] * 3 && y[i] == b[i] * 3, fmt("pack as an output, element %zu of %zu", i, n));
    // differences of neighbours, evaluated in blocks
    auto parts = s.splits("blocks", n, 50);
    auto e     = kfr::adjacent(kfr::fn::sub(), a);
    kfr::univector<T> o(n);
    size_t at = 0;
    for (size_t k : parts)
    {
        kfr::process(o, e, shape<1>(at), shape<1>(k));
        at += k;
    }
    for (size_t i = 0; i < n; i++)
        c.expect(o[i] == a[i] - (i ? a[i - 1] : T(0)), fmt("adjacent, element %zu of %zu: %g", i, n, (double)o[i]));
    if (n > 1)
        c.interesting(n, s.rec.back(), parts.size());
}
#endif
