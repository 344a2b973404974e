// One-dimensional expressions: the value of element i is the same however the expression is evaluated (whole, in
// sub-ranges, in blocks, one element or a wide vector at a time, behind a type-erased handle) and equals the definition.
#include <kfr/base.hpp>
#include "pbt.hpp"
#include <functional>
using namespace pbt;
using ld = long double;
using kfr::shape;
using kfr::univector;

constexpr size_t INF = (size_t)-1;
template <typename T>
struct Model
{
    std::function<T(size_t)> at;
    size_t size; // INF: infinite
    std::string text;
};
template <typename T>
using H = kfr::expression_handle<T, 1>;
template <typename T>
struct Node
{
    H<T> e;
    Model<T> m;
};
template <typename T>
static T small(Rng& r)
{
    return (T)r.range(-6, 6);
}
// erases the type of an expression, keeps its model
template <typename T, typename E>
static Node<T> erase(E&& e, Model<T> m)
{
    return { kfr::to_handle(std::move(e)), std::move(m) };
}
template <typename T>
static Node<T> leaf(Src& s, Rng& r, size_t n)
{
    if (n == INF)
    {
        T a = (T)s.in(0, 5), b = (T)s.in(0, 3);
        switch (s.in(0, 3))
        {
        case 0: return erase<T>(kfr::counter<T>(a, b), { [=](size_t i) { return (T)(a + (T)i * b); }, INF, "counter" });
        case 1: return erase<T>(kfr::counter<T>(a), { [=](size_t i) { return (T)(a + (T)i); }, INF, "counter" });
        case 2:
            return erase<T>(kfr::lambda<T>([=](size_t i) { return (T)((i % 7) * (int)b); }),
                            { [=](size_t i) { return (T)((i % 7) * (int)b); }, INF, "lambda" });
        default:
            return erase<T>(kfr::sequence(a, b, T(3)),
                            { [=](size_t i) { return i % 3 == 0 ? a : i % 3 == 1 ? b : T(3); }, INF, "sequence" });
        }
    }
    std::vector<T> v(n);
    for (auto& x : v)
        x = small<T>(r);
    univector<T> u(n);
    std::copy(v.begin(), v.end(), u.begin());
    auto at  = [v](size_t i) { return v[i]; };
    auto rev = [v](size_t i) { return v[v.size() - 1 - i]; };
    switch (s.in(0, 4))
    {
    default: return erase<T>(std::move(u), { at, n, fmt("data(%zu)", n) });
    case 1: return erase<T>(kfr::reverse(std::move(u)), { rev, n, fmt("reverse(data(%zu))", n) });
    case 2:
        return erase<T>(kfr::reverse(kfr::reverse(std::move(u)) + T(1)),
                        { [v](size_t i) { return (T)(v[i] + 1); }, n, fmt("reverse(reverse(data(%zu))+1)", n) });
    case 3:
        return erase<T>(-std::move(u), { [v](size_t i) { return (T)-v[i]; }, n, fmt("-data(%zu)", n) });
    }
}
template <typename T>
static Node<T> gen(Src& s, Rng& r, size_t n, int depth)
{
    if (depth <= 0 || (n != INF && n == 0))
        return leaf<T>(s, r, n);
    int op = (int)s.in(0, 9);
    switch (op)
    {
    case 0: return leaf<T>(s, r, n);
    case 1: // slice
    {
        size_t off = (size_t)s.skew(nullptr, 0, 40);
        bool inf   = n == INF || s.flag();
        auto a     = gen<T>(s, r, inf ? INF : n + off + (size_t)s.skew(nullptr, 0, 20), depth - 1);
        auto f     = a.m.at;
        Model<T> m{ [f, off](size_t i) { return f(i + off); }, n, fmt("slice(%s,%zu,%lld)", a.m.text.c_str(), off, (long long)n) };
        if (n == INF)
            return erase<T>(kfr::slice(std::move(a.e), off) + T(0), m);
        return erase<T>(kfr::slice(std::move(a.e), off, n) + T(0), m);
    }
    case 2: // truncate, or padded for an infinite size
        if (n == INF)
        {
            size_t k = (size_t)s.skew(nullptr, 0, 60);
            T fill   = (T)s.in(0, 9);
            auto a   = gen<T>(s, r, k, depth - 1);
            auto f   = a.m.at;
            return erase<T>(kfr::padded(std::move(a.e), fill),
                            { [f, k, fill](size_t i) { return i < k ? f(i) : fill; }, INF, fmt("padded(%s)", a.m.text.c_str()) });
        }
        else
        {
            auto a = gen<T>(s, r, s.flag() ? INF : n + (size_t)s.skew(nullptr, 0, 30), depth - 1);
            return erase<T>(kfr::truncate(std::move(a.e), n) + T(0), { a.m.at, n, fmt("truncate(%s,%zu)", a.m.text.c_str(), n) });
        }
    case 3: // concatenate
    {
        size_t k = n == INF ? (size_t)s.skew(nullptr, 0, 60) : (size_t)s.in(0, (int64_t)n);
        auto a = gen<T>(s, r, k, depth - 1), b = gen<T>(s, r, n == INF ? INF : n - k, depth - 1);
        auto f = a.m.at, g = b.m.at;
        return erase<T>(kfr::concatenate(std::move(a.e), std::move(b.e)),
                        { [f, g, k](size_t i) { return i < k ? f(i) : g(i - k); }, n,
                          fmt("concatenate(%s,%s)", a.m.text.c_str(), b.m.text.c_str()) });
    }
    case 4:
    case 5: // two arguments of a common size
    {
        size_t na = n, nb = n;
        if (n != INF && n != 1)
        {
            int64_t k = s.in(0, 3);
            if (k == 1)
                na = INF;
            else if (k == 2)
                nb = INF;
            else if (k == 3 && n > 1)
                nb = 1;
        }
        auto a = gen<T>(s, r, na, depth - 1), b = gen<T>(s, r, nb, depth - 1);
        auto f = a.m.at, g = b.m.at;
        if (nb == 1 && n != 1)
            g = [g](size_t) { return g(0); };
        std::string t = fmt("(%s,%s)", a.m.text.c_str(), b.m.text.c_str());
        switch (s.in(0, 4))
        {
        case 0: return erase<T>(std::move(a.e) + std::move(b.e), { [f, g](size_t i) { return (T)(f(i) + g(i)); }, n, "add" + t });
        case 1: return erase<T>(std::move(a.e) - std::move(b.e), { [f, g](size_t i) { return (T)(f(i) - g(i)); }, n, "sub" + t });
        case 2: return erase<T>(kfr::min(std::move(a.e), std::move(b.e)), { [f, g](size_t i) { return std::min(f(i), g(i)); }, n, "min" + t });
        case 3: return erase<T>(kfr::max(std::move(a.e), std::move(b.e)), { [f, g](size_t i) { return std::max(f(i), g(i)); }, n, "max" + t });
        default:
            return erase<T>(kfr::select(H<T>(a.e) < H<T>(b.e), H<T>(a.e), H<T>(b.e) * T(2)),
                            { [f, g](size_t i) { return f(i) < g(i) ? f(i) : (T)(g(i) * 2); }, n, "select" + t });
        }
    }
    case 6:
    {
        auto a = gen<T>(s, r, n, depth - 1);
        auto f = a.m.at;
        T k    = (T)s.in(-2, 2);
        if (s.flag())
            return erase<T>(std::move(a.e) * k, { [f, k](size_t i) { return (T)(f(i) * k); }, n, "scale(" + a.m.text + ")" });
        return erase<T>(kfr::abs(k - std::move(a.e)),
                        { [f, k](size_t i) { T x = (T)(k - f(i)); return x < 0 ? (T)-x : x; }, n, "abs(" + a.m.text + ")" });
    }
    case 7:
    {
        auto a = gen<T>(s, r, n, depth - 1);
        auto f = a.m.at;
        return erase<T>(kfr::cast<T>(kfr::cast<int64_t>(std::move(a.e)) + int64_t(1)) + T(0),
                        { [f](size_t i) { return (T)(f(i) + 1); }, n, "cast(" + a.m.text + ")" });
    }
    case 8: // a function object
    {
        auto a = gen<T>(s, r, n, depth - 1);
        auto f = a.m.at;
        return erase<T>(kfr::clamp(std::move(a.e), T(-3), T(4)),
                        { [f](size_t i) { return std::min(std::max(f(i), T(-3)), T(4)); }, n, "clamp(" + a.m.text + ")" });
    }
    default:
    {
        // three pieces
        if (n == INF)
            return leaf<T>(s, r, n);
        size_t k = (size_t)s.in(0, (int64_t)n), l = (size_t)s.in(0, (int64_t)(n - k));
        auto a = gen<T>(s, r, k, depth - 2), b = gen<T>(s, r, l, depth - 2), d = gen<T>(s, r, n - k - l, depth - 2);
        auto f = a.m.at, g = b.m.at, h = d.m.at;
        return erase<T>(kfr::concatenate(std::move(a.e), std::move(b.e), std::move(d.e)),
                        { [=](size_t i) { return i < k ? f(i) : i < k + l ? g(i - k) : h(i - k - l); }, n,
                          fmt("concatenate(%s,%s,%s)", a.m.text.c_str(), b.m.text.c_str(), d.m.text.c_str()) });
    }
    }
}
template <typename T, typename E>
static void evaluate(Src& s, Case& c, const E& e, const Model<T>& m, size_t n, const char* what, ld tol = 0)
{
    auto same = [&](T got, size_t i, const char* how)
    {
        T want = m.at(i);
        c.expect(got == want || std::fabs((ld)got - (ld)want) <= tol * std::max<ld>(1, std::fabs((ld)want)),
                 fmt("%s, element %zu of %lld %s: %.9g instead of %.9g", what, i, (long long)m.size, how, (double)got, (double)want));
    };
    size_t size = kfr::get_shape(e).front();
    c.expect(size == (m.size == INF ? (size_t)kfr::infinite_size : m.size), fmt("%s: shape is %zu instead of %zu", what, size, m.size));
    if (m.size != INF)
        n = m.size;
    switch (s.in("how", 0, 4))
    {
    case 0:
    {
        // the whole expression; elements beyond it stay
        Buf<T> out(n + 8, (size_t)s.in("align", 0, 7));
        for (size_t i = 0; i < n + 8; i++)
            out[i] = T(99);
        auto ref  = kfr::make_univector(out.data(), m.size == INF ? n : n);
        auto stop = kfr::process(ref, e);
        c.eq((size_t)stop.front(), n, "end of the processed range");
        for (size_t i = 0; i < n; i++)
            same(out[i], i, "evaluated whole");
        for (size_t i = n; i < n + 8; i++)
            c.expect(out[i] == T(99), "wrote past the end");
        out.check(c, "output");
        break;
    }
    case 1:
    {
        // a sub-range
        size_t a = n ? (size_t)s.in("from", 0, (int64_t)n) : 0, len = (size_t)s.in("count", 0, (int64_t)n + 3);
        Buf<T> out(n, (size_t)s.in("align", 0, 7));
        for (size_t i = 0; i < n; i++)
            out[i] = T(99);
        auto ref = kfr::make_univector(out.data(), n);
        kfr::process(ref, e, shape<1>(a), shape<1>(len));
        for (size_t i = 0; i < n; i++)
            if (i >= a && i < a + len)
                same(out[i], i, fmt("evaluated in %zu+%zu", a, len).c_str());
            else
                c.expect(out[i] == T(99), fmt("element %zu outside the range %zu+%zu changed", i, a, len));
        out.check(c, "output");
        break;
    }
    case 2:
    {
        // blocks in order
        auto parts = s.splits("blocks", n, 60);
        univector<T> out(n);
        size_t at = 0;
        for (size_t p : parts)
        {
            kfr::process(out, e, shape<1>(at), shape<1>(p));
            at += p;
        }
        for (size_t i = 0; i < n; i++)
            same(out[i], i, "evaluated in blocks");
        break;
    }
    case 3:
    {
        // vectors of any width at any position
        Rng r = s.bulk("where");
        for (int k = 0; k < 20; k++)
        {
            size_t w = (size_t)1 << r.below(7);
            if (w > n)
                continue;
            size_t at = r.below(n - w + 1);
            auto test = [&](auto W)
            {
                constexpr size_t N   = decltype(W)::value;
                kfr::vec<T, N> v = get_elements(e, shape<1>(at), kfr::axis_params_v<0, N>);
                for (size_t i = 0; i < N; i++)
                    same(v[i], at + i, fmt("in a vector of %zu at %zu", N, at).c_str());
            };
            switch (w)
            {
            case 1: test(kfr::csize<1>); break;
            case 2: test(kfr::csize<2>); break;
            case 4: test(kfr::csize<4>); break;
            case 8: test(kfr::csize<8>); break;
            case 16: test(kfr::csize<16>); break;
            case 32: test(kfr::csize<32>); break;
            case 64: test(kfr::csize<64>); break;
            }
        }
        break;
    }
    default:
    {
        // assigned through render and slices of it
        size_t off = n ? (size_t)s.in("from", 0, (int64_t)n) : 0;
        univector<T> u = kfr::render(e, n - off, off);
        c.eq(u.size(), n - off, "rendered size");
        for (size_t i = 0; i < n - off; i++)
            same(u[i], off + i, "rendered");
    }
    }
}
template <typename T>
static void trees(Src& s, Case& c)
{
    bool inf  = s.flag("infinite", 1, 4);
    size_t n  = (size_t)s.skew("n", 0, 300);
    int depth = (int)s.in("depth", 0, 5);
    Rng r     = s.bulk("seed");
    auto t    = gen<T>(s, r, inf ? INF : n, depth);
    s.say(t.m.text.size() > 600 ? t.m.text.substr(0, 600) : t.m.text);
    evaluate<T>(s, c, t.e, t.m, n, "tree");
    c.label(fmt("depth%d", depth));
    if (n > 1)
        c.interesting(n, depth, inf, s.rec.size(), s.rec.back(), (int)std::hash<std::string>()(t.m.text));
}
PBT_TEST(trees_f32, 1600, 40000) { trees<float>(s, c); }
PBT_TEST(trees_f64, 1600, 40000) { trees<double>(s, c); }
PBT_TEST(trees_i32, 1600, 40000) { trees<int32_t>(s, c); }

// the same operators without handles between them: temporaries, references and fixed sizes
template <typename T>
static void fixed_trees(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 200), m = (size_t)s.skew("m", 0, 100);
    int form = (int)s.in("form", 0, 12);
    Rng r    = s.bulk("seed");
    univector<T> u(n), v(n), w(m);
    for (size_t i = 0; i < n; i++)
        u[i] = small<T>(r), v[i] = small<T>(r);
    for (auto& x : w)
        x = small<T>(r);
    auto U = u, V = v, W = w;
    auto ev = [&](const auto& e, std::function<T(size_t)> f, size_t size, const char* what)
    { evaluate<T>(s, c, e, Model<T>{ f, size, what }, 150, what); };
    switch (form)
    {
    case 0:
        ev(kfr::concatenate(univector<T>(u), univector<T>(w)), [&](size_t i) { return i < n ? U[i] : W[i - n]; }, n + m,
           "concatenate of temporaries");
        break;
    case 1:
        ev(kfr::concatenate(u, w), [&](size_t i) { return i < n ? U[i] : W[i - n]; }, n + m, "concatenate of references");
        break;
    case 2:
        ev(kfr::padded(univector<T>(u) + v, T(7)), [&](size_t i) { return i < n ? (T)(U[i] + V[i]) : T(7); }, INF, "padded sum");
        break;
    case 3:
        ev(kfr::reverse(kfr::concatenate(u, univector<T>(w))),
           [&](size_t k) { size_t i = n + m - 1 - k; return i < n ? U[i] : W[i - n]; }, n + m, "reversed concatenate");
        break;
    case 4:
        ev(kfr::slice(kfr::padded(kfr::reverse(u), T(-1)), m, n), [&](size_t i) { return i + m < n ? U[n - 1 - i - m] : T(-1); }, n,
           "slice of padded reverse");
        break;
    case 5:
    {
        univector<T, 37> f;
        for (size_t i = 0; i < 37; i++)
            f[i] = small<T>(r);
        auto F = f;
        ev(f + kfr::counter<T>(T(1), T(2)) - kfr::reverse(f), [&](size_t i) { return (T)(F[i] + (T)(1 + 2 * i) - F[36 - i]); }, 37,
           "fixed size");
        break;
    }
    case 6:
    {
        // a reference sees later changes, a temporary does not
        auto e  = u + univector<T>(v);
        auto e2 = kfr::truncate(u, n);
        for (size_t i = 0; i < n; i++)
            u[i] = (T)(u[i] + 1), v[i] = T(50);
        ev(e, [&](size_t i) { return (T)(U[i] + 1 + V[i]); }, n, "reference and temporary");
        ev(e2, [&](size_t i) { return (T)(U[i] + 1); }, n, "reference");
        break;
    }
    case 7:
    {
        // in place
        u = u * T(2) + v;
        for (size_t i = 0; i < n; i++)
            c.expect(u[i] == (T)(U[i] * 2 + V[i]), fmt("in place: element %zu", i));
        u.slice(n / 3, n / 2) = u.slice(n / 3, n / 2) - v.slice(n / 3, n / 2);
        for (size_t i = 0; i < n; i++)
        {
            bool in = i >= n / 3 && i < n / 3 + n / 2;
            c.expect(u[i] == (T)(U[i] * 2 + V[i] - (in ? V[i] : T(0))), fmt("slice in place: element %zu", i));
        }
        break;
    }
    case 8:
        u += v;
        u *= T(3);
        u -= univector<T>(n, T(2));
        for (size_t i = 0; i < n; i++)
            c.expect(u[i] == (T)((U[i] + V[i]) * 3 - 2), fmt("compound assignment: element %zu", i));
        break;
    case 9:
    {
        // output through slice and truncate expressions
        univector<T> o(n + m, T(9));
        o.slice(m, n) = u - v;
        for (size_t i = 0; i < n + m; i++)
            c.expect(o[i] == (i < m ? T(9) : (T)(U[i - m] - V[i - m])), fmt("assignment to a slice: element %zu", i));
        break;
    }
    case 12:
    {
        size_t off = n + (size_t)s.in("beyond", 0, 5), len = (size_t)s.in("count", 0, 9);
        ev(kfr::slice(u, off, len), [](size_t) { return T(0); }, 0, "slice past the end");
        ev(kfr::slice(u + v, off), [](size_t) { return T(0); }, 0, "slice past the end");
        ev(kfr::slice(u + v, n / 2, n), [&](size_t i) { return (T)(U[n / 2 + i] + V[n / 2 + i]); }, n - n / 2, "slice to the end");
        break;
    }
    case 10:
    {
        univector<T> a(n), b(n);
        kfr::unpack(a, b) = kfr::pack(u, v);
        for (size_t i = 0; i < n; i++)
            c.expect(a[i] == U[i] && b[i] == V[i], fmt("unpack(pack): element %zu", i));
        univector<T> d(n);
        kfr::unpack(b, a, d) = kfr::pack(u + v, u - v, v);
        for (size_t i = 0; i < n; i++)
            c.expect(b[i] == (T)(U[i] + V[i]) && a[i] == (T)(U[i] - V[i]) && d[i] == V[i], fmt("unpack(pack) of 3: element %zu", i));
        break;
    }
    case 11:
    {
        auto parts = s.splits("blocks", n, 50);
        univector<T> o(n);
        auto e    = kfr::adjacent(kfr::fn::sub(), u);
        size_t at = 0;
        for (size_t p : parts)
            kfr::process(o, e, shape<1>(at), shape<1>(p)), at += p;
        for (size_t i = 0; i < n; i++)
            c.expect(o[i] == (T)(U[i] - (i ? U[i - 1] : T(0))), fmt("adjacent: element %zu", i));
    }
    }
    if (n > 1)
        c.interesting(form, n, m, s.rec.size(), s.rec.back());
}
PBT_TEST(fixed_f32, 800, 20000) { fixed_trees<float>(s, c); }
PBT_TEST(fixed_i32, 800, 20000) { fixed_trees<int32_t>(s, c); }
PBT_TEST(fixed_f64, 400, 10000) { fixed_trees<double>(s, c); }

template <typename T>
static void spaced(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("n", 1, 2000);
    double a = s.real("start", -10, 10), b = s.real("stop", -10, 10);
    bool endpoint = s.flag("endpoint");
    int form      = (int)s.in("form", 0, 2);
    size_t steps  = endpoint && n > 1 ? n - 1 : n;
    T A = (T)a, B = (T)b;
    ld mag = std::max(std::fabs((ld)A), std::fabs((ld)B)) + 1;
    if (form == 2)
        A = -std::fabs(A), B = -A, steps = n > 1 ? n - 1 : n;
    ld tol = 8 * std::numeric_limits<T>::epsilon() * mag;
    Model<T> m{ [=](size_t i) { return (T)((ld)A + ((ld)B - A) * (ld)i / steps); }, form == 1 ? n : INF, "linspace" };
    if (form == 0)
        evaluate<T>(s, c, kfr::linspace<T>(A, B, n, endpoint), m, n, "linspace", tol);
    else if (form == 1)
        evaluate<T>(s, c, kfr::linspace<T>(A, B, n, endpoint, kfr::ctrue), m, n, "truncated linspace", tol);
    else
        evaluate<T>(s, c, kfr::symmlinspace(B, n), m, n, "symmlinspace", tol);
    if (n > 1)
        c.interesting(form, n, endpoint, s.rec.back());
}
PBT_TEST(linspace_f32, 300, 5000) { spaced<float>(s, c); }
PBT_TEST(linspace_f64, 300, 5000) { spaced<double>(s, c); }

// recursive generators, read in any block sizes
template <typename T>
static void generators(Src& s, Case& c)
{
    int kind     = (int)s.in("kind", 0, 5);
    size_t n     = (size_t)s.skew("n", 1, 600);
    bool growing = kind == 1 || kind == 3;
    T start = (T)s.real("start", -2, 2), step = (T)(growing ? s.real("step", -0.02, 0.02) : s.real("step", -3, 3));
    auto parts = s.splits("blocks", n, 70);
    univector<T> o(n);
    univector<kfr::complex<T>> z(n);
    auto run = [&](auto e, auto& out)
    {
        size_t at = 0;
        for (size_t p : parts)
        {
            kfr::process(out, e, shape<1>(at), shape<1>(p));
            at += p;
        }
    };
    ld eps = std::numeric_limits<T>::epsilon();
    const char* names[] = { "gen_linear", "gen_exp", "gen_expj", "gen_exp2", "gen_cossin", "gen_sin" };
    switch (kind)
    {
    case 0: run(kfr::gen_linear(start, step), o); break;
    case 1: run(kfr::gen_exp(start, step), o); break;
    case 2: run(kfr::gen_expj(start, step), z); break;
    case 3: run(kfr::gen_exp2(start, step), o); break;
    case 4: run(kfr::gen_cossin(start, step), o); break;
    default: run(kfr::gen_sin(start, step), o);
    }
    for (size_t i = 0; i < n; i++)
    {
        ld x = (ld)start + (ld)i * step;
        ld acc = eps * (ld)(i + 8);
        switch (kind)
        {
        case 0: c.close(o[i], x, acc * 2 * (std::fabs((ld)start) + std::fabs((ld)i * step)), names[kind], i); break;
        case 1: c.close(o[i], std::exp(x), 4 * acc * std::exp(x) * 2, names[kind], i); break;
        case 3: c.close(o[i], std::exp2(x), 4 * acc * std::exp2(x) * 2, names[kind], i); break;
        case 2:
            // the phase of each generated group is off by a rounding of the sine and cosine of the group's step
            c.close(z[i].real(), std::cos(x), 16 * acc * 8, names[kind], i);
            c.close(z[i].imag(), std::sin(x), 16 * acc * 8, names[kind], i);
            break;
        case 4:
        {
            ld y = (ld)start + (ld)(i / 2) * step;
            c.close(o[i], i % 2 ? std::sin(y) : std::cos(y), 16 * acc * 8, names[kind], i);
            break;
        }
        default: c.close(o[i], std::sin(x), 16 * acc * 8, names[kind], i);
        }
    }
    c.label(names[kind]);
    if (n > 1)
        c.interesting(kind, n, parts.size(), s.rec.back());
}
PBT_TEST(generators_f32, 500, 10000) { generators<float>(s, c); }
PBT_TEST(generators_f64, 500, 10000) { generators<double>(s, c); }
