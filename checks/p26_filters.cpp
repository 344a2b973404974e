// Placeholders and filters made of expressions: any composition, every form of apply, any history of sources.
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
#include "pbt.hpp"
using namespace pbt;
using namespace kfr;
using ld = long double;

// ------------------------------------------------------------------ formulas with one placeholder, and their models
template <typename T>
struct Formula
{
    expression_handle<T> h;
    std::vector<std::function<ld(ld, size_t)>> ops; // (input, index in the call); stateful ones keep their state
    std::string text;
    ld gain = 1;    // largest growth of an error at the input
    bool state = false;
    ld run(ld x, size_t i)
    {
        for (auto& o : ops)
            x = o(x, i);
        return x;
    }
};
template <typename T>
static iir_params<T> make_iir(Rng& r, size_t n, std::function<ld(ld)>& model)
{
    struct Sec
    {
        ld a1, a2, b0, b1, b2, z1 = 0, z2 = 0;
        ld run(ld x)
        {
            ld y = b0 * x + z1;
            z1   = b1 * x - a1 * y + z2;
            z2   = b2 * x - a2 * y;
            return y;
        }
    };
    std::vector<biquad_section<T>> q;
    auto m = std::make_shared<std::vector<Sec>>();
    for (size_t i = 0; i < n; i++)
    {
        ld rad = r.unit() * 0.6, th = r.unit() * 3.14159265L;
        T a1 = T(-2 * rad * std::cos(th)), a2 = T(rad * rad);
        Sec t{ a1, a2, r.sym(), r.sym(), r.sym() };
        ld g = 0;
        for (int j = 0; j < 100; j++)
            g += std::fabs(t.run(j == 0));
        ld sc = g > 0.01L ? 1 / g : 1;
        biquad_section<T> b(T(1), a1, a2, T(t.b0 * sc), T(t.b1 * sc), T(t.b2 * sc));
        q.push_back(b);
        m->push_back(Sec{ b.a1, b.a2, b.b0, b.b1, b.b2 });
    }
    model = [m](ld x) {
        for (auto& s : *m)
            x = s.run(x);
        return x;
    };
    return iir_params<T>(q.data(), q.size());
}
template <typename T>
static void add_op(Src& s, Formula<T>& f)
{
    int op = (int)s.in(0, 13);
    Rng r  = s.bulk();
    T k = T(r.range(-8, 8) / 4.0), a = T(r.range(-40, 40) / 8.0);
    if (k == 0)
        k = 1;
    auto& h = f.h;
    ld eps  = std::numeric_limits<T>::epsilon();
    (void)eps;
    static const char* names[] = { "h*k+a", "counter*k+h", "v*k+h", "fir", "iir", "moving_sum", "short_fir", "delay",
                                   "max(h,counter-a)", "bind", "handle", "-h", "fracdelay", "k*(v+h)" };
    f.text += fmt(" %s", names[op]);
    switch (op)
    {
    case 0:
        h = to_handle(std::move(h) * k + a);
        f.ops.push_back([=](ld x, size_t) { return x * k + a; });
        f.gain *= std::max(ld(1), std::fabs(ld(k)));
        break;
    case 1: // a compound argument without a placeholder comes first
        h = to_handle((counter<T>() * T(0.125) - a) + std::move(h));
        f.ops.push_back([=](ld x, size_t i) { return x + i * 0.125L - a; });
        break;
    case 2:
    case 13:
    {
        univector<T> v(700);
        std::vector<T> m(700);
        for (size_t i = 0; i < 700; i++)
            v[i] = m[i] = T(r.range(-64, 64) / 16.0);
        if (op == 2)
        {
            h = to_handle((padded(std::move(v)) * k - a) + std::move(h));
            f.ops.push_back([=](ld x, size_t i) { return x + ld(m[i]) * k - a; });
        }
        else
        {
            h = to_handle(k * (padded(std::move(v)) + std::move(h)));
            f.ops.push_back([=](ld x, size_t i) { return (x + m[i]) * k; });
            f.gain *= std::max(ld(1), std::fabs(ld(k)));
        }
        break;
    }
    case 3:
    case 6:
    {
        size_t n = op == 3 ? (size_t)r.range(1, 40) : 5;
        std::vector<T> t(n);
        for (auto& x : t)
            x = T(r.sym() / n);
        auto hist = std::make_shared<std::vector<ld>>();
        if (op == 3)
        {
            univector<T> u(n);
            std::copy(t.begin(), t.end(), u.begin());
            h = to_handle(fir(std::move(h), fir_params<T>{ u }));
        }
        else
        {
            univector<T, 5> u;
            std::copy(t.begin(), t.end(), u.begin());
            h = to_handle(short_fir(std::move(h), u));
        }
        f.ops.push_back([=](ld x, size_t) {
            hist->push_back(x);
            ld y = 0;
            for (size_t j = 0; j < n && j < hist->size(); j++)
                y += t[j] * (*hist)[hist->size() - 1 - j];
            return y;
        });
        f.state = true;
        break;
    }
    case 4:
    {
        size_t n = (size_t)r.range(1, 9);
        std::function<ld(ld)> m;
        auto p = make_iir<T>(r, n, m);
        h      = to_handle(iir(std::move(h), p));
        f.ops.push_back([=](ld x, size_t) { return m(x); });
        f.state = true;
        f.text += fmt("%zu", n);
        break;
    }
    case 5:
    {
        size_t n  = (size_t)r.range(1, 12);
        auto hist = std::make_shared<std::vector<ld>>();
        h         = to_handle(moving_sum(std::move(h), n) * T(0.125));
        f.ops.push_back([=](ld x, size_t) {
            hist->push_back(x);
            ld y = 0;
            for (size_t j = 0; j < n && j < hist->size(); j++)
                y += (*hist)[hist->size() - 1 - j];
            return y * 0.125L;
        });
        f.gain *= 2;
        f.state = true;
        break;
    }
    case 7:
    {
        constexpr size_t D = 7;
        auto hist = std::make_shared<std::vector<ld>>();
        h         = to_handle(delay<D>(std::move(h)));
        f.ops.push_back([=](ld x, size_t) {
            hist->push_back(x);
            return hist->size() > D ? (*hist)[hist->size() - 1 - D] : ld(0);
        });
        f.state = true;
        break;
    }
    case 8:
        h = to_handle(max(std::move(h), counter<T>() * T(0.25) - abs(a) * 4));
        f.ops.push_back([=](ld x, size_t i) { return std::max(x, i * 0.25L - std::fabs(ld(a)) * 4); });
        break;
    case 9:
        h = to_handle(bind_expression([k](auto x) { return x * k; }, std::move(h)));
        f.ops.push_back([=](ld x, size_t) { return x * k; });
        f.gain *= std::max(ld(1), std::fabs(ld(k)));
        break;
    case 10:
    {
        auto t = to_handle(std::move(h));
        h      = std::move(t);
        f.ops.push_back([](ld x, size_t) { return x; });
        break;
    }
    case 11:
        h = to_handle(-std::move(h));
        f.ops.push_back([](ld x, size_t) { return -x; });
        break;
    case 12:
    {
        T d       = T(r.range(1, 15) / 16.0);
        auto last = std::make_shared<ld>(0);
        h         = to_handle(fracdelay(std::move(h), d));
        f.ops.push_back([=](ld x, size_t) {
            ld y  = x * (1 - ld(d)) + *last * d;
            *last = x;
            return y;
        });
        f.state = true;
        break;
    }
    }
}
template <typename T>
static Formula<T> make_formula(Src& s, int maxops)
{
    Formula<T> f;
    f.h   = to_handle(placeholder<T>());
    int n = (int)s.in("ops", 0, maxops);
    for (int i = 0; i < n; i++)
        add_op(s, f);
    s.say("[" + f.text + " ]");
    return f;
}

// ------------------------------------------------------------------ sources
template <typename T>
struct Source
{
    std::shared_ptr<univector<T>> xs; // plain samples
    univector<T>& x;
    std::vector<ld> ref = {}; // the elements the source has
    int kind = 0;
    ld gain  = 1;
    expression_handle<T> h = {};
};
template <typename T>
static Source<T> make_source(Src& s, size_t n, int kind)
{
    auto xs = std::make_shared<univector<T>>();
    Source<T> q{ xs, *xs };
    q.kind = kind;
    auto v = real_signal<T>(s, n, nullptr);
    q.x.resize(n);
    std::copy(v.begin(), v.end(), q.x.begin());
    q.ref.assign(q.x.begin(), q.x.end());
    switch (kind)
    {
    case 0: // plain
        q.h = to_handle(q.x);
        break;
    case 1:
        q.h = to_handle(q.x * T(2) + T(1));
        for (auto& r : q.ref)
            r = r * 2 + 1;
        break;
    case 2: // an expression that keeps a state during a pass
    {
        Rng r = s.bulk();
        std::function<ld(ld)> m;
        auto p = make_iir<T>(r, (size_t)r.range(1, 8), m);
        q.h    = to_handle(iir(q.x, p));
        for (auto& e : q.ref)
            e = m(e);
        break;
    }
    case 3: // without an end
        q.h = to_handle(counter<T>() * T(0.5) - T(3));
        for (size_t i = 0; i < n; i++)
            q.ref[i] = i * 0.5L - 3;
        break;
    case 4: // owns its data
    {
        univector<T> c = q.x;
        q.h            = to_handle(std::move(c));
        break;
    }
    case 5:
    {
        Rng r     = s.bulk();
        T t[3]    = { T(r.sym()), T(r.sym()), T(r.sym()) };
        univector<T> u(3);
        std::copy(t, t + 3, u.begin());
        q.h = to_handle(fir(q.x, fir_params<T>{ u }));
        for (size_t i = 0; i < n; i++)
        {
            ld y = 0;
            for (size_t j = 0; j < 3 && j <= i; j++)
                y += ld(t[j]) * q.x[i - j];
            q.ref[i] = y;
        }
        q.gain = 3;
        break;
    }
    }
    return q;
}
template <typename T>
static void check(Case& c, const T* got, const std::vector<ld>& want, ld amp, const Formula<T>& f)
{
    ld tol = std::numeric_limits<T>::epsilon() * 100 * (amp + 20) * f.gain * (f.ops.size() + 2);
    for (size_t i = 0; i < want.size(); i++)
        if (!(std::fabs(got[i] - want[i]) <= tol))
            c.fail(fmt("element %zu of %zu: got %.9Lg, expected %.9Lg (tolerance %.2Lg)", i, want.size(), (ld)got[i],
                       want[i], tol));
}

// ------------------------------------------------------------------ filters: a history of applications
template <typename T>
static void history(Src& s, Case& c)
{
    auto f = make_formula<T>(s, 5);
    bool viaexpr = s.flag("own");
    auto flt = viaexpr ? to_filter(std::move(f.h)) : expression_filter<T>(f.h);
    filter<T>& F = flt;
    int calls    = (int)s.in("calls", 1, 5);
    ld amp       = 0;
    for (int k = 0; k < calls; k++)
    {
        size_t n  = (size_t)s.skew(nullptr, 0, 300);
        int form  = (int)s.in(0, 10);
        int kind  = form < 6 ? 0 : (int)s.in(0, 5);
        size_t nd = n, ns = n; // elements of the destination and of the source
        if (form == 3 || form >= 6)
        {
            int d = (int)s.in(0, 3);
            if (d == 1)
                nd += (size_t)s.in(1, 40);
            else if (d == 2)
                ns += (size_t)s.in(1, 40);
        }
        if (form == 4 || form == 5)
            n = nd = ns = 21;
        if (kind == 3)
            n = nd; // the source has no end
        auto src = make_source<T>(s, std::max(ns, n), kind);
        if (kind != 3)
            n = std::min(nd, ns);
        s.say(fmt("(form %d kind %d %zu<-%zu)", form, kind, nd, ns));
        Buf<T> out(nd, (size_t)s.in(0, 3));
        T mark   = Buf<T>(1)[0];
        T* o     = out.data();
        T* i     = src.x.data();
        switch (form)
        {
        case 0:
            F.apply(o, i, n);
            break;
        case 1: // in place
            std::copy(i, i + n, o);
            F.apply(o, n);
            break;
        case 2:
        {
            std::copy(i, i + n, o);
            auto d = make_univector(o, n);
            F.apply(d);
            break;
        }
        case 3:
        {
            if (s.flag())
            {
                auto d = make_univector(o, nd);
                if (nd)
                    F.apply(d, src.x);
            }
            else
            { // an empty destination gets the size of the source
                univector<T> d;
                if (s.flag())
                    d.resize(nd);
                bool was = d.empty();
                F.apply(d, src.x);
                size_t want = was ? ns : nd;
                if (d.size() != want)
                    c.fail(fmt("destination has %zu elements, expected %zu", d.size(), want));
                if (was)
                    n = ns;
                std::vector<ld> w;
                for (size_t j = 0; j < n; j++)
                {
                    amp = std::max(amp, std::fabs(src.ref[j]));
                    w.push_back(f.run(src.ref[j], j));
                    amp = std::max(amp, std::fabs(w.back()));
                }
                check(c, d.data(), w, amp, f);
                n = 0;
            }
            if (!nd)
                n = 0;
            break;
        }
        case 4:
        {
            T a[21], b[21];
            std::copy(i, i + 21, b);
            if (s.flag())
                F.apply(a, b);
            else
            {
                std::copy(b, b + 21, a);
                F.apply(a);
            }
            std::copy(a, a + 21, o);
            break;
        }
        case 5:
        {
            univector<T, 21> a, b;
            std::copy(i, i + 21, b.begin());
            if (s.flag())
                F.apply(a, b);
            else
            {
                a = b;
                F.apply(a);
            }
            std::copy(a.begin(), a.end(), o);
            break;
        }
        case 6:
        {
            auto d = make_univector(o, nd);
            F.apply(d, src.h);
            break;
        }
        case 7:
            F.apply(o, src.h, nd);
            break;
        case 8: // expressions that are not handles
        case 9:
        {
            auto d = make_univector(o, nd);
            auto e = src.h * T(1);
            if (form == 8)
                F.apply(d, e);
            else
                F.apply(o, e, nd);
            break;
        }
        case 10:
        {
            auto d = make_univector(o, nd);
            F.apply(d, std::move(src.h) + T(0));
            break;
        }
        }
        out.check(c, "apply");
        if (kind == 3)
            n = nd;
        std::vector<ld> want;
        for (size_t j = 0; j < n; j++)
        {
            amp = std::max(amp, std::fabs(src.ref[j]));
            want.push_back(f.run(src.ref[j], j));
            amp = std::max(amp, std::fabs(want.back()));
        }
        check(c, o, want, amp, f);
        for (size_t j = n; j < nd; j++)
            if (std::memcmp(&o[j], &mark, sizeof mark))
                c.fail(fmt("element %zu of the destination written, the source has %zu", j, n));
        c.label(fmt("form %d", form));
        if (n && f.ops.size())
            c.interesting(n, nd, form, kind, f.ops.size());
    }
    if (f.state && calls > 1)
        c.label("state over several calls");
}
PBT_TEST(history_f32, 1500, 30000) { history<float>(s, c); }
PBT_TEST(history_f64, 1500, 30000) { history<double>(s, c); }

// ------------------------------------------------------------------ placeholders with keys, at any place
static void keys(Src& s, Case& c)
{
    using T  = int32_t;
    size_t n = (size_t)s.skew("n", 1, 60);
    Rng r    = s.bulk("data");
    std::vector<univector<T>> v;
    for (int i = 0; i < 5; i++)
    {
        v.emplace_back(n);
        for (auto& x : v.back())
            x = (T)r.range(-1000, 1000);
    }
    T k0 = (T)r.range(-5, 5), k1 = (T)r.range(-5, 5);
    auto run = [&](auto& e, auto&& model)
    {
        int src[3] = { -1, -1, -1 };
        for (int step = 0, ns = (int)s.in("steps", 0, 5); step <= ns; step++)
        {
            if (step)
            {
                int key = (int)s.in("key", 0, 2), w = (int)s.in("source", 0, 3);
                bool ok = key == 0   ? substitute(e, to_handle(v[w]))
                          : key == 1 ? substitute(e, to_handle(v[w]), csize_t<1>{})
                                     : substitute(e, to_handle(v[w]), csize_t<2>{});
                if (ok != (key < 2))
                    c.fail(fmt("substitute of key %d says %d", key, (int)ok));
                if (ok)
                    src[key] = w;
            }
            Buf<T> out(n);
            auto d = make_univector(out.data(), n);
            d      = e;
            out.check(c, "placeholders");
            for (size_t i = 0; i < n; i++)
            {
                T w = model(src[0] < 0 ? 0 : v[src[0]][i], src[1] < 0 ? 0 : v[src[1]][i], i);
                if (out[i] != w)
                    c.fail(fmt("element %zu of %zu is %d, expected %d (sources %d %d)", i, n, out[i], w, src[0], src[1]));
            }
        }
    };
    auto p0 = placeholder<T>();
    auto p1 = placeholder<T, 1, 1>();
    switch ((int)s.in("shape", 0, 6))
    {
    case 0:
    {
        auto e = p0 * k0 + p1 * k1;
        run(e, [&](T a, T b, size_t) { return a * k0 + b * k1; });
        break;
    }
    case 1:
    {
        auto e = (counter<T>() * k0 + v[4]) + (p1 - p0);
        run(e, [&](T a, T b, size_t i) { return T(i) * k0 + v[4][i] + b - a; });
        break;
    }
    case 2:
    {
        auto e = abs(p1 * k1) + (counter<T>() - (v[4] * k1 + (-(p0))));
        run(e, [&](T a, T b, size_t i) { return std::abs(b * k1) + (T(i) - (v[4][i] * k1 - a)); });
        break;
    }
    case 3:
    {
        auto e = select(v[4] > 0, p0, p1 + 1);
        run(e, [&](T a, T b, size_t i) { return v[4][i] > 0 ? a : b + 1; });
        break;
    }
    case 4:
    {
        auto e = (v[4] * 2) * (counter<T>() + 1) + ((v[4] - 1) + min(p0, counter<T>() * k0) * p1);
        run(e, [&](T a, T b, size_t i) {
            return (v[4][i] * 2) * T(i + 1) + ((v[4][i] - 1) + std::min(a, T(i) * k0) * b);
        });
        break;
    }
    case 5:
    {
        auto e = bind_expression([](auto a, auto b, auto q) { return a * 2 + b * 3 + q; }, v[4] * k0, p0, p1);
        run(e, [&](T a, T b, size_t i) { return v[4][i] * k0 * 2 + a * 3 + b; });
        break;
    }
    case 6: // alone
    {
        auto e = -p0 + p1;
        run(e, [&](T a, T b, size_t) { return b - a; });
        break;
    }
    }
    c.interesting(n, s.rec.size() ? s.rec.back() : 0, s.rec.size());
}
PBT_TEST(keyed_placeholders, 1500, 30000) { keys(s, c); }

// ------------------------------------------------------------------ placeholders of two dimensions
PBT_TEST(placeholders_2d, 800, 16000)
{
    using T    = double;
    shape<2> z{ (index_t)s.in("rows", 1, 9), (index_t)s.in("cols", 1, 40) };
    Rng r      = s.bulk("data");
    tensor<T, 2> t(z), u(z), out(z);
    for (size_t i = 0; i < z.product(); i++)
        t.data()[i] = r.range(-99, 99), u.data()[i] = r.range(-99, 99), out.data()[i] = 1e9;
    bool inner = s.flag("inner"), byref = s.flag("byref"), second = s.flag("second");
    auto run = [&](auto e)
    {
        for (int k = 0; k <= (second ? 1 : 0); k++)
        {
            auto& src = k ? u : t;
            auto h    = byref ? to_handle(src) : to_handle(src * 1.0);
            auto g    = get_shape(h);
            if (!(g == z))
                c.fail("shape of a handle");
            if (!substitute(e, std::move(h)))
                c.fail("no placeholder found");
            process(out, e);
            for (size_t i = 0; i < z[0]; i++)
                for (size_t j = 0; j < z[1]; j++)
                    if (out(i, j) != src(i, j) * 3 + u(i, j) * 2)
                        c.fail(fmt("element %zu %zu", i, j));
        }
    };
    auto p = placeholder<T, 2>();
    if (inner)
        run(to_handle((u * 2.0) + to_handle(p * 3.0)));
    else
        run((u * 2.0) + p * 3.0);
    c.interesting(z[0], z[1], inner, byref, second);
}

// ------------------------------------------------------------------ handles release what they own
PBT_TEST(ownership, 800, 16000)
{
    auto token = std::make_shared<int>(1);
    size_t n   = (size_t)s.in("n", 1, 50);
    Rng r      = s.bulk("data");
    univector<double> x(n), out(n);
    for (auto& v : x)
        v = r.sym();
    int depth = (int)s.in("depth", 0, 6);
    {
        auto leaf = [&] { return lambda<double>([token](size_t i) { return *token + double(i); }); };
        expression_handle<double> h = to_handle(leaf());
        std::vector<expression_handle<double>> kept;
        double add = 0;
        std::vector<double> adds;
        for (int i = 0; i < depth; i++)
        {
            switch ((int)s.in(0, 3))
            {
            case 0:
                h = to_handle(std::move(h) + 1.0);
                add += 1;
                break;
            case 1:
                h = to_handle(expression_handle<double>(h) + 2.0); // shares the inner one
                add += 2;
                break;
            case 2:
                kept.push_back(h);
                adds.push_back(add);
                break;
            case 3:
            {
                auto p = to_handle(placeholder<double>() + 3.0);
                substitute(p, h);
                h = p;
                add += 3;
                break;
            }
            }
        }
        if (s.flag("drop"))
        { // the others keep what they share
            h = {};
            if (kept.empty())
                c.expect(token.use_count() == 1, "a handle does not release what it owns");
        }
        else
            kept.push_back(h), adds.push_back(add);
        h = {};
        if (s.flag("filter") && !kept.empty())
        {
            auto f = to_filter(placeholder<double>() * 1.0);
            f.apply(out, kept.back());
            for (size_t i = 0; i < n; i++)
                c.expect(out[i] == 1 + double(i) + adds.back(), "filtered handle");
            long before = token.use_count();
            f.apply(out, x); // replaces the source
            c.expect(before == token.use_count(), "reference count of a shared handle");
        }
        for (size_t k = 0; k < kept.size(); k++)
        {
            out = kept[k];
            for (size_t i = 0; i < n; i++)
                if (out[i] != 1 + double(i) + adds[k])
                    c.fail(fmt("element %zu is %g, expected %g", i, out[i], 1 + double(i) + adds[k]));
            c.expect(token.use_count() == 2, "one copy is shared by all handles");
        }
    }
    if (token.use_count() != 1)
        c.fail(fmt("%ld owners are left", token.use_count() - 1));
    c.interesting(n, depth, s.rec.back());
}
