// Tensors: every view (slice, sub-box, axis, transpose, reshape, flatten) names exactly the elements its definition
// says, reading and writing through it touches those and nothing else, and the memory lives until the last view is gone.
#include <kfr/base.hpp>
#include "pbt.hpp"
using namespace pbt;
using kfr::index_t;
using kfr::shape;
using kfr::tensor;

template <typename T>
struct Base
{
    std::vector<T> want; // what the memory must contain
    T* real     = nullptr;
    int* freed  = nullptr;
};
template <typename T>
struct View
{
    std::shared_ptr<Base<T>> base;
    std::vector<size_t> dims;
    std::vector<ptrdiff_t> off; // memory offset of each element, in row-major order
    T& at(size_t i) { return base->want[(size_t)off[i]]; }
    size_t size() const { return off.size(); }
};
template <index_t D>
static std::vector<size_t> dims_of(const shape<D>& s)
{
    std::vector<size_t> r;
    for (index_t i = 0; i < D; i++)
        r.push_back((size_t)s[i]);
    return r;
}
template <index_t D>
static shape<D> to_shape(const std::vector<size_t>& v)
{
    shape<D> s;
    for (index_t i = 0; i < D; i++)
        s[i] = v[i];
    return s;
}
static std::string text(const std::vector<size_t>& v)
{
    std::string r = "(";
    for (size_t x : v)
        r += fmt(r.size() > 1 ? ",%zu" : "%zu", x);
    return r + ")";
}
static size_t product(const std::vector<size_t>& v)
{
    size_t p = 1;
    for (size_t x : v)
        p *= x;
    return p;
}
// calls fn(index) for every index of a box in row-major order
template <typename Fn>
static void each(const std::vector<size_t>& dims, Fn&& fn)
{
    if (product(dims) == 0)
        return;
    std::vector<size_t> i(dims.size(), 0);
    while (true)
    {
        fn(i);
        size_t a = dims.size();
        while (a > 0 && ++i[a - 1] == dims[a - 1])
            i[--a] = 0;
        if (a == 0)
            return;
    }
}

template <typename T, index_t D>
static void verify(Case& c, const tensor<T, D>& t, View<T>& v, const char* what)
{
    c.expect(dims_of(t.shape()) == v.dims, fmt("%s: shape is %s instead of %s", what, text(dims_of(t.shape())).c_str(), text(v.dims).c_str()));
    c.eq((size_t)t.size(), v.size(), fmt("%s: size", what).c_str());
    c.expect(t.empty() == (v.size() == 0), fmt("%s: empty()", what));
    size_t k = 0;
    each(v.dims,
         [&](const std::vector<size_t>& i)
         {
             T* p = &t.access(to_shape<D>(i));
             c.expect(p - v.base->real == v.off[k], fmt("%s: element %s is at offset %td instead of %td", what, text(i).c_str(),
                                                        p - v.base->real, v.off[k]));
             c.expect(*p == v.at(k), fmt("%s: element %s is %g instead of %g", what, text(i).c_str(), (double)*p, (double)v.at(k)));
             k++;
         });
    // iterators go through the elements in row-major order
    k = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++k)
    {
        c.expect(k < v.size(), fmt("%s: the iterator passes the end", what));
        c.expect(&*it - v.base->real == v.off[k], fmt("%s: iterator step %zu is at offset %td instead of %td", what, k,
                                                      &*it - v.base->real, v.off[k]));
    }
    c.eq(k, v.size(), fmt("%s: iterator steps", what).c_str());
    if (t.is_contiguous())
    {
        auto b = t.contiguous_begin();
        c.eq((size_t)(t.contiguous_end() - b), v.size(), "contiguous size");
        for (size_t j = 0; j < v.size(); j++)
            c.expect(b + j - v.base->real == v.off[j], fmt("%s: claims to be contiguous and is not", what));
    }
}
template <typename T>
static void verify_memory(Case& c, View<T>& v, const char* what)
{
    for (size_t i = 0; i < v.base->want.size(); i++)
        c.expect(v.base->real[i] == v.base->want[i],
                 fmt("%s: memory cell %zu is %g instead of %g", what, i, (double)v.base->real[i], (double)v.base->want[i]));
}

struct Range
{
    bool index;
    int64_t i;
    kfr::tensor_range r;
    std::vector<size_t> picks; // model
};
// what Python's slicing picks
static std::vector<size_t> python(const kfr::tensor_range& r, int64_t n)
{
    int64_t step = r.step.value_or(1);
    std::vector<size_t> out;
    auto fix = [&](int64_t x, int64_t lo, int64_t hi) { return std::min(std::max(x < 0 ? x + n : x, lo), hi); };
    if (step > 0)
    {
        int64_t a = r.start ? fix(*r.start, 0, n) : 0, b = r.stop ? fix(*r.stop, 0, n) : n;
        for (int64_t i = a; i < b; i += step)
            out.push_back((size_t)i);
    }
    else
    {
        int64_t a = r.start ? fix(*r.start, -1, n - 1) : n - 1, b = r.stop ? fix(*r.stop, -1, n - 1) : -1;
        for (int64_t i = a; i > b; i += step)
            out.push_back((size_t)i);
    }
    return out;
}
static std::string show(const Range& r)
{
    if (r.index)
        return fmt("%lld", (long long)r.i);
    auto o = [](const kfr::opt_index_t& x) { return x ? fmt("%lld", (long long)*x) : std::string(); };
    return o(r.r.start) + ":" + o(r.r.stop) + ":" + o(r.r.step);
}
static Range range(Src& s, size_t n)
{
    Range r{ false, 0, {}, {} };
    int64_t k = s.in(0, 9);
    if (k == 0)
        r.r = kfr::tall();
    else if (k == 1 && n > 0)
    {
        // a zero step repeats one element
        int64_t a = s.in(0, (int64_t)n - 1), m = std::max(s.in(-3, 5), -a);
        r.r = kfr::trange(a, a + m, 0);
        m   = std::max<int64_t>(m, 0);
        r.picks.assign((size_t)m, (size_t)a);
        return r;
    }
    else
    {
        int64_t lim = (int64_t)n + 2;
        if (s.flag(nullptr, 2, 3))
            r.r.start = s.in(-lim, lim);
        if (s.flag(nullptr, 2, 3))
            r.r.stop = s.in(-lim, lim);
        int64_t st = s.in(-4, 4);
        if (st)
            r.r.step = st;
    }
    r.picks = python(r.r, (int64_t)n);
    return r;
}
static Range index(Src& s, size_t n)
{
    Range r{ true, s.in(0, (int64_t)n - 1), {}, {} };
    r.picks = { (size_t)r.i };
    if (s.flag(nullptr, 1, 3))
        r.i -= (int64_t)n; // counted from the end
    return r;
}
template <typename T>
static View<T> pick_view(const View<T>& v, const std::vector<Range>& rs)
{
    View<T> w;
    w.base = v.base;
    std::vector<std::vector<size_t>> sel;
    std::vector<size_t> box;
    for (size_t a = 0; a < v.dims.size(); a++)
    {
        if (a < rs.size())
            sel.push_back(rs[a].picks);
        else
        {
            sel.emplace_back();
            for (size_t i = 0; i < v.dims[a]; i++)
                sel.back().push_back(i);
        }
        box.push_back(sel.back().size());
        if (a >= rs.size() || !rs[a].index)
            w.dims.push_back(sel.back().size());
    }
    each(box,
         [&](const std::vector<size_t>& i)
         {
             size_t flat = 0;
             for (size_t a = 0; a < box.size(); a++)
                 flat = flat * v.dims[a] + sel[a][i[a]];
             w.off.push_back(v.off[flat]);
         });
    return w;
}
// one of the ways to fill a new block of memory with a known pattern
template <typename T, index_t D>
static tensor<T, D> fresh(Src& s, Case& c, const std::vector<size_t>& dims, View<T>& v, int* freed)
{
    v.dims = dims;
    v.base = std::make_shared<Base<T>>();
    size_t n = product(dims);
    std::vector<size_t> strides(D);
    int kind = (int)s.in(0, 5);
    if (n == 0)
        kind = 0;
    size_t total = n;
    ptrdiff_t first = 0;
    std::vector<ptrdiff_t> st(D);
    {
        ptrdiff_t m = 1;
        for (size_t a = 0; a < D; a++)
        {
            size_t ax = kind == 2 ? a : D - 1 - a;
            st[ax] = m;
            m *= (ptrdiff_t)dims[ax] + (kind >= 3 ? (ptrdiff_t)s.in(0, 2) : 0);
        }
        if (kind >= 2)
            total = (size_t)m;
        if (kind == 5)
        {
            total = 1;
            for (size_t a = 0; a < D; a++)
                total += (dims[a] - 1) * (size_t)st[a];
        }
        if (kind == 4)
            for (size_t a = 0; a < D; a++)
                if (s.flag())
                {
                    first += st[a] * ((ptrdiff_t)dims[a] - 1);
                    st[a] = -st[a];
                }
    }
    each(dims,
         [&](const std::vector<size_t>& i)
         {
             ptrdiff_t o = first;
             for (size_t a = 0; a < D; a++)
                 o += st[a] * (ptrdiff_t)i[a];
             v.off.push_back(o);
         });
    Rng r = s.bulk("data");
    v.base->want.resize(total);
    for (auto& x : v.base->want)
        x = (T)r.range(-50, 50);
    if (kind == 0)
    {
        // allocated and filled
        tensor<T, D> t(to_shape<D>(dims));
        v.base->real = t.data();
        std::copy(v.base->want.begin(), v.base->want.end(), t.data());
        return t;
    }
    if constexpr (D == 1)
        if (kind == 1)
        {
            std::vector<T> w = v.base->want;
            tensor<T, 1> t   = kfr::tensor_from_container(std::move(w));
            v.base->real     = t.data();
            return t;
        }
    if (kind == 5)
    {
        // allocated with strides
        shape<D> ks;
        for (size_t a = 0; a < D; a++)
            ks[a] = (index_t)st[a];
        tensor<T, D> t(to_shape<D>(dims), ks);
        v.base->real = t.data();
        std::copy(v.base->want.begin(), v.base->want.end(), t.data());
        return t;
    }
    T* p         = new T[total];
    v.base->real = p;
    std::copy(v.base->want.begin(), v.base->want.end(), p);
    *freed       = 0;
    auto release = kfr::make_memory_finalizer(
        [p, freed]()
        {
            delete[] p;
            ++*freed;
        });
    v.base->freed = freed;
    if (kind == 1)
        return tensor<T, D>(p, to_shape<D>(dims), std::move(release));
    shape<D> ks;
    for (size_t a = 0; a < D; a++)
        ks[a] = (index_t)st[a];
    return tensor<T, D>(p + first, to_shape<D>(dims), ks, std::move(release));
}
template <typename T>
static View<T> new_block(T* real, const std::vector<size_t>& dims, const std::vector<T>& values)
{
    View<T> w;
    w.base       = std::make_shared<Base<T>>();
    w.base->want = values;
    w.base->real = real;
    w.dims       = dims;
    for (size_t i = 0; i < values.size(); i++)
        w.off.push_back((ptrdiff_t)i);
    return w;
}
template <typename T>
static std::vector<T> values(View<T>& v)
{
    std::vector<T> r;
    for (size_t i = 0; i < v.size(); i++)
        r.push_back(v.at(i));
    return r;
}
template <typename Fn>
static bool throws_logic_error(Fn&& fn)
{
    try
    {
        fn();
    }
    catch (const kfr::logic_error&)
    {
        return true;
    }
    return false;
}
static bool repeats(const std::vector<ptrdiff_t>& o)
{
    auto s = o;
    std::sort(s.begin(), s.end());
    return std::adjacent_find(s.begin(), s.end()) != s.end();
}

template <typename T, index_t D>
static void run_step(Src& s, Case& c, tensor<T, D>& t, View<T>& v, int depth);
template <typename T, index_t D>
static void step(Src& s, Case& c, const tensor<T, D>& t, const View<T>& v, int depth)
{
    tensor<T, D> t2(t);
    View<T> v2(v);
    run_step<T, D>(s, c, t2, v2, depth);
}

// continues on a view made by args
template <typename T, index_t D, typename... R>
static void sliced(Src& s, Case& c, tensor<T, D>& t, View<T>& v, int depth, const std::vector<Range>& rs, const R&... args)
{
    std::string d;
    for (auto& r : rs)
        d += show(r) + " ";
    s.say(fmt("slice [%s] of %s", d.c_str(), text(v.dims).c_str()));
    auto u      = t(args...);
    View<T> w   = pick_view(v, rs);
    verify(c, u, w, fmt("slice [%s] of %s", d.c_str(), text(v.dims).c_str()).c_str());
    step(s, c, std::move(u), w, depth - 1);
}
template <typename T, index_t D>
static void slice_op(Src& s, Case& c, tensor<T, D>& t, View<T>& v, int depth)
{
    auto R  = [&](size_t a) { return range(s, v.dims[a]); };
    auto I  = [&](size_t a) { return index(s, v.dims[a]); };
    auto ix = [](const Range& r) { return (int64_t)r.i; };
    int k = (int)s.in(0, 9);
    if (v.size() == 0)
        k = 0; // an index needs an element
    if constexpr (D == 1)
    {
        auto a = R(0);
        return sliced(s, c, t, v, depth, { a }, a.r);
    }
    else if constexpr (D == 2)
    {
        if (k <= 3)
        {
            auto a = R(0), b = R(1);
            return sliced(s, c, t, v, depth, { a, b }, a.r, b.r);
        }
        if (k <= 5)
        {
            auto a = I(0);
            auto b = R(1);
            return sliced(s, c, t, v, depth, { a, b }, ix(a), b.r);
        }
        if (k <= 7)
        {
            auto a = R(0);
            auto b = I(1);
            return sliced(s, c, t, v, depth, { a, b }, a.r, ix(b));
        }
        if (k == 8)
        {
            auto a = I(0);
            return sliced(s, c, t, v, depth, { a }, ix(a));
        }
        auto a = R(0);
        return sliced(s, c, t, v, depth, { a }, a.r);
    }
    else if constexpr (D == 3)
    {
        if (k <= 2)
        {
            auto a = R(0), b = R(1), d = R(2);
            return sliced(s, c, t, v, depth, { a, b, d }, a.r, b.r, d.r);
        }
        if (k == 3)
        {
            auto a = I(0);
            auto b = R(1), d = R(2);
            return sliced(s, c, t, v, depth, { a, b, d }, ix(a), b.r, d.r);
        }
        if (k == 4)
        {
            auto a = R(0), b = I(1), d = R(2);
            return sliced(s, c, t, v, depth, { a, b, d }, a.r, ix(b), d.r);
        }
        if (k == 5)
        {
            auto a = R(0), b = R(1), d = I(2);
            return sliced(s, c, t, v, depth, { a, b, d }, a.r, b.r, ix(d));
        }
        if (k == 6)
        {
            auto a = I(0), b = R(1), d = I(2);
            return sliced(s, c, t, v, depth, { a, b, d }, ix(a), b.r, ix(d));
        }
        if (k == 7)
        {
            auto a = I(0), b = I(1);
            return sliced(s, c, t, v, depth, { a, b }, ix(a), ix(b));
        }
        if (k == 8)
        {
            auto a = R(0), b = I(1);
            return sliced(s, c, t, v, depth, { a, b }, a.r, ix(b));
        }
        auto a = I(0);
        return sliced(s, c, t, v, depth, { a }, ix(a));
    }
    else
    {
        if (k <= 2)
        {
            auto a = R(0), b = R(1), d = R(2), e = R(3);
            return sliced(s, c, t, v, depth, { a, b, d, e }, a.r, b.r, d.r, e.r);
        }
        if (k <= 4)
        {
            auto a = R(0), b = I(1), d = R(2), e = I(3);
            return sliced(s, c, t, v, depth, { a, b, d, e }, a.r, ix(b), d.r, ix(e));
        }
        if (k <= 6)
        {
            auto a = I(0);
            return sliced(s, c, t, v, depth, { a }, ix(a));
        }
        auto a = R(0), b = R(1);
        return sliced(s, c, t, v, depth, { a, b }, a.r, b.r);
    }
}
// a random shape with the same number of elements
template <index_t E>
static std::vector<size_t> other_shape(Src& s, size_t n)
{
    std::vector<size_t> d(E, 1);
    if (n == 0)
    {
        for (auto& x : d)
            x = (size_t)s.in(0, 3);
        d[(size_t)s.in(0, E - 1)] = 0;
        return d;
    }
    for (index_t a = 0; a + 1 < E; a++)
    {
        std::vector<size_t> f;
        for (size_t k = 1; k <= n; k++)
            if (n % k == 0)
                f.push_back(k);
        d[a] = f[(size_t)s.in(0, (int64_t)f.size() - 1)];
        n /= d[a];
    }
    d[E - 1] = n;
    return d;
}
template <typename T, index_t D, index_t E>
static void reshape_op(Src& s, Case& c, tensor<T, D>& t, View<T>& v, int depth)
{
    auto d = other_shape<E>(s, v.size());
    s.say(fmt("reshape %s to %s", text(v.dims).c_str(), text(d).c_str()));
    c.expect(throws_logic_error(
                 [&]
                 {
                     auto bad = d;
                     bad[0]   = bad[0] + 1;
                     if (product(bad) == v.size())
                         throw kfr::logic_error("same size");
                     (void)t.reshape(to_shape<E>(bad));
                 }),
             "reshape to another number of elements is an error");
    if (s.flag())
    {
        // never copies
        if (!t.is_contiguous())
        {
            c.expect(throws_logic_error([&] { (void)t.reshape(to_shape<E>(d)); }), "reshape of a non-contiguous tensor is an error");
            return step(s, c, std::move(t), v, depth - 1);
        }
        auto u  = t.reshape(to_shape<E>(d));
        View<T> w = v;
        w.dims  = d;
        verify(c, u, w, "reshape");
        return step(s, c, std::move(u), w, depth - 1);
    }
    auto u    = t.reshape_may_copy(to_shape<E>(d));
    View<T> w = t.is_contiguous() ? v : new_block<T>(u.data(), d, values(v));
    w.dims    = d;
    verify(c, u, w, "reshape_may_copy");
    step(s, c, std::move(u), w, depth - 1);
}
template <typename T, index_t D>
static void run_step(Src& s, Case& c, tensor<T, D>& t, View<T>& v, int depth)
{
    if (depth <= 0)
        return;
    const int op = (int)s.in("op", 0, 15);
    c.label(fmt("op%d", op));
    switch (op)
    {
    default: return slice_op(s, c, t, v, depth);
    case 3:
    {
        // a box between two corners
        std::vector<Range> rs;
        shape<D> a, b;
        for (size_t i = 0; i < D; i++)
        {
            size_t x = (size_t)s.in(0, (int64_t)v.dims[i]), y = (size_t)s.in((int64_t)x, (int64_t)v.dims[i]);
            a[i] = x;
            b[i] = y;
            Range r{ false, 0, kfr::trange((int64_t)x, (int64_t)y), {} };
            for (size_t j = x; j < y; j++)
                r.picks.push_back(j);
            rs.push_back(r);
        }
        auto u    = t(a, b);
        View<T> w = pick_view(v, rs);
        s.say(fmt("box %s of %s", text(w.dims).c_str(), text(v.dims).c_str()));
        verify(c, u, w, "box");
        return step(s, c, std::move(u), w, depth - 1);
    }
    case 4:
    {
        auto u    = t.transpose();
        View<T> w = v;
        std::reverse(w.dims.begin(), w.dims.end());
        size_t k = 0;
        each(w.dims,
             [&](std::vector<size_t> i)
             {
                 std::reverse(i.begin(), i.end());
                 size_t flat = 0;
                 for (size_t a = 0; a < i.size(); a++)
                     flat = flat * v.dims[a] + i[a];
                 w.off[k++] = v.off[flat];
             });
        s.say("transpose");
        verify(c, u, w, "transpose");
        return step(s, c, std::move(u), w, depth - 1);
    }
    case 5:
        switch (s.in("rank", 1, 4))
        {
        case 1: return reshape_op<T, D, 1>(s, c, t, v, depth);
        case 2: return reshape_op<T, D, 2>(s, c, t, v, depth);
        case 3: return reshape_op<T, D, 3>(s, c, t, v, depth);
        default: return reshape_op<T, D, 4>(s, c, t, v, depth);
        }
    case 6:
    {
        // flatten
        auto u    = t.flatten_may_copy();
        View<T> w = t.is_contiguous() ? v : new_block<T>(u.data(), { v.size() }, values(v));
        w.dims    = { v.size() };
        verify(c, u, w, "flatten_may_copy");
        c.expect(throws_logic_error([&] { (void)t.flatten(); }) == !t.is_contiguous(), "flatten fails exactly for non-contiguous tensors");
        c.expect(throws_logic_error([&] { t.require_contiguous(); }) == !t.is_contiguous(), "require_contiguous");
        return step(s, c, std::move(u), w, depth - 1);
    }
    case 7:
    {
        // writes through the view
        int how = (int)s.in("write", 0, 4);
        T x     = (T)s.in(-9, 9);
        s.say(fmt("write %d", how));
        auto old = values(v);
        switch (how)
        {
        case 0: t.assign(x); break;
        case 1: std::as_const(t) = x; break;
        case 2: t.unary_inplace([x](T) { return x; }); break;
        case 3: (tensor<T, D>(t)) = x; break;
        default: std::as_const(t) = kfr::scalar(x); break;
        }
        for (size_t i = 0; i < v.size(); i++)
            v.at(i) = x;
        verify_memory(c, v, "write of a scalar");
        break;
    }
    case 8:
    {
        // writes another tensor of the same shape
        View<T> w;
        int f2            = 0;
        {
            tensor<T, D> u = fresh<T, D>(s, c, v.dims, w, &f2);
            int how        = (int)s.in("write", 0, 4);
            if (repeats(v.off))
                how = 5;
            s.say(fmt("assign %d", how));
            switch (how)
            {
            case 0: t.assign(u); break;
            case 1: std::as_const(t) = u; break;
            case 2: t.copy_from(u); break;
            case 3: t.binary_inplace(u, [](T, T b) { return b; }); break;
            case 4: std::as_const(t) = u + T(0); break;
            default: break;
            }
            if (how < 5)
                for (size_t i = 0; i < v.size(); i++)
                    v.at(i) = w.at(i);
            verify_memory(c, v, "assignment of a tensor");
            verify(c, u, w, "the source of an assignment");
            auto bad = v.dims;
            bad[0]++;
            tensor<T, D> other(to_shape<D>(bad));
            c.expect(throws_logic_error([&] { t.assign(other); }), "assignment of another shape is an error");
            verify_memory(c, v, "failed assignment");
        }
        if (w.base->freed)
            c.eq(f2, 1, "times the memory of the source was released");
        break;
    }
    case 9:
    {
        // element by element results
        auto old = values(v);
        auto m   = t.map([](T x) { return x * 3 + 1; });
        auto a   = t.template astype<double>();
        auto b   = t.binary(a, [](T x, double y) { return (double)x - 2 * y; });
        auto e   = t.copy();
        c.expect(m.is_contiguous() && e.is_contiguous(), "new tensors are contiguous");
        size_t k = 0;
        each(v.dims,
             [&](const std::vector<size_t>& i)
             {
                 auto sh = to_shape<D>(i);
                 c.expect(m.access(sh) == old[k] * 3 + 1, "map");
                 c.expect(a.access(sh) == (double)old[k], "astype");
                 c.expect(b.access(sh) == -(double)old[k], "binary");
                 c.expect(e.access(sh) == old[k], "copy");
                 k++;
             });
        T sum = t.reduce([](T x, T acc) { return (T)(x + acc); }, T(5)), want = 5;
        for (T x : old)
            want += x;
        c.expect(sum == want, "reduce");
        c.expect(std::as_const(t) == std::as_const(e), "a copy compares equal");
        if (v.size())
        {
            e.begin().operator*() += 1;
            c.expect(std::as_const(t) != std::as_const(e), "a changed copy compares different");
            verify_memory(c, v, "change of a copy");
        }
        break;
    }
    case 10:
    {
        // iterate passes every element with its index
        size_t k = 0;
        t.iterate(
            [&](T& x, const shape<D>& i)
            {
                c.expect(k < v.size() && &x - v.base->real == v.off[k] && &t.access(i) == &x, fmt("iterate, step %zu", k));
                k++;
            });
        c.eq(k, v.size(), "steps of iterate");
        // nested
        size_t row = D ? (v.dims[0] ? v.size() / v.dims[0] : 0) : 0;
        size_t n   = 0;
        if constexpr (D > 1)
        {
            for (auto it = t.nested_begin(); it != t.nested_end(); ++it, ++n)
            {
                auto u = *it;
                View<T> w;
                w.base = v.base;
                w.dims.assign(v.dims.begin() + 1, v.dims.end());
                w.off.assign(v.off.begin() + (ptrdiff_t)(n * row), v.off.begin() + (ptrdiff_t)((n + 1) * row));
                verify(c, u, w, "nested iterator");
            }
            c.eq(n, v.dims[0], "nested steps");
        }
        break;
    }
    case 11:
    {
        // an expression written through the view
        int how = (int)s.in("expression", 0, 3);
        s.say(fmt("expression %d", how));
        if (repeats(v.off))
            break;
        auto old = values(v);
        switch (how)
        {
        case 0:
            std::as_const(t) = t * T(2) + T(1);
            for (size_t i = 0; i < v.size(); i++)
                v.at(i) = (T)(old[i] * 2 + 1);
            break;
        case 1:
            std::as_const(t) = kfr::counter(T(3)) + kfr::scalar(T(0));
            {
                size_t last = v.dims.back();
                for (size_t i = 0; i < v.size(); i++)
                    v.at(i) = (T)(3 + (T)(i % last));
            }
            break;
        case 2:
        {
            auto e           = t.copy();
            std::as_const(t) = kfr::max(e, T(0)) - t;
            for (size_t i = 0; i < v.size(); i++)
                v.at(i) = (T)(std::max(old[i], T(0)) - old[i]);
            break;
        }
        default:
        {
            auto e = kfr::trender(t - T(1));
            auto w = new_block<T>(e.data(), v.dims, values(v));
            for (auto& x : w.base->want)
                x -= 1;
            verify(c, e, w, "trender");
        }
        }
        verify_memory(c, v, "assignment of an expression");
        break;
    }
    case 12:
    {
        // handles come and go
        tensor<T, D> a = t, b(shape<D>(1));
        b = a;
        a = tensor<T, D>();
        c.expect(a.empty() || D == 0, "a default tensor is empty");
        tensor<T, D>& r = b;
        b = r; // to itself
        verify(c, b, v, "a copy of the handle");
        t = std::move(b);
        verify(c, t, v, "a moved handle");
        break;
    }
    case 13:
    {
        // element access and write
        if (v.size() == 0)
            break;
        size_t k = (size_t)s.in("element", 0, (int64_t)v.size() - 1), f = k;
        std::vector<size_t> i(D);
        for (size_t a = D; a-- > 0;)
        {
            i[a] = f % v.dims[a];
            f /= v.dims[a];
        }
        T x = (T)s.in(-9, 9);
        if constexpr (D == 1)
            t(i[0]) = x;
        else if constexpr (D == 2)
            t(i[0], i[1]) = x;
        else if constexpr (D == 3)
            t(i[0], i[1], i[2]) = x;
        else
            t(i[0], i[1], i[2], i[3]) = x;
        v.at(k) = x;
        verify_memory(c, v, "write of an element");
        c.eq((size_t)t.shape().to_flat(to_shape<D>(i)), k, "to_flat");
        c.expect(dims_of(t.shape().from_flat(k)) == i, "from_flat");
        break;
    }
    case 14:
    {
        // printed form
        std::string got = t.to_string(1 << 30, INT_MAX, ",", "{", "}");
        std::vector<std::string> flat;
        std::string cur;
        for (char ch : got)
            if (isdigit((unsigned char)ch) || ch == '-' || ch == '.')
                cur += ch;
            else
            {
                if (!cur.empty())
                    flat.push_back(cur);
                cur.clear();
            }
        if (!cur.empty())
            flat.push_back(cur);
        c.eq(flat.size(), v.size(), "printed numbers");
        for (size_t i = 0; i < v.size(); i++)
            c.expect(std::stod(flat[i]) == (double)v.at(i), fmt("printed number %zu", i));
        break;
    }
    }
    verify(c, t, v, "afterwards");
    step(s, c, std::move(t), v, depth - 1);
}

template <typename T, index_t D>
static void history(Src& s, Case& c)
{
    std::vector<size_t> dims(D);
    for (auto& d : dims)
        d = (size_t)s.in("dim", s.flag("empty", 1, 25) ? 0 : 1, D == 1 ? 40 : D == 2 ? 12 : D == 3 ? 7 : 5);
    int depth = (int)s.in("depth", 1, 9), freed = 0;
    View<T> v;
    {
        tensor<T, D> t = fresh<T, D>(s, c, dims, v, &freed);
        s.say(fmt("tensor %s", text(dims).c_str()));
        verify(c, t, v, "new tensor");
        {
            tensor<T, D> u = t;
            // the first handle may go first
            if (s.flag("drop"))
            {
                t = tensor<T, D>();
                if (v.base->freed)
                    c.eq(freed, 0, "times the memory was released while in use");
                step(s, c, std::move(u), v, depth);
            }
            else
                step(s, c, u, v, depth);
        }
        if (t.data())
        {
            verify(c, t, v, "the original tensor");
            verify_memory(c, v, "in the end");
        }
    }
    if (v.base->freed)
        c.eq(freed, 1, "times the memory was released");
    if (v.size() > 1 && depth > 1)
        c.interesting((int)D, product(dims), depth, (int)s.rec.size(), s.rec.back());
}
PBT_TEST(history_1d, 1500, 40000) { history<float, 1>(s, c); }
PBT_TEST(history_2d, 2500, 80000) { history<float, 2>(s, c); }
PBT_TEST(history_3d, 2000, 60000) { history<float, 3>(s, c); }
PBT_TEST(history_4d, 1000, 30000) { history<float, 4>(s, c); }

// nested and flat lists
PBT_TEST(lists, 300, 5000)
{
    Rng r = s.bulk("data");
    float x[8];
    for (float& e : x)
        e = (float)r.range(-20, 20);
    auto check = [&](const auto& t, std::vector<size_t> dims)
    {
        c.expect(dims_of(t.shape()) == dims, "shape of a list");
        size_t k = 0;
        for (auto it = t.begin(); it != t.end(); ++it)
            c.expect(*it == x[k++], "element of a list");
        c.eq(k, product(dims), "elements of a list");
    };
    check(tensor<float, 1>{ x[0], x[1], x[2] }, { 3 });
    check(tensor<float, 2>{ { x[0], x[1], x[2] }, { x[3], x[4], x[5] } }, { 2, 3 });
    check(tensor<float, 3>{ { { x[0], x[1] }, { x[2], x[3] } }, { { x[4], x[5] }, { x[6], x[7] } } }, { 2, 2, 2 });
    check(tensor<float, 4>{ { { { x[0] }, { x[1] } }, { { x[2] }, { x[3] } }, { { x[4] }, { x[5] } } } }, { 1, 3, 2, 1 });
    check(tensor<float, 2>(shape<2>{ 4, 2 }, { x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7] }), { 4, 2 });
    c.expect(throws_logic_error([&] { tensor<float, 2>(shape<2>{ 3, 2 }, { x[0], x[1] }); }), "a list of another size is an error");
    size_t a = (size_t)s.in("rows", 1, 9), b = (size_t)s.in("columns", 1, 9);
    tensor<float, 2> f(shape<2>{ a, b }, x[0]);
    for (auto it = f.begin(); it != f.end(); ++it)
        c.expect(*it == x[0], "fill value");
    c.expect(f.begin() != f.end(), "not empty");
    // with strides of its own, inside its own memory
    tensor<float, 2> g(shape<2>{ a, b }, shape<2>{ 1, a }, x[1]);
    for (size_t i = 0; i < a; i++)
        for (size_t j = 0; j < b; j++)
            c.expect(&g(i, j) == g.data() + i + a * j && g(i, j) == x[1], "column-major tensor");
    c.expect(dims_of(kfr::internal_generic::strides_for_shape<2, true>(shape<2>{ a, b })) == std::vector<size_t>({ 1, a }),
             "column-major strides");
    c.interesting(a, b, s.rec.back());
}
