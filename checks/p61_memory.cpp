// Aligned memory, small containers, fractions and text: histories of operations against standard containers and exact arithmetic.
#include <kfr/base.hpp>
#include <kfr/base/fraction.hpp>
#include <kfr/base/inline_vector.hpp>
#include <kfr/base/small_buffer.hpp>
#include <kfr/io.hpp>
#include <deque>
#include "pbt.hpp"
using namespace pbt;

// ------------------------------------------------------------------ aligned memory
struct Block
{
    unsigned char* p;
    size_t size, align;
    unsigned refs;
    unsigned char tag;
};
static void fill(Block& b)
{
    for (size_t i = 0; i < b.size; i++)
        b.p[i] = (unsigned char)(b.tag + i * 7);
}
static void intact(Case& c, const Block& b, size_t n, const char* what)
{
    for (size_t i = 0; i < n; i++)
        if (b.p[i] != (unsigned char)(b.tag + i * 7))
            c.fail(fmt("%s: byte %zu of a block of %zu bytes has changed", what, i, b.size));
}

PBT_TEST(memory, 20000, 400000)
{
    Rng r = s.bulk("values");
    std::vector<Block> live;
    auto& st           = cometa::details::get_memory_statistics();
    const uint64_t ac0 = st.allocation_count, dc0 = st.deallocation_count, as0 = st.allocation_size, ds0 = st.deallocation_size;
    size_t bytes = 0;
    int steps    = s.in("steps", 1, 40);
    uint64_t key = 0;
    for (int k = 0; k < steps; k++)
    {
        int op = s.in("op", 0, 9);
        key    = pbt::mix(key, op);
        if (op <= 3 || live.empty())
        {
            if (live.size() >= 24)
                continue;
            Block b;
            b.refs = 1, b.tag = (unsigned char)r.u64();
            b.align = size_t(1) << s.in("log alignment", 0, 15);
            b.size  = s.skew("size", 0, 3000);
            key     = pbt::mix(key, b.size * 40000 + b.align);
            size_t counted;
            switch (op)
            {
            case 0:
                b.align = 64;
                b.p     = (unsigned char*)kfr::aligned_allocate<double>(b.size / 8);
                b.size  = b.size / 8 * 8;
                counted = std::max(b.size, size_t(64));
                break;
            case 1:
                b.p     = (unsigned char*)kfr::aligned_allocate<int32_t>(b.size / 4, b.align);
                b.size  = b.size / 4 * 4;
                counted = std::max(b.size, b.align);
                break;
            case 2:
                b.p     = (unsigned char*)cometa::details::aligned_reallocate(nullptr, b.size, b.align);
                counted = b.size;
                if (b.size == 0)
                {
                    c.expect(b.p == nullptr, "reallocating nothing to nothing gives memory");
                    continue;
                }
                break;
            default:
                b.p     = (unsigned char*)kfr::aligned_allocate<void>(b.size, b.align);
                counted = std::max(b.size, b.align);
                break;
            }
            c.expect(b.p != nullptr, fmt("no memory for %zu bytes aligned to %zu", b.size, b.align));
            c.expect((uintptr_t)b.p % b.align == 0, fmt("memory at %p is not aligned to %zu", (void*)b.p, b.align));
            c.expect(cometa::details::aligned_size(b.p) == counted, fmt("size of a block is %zu, expected %zu", cometa::details::aligned_size(b.p), counted));
            b.size = counted;
            bytes += counted;
            fill(b);
            live.push_back(b);
        }
        else if (op == 4 || op == 5) // a new size keeps what fits
        {
            Block& b = live[r.below(live.size())];
            if (b.refs > 1)
                continue;
            size_t n = s.skew("new size", 0, 3000), a = size_t(1) << s.in("log alignment", 0, 15);
            intact(c, b, b.size, "before reallocation");
            unsigned char* p = (unsigned char*)cometa::details::aligned_reallocate(b.p, n, a);
            bytes += n - b.size;
            if (n == 0)
            {
                c.expect(p == nullptr, "a block of 0 bytes after reallocation");
                b = live.back();
                live.pop_back();
                continue;
            }
            c.expect(p && (uintptr_t)p % a == 0, fmt("memory reallocated at %p is not aligned to %zu", (void*)p, a));
            b.p = p, b.align = a;
            size_t keep = std::min(n, b.size);
            b.size      = n;
            intact(c, b, keep, "after reallocation");
            fill(b);
        }
        else if (op == 6)
        {
            Block& b = live[r.below(live.size())];
            cometa::details::aligned_add_ref(b.p);
            b.refs++;
        }
        else if (op == 7) // sizes that cannot be represented are refused, and nothing else changes
        {
            const size_t over = SIZE_MAX / 8 + 1 + r.below(1000);
            c.expect(kfr::aligned_allocate<double>(over) == nullptr, fmt("memory for %zu numbers of 8 bytes", over));
            c.expect(kfr::aligned_allocate<double>(over, 128) == nullptr, fmt("memory for %zu numbers of 8 bytes", over));
            c.expect(cometa::details::aligned_malloc(SIZE_MAX - r.below(64), 64) == nullptr, "memory for SIZE_MAX bytes");
            Block& b = live[r.below(live.size())];
            c.expect(cometa::details::aligned_reallocate(b.p, SIZE_MAX - 5, 64) == nullptr, "memory for SIZE_MAX bytes");
            intact(c, b, b.size, "after a failed reallocation");
            bool thrown = false;
            try
            {
                kfr::data_allocator<double>().allocate(SIZE_MAX / 8);
            }
            catch (std::bad_alloc&)
            {
                thrown = true;
            }
            c.expect(thrown, "data_allocator does not report exhausted memory");
        }
        else
        {
            size_t i = r.below(live.size());
            Block& b = live[i];
            intact(c, b, b.size, "before release");
            kfr::aligned_deallocate(b.p);
            if (--b.refs == 0)
            {
                bytes -= b.size;
                b = live.back();
                live.pop_back();
            }
        }
        c.expect(st.allocation_count - ac0 - (st.deallocation_count - dc0) == live.size(), fmt("statistics count %zu blocks, %zu are live", (size_t)(st.allocation_count - ac0 - (st.deallocation_count - dc0)), live.size()));
        c.expect(st.allocation_size - as0 - (st.deallocation_size - ds0) == bytes, fmt("statistics count %zu bytes, %zu are live", (size_t)(st.allocation_size - as0 - (st.deallocation_size - ds0)), bytes));
    }
    for (Block& b : live)
    {
        for (; b.refs > 0; b.refs--)
        {
            intact(c, b, b.size, "at the end");
            kfr::aligned_deallocate(b.p);
        }
    }
    c.interesting(key, r.u64());
}

struct Node : cometa::aligned_new
{
    alignas(64) double v[3];
};
struct Counted
{
    static int alive;
    Counted() { alive++; }
    ~Counted() { alive--; }
    KFR_CLASS_REFCOUNT(Counted)
};
int Counted::alive = 0;

PBT_TEST(owners, 8000, 160000)
{
    size_t n = s.skew("size", 0, 9000);
    Rng r    = s.bulk("values");
    int op   = s.in("kind", 0, 4);
    c.interesting(n, op);
    auto& st   = cometa::details::get_memory_statistics();
    auto alive = [&] { return st.allocation_count - st.deallocation_count; };
    auto live0 = alive();
    if (op == 0)
    {
        kfr::autofree<float> a(n), b;
        c.expect((uintptr_t)a.data() % 64 == 0, "autofree is not aligned");
        for (size_t i = 0; i < n; i++)
            a[i] = (float)i;
        b = std::move(a);
        for (size_t i = 0; i < n; i++)
            c.expect(b[i] == (float)i && b.template data<float>()[i] == (float)i, "autofree lost a value");
    }
    else if (op == 1)
    {
        bool called = false;
        auto fn     = [&](auto* p)
        {
            called = true;
            c.expect((uintptr_t)p % 64 == 0, fmt("temporary memory of %zu elements is not aligned", n));
            memset((void*)p, 0x5A, n * sizeof(*p));
        };
        if (r.chance(1, 2))
            cometa::call_with_temp(n, fn);
        else
            cometa::call_with_temp<100, double>(n, fn);
        c.expect(called, "the function was not called");
    }
    else if (op == 2)
    {
        std::vector<std::unique_ptr<Node>> v;
        for (size_t i = 0; i < n % 20; i++)
        {
            v.emplace_back(new Node);
            c.expect((uintptr_t)v.back().get() % 64 == 0, "an object is not aligned");
            v.back()->v[2] = (double)i;
        }
        for (size_t i = 0; i < v.size(); i++)
            c.expect(v[i]->v[2] == (double)i, "objects share memory");
    }
    else if (op == 3)
    {
        Counted* p = new Counted;
        size_t k   = 1 + n % 9;
        for (size_t i = 0; i < k; i++)
            p->addref();
        for (size_t i = 0; i < k; i++)
        {
            c.expect(Counted::alive == 1, fmt("an object was deleted after %zu of %zu releases", i, k));
            p->release();
        }
        c.expect(Counted::alive == 0, "an object was not deleted");
    }
    else
    {
        kfr::univector<double> v(n % 500, 1.0), w;
        std::vector<double> m(n % 500, 1.0);
        for (int k = 0; k < 20; k++)
        {
            if (r.chance(1, 2))
            {
                double x = r.sym();
                v.push_back(x), m.push_back(x);
            }
            else
            {
                size_t z = r.below(600);
                v.resize(z), m.resize(z);
            }
            if (r.chance(1, 4))
                w = v, v = kfr::univector<double>(w);
            if (r.chance(1, 4))
                w = std::move(v), v = std::move(w);
            c.expect(v.empty() || (uintptr_t)v.data() % 64 == 0, "a univector is not aligned");
            c.expect(v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "a univector differs from std::vector");
        }
    }
    c.expect(alive() == live0, fmt("%lld blocks were not released", (long long)(alive() - live0)));
}

// ------------------------------------------------------------------ inline_vector
struct Pair
{
    int a = -1;
    double b = -2;
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
template <typename T>
static T item(Rng& r)
{
    if constexpr (std::is_same_v<T, Pair>)
    {
        Pair p;
        p.a = (int)r.below(3), p.b = (double)r.below(2);
        return p;
    }
    else
        return (T)r.below(3); // equal items are frequent
}
template <typename F>
static bool throws(F&& f)
{
    try
    {
        f();
    }
    catch (kfr::logic_error&)
    {
        return true;
    }
    return false;
}
template <typename T, size_t N>
static void inlined(Src& s, Case& c)
{
    using V = kfr::inline_vector<T, N>;
    Rng r   = s.bulk("values");
    V a, b;
    std::vector<T> ma, mb;
    uint64_t key = N * 8 + sizeof(T);
    for (int k = 0, steps = s.in("steps", 1, 60); k < steps; k++)
    {
        int op = s.in("op", 0, 9);
        key    = pbt::mix(key, op);
        std::vector<T> l;
        for (size_t i = 0, n = r.chance(1, 3) ? N : r.below(std::min(N, size_t(6)) + 1); i < n; i++)
            l.push_back(item<T>(r));
        T x = item<T>(r);
        switch (op)
        {
        case 0:
        case 1:
        case 2:
            if (ma.size() < N)
                a.push_back(x), ma.push_back(x);
            else
                c.expect(throws([&] { a.push_back(x); }), "push_back to a full vector is not refused");
            break;
        case 3: a = V(l.begin(), l.end()), ma = l; break;
        case 4: a = V(l.size(), x), ma.assign(l.size(), x); break;
        case 5:
            std::swap(a, b), std::swap(ma, mb);
            break;
        case 6: b = a, mb = ma; break;
        case 7:
            l.resize(N + 1 + r.below(5));
            c.expect(throws([&] { V(l.begin(), l.end()); }), "too many items are not refused");
            c.expect(throws([&] { V(l.size(), x); }), "too large a size is not refused");
            break;
        case 8:
            if (!ma.empty())
            {
                size_t i = r.below(ma.size());
                a[i] = x, ma[i] = x;
                c.expect(a.at(i) == x, "at() differs");
            }
            c.expect(throws([&] { a.at(ma.size()); }), "at() beyond the end is not refused");
            break;
        default: a = V(), ma.clear(); break;
        }
        c.expect(a.size() == ma.size() && a.empty() == ma.empty() && size_t(a.end() - a.begin()) == ma.size(), fmt("size is %zu, expected %zu", (size_t)a.size(), ma.size()));
        c.expect(std::equal(ma.begin(), ma.end(), a.begin()) && std::equal(mb.begin(), mb.end(), b.cbegin()) && b.size() == mb.size(), "items differ");
        if (!ma.empty())
            c.expect(a.front() == ma.front() && a.back() == ma.back() && a.data()[0] == ma[0], "first or last item differs");
        c.expect((a == b) == (ma == mb) && (a != b) == (ma != mb), fmt("comparison of vectors of %zu and %zu items is %d, expected %d", ma.size(), mb.size(), a == b, ma == mb));
    }
    c.interesting(key, ma.size(), mb.size());
}
PBT_TEST(inline_vectors, 8000, 200000)
{
    switch (s.in("kind", 0, 6))
    {
    case 0: return inlined<int, 1>(s, c);
    case 1: return inlined<int, 3>(s, c);
    case 2: return inlined<double, 16>(s, c);
    case 3: return inlined<Pair, 5>(s, c);
    case 4: return inlined<uint8_t, 254>(s, c);
    case 5: return inlined<uint8_t, 255>(s, c);
    default: return inlined<short, 300>(s, c);
    }
}

// ------------------------------------------------------------------ small_buffer
template <typename T, size_t N>
static void small(Src& s, Case& c)
{
    using V = kfr::small_buffer<T, N>;
    Rng r   = s.bulk("values");
    V a, b;
    std::vector<T> ma, mb;
    uint64_t key = N * 8 + sizeof(T);
    for (int k = 0, steps = s.in("steps", 1, 40); k < steps; k++)
    {
        int op = s.in("op", 0, 10);
        key    = pbt::mix(key, op);
        T x    = (T)r.range(-50, 50);
        switch (op)
        {
        case 0:
        case 1: a.push_back(x), ma.push_back(x); break;
        case 2:
            if (!ma.empty())
            {
                size_t i = r.below(ma.size());
                T y      = ma[i];
                a.push_back(a[i]), ma.push_back(y);
            }
            break;
        case 3:
            if (!ma.empty())
                a.pop_back(), ma.pop_back();
            break;
        case 4:
        {
            size_t old = ma.size(), n = r.chance(1, 3) ? N + r.below(3) : r.below(3 * N + 3);
            a.resize(n), ma.resize(n);
            for (size_t i = old; i < n; i++)
                a[i] = ma[i] = (T)r.range(-50, 50);
            break;
        }
        case 5: swap(a, b), std::swap(ma, mb); break;
        case 6: b = a, mb = ma; break;
        case 7:
            b = std::move(a), mb = ma;
            a.clear(), ma.clear();
            break;
        case 8:
        {
            V t(a), u(std::move(t)), v(ma.size());
            c.expect(v.size() == ma.size(), "size of a buffer");
            v.assign(u);
            u.clear();
            a = v;
            break;
        }
        case 9:
        {
            V& self = a;
            a       = self;
            a.assign(self);
            break;
        }
        default: a.clear(), ma.clear(); break;
        }
        c.expect(a.size() == ma.size() && a.empty() == ma.empty() && size_t(a.end() - a.begin()) == ma.size() && b.size() == mb.size(), fmt("size is %zu, expected %zu", (size_t)a.size(), ma.size()));
        c.expect(std::equal(ma.begin(), ma.end(), a.begin()) && std::equal(mb.begin(), mb.end(), b.cbegin()), fmt("items differ after operation %d", op));
        if (!ma.empty())
            c.expect(a.front() == ma.front() && a.back() == ma.back() && a.data()[0] == ma[0], "first or last item differs");
    }
    c.interesting(key, ma.size(), mb.size());
}
PBT_TEST(small_buffers, 20000, 400000)
{
    switch (s.in("kind", 0, 3))
    {
    case 0: return small<int, 1>(s, c);
    case 1: return small<double, 4>(s, c);
    case 2: return small<int16_t, 7>(s, c);
    default: return small<double, 16>(s, c);
    }
}

// ------------------------------------------------------------------ fraction
typedef __int128 i128;
static i128 gcd128(i128 a, i128 b)
{
    a = a < 0 ? -a : a, b = b < 0 ? -b : b;
    while (b)
    {
        i128 t = a % b;
        a = b, b = t;
    }
    return a;
}
struct Ratio
{
    i128 n, d;
    Ratio(i128 n, i128 d) : n(n), d(d)
    {
        if (this->d < 0)
            this->d = -this->d, this->n = -this->n;
        i128 g = gcd128(this->n, this->d);
        this->n /= g, this->d /= g;
    }
};
PBT_TEST(fractions, 40000, 800000)
{
    using kfr::fraction;
    Rng r      = s.bulk("values");
    // products of two numerators and denominators, and their sums, are representable
    int bits   = s.in("bits", 1, 30);
    auto whole = [&] { return r.range(-(1ll << bits), 1ll << bits); };
    int64_t an = whole(), ad = whole(), bn = r.chance(1, 8) ? an : whole(), bd = r.chance(1, 8) ? ad : whole();
    if (r.chance(1, 8) && ad)
    {
        int64_t k = r.range(-20, 20);
        bn = an / 2 * k, bd = ad / 2 * k;
        if (an % 2 || ad % 2)
            bn = an, bd = ad;
    }
    if (!ad || !bd)
        throw Discard();
    c.interesting(an, ad, bn, bd);
    s.say(fmt("%lld/%lld and %lld/%lld", (long long)an, (long long)ad, (long long)bn, (long long)bd));
    fraction a(an, ad), b(bn, bd);
    Ratio ma(an, ad), mb(bn, bd);
    auto is = [&](const fraction& f, const Ratio& m, const char* what)
    { c.expect(f.numerator == m.n && f.denominator == m.d, fmt("%s is %lld/%lld, expected %lld/%lld", what, (long long)f.numerator, (long long)f.denominator, (long long)m.n, (long long)m.d)); };
    is(a, ma, "fraction");
    is(+a, ma, "+");
    is(-a, Ratio(-ma.n, ma.d), "negation");
    const Ratio sum(ma.n * mb.d + mb.n * ma.d, ma.d * mb.d), dif(ma.n * mb.d - mb.n * ma.d, ma.d * mb.d), pro(ma.n * mb.n, ma.d * mb.d);
    fraction t = a;
    is(a + b, sum, "sum");
    is(t += b, sum, "+=");
    is(a - b, dif, "difference");
    t = a;
    is(t -= b, dif, "-=");
    is(a * b, pro, "product");
    t = a;
    is(t *= b, pro, "*=");
    if (mb.n)
    {
        const Ratio quo(ma.n * mb.d, ma.d * mb.n);
        is(a / b, quo, "quotient");
        t = a;
        is(t /= b, quo, "/=");
    }
    i128 cmp = ma.n * mb.d - mb.n * ma.d;
    c.expect((a < b) == (cmp < 0) && (a <= b) == (cmp <= 0) && (a > b) == (cmp > 0) && (a >= b) == (cmp >= 0) && (a == b) == (cmp == 0) && (a != b) == (cmp != 0), "comparison");
    double v = (double)a, w = (double)((long double)ma.n / (long double)ma.d);
    c.expect(std::fabs(v - w) <= 4e-16 * std::fabs(w), fmt("value is %.17g, expected %.17g", v, w));
    c.expect(std::fabs((float)a - w) <= 3e-7 * std::fabs(w), fmt("value is %.9g, expected %.9g", (double)(float)a, w));
    c.expect((int64_t)a == (int64_t)(ma.n / ma.d) && (bool)a == (ma.n != 0), "whole part");
    std::string text = cometa::as_string(a), want = ma.d == 1 ? std::to_string((long long)ma.n) : std::to_string((long long)ma.n) + "/" + std::to_string((long long)ma.d);
    c.expect(text == want, "text is " + text + ", expected " + want);
}

// ------------------------------------------------------------------ text
template <typename T>
static std::string shown(T v)
{
    char b[100];
    if constexpr (std::is_same_v<T, bool>)
        return v ? "true" : "false";
    else if constexpr (std::is_floating_point_v<T>)
        snprintf(b, sizeof b, "%g", (double)v);
    else if constexpr (std::is_signed_v<T>)
        snprintf(b, sizeof b, "%lld", (long long)v);
    else
        snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
template <typename T>
static T value(Rng& r)
{
    if constexpr (std::is_floating_point_v<T>)
        return (T)(r.chance(1, 2) ? (double)r.range(-999, 999) : r.sym() * std::pow(10.0, (double)r.range(-30, 30)));
    else
        return (T)(r.u64() >> (r.chance(1, 2) ? 0 : r.below(64)));
}
static std::string pad(std::string t, size_t w) { return t.size() < w ? std::string(w - t.size(), ' ') + t : t; }

template <typename T>
static void texts(Src& s, Case& c)
{
    using cometa::as_string;
    Rng r    = s.bulk("values");
    size_t n = s.skew("size", 0, 60);
    int op   = s.in("operation", 0, 6);
    c.interesting(n, op, r.u64(), sizeof(T));
    auto is = [&](const std::string& got, const std::string& want, const char* what) { c.expect(got == want, std::string(what) + ": text is '" + got + "', expected '" + want + "'"); };
    T x = value<T>(r), y = value<T>(r);
    std::vector<T> v(n);
    for (auto& e : v)
        e = value<T>(r);
    // elements in braces, 16 in a line
    auto list = [&](const std::vector<T>& v, size_t width = 0)
    {
        std::string t = "{";
        for (size_t i = 0; i < v.size(); i++)
            t += (i ? i % 16 ? ", " : ",\n " : "") + pad(shown(v[i]), width);
        return t + "}";
    };
    switch (op)
    {
    case 0:
        is(as_string(x), shown(x), "value");
        is(as_string("a", x, std::string("bcd"), y, true, "%s"), "a" + shown(x) + "bcd" + shown(y) + "true%s", "values");
        is(as_string(cometa::fmtwidth<12>(x), "|", cometa::fmtwidth<3>(y)), pad(shown(x), 12) + "|" + pad(shown(y), 3), "width");
        is(as_string(std::pair<T, int>(x, 5)), "(" + shown(x) + "; 5)", "pair");
        break;
    case 1:
        is(cometa::format("{} and {}{}", x, y, "z"), shown(x) + " and " + shown(y) + "z", "format");
        is(cometa::join(x, y, "z"), shown(x) + ", " + shown(y) + ", z", "join");
        is(cometa::q(x), "\"" + shown(x) + "\"", "quotes");
        {
            char b[10];
            memset(b, 'x', sizeof b);
            std::string full = shown(x) + "-" + shown(y);
            int len          = cometa::snprintfmt(b, 8, "{}-{}", x, y);
            c.expect(len == (int)full.size() && b[8] == 'x' && b[9] == 'x', "snprintfmt length or bounds");
            is(b, full.substr(0, 7), "snprintfmt");
        }
        is(cometa::format("{}", v), list(v), "format of a vector");
        break;
    case 2:
    {
        using namespace cometa;
        is("@ and @"_format(x, y), shown(x) + " and " + shown(y), "_format");
        is("<@>"_format(v), "<" + list(v) + ">", "_format of a vector");
        break;
    }
    case 3:
        is(as_string(v), list(v), "vector");
        is(as_string("<", v, ">", std::vector<T>(3, x)), "<" + list(v) + ">" + list(std::vector<T>(3, x)), "vectors");
        is(as_string(std::array<T, 3>{ x, y, x }), list({ x, y, x }), "array");
        is(as_string(kfr::univector<T>(v.begin(), v.end())), list(v), "univector");
        is(as_string(kfr::vec<T, 2>(x, y), kfr::vec<T, 1>(x)), list({ x, y }) + list({ x }), "vec");
        break;
    case 4: // widths of values whose text is a string
        is(as_string(cometa::fmtwidth<25>(std::pair<T, int>(x, 5))), pad("(" + shown(x) + "; 5)", 25), "width of a pair");
        is(as_string(cometa::fmtwidth<4>(kfr::univector<T>(v.begin(), v.end()))), list(v, 4), "width of elements");
        is(as_string(cometa::fmtwidth<40>(v)), pad(list(v), 40), "width of a vector");
        is(as_string(cometa::fmtwidth<11>(kfr::vec<T, 3>(x, y, x))), list({ x, y, x }, 11), "width of lanes");
        break;
    case 5:
    {
        std::string t(n % 12, 'q');
        size_t w = r.below(20), gap = w > t.size() ? w - t.size() : 0;
        is(cometa::padright(w, t, '.'), std::string(gap, '.') + t, "padright");
        is(cometa::padleft(w, t, '.'), t + std::string(gap, '.'), "padleft");
        std::string m = cometa::padcenter(w, t, '.');
        size_t at     = m.find(t);
        c.expect(m.size() == t.size() + gap && (t.empty() || (at != std::string::npos && (at == gap / 2 || at == gap - gap / 2))), "padcenter: " + m);
        break;
    }
    default:
    {
        // a tensor is nested lists: read back by position
        size_t a = r.below(6), b = r.below(20), d = r.below(4);
        kfr::tensor<T, 3> z(kfr::shape{ a, b, d });
        std::vector<std::string> want, got;
        std::string flat;
        for (size_t i = 0; i < a; i++)
            for (size_t j = 0; j < b; j++)
                for (size_t k = 0; k < d; k++)
                    z(i, j, k) = value<T>(r), want.push_back(shown(z(i, j, k)));
        std::string text = as_string(z), num;
        size_t depth = 0, rows = 0, planes = 0;
        for (char ch : text)
        {
            if (ch == '{')
            {
                depth++;
                planes += depth == 2, rows += depth == 3;
                c.expect(depth <= 3, "too many braces: " + text);
            }
            else if (ch == '}' || ch == ',' || ch == '\n' || ch == ' ')
            {
                if (!num.empty())
                {
                    c.expect(depth == 3, "a value outside of braces: " + text);
                    got.push_back(num), num.clear();
                }
                if (ch == '}')
                {
                    c.expect(depth > 0, "unbalanced braces: " + text);
                    depth--;
                    // a row is complete when it closes
                    c.expect(depth != 2 || a * b * d == 0 || got.size() % d == 0, "a row closes within: " + text);
                    c.expect(depth != 1 || a * b * d == 0 || got.size() % (b * d) == 0, "a plane closes within: " + text);
                }
            }
            else
                num += ch;
        }
        c.expect(depth == 0, "unbalanced braces: " + text);
        c.expect(got == want, "elements of a tensor differ: " + text);
        if (a * b * d)
            c.expect(planes == a && rows == a * b, fmt("%zu planes and %zu rows, expected %zu and %zu: ", planes, rows, a, a * b) + text);
        is(as_string(z.shape()), fmt("shape{%zu, %zu, %zu}", a, b, d), "shape");
    }
    }
}
PBT_TEST(text, 30000, 600000)
{
    switch (s.in("type", 0, 6))
    {
    case 0: return texts<int>(s, c);
    case 1: return texts<double>(s, c);
    case 2: return texts<float>(s, c);
    case 3: return texts<uint8_t>(s, c);
    case 4: return texts<int64_t>(s, c);
    case 5: return texts<uint32_t>(s, c);
    default: return texts<int16_t>(s, c);
    }
}
