// Numeric helpers, ranges, function objects, results, references to arrays and constant strings against the standard
// library and exact arithmetic.
#include <kfr/base.hpp>
#include <kfr/cometa/array.hpp>
#include <kfr/cometa/cstring.hpp>
#include <kfr/cometa/function.hpp>
#include <kfr/cometa/range.hpp>
#include <kfr/cometa/result.hpp>
#include <functional>
#include <memory>
#include <numeric>
#include <string>
#include "pbt.hpp"
using namespace pbt;

// ------------------------------------------------------------------ integers
template <typename T>
static T magnitude(Src& s, const char* name, int bits)
{
    int b = (int)s.in(nullptr, 0, bits);
    T v   = b ? (T)((T(1) << (b - 1)) | (T)(s.draw(UINT64_MAX) & ((T(1) << (b - 1)) - 1))) : T(0);
    switch (s.in(nullptr, 0, 4))
    {
    case 0: v = b ? T(T(1) << (b - 1)) : T(0); break;
    case 1: v = b ? T(((T(1) << (b - 1)) - 1) * 2 + 1) : T(0); break;
    }
    s.describe(name, (long long)v);
    return v;
}
template <typename T>
static void integers(Src& s, Case& c)
{
    using U        = unsigned __int128;
    const int bits = (int)sizeof(T) * 8 - 1;
    T n            = magnitude<T>(s, "n", bits);
    c.interesting((uint64_t)n, sizeof(T));
    unsigned l = 0;
    while (l < 127 && (U(1) << (l + 1)) <= (U)n)
        l++;
    if (n > 0)
        c.eq(kfr::ilog2(n), l, "ilog2");
    c.expect(kfr::is_poweroftwo(n) == (n > 0 && (U(1) << l) == (U)n), "is_poweroftwo");
    c.eq(kfr::prev_poweroftwo(n), n ? T(T(1) << l) : T(0), "prev_poweroftwo");
    U up = n ? (U(1) << l) == (U)n ? (U)n : U(1) << (l + 1) : 0;
    if (up <= (U)std::numeric_limits<T>::max())
        c.eq(kfr::next_poweroftwo(n), (T)up, "next_poweroftwo");
    c.expect(kfr::is_even(n) == !(n & 1) && kfr::is_odd(n) == !!(n & 1), "is_even, is_odd");
    T a = n, b = magnitude<T>(s, "b", bits), d = magnitude<T>(s, "d", bits);
    if (s.flag("common factor"))
    {
        T f = magnitude<T>(s, "f", bits / 2);
        a   = (T)(a >> (bits / 2)) * f;
        b   = (T)(b >> (bits / 2)) * f;
    }
    const T g = std::gcd(a, b);
    c.eq(kfr::gcd(a, b), g, "gcd(a, b)");
    c.eq(kfr::gcd(a), a, "gcd(a)");
    c.eq(kfr::gcd(a, b, d), (T)std::gcd(g, d), "gcd(a, b, c)");
    c.eq(kfr::gcd(d, a, d, b), (T)std::gcd(g, d), "gcd(a, b, c, d)");
    const U m = g ? (U)(a / g) * (U)b : 0;
    if (m <= (U)std::numeric_limits<T>::max())
    {
        c.eq(kfr::lcm(a, b), (T)m, "lcm(a, b)");
        const U g3 = std::gcd((T)m, d);
        const U m3 = g3 ? (m / g3) * (U)d : 0;
        // the multiple of the last two is found first
        const U g2 = std::gcd(b, d);
        const U m2 = g2 ? ((U)b / g2) * (U)d : 0;
        if (m3 <= (U)std::numeric_limits<T>::max() && m2 <= (U)std::numeric_limits<T>::max())
            c.eq(kfr::lcm(a, b, d), (T)m3, "lcm(a, b, c)");
    }
    else
        c.label("lcm not representable");
    c.eq(kfr::lcm(a), a, "lcm(a)");
    if (b)
        c.expect(kfr::is_divisible(a, b) == (a % b == 0), "is_divisible");
    // alignment
    const T al = T(T(1) << s.in("log alignment", 0, bits - 2));
    c.eq(kfr::align_down(n, al), (T)(n / al * al), "align_down");
    const U au = ((U)n + al - 1) / al * al;
    if (au <= (U)std::numeric_limits<T>::max())
        c.eq(kfr::align_up(n, al), (T)au, "align_up");
}
PBT_TEST(integers, 60000, 2000000)
{
    switch (s.in("type", 0, 3))
    {
    case 0: return integers<int>(s, c);
    case 1: return integers<unsigned>(s, c);
    case 2: return integers<long long>(s, c);
    case 3: return integers<size_t>(s, c);
    }
}
PBT_TEST(floor_div, 30000, 1000000)
{
    long long a = magnitude<long long>(s, "a", 62) * (s.flag("negative a") ? -1 : 1);
    long long b = magnitude<long long>(s, "b", 62) * (s.flag("negative b") ? -1 : 1);
    if (b == 0)
        b = 1;
    c.interesting((uint64_t)a, (uint64_t)b);
    auto d = kfr::floor_div(a, b);
    // the quotient is rounded towards minus infinity, the remainder has the sign of the divisor
    __int128 q = (__int128)a / b;
    if (q * b != a && ((a < 0) != (b < 0)))
        q--;
    c.eq(d.quot, (long long)q, "quotient");
    c.eq(d.rem, (long long)((__int128)a - q * b), "remainder");
}
PBT_TEST(pointers, 10000, 200000)
{
    alignas(1024) static unsigned char mem[4096];
    size_t off = (size_t)s.in("offset", 0, 1024), al = size_t(1) << s.in("log alignment", 0, 10);
    auto* p    = (float*)mem + off / 4;
    auto* down = kfr::align_down(p, al);
    auto* up   = kfr::align_up(p, al);
    c.interesting(off, al);
    c.expect((size_t)down % al == 0 && down <= p && (size_t)p - (size_t)down < al, "align_down of a pointer");
    c.expect((size_t)up % al == 0 && up >= p && (size_t)up - (size_t)p < al, "align_up of a pointer");
    ptrdiff_t step = s.in("step", 0, 500);
    c.expect(kfr::advance(p, step) == p + step && kfr::advance((void*)p, step) == (void*)((unsigned char*)p + step), "advance");
    c.eq(kfr::distance(p + step, p), step * 4, "distance");
}

// ------------------------------------------------------------------ ranges and references to arrays
template <typename T>
static void ranges(Src& s, Case& c)
{
    T a = (T)s.in("from", -40, 40), b = (T)s.in("to", -40, 40);
    T step = (T)s.in("step", 1, 9);
    if (std::is_floating_point_v<T>)
        step = step / 4;
    if (b < a)
        step = -step;
    bool with_step = s.flag("with step");
    if (!with_step)
        step = b > a ? 1 : -1;
    c.interesting((uint64_t)(int64_t)a, (uint64_t)(int64_t)b, (uint64_t)(int64_t)(step * 4));
    std::vector<T> want, got;
    for (T v = a; step > 0 ? v < b : v > b; v += step)
        want.push_back(v);
    auto run = [&](auto r)
    {
        for (auto v : r)
        {
            got.push_back(v);
            if (got.size() > 1000)
                break;
        }
        c.eq(r.distance(), b - a, "distance of a range");
    };
    if (with_step)
        run(kfr::make_range(a, b, step));
    else
        run(kfr::make_range(a, b));
    if (got != want)
        c.fail(fmt("a range has %zu values instead of %zu", got.size(), want.size()));
    kfr::array_ref<T> r = kfr::make_array_ref(want);
    c.expect(r.size() == want.size() && r.data() == want.data() && r.empty() == want.empty() && std::equal(r.begin(), r.end(), want.begin(), want.end()) &&
                 std::equal(r.cbegin(), r.cend(), want.begin(), want.end()),
             "array_ref");
    if (!want.empty())
    {
        size_t i = (size_t)s.in("i", 0, (int64_t)want.size() - 1);
        r[i]     = 77;
        c.expect(want[i] == 77 && &r.front() == &want.front() && &r.back() == &want.back(), "element of array_ref");
    }
}
PBT_TEST(ranges, 20000, 300000)
{
    if (s.flag("real"))
        ranges<double>(s, c);
    else
        ranges<int>(s, c);
}

// ------------------------------------------------------------------ function objects
static int live = 0;
template <size_t Align, size_t Extra>
struct alignas(Align) Fn
{
    int a, b;
    unsigned char extra[Extra];
    std::shared_ptr<int> calls;
    Fn(int a, int b, std::shared_ptr<int> calls) : a(a), b(b), calls(std::move(calls))
    {
        live++;
        memset(extra, a, Extra);
    }
    Fn(const Fn& f) : a(f.a), b(f.b), calls(f.calls)
    {
        live++;
        memcpy(extra, f.extra, Extra);
    }
    Fn(Fn&& f) : a(f.a), b(f.b), calls(std::move(f.calls))
    {
        live++;
        memcpy(extra, f.extra, Extra);
    }
    ~Fn() { live--; }
    int operator()(int x)
    {
        if ((uintptr_t)this % Align)
            throw Fail(fmt("a function object of alignment %zu is at %p", Align, (void*)this));
        for (auto e : extra)
            if (e != (unsigned char)a)
                throw Fail("a function object has changed");
        ++*calls;
        return a * x + b;
    }
};
static int plain_function(int x) { return 3 * x + 1; }
using F = kfr::function<int(int)>;

PBT_TEST(functions, 20000, 400000)
{
    struct Slot
    {
        bool set = false;
        int a = 0, b = 0;
        int id = -1;
        std::shared_ptr<int> calls;
        int expected = 0;
    };
    live = 0;
    {
        std::vector<F> f(4);
        std::vector<Slot> m(4);
        int ids = 0, steps = (int)s.in("steps", 1, 30);
        // calls counted per object created, shared by copies
        std::vector<int> counts;
        uint64_t key = 0;
        for (int k = 0; k < steps; k++)
        {
            int op = (int)s.in("op", 0, 8);
            size_t i = (size_t)s.in(0, 3), j = (size_t)s.in(0, 3);
            key = pbt::mix(key, op * 16 + i * 4 + j);
            switch (op)
            {
            case 0:
            case 1:
            {
                Slot n;
                n.set = true, n.a = (int)s.in(-9, 9), n.b = (int)s.in(-9, 9), n.id = ids++;
                n.calls = std::make_shared<int>(0);
                counts.push_back(0);
                switch (s.in("kind", 0, 4))
                {
                case 0: f[i] = Fn<8, 1>(n.a, n.b, n.calls); break;
                case 1: f[i] = Fn<16, 100>(n.a, n.b, n.calls); break;
                case 2: f[i] = F(Fn<64, 64>(n.a, n.b, n.calls)); break;
                case 3: n.a = 3, n.b = 1, n.calls.reset(), f[i] = plain_function; break;
                case 4:
                {
                    Fn<32, 5> o(n.a, n.b, n.calls);
                    f[i] = [o, p = std::make_unique<int>(0)](int x) mutable { return o(x) + *p; };
                    break;
                }
                }
                m[i] = n;
                break;
            }
            case 2: f[i] = f[j], m[i] = m[j]; break;
            case 3:
                if (i != j)
                {
                    f[i] = std::move(f[j]);
                    f[j] = nullptr;
                    m[i] = m[j];
                    m[j] = Slot();
                }
                break;
            case 4: f[i] = nullptr, m[i] = Slot(); break;
            case 5:
            {
                F copy(f[j]);
                F moved(std::move(copy));
                std::swap(f[i], moved);
                std::swap(moved, f[i]);
                break;
            }
            default:
            {
                c.expect(!!f[i] == m[i].set && f[i].empty() != m[i].set, "function is empty or not");
                int x = (int)s.in(-100, 100);
                if (m[i].set)
                {
                    c.eq(f[i](x), m[i].a * x + m[i].b, "value of a call");
                    counts[m[i].id]++;
                    if (m[i].calls)
                        c.eq(*m[i].calls, counts[m[i].id], "calls counted");
                }
                else
                {
                    bool thrown = false;
                    try
                    {
                        f[i](x);
                    }
                    catch (const std::bad_function_call&)
                    {
                        thrown = true;
                    }
                    c.expect(thrown, "an empty function was called");
                }
            }
            }
            c.expect((f[i] == f[j]) == (m[i].id == m[j].id) && (f[i] != f[j]) == (m[i].id != m[j].id), "equal functions");
        }
        c.interesting(key);
    }
    c.eq(live, 0, "function objects not destroyed");
}
PBT_TEST(arguments, 5000, 50000)
{
    // arguments by value, by reference and movable only
    int seed = (int)s.in("seed", 0, 1000);
    kfr::function<std::string(std::string, int&, std::unique_ptr<int>)> f = [](std::string a, int& b, std::unique_ptr<int> p)
    {
        b += *p;
        return a + std::to_string(b);
    };
    int b = seed;
    std::string text(seed % 40, 'x');
    c.interesting(seed);
    c.expect(f(text, b, std::make_unique<int>(5)) == std::string(seed % 40, 'x') + std::to_string(seed + 5) && b == seed + 5 && text.size() == size_t(seed % 40),
             "arguments by value, reference and move");
    kfr::function<void()> v = [&] { b = -1; };
    v();
    c.eq(b, -1, "function without result");
    // dispatch of a value to a constant
    int x      = (int)s.in("x", -2, 9);
    auto d     = kfr::cdispatch<int, int>(kfr::cvals_t<int, 1, 4, 7, -2>(), x, [](auto k, int y) { return k * 100 + y; }, [](int y) { return -y; });
    const bool in = x == 1 || x == 4 || x == 7 || x == -2;
    c.eq(d(13), in ? x * 100 + 13 : -13, "cdispatch");
    size_t at = kfr::cfind(kfr::cvals_t<int, 1, 4, 7, -2>(), x);
    c.eq(at, x == 1 ? size_t(0) : x == 4 ? size_t(1) : x == 7 ? size_t(2) : x == -2 ? size_t(3) : size_t(-1), "cfind");
    // result
    enum class E
    {
        ok,
        bad,
        worse
    };
    using R = kfr::result<std::string, E>;
    R good(text), bad(seed % 2 ? E::bad : E::worse);
    c.expect(good && good.ok() && *good == text && good->size() == text.size() && good.value() == text && good.error() == E::ok, "result with a value");
    c.expect(!bad && !bad.ok() && bad.error() == (seed % 2 ? E::bad : E::worse), "result with an error");
}

// ------------------------------------------------------------------ constant strings
template <size_t N>
static kfr::cstring<N + 1> text_of(Src& s, int letters)
{
    char t[N + 1];
    for (size_t i = 0; i < N; i++)
        t[i] = (char)('a' + s.in(0, letters));
    t[N] = 0;
    return kfr::make_cstring(t);
}
template <size_t N>
static std::string str(const kfr::cstring<N>& x)
{
    if (x.length() != N - 1 || x.size() != N || x.c_str()[N - 1] != 0 || x.data() != x.c_str())
        throw Fail("length of a constant string");
    return std::string(x.c_str(), x.length());
}
template <size_t A, size_t B, size_t D>
static void strings(Src& s, Case& c)
{
    int letters = (int)s.in("letters", 0, 2);
    auto a      = text_of<A>(s, letters);
    auto a2     = text_of<A>(s, letters);
    auto b      = text_of<B>(s, letters);
    auto d      = text_of<D>(s, letters);
    const std::string sa = str(a), sa2 = str(a2), sb = str(b), sd = str(d);
    s.say(sa + "/" + sa2 + "/" + sb + "/" + sd);
    c.interesting(hash_bytes(sa.data(), A), hash_bytes(sa2.data(), A), hash_bytes(sb.data(), B), hash_bytes(sd.data(), D));
    c.expect((a == a2) == (sa == sa2) && (a != a2) == (sa != sa2), "equality of constant strings");
    c.expect(str(kfr::concat_cstring(a, b, d)) == sa + sb + sd && str(kfr::concat_cstring(b)) == sb, "concat_cstring");
    c.expect(str(kfr::concat_cstring(d, d)) == sd + sd && str(kfr::concat_cstring()).empty(), "concat_cstring");
    if constexpr (A >= 2)
    {
        c.expect(str(a.slice(kfr::csize_t<1>())) == sa.substr(1), "slice to the end");
        c.expect(str(a.slice(kfr::csize_t<A / 2>(), kfr::csize_t<A - A / 2>())) == sa.substr(A / 2), "slice");
        c.expect(str(a.slice(kfr::csize_t<0>(), kfr::csize_t<A / 2>())) == sa.substr(0, A / 2), "slice");
    }
    for (size_t i = 0; i < A; i++)
        c.expect(a[i] == sa[i], "character of a constant string");
    if constexpr (B <= A)
    {
        size_t at = kfr::str_find(a, b);
        if (at != sa.find(sb))
            c.fail(fmt("str_find(\"%s\", \"%s\") is %zd", sa.c_str(), sb.c_str(), (ptrdiff_t)at));
        if (sa.find(sb) != std::string::npos)
        {
            std::string want = sa;
            want.replace(sa.find(sb), B, sd);
            std::string got = str(kfr::str_replace(a, b, d));
            if (got != want)
                c.fail(fmt("str_replace(\"%s\", \"%s\", \"%s\") is \"%s\"", sa.c_str(), sb.c_str(), sd.c_str(), got.c_str()));
        }
    }
}
PBT_TEST(strings, 40000, 1000000)
{
    switch (s.in("sizes", 0, 5))
    {
    case 0: return strings<4, 2, 3>(s, c);
    case 1: return strings<6, 3, 1>(s, c);
    case 2: return strings<9, 1, 4>(s, c);
    case 3: return strings<3, 3, 5>(s, c);
    case 4: return strings<12, 4, 4>(s, c);
    case 5: return strings<7, 3, 2>(s, c);
    }
}
