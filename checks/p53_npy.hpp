// Tensors saved as .npy and read back, .npy files laid out by others, damaged ones; typed file readers and writers.
#include <kfr/base.hpp>
#include <kfr/io.hpp>
#include <kfr/base/npy.hpp>
#include <deque>
#include "pbt.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace pbt;
using kfr::index_t;
using kfr::shape;
using kfr::tensor;
using bytes = std::vector<uint8_t>;

// ---- what the format says ----
template <typename T> struct Kind;
#define KIND(T, K, W) template <> struct Kind<T> { static constexpr char kind = K; static constexpr size_t word = W; };
KIND(bool, 'b', 1)
KIND(kfr::u8, 'u', 1)
KIND(kfr::i8, 'i', 1)
KIND(kfr::u16, 'u', 2)
KIND(kfr::i16, 'i', 2)
KIND(kfr::u32, 'u', 4)
KIND(kfr::i32, 'i', 4)
KIND(kfr::u64, 'u', 8)
KIND(kfr::i64, 'i', 8)
KIND(float, 'f', 4)
KIND(double, 'f', 8)
KIND(kfr::complex<float>, 'c', 4)
KIND(kfr::complex<double>, 'c', 8)
template <typename T> static std::string descr(char order) { return std::string(1, order) + Kind<T>::kind + std::to_string(sizeof(T)); }
static uint64_t digest(const bytes& b)
{
    uint64_t h = 14695981039346656037ull;
    for (auto x : b)
        h = (h ^ x) * 1099511628211ull;
    return h;
}
template <typename T> static void raw(bytes& out, const T& v, bool big)
{
    uint8_t b[sizeof(T)];
    memcpy(b, &v, sizeof(T));
    const size_t w = Kind<T>::word;
    for (size_t g = 0; g < sizeof(T); g += w)
        for (size_t k = 0; k < w; k++)
            out.push_back(b[g + (big ? w - 1 - k : k)]);
}
template <typename T> static T value(Rng& r)
{
    T v;
    if constexpr (std::is_same_v<T, bool>)
        return r.chance(1, 2);
    uint8_t b[sizeof(T)];
    for (auto& x : b)
        x = (uint8_t)r.u64();
    memcpy(&v, b, sizeof(T));
    return v;
}
template <typename T> static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static size_t product(const std::vector<size_t>& v)
{
    size_t p = 1;
    for (size_t x : v)
        p *= x;
    return p;
}
static std::string text(const std::vector<size_t>& v)
{
    std::string r = "(";
    for (size_t i = 0; i < v.size(); i++)
        r += (i ? ", " : "") + std::to_string(v[i]);
    return r + (v.size() == 1 ? ",)" : ")");
}
template <index_t D> static shape<D> to_shape(const std::vector<size_t>& v)
{
    shape<D> s;
    for (index_t i = 0; i < D; i++)
        s[i] = (index_t)v[i];
    return s;
}
static std::vector<size_t> unravel(size_t k, const std::vector<size_t>& d)
{
    std::vector<size_t> i(d.size());
    for (size_t a = d.size(); a-- > 0; k /= d[a])
        i[a] = k % d[a];
    return i;
}
static std::vector<size_t> draw_dims(Src& s, index_t D)
{
    std::vector<size_t> d;
    size_t cap = 4000;
    for (index_t i = 0; i < D; i++)
    {
        size_t n = (size_t)s.skew("axis", 1, (int64_t)std::min<size_t>(cap, D == 1 ? 4000 : D == 2 ? 100 : 20));
        d.push_back(n);
        cap = std::max<size_t>(1, cap / n);
    }
    if (s.flag("thin", 1, 4))
        d[(size_t)s.in("thin axis", 0, (int64_t)D - 1)] = 1;
    return d;
}
struct Source
{
    const bytes* data;
    size_t pos = 0, calls = 0;
    int paint = 0;
    bool operator()(void* p, size_t n)
    {
        calls++;
        size_t m = std::min(n, data->size() - pos);
        memcpy(p, data->data() + pos, m);
        pos += m;
        return m == n;
    }
};
// an independent reader of what was saved
template <typename T>
static void parse_saved(Case& c, const bytes& b, const std::vector<size_t>& dims, const std::deque<T>& want)
{
    c.expect(b.size() >= 10 && memcmp(b.data(), "\x93NUMPY\x01\x00", 8) == 0, "magic and version of the file");
    size_t len = b[8] | b[9] << 8;
    c.expect(b.size() >= 10 + len, "header length");
    c.expect((10 + len) % 64 == 0, fmt("the data starts at %zu, which is not a multiple of 64", 10 + len));
    std::string h(b.begin() + 10, b.begin() + 10 + (long)len);
    c.expect(!h.empty() && h.back() == '\n', "the header ends with a newline");
    std::string w;
    for (char x : h)
        if (x != ' ' && x != '\n')
            w += x;
    std::string sh;
    for (char x : text(dims))
        if (x != ' ')
            sh += x;
    std::string e = "{'descr':'" + descr<T>(sizeof(T) == 1 ? '|' : '<') + "','fortran_order':False,'shape':" + sh;
    c.expect(w == e + ",}" || w == e + "}", fmt("header is %s instead of %s", w.c_str(), e.c_str()));
    bytes d;
    for (auto& v : want)
        raw(d, v, false);
    c.eq(b.size() - 10 - len, d.size(), "bytes of data");
    for (size_t i = 0; i < d.size(); i++)
        c.expect(b[10 + len + i] == d[i], fmt("byte %zu of element %zu is %02x instead of %02x", i % sizeof(T), i / sizeof(T), b[10 + len + i], d[i]));
}
template <typename T, index_t D>
static void compare(Case& c, const tensor<T, D>& t, const std::vector<size_t>& dims, const std::deque<T>& want)
{
    for (index_t i = 0; i < D; i++)
        c.eq((size_t)t.shape()[i], dims[i], fmt("length of axis %zu", (size_t)i).c_str());
    for (size_t k = 0; k < want.size(); k++)
        c.expect(same(t.access(to_shape<D>(unravel(k, dims))), want[k]), fmt("element %zu of %s differs", k, text(dims).c_str()));
    size_t k = 0;
    for (auto it = t.begin(); it != t.end() && k < want.size(); ++it, ++k)
        c.expect(same<T>(*it, want[k]), fmt("element %zu by iteration differs", k));
}
template <typename T, index_t D>
static void round_trip(Src& s, Case& c)
{
    auto dims = draw_dims(s, D);
    Rng r = s.bulk("values");
    size_t n = product(dims);
    // memory in any layout
    std::vector<size_t> order(D), strides(D);
    for (size_t i = 0; i < D; i++)
        order[i] = i;
    for (size_t i = D; i > 1; i--)
        std::swap(order[i - 1], order[(size_t)s.in("axis order", 0, (int64_t)i - 1)]);
    size_t step = 1;
    for (size_t a = D; a-- > 0;)
    {
        if (s.flag("gap", 1, 4))
            step *= (size_t)s.in("times", 2, 3);
        strides[order[a]] = step;
        step *= dims[order[a]];
        if (s.flag("gap", 1, 5))
            step += (size_t)s.in("more", 1, 5);
    }
    bool stretched = s.flag("stretched", 1, 10);
    if (stretched)
        strides[(size_t)s.in("stretched axis", 0, (int64_t)D - 1)] = 0;
    std::unique_ptr<T[]> mem(new T[step + 1]);
    for (size_t i = 0; i <= step; i++)
        mem[i] = value<T>(r);
    std::deque<T> before(mem.get(), mem.get() + step + 1);
    std::deque<T> want;
    for (size_t k = 0; k < n; k++)
    {
        auto i   = unravel(k, dims);
        size_t o = 0;
        for (size_t a = 0; a < D; a++)
            o += i[a] * strides[a];
        want.push_back(mem[o]);
    }
    c.label(fmt("%zu axes", (size_t)D));
    int how = (int)s.in("tensor", 0, 2);
    tensor<T, D> t = how == 0 ? tensor<T, D>(to_shape<D>(dims)) : tensor<T, D>(mem.get(), to_shape<D>(dims), to_shape<D>(strides), kfr::make_memory_finalizer([] {}));
    if (how == 0)
        for (size_t k = 0; k < n; k++)
            t.access(to_shape<D>(unravel(k, dims))) = want[k];
    if (how == 2)
        t = t.copy();
    s.say(fmt("%s of %s, strides %s, %s", descr<T>('<').c_str(), text(dims).c_str(), text(strides).c_str(), how == 0 ? "own memory" : how == 1 ? "external" : "copy"));
    bytes out;
    kfr::save_to_npy(t, [&](const void* p, size_t m) { out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + m); });
    if (n > 1)
        c.interesting(digest(out));
    for (size_t i = 0; i <= step; i++)
        c.expect(same(mem[i], before[i]), "saving changes the tensor");
    parse_saved(c, out, dims, want);
    // and back, into a tensor that holds something else (booleans cannot be loaded: it does not compile)
    if constexpr (!std::is_same_v<T, bool>)
    {
        tensor<T, D> q(to_shape<D>(std::vector<size_t>(D, 2)));
        tensor<T, D> other = q;
        std::deque<T> mark;
        for (auto& x : q)
            mark.push_back(x = value<T>(r));
        Source src{ &out };
        auto res = kfr::load_from_npy(q, src);
        c.expect(res == kfr::npy_decode_result::ok, "the saved file loads");
        c.eq(src.pos, out.size(), "bytes read");
        compare(c, q, dims, want);
        size_t k = 0;
        for (auto& x : other)
            c.expect(same<T>(x, mark[k++]), "another tensor on the replaced memory changed");
    }
}
static std::string spaces(Src& s, bool lots)
{
    if (!lots || s.flag("tight", 2, 3))
        return "";
    std::string r;
    int n = (int)s.in("spaces", 1, 3);
    for (int i = 0; i < n; i++)
        r += s.pick<std::string>("space", { " ", "\t", "\n", " " });
    return r;
}
struct File
{
    bytes head, data;
    size_t text_at = 0;
};
template <typename T>
static File layout(Src& s, const std::vector<size_t>& dims, const std::deque<T>& want, bool fortran, bool big, const std::string& type)
{
    File f;
    int version = (int)s.in("version", 1, 3);
    bool loose  = s.flag("loose layout", 1, 2);
    std::string sh = "(" + spaces(s, loose);
    for (size_t i = 0; i < dims.size(); i++)
    {
        sh += std::to_string(dims[i]) + spaces(s, loose);
        if (i + 1 < dims.size() || dims.size() == 1 || (loose && s.flag("comma", 1, 3)))
            sh += "," + spaces(s, loose) + (loose ? "" : i + 1 < dims.size() ? " " : "");
    }
    sh += ")";
    std::vector<std::pair<std::string, std::string>> fields = { { "descr", "'" + type + "'" }, { "fortran_order", fortran ? "True" : "False" }, { "shape", sh } };
    if (loose)
    {
        int extra = (int)s.in("extra fields", 0, 2);
        for (int i = 0; i < extra; i++)
            fields.push_back({ s.pick<std::string>("field", { "note", "version", "x", "descr2", "Shape" }),
                               s.pick<std::string>("content", { "1", "None", "'a}b'", "{'a': 1, 'b': (2, 3)}", "[1, [2, 3], {}]", "\"it's\"", "'it\\'s, {'", "()", "-1.5e3", "{'k': '}'}" }) });
        for (size_t i = fields.size(); i > 1; i--)
            std::swap(fields[i - 1], fields[(size_t)s.in("order", 0, (int64_t)i - 1)]);
    }
    std::string h = "{" + spaces(s, loose);
    for (size_t i = 0; i < fields.size(); i++)
    {
        h += "'" + fields[i].first + "'" + spaces(s, loose) + ":" + (loose ? spaces(s, true) : " ") + fields[i].second + spaces(s, loose);
        if (i + 1 < fields.size() || s.flag("last comma", 2, 3))
            h += "," + (loose ? spaces(s, true) : std::string(" "));
    }
    h += "}";
    size_t pre   = version == 1 ? 10 : 12;
    size_t align = s.pick<size_t>("align", { 64, 16, 1 });
    size_t total = (pre + h.size() + 1 + align - 1) / align * align;
    h += std::string(total - pre - h.size() - 1, ' ');
    if (align == 1 && s.flag("long padding", 1, 6))
        h += std::string((size_t)s.in("padding", 1, version == 1 ? 60000 : 200000), ' ');
    h += '\n';
    const char magic[] = "\x93NUMPY";
    f.head.insert(f.head.end(), magic, magic + 6);
    f.head.push_back((uint8_t)version);
    f.head.push_back(0);
    for (size_t k = 0; k < pre - 8; k++)
        f.head.push_back((uint8_t)(h.size() >> 8 * k));
    f.text_at = f.head.size();
    f.head.insert(f.head.end(), h.begin(), h.end());
    size_t n = product(dims);
    for (size_t k = 0; k < n; k++)
    {
        size_t at = k;
        if (fortran)
        {
            std::vector<size_t> i(dims.size());
            size_t m = k;
            for (size_t a = 0; a < dims.size(); a++)
            {
                i[a] = m % dims[a];
                m /= dims[a];
            }
            at = 0;
            for (size_t a = 0; a < dims.size(); a++)
                at = at * dims[a] + i[a];
        }
        raw(f.data, want[at], big);
    }
    return f;
}
template <typename T, index_t D>
static void foreign(Src& s, Case& c)
{
    auto dims = draw_dims(s, D);
    Rng r = s.bulk("values");
    size_t n = product(dims);
    std::deque<T> want(n);
    std::deque<T> v2;
    for (size_t k = 0; k < n; k++)
        v2.push_back(value<T>(r));
    want = v2;
    bool fortran = s.flag("fortran"), big = sizeof(T) > 1 && s.flag("big-endian");
    std::string type = descr<T>(big ? '>' : sizeof(T) == 1 ? '|' : s.flag("native", 1, 6) ? '=' : '<');
    std::vector<size_t> filedims = dims;
    kfr::npy_decode_result expect = kfr::npy_decode_result::ok;
    int wrong = s.flag("mismatch", 1, 6) ? (int)s.in("wrong", 1, 3) : 0;
    if (wrong == 1)
    {
        static const std::vector<std::string> types = { "|b1", "|u1", "|i1", "<u2", "<i2", "<u4", "<i4", "<u8", "<i8", "<f2", "<f4", "<f8", "<c8", "<c16", "|S5", "<U7", "|O", "<M8", ">f4", ">i2", "|V4", "" };
        std::string other;
        do
            other = s.pick("type", types);
        while (other.size() > 1 && other.substr(1) == type.substr(1));
        type   = other;
        expect = kfr::npy_decode_result::invalid_type;
    }
    if (wrong == 2)
    {
        if (D == 1 || s.flag("more axes"))
            filedims.push_back(1);
        else
        {
            filedims[D - 2] *= filedims[D - 1];
            filedims.pop_back();
        }
        expect = kfr::npy_decode_result::invalid_shape;
    }
    File f = layout<T>(s, filedims, want, fortran, big, type);
    if (wrong == 3)
    {
        size_t cut = (size_t)s.in("missing", 1, (int64_t)f.data.size());
        f.data.resize(f.data.size() - cut);
        expect = kfr::npy_decode_result::cannot_read;
    }
    size_t total = f.head.size() + f.data.size();
    bytes all    = f.head;
    all.insert(all.end(), f.data.begin(), f.data.end());
    size_t more = s.flag("followed by more", 1, 3) ? (size_t)s.in("more", 1, 100) : 0;
    if (wrong != 3)
        for (size_t i = 0; i < more; i++)
            all.push_back((uint8_t)r.u64());
    if (n > 1)
        c.interesting(digest(all), wrong);
    c.label(fmt("result %lld", (long long)wrong));
    s.say(fmt("%s of %s, fortran %d, %s", type.c_str(), text(filedims).c_str(), (int)fortran, wrong ? "mismatch" : "good"));
    tensor<T, D> q(to_shape<D>(std::vector<size_t>(D, 3)));
    std::deque<T> mark;
    for (auto& x : q)
        mark.push_back(x = value<T>(r));
    Source src{ &all };
    auto res = kfr::load_from_npy(q, src);
    c.expect(res == expect, fmt("load answers %d instead of %d", (int)res, (int)expect));
    if (res == kfr::npy_decode_result::ok)
    {
        compare(c, q, dims, want);
        c.eq(src.pos, total, "bytes read");
    }
    else
        compare(c, q, std::vector<size_t>(D, 3), mark);
}
template <typename T, index_t D>
static void damaged(Src& s, Case& c)
{
    auto dims = draw_dims(s, D);
    Rng r = s.bulk("values");
    std::deque<T> want;
    for (size_t k = 0, n = product(dims); k < n; k++)
        want.push_back(value<T>(r));
    File f = layout<T>(s, dims, want, s.flag("fortran"), s.flag("big"), descr<T>(s.pick<char>("order", { '<', '>', '|' })));
    bytes b = f.head;
    b.insert(b.end(), f.data.begin(), f.data.end());
    int n = (int)s.skew("mutations", 1, 8);
    for (int i = 0; i < n && !b.empty(); i++)
    {
        size_t span = std::min(b.size(), s.flag("header", 4, 5) ? f.head.size() : b.size());
        size_t at   = (size_t)s.in("at", 0, (int64_t)std::min<size_t>(span, s.flag("early", 4, 5) ? 140 : span) - 1);
        switch (s.in("mutation", 0, 5))
        {
        case 0: b[at] = (uint8_t)s.pick<int>("character", { '{', '}', '(', ')', '[', ']', ',', ':', '\'', '"', '\\', ' ', '\n', '0', '9', 'T', 'F', 0, 255, '-' }); break;
        case 1: b[at] ^= (uint8_t)(1 << r.below(8)); break;
        case 2: b.resize(at); break;
        case 3: b.erase(b.begin() + (long)at, b.begin() + (long)std::min(b.size(), at + (size_t)s.in("length", 1, 20))); break;
        case 4:
        {
            static const std::vector<std::string> words = { "18446744073709551615", "18446744073709551616", "4294967296", "99999999999999999999999", "'shape': (4294967296, 4294967296)", "{'descr': '", "'", "\\", "((((", "{[(", "'a': {", "()", "0", "-1", "True", "'shape'", "(2,)", "'descr'", ": ", ", " };
            auto w = s.pick("word", words);
            b.insert(b.begin() + (long)at, w.begin(), w.end());
            break;
        }
        default:
        {
            size_t len = std::min(b.size() - at, (size_t)s.in("length", 1, 40));
            bytes x(b.begin() + (long)at, b.begin() + (long)(at + len));
            b.insert(b.begin() + (long)at, x.begin(), x.end());
        }
        }
    }
    if (b.size() >= 12 && b[6] >= 2)
        if ((b[8] | b[9] << 8 | b[10] << 16 | (uint64_t)b[11] << 24) > (1u << 24))
            throw Discard();
    std::deque<T> answers[2];
    kfr::npy_decode_result res[2];
    for (int k = 0; k < 2; k++)
    {
        tensor<T, D> q(to_shape<D>(std::vector<size_t>(D, 3)));
        std::deque<T> mark;
        for (auto& x : q)
            mark.push_back(x = value<T>(r));
        Source src{ &b };
        try
        {
            res[k] = kfr::load_from_npy(q, src);
        }
        catch (const std::bad_alloc&)
        {
            res[k] = (kfr::npy_decode_result)100; // sizes that are no error but need more memory than there is
        }
        if (res[k] == kfr::npy_decode_result::ok)
        {
            c.expect((size_t)q.size() * sizeof(T) + 10 <= src.pos, "more elements than the file has data");
            for (size_t j = 0; j < (size_t)q.size(); j++)
            {
                size_t m = j;
                shape<D> at;
                for (index_t a = D; a-- > 0;)
                {
                    at[a] = (index_t)(m % q.shape()[a]);
                    m /= q.shape()[a];
                }
                answers[k].push_back(q.access(at));
            }
        }
        else
            compare(c, q, std::vector<size_t>(D, 3), mark);
    }
    c.interesting(digest(b));
    c.label(fmt("answer %lld", (long long)res[0]));
    c.expect(res[0] == res[1], "the same file gives different answers");
    c.eq(answers[0].size(), answers[1].size(), "elements");
    for (size_t i = 0; i < answers[0].size(); i++)
        c.expect(same(answers[0][i], answers[1][i]), "the same file gives different elements");
}
#define FOR_D(F, T)                                                                                                    \
    switch (s.in("axes", 1, 4))                                                                                        \
    {                                                                                                                  \
    case 1: return F<T, 1>(s, c);                                                                                      \
    case 2: return F<T, 2>(s, c);                                                                                      \
    case 3: return F<T, 3>(s, c);                                                                                      \
    default: return F<T, 4>(s, c);                                                                                     \
    }
#define PBT_TESTS(T, N)                                                                                                \
    PBT_TEST(npy_round_trip_##N, 300, 6000) { FOR_D(round_trip, T) }                                                   \
    PBT_TEST(npy_foreign_##N, 500, 10000) { FOR_D(foreign, T) }                                                        \
    PBT_TEST(npy_damaged_##N, 600, 20000) { FOR_D(damaged, T) }
