// Conversion, interleaving and deinterleaving of audio samples between every pair of sample types.
#include <kfr/base.hpp>
#include "pbt.hpp"
using namespace pbt;
using kfr::i24;
using kfr::audio_sample_type;
using ld = long double;

template <typename T>
struct Sample
{
    static constexpr bool real = std::is_floating_point_v<T>;
    // the value that stands for 1.0, and the extremes of the type
    static constexpr ld full() { return real ? 1 : (ld)((1ull << (sizeof(T) * 8 - 1)) - 1); }
    static ld get(const T& v) { return (ld)v; }
    static bool equal(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
};
template <>
struct Sample<i24>
{
    static constexpr bool real = false;
    static constexpr ld full() { return 8388607; }
    static ld get(const i24& v) { return (ld)(int32_t)v; }
    static bool equal(const i24& a, const i24& b) { return get(a) == get(b); }
};

template <typename T>
static T any(Rng& r, int style)
{
    const ld full = Sample<T>::full();
    if constexpr (Sample<T>::real)
    {
        switch (style == 4 ? r.below(4) : style)
        {
        case 0: return (T)(r.sym());
        case 1: return (T)(r.sym() * std::pow(10.0, (double)r.range(-12, 12)));
        case 2: // near a step of some integer type
        {
            static const ld steps[] = { 127, 32767, 8388607, 2147483647, 9223372036854775807.0L };
            ld n = steps[r.below(5)];
            return (T)((std::floor(r.sym() * n) + r.sym() * 0.01L) / n);
        }
        default:
        {
            static const ld e[] = { 0, 1, -1, 0.5L, 2, -2, 1 - 1e-7L, 1 + 2e-7L, -1 - 2e-7L, 1e30L, -1e30L };
            T v = (T)e[r.below(11)];
            if (r.chance(1, 20))
                return r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
            return v;
        }
        }
    }
    else
    {
        int64_t v;
        switch (style == 4 ? r.below(4) : style)
        {
        case 0: v = (int64_t)r.u64(); break;
        case 1: v = (int64_t)r.u64() >> r.below(60); break;
        case 2: v = r.range(-300, 300); break;
        default: v = (r.chance(1, 2) ? (int64_t)full : -(int64_t)full - 1) + r.range(-3, 3);
        }
        // sign extended to the type
        int sh = 64 - (full == 8388607 ? 24 : (int)sizeof(T) * 8);
        v      = (int64_t)((uint64_t)v << sh) >> sh;
        if constexpr (std::is_same_v<T, i24>)
            return i24((int32_t)v);
        else
            return (T)v;
    }
}

// The documented meaning: full scale maps to full scale, values are clipped there, and rounded by less than one step
template <typename Tout, typename Tin>
static void judge(Case& c, const char* how, const Tin& in, const Tout& out, size_t at)
{
    if constexpr (std::is_same_v<Tin, Tout>)
    {
        c.expect(Sample<Tout>::equal(in, out), fmt("%s: sample %zu of %zu bytes changed from %.20Lg to %.20Lg", how, at, sizeof(Tin), Sample<Tin>::get(in), Sample<Tout>::get(out)));
        return;
    }
    const ld fi = Sample<Tin>::full(), fo = Sample<Tout>::full();
    const ld v = Sample<Tin>::get(in), ideal = std::max(std::min(v / fi * fo, fo), -fo), got = Sample<Tout>::get(out);
    // 32-bit arithmetic between types of up to 24 bits and f32, 64-bit arithmetic otherwise
    const bool wide = fi > 8388607 || fo > 8388607 || sizeof(Tin) == 8 || sizeof(Tout) == 8;
    ld tol          = std::fabs(ideal) * (wide && !std::is_same_v<Tout, float> ? 0x1p-51L : 0x1.8p-22L);
    if (Sample<Tout>::real)
        tol += 1e-44L;
    else
        tol += 1;
    if (!(std::fabs(got - ideal) <= tol) || std::fabs(got) > fo + (fo > 1e18L ? 0 : 0))
        c.fail(fmt("%s: sample %zu is %.20Lg, converted from %.20Lg (full scale %.20Lg to %.20Lg), expected %.20Lg", how, at, got, v, fi, fo, ideal));
    if (v == 0)
        c.expect(got == 0, fmt("%s: silence becomes %.20Lg", how, got));
}

template <typename T>
struct Guarded // elements with a margin on either side that must not change
{
    std::vector<unsigned char> mem;
    size_t n;
    static constexpr size_t margin = 64;
    explicit Guarded(size_t n, unsigned offset) : mem(n * sizeof(T) + 2 * margin + 16, 0xA5), n(n), off(margin + offset * (alignof(T) < 2 ? 1 : alignof(T))) {}
    size_t off;
    T* data() { return (T*)(mem.data() + off); }
    void check(Case& c, const char* how) const
    {
        for (size_t i = 0; i < mem.size(); i++)
            if (i < off || i >= off + n * sizeof(T))
                if (mem[i] != 0xA5)
                    c.fail(fmt("%s: byte %td outside of the output of %zu bytes changed", how, (ptrdiff_t)i - (ptrdiff_t)off, n * sizeof(T)));
    }
};

template <typename Tout, typename Tin>
static void run(Src& s, Case& c)
{
    Rng r      = s.bulk("values");
    int style  = s.in("style", 0, 4);
    int op     = s.in("operation", 0, 5);
    size_t n   = s.skew("frames", 0, 200), ch = s.in("channels", 1, 8);
    unsigned o = s.in("offset", 0, 1);
    c.interesting(op, style, n, ch, sizeof(Tin), sizeof(Tout), Sample<Tin>::real, r.u64());
    static const char* names[] = { "convert", "run-time type", "interleave", "deinterleave", "univectors", "one sample" };
    c.label(names[op]);
    if (op == 0 || op == 1)
    {
        std::vector<Tin> in(n, Tin(0));
        for (auto& v : in)
            v = any<Tin>(r, style);
        Guarded<Tout> out(n, o);
        const audio_sample_type ti = kfr::audio_sample_traits<Tin>::type, to = kfr::audio_sample_traits<Tout>::type;
        c.expect(kfr::audio_sample_sizeof(ti) == (std::is_same_v<Tin, i24> ? 3 : sizeof(Tin)) && kfr::audio_sample_bit_depth(ti) == 8 * kfr::audio_sample_sizeof(ti), "size of a sample");
        if (op == 0)
            kfr::convert(out.data(), in.data(), n);
        else if (s.flag("known output"))
            kfr::convert(out.data(), (const void*)in.data(), ti, n);
        else
            kfr::convert((void*)out.data(), to, in.data(), n);
        out.check(c, names[op]);
        for (size_t i = 0; i < n; i++)
            judge(c, names[op], in[i], out.data()[i], i);
        // there and back, and symmetry of signs and order
        if (op == 0)
        {
            std::vector<Tin> back(n, Tin(0));
            kfr::convert(back.data(), out.data(), n);
            for (size_t i = 0; i < n; i++)
                judge(c, "back", out.data()[i], back[i], i);
            for (size_t i = 0; i + 1 < n; i++)
            {
                ld a = Sample<Tin>::get(in[i]), b = Sample<Tin>::get(in[i + 1]), x = Sample<Tout>::get(out.data()[i]), y = Sample<Tout>::get(out.data()[i + 1]);
                c.expect(!(a <= b) || x <= y, fmt("order of samples: %.20Lg and %.20Lg become %.20Lg and %.20Lg", a, b, x, y));
                c.expect(a != -b || x == -y || (std::is_same_v<Tin, Tout>), fmt("samples %.20Lg and %.20Lg become %.20Lg and %.20Lg", a, b, x, y));
            }
        }
        return;
    }
    if (op == 5)
    {
        for (size_t i = 0; i < n; i++)
        {
            Tin v = any<Tin>(r, style);
            judge(c, "sample", v, kfr::convert_sample<Tout>(v), i);
        }
        return;
    }
    if (op == 2 || op == 3)
    {
        std::vector<std::vector<Tin>> in(op == 2 ? ch : 1, std::vector<Tin>(op == 2 ? n : n * ch, Tin(0)));
        for (auto& v : in)
            for (auto& x : v)
                x = any<Tin>(r, style);
        std::vector<Guarded<Tout>> out;
        for (size_t k = 0; k < (op == 2 ? 1 : ch); k++)
            out.emplace_back(op == 2 ? n * ch : n, o);
        std::vector<const Tin*> pi;
        std::vector<Tout*> po;
        for (auto& v : in)
            pi.push_back(v.data());
        for (auto& v : out)
            po.push_back(v.data());
        if (op == 2)
            kfr::interleave(po[0], pi.data(), ch, n);
        else
            kfr::deinterleave(po.data(), pi[0], ch, n);
        for (auto& v : out)
            v.check(c, names[op]);
        for (size_t k = 0; k < ch; k++)
            for (size_t i = 0; i < n; i++)
            {
                if (op == 2)
                    judge(c, names[op], in[k][i], po[0][i * ch + k], i);
                else
                    judge(c, names[op], in[0][i * ch + k], po[k][i], i);
            }
        return;
    }
    // vectors of channels; the interleaved side may have an incomplete last frame
    size_t extra = s.in("extra", 0, (int)ch - 1);
    if (s.flag("interleave"))
    {
        kfr::univector2d<Tin> in(s.flag("none", 1, 20) ? 0 : ch, kfr::univector<Tin>(n, Tin(0)));
        for (auto& v : in)
            for (auto& x : v)
                x = any<Tin>(r, style);
        kfr::univector<Tout> out(n * ch + extra, Tout(0));
        Tout mark = any<Tout>(r, 2);
        for (auto& x : out)
            x = mark;
        kfr::interleave(out, in);
        for (size_t i = 0; i < out.size(); i++)
            if (in.empty() || i >= n * ch)
                c.expect(Sample<Tout>::equal(out[i], mark), fmt("interleave changed sample %zu of an incomplete frame", i));
            else
                judge(c, "interleave", in[i % ch][i / ch], out[i], i);
        if constexpr (!std::is_same_v<Tin, i24>) // (i24 has no default constructor, which this form requires)
        {
        kfr::univector<Tin> same = kfr::interleave(in);
        c.expect(same.size() == (in.empty() ? 0 : n * ch), fmt("interleave of %zu channels of %zu frames has %zu samples", in.size(), n, same.size()));
        for (size_t i = 0; i < same.size(); i++)
            judge(c, "interleave", in[i % ch][i / ch], same[i], i);
        }
    }
    else
    {
        kfr::univector<Tin> in(n * ch + extra, Tin(0));
        for (auto& x : in)
            x = any<Tin>(r, style);
        size_t longer = s.in("longer", 0, 5);
        kfr::univector2d<Tout> out(s.flag("none", 1, 20) ? 0 : ch, kfr::univector<Tout>(n + longer, Tout(0)));
        Tout mark = any<Tout>(r, 2);
        for (auto& v : out)
            for (auto& x : v)
                x = mark;
        kfr::deinterleave(out, in);
        for (size_t k = 0; k < out.size(); k++)
            for (size_t i = 0; i < n + longer; i++)
                if (i < n)
                    judge(c, "deinterleave", in[i * ch + k], out[k][i], i);
                else
                    c.expect(Sample<Tout>::equal(out[k][i], mark), fmt("deinterleave of %zu frames changed sample %zu", n, i));
    }
}

template <typename Tout>
static void from(Src& s, Case& c)
{
    switch (s.in("from", 0, 6))
    {
    case 0: return run<Tout, int8_t>(s, c);
    case 1: return run<Tout, int16_t>(s, c);
    case 2: return run<Tout, i24>(s, c);
    case 3: return run<Tout, int32_t>(s, c);
    case 4: return run<Tout, int64_t>(s, c);
    case 5: return run<Tout, float>(s, c);
    default: return run<Tout, double>(s, c);
    }
}
PBT_TEST(conversion, 40000, 800000)
{
    switch (s.in("to", 0, 6))
    {
    case 0: return from<int8_t>(s, c);
    case 1: return from<int16_t>(s, c);
    case 2: return from<i24>(s, c);
    case 3: return from<int32_t>(s, c);
    case 4: return from<int64_t>(s, c);
    case 5: return from<float>(s, c);
    default: return from<double>(s, c);
    }
}
