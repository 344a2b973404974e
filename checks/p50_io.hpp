// In-memory streams, reference sample conversion, and readers as one interface.
#pragma once
#include <kfr/base.hpp>
#include <kfr/base/conversion.hpp>
#include <kfr/io/audiofile.hpp>
#include "pbt.hpp"
#include <memory>
#include <unistd.h>
#include <sys/stat.h>
using namespace pbt;
using ld    = long double;
using bytes = std::vector<uint8_t>;
using ST    = kfr::audio_sample_type;
using kfr::i16;
using kfr::i24;
using kfr::i32;
using kfr::i64;
using kfr::i8;

struct Mem
{
    bytes data;
    size_t limit = SIZE_MAX; // a device that is full at this size
};
struct mem_writer : kfr::abstract_writer<>
{
    std::shared_ptr<Mem> m;
    size_t pos = 0;
    mem_writer(std::shared_ptr<Mem> m_) : m(m_) {}
    size_t write(const void* d, size_t n) override
    {
        n = pos >= m->limit ? 0 : std::min(n, m->limit - pos);
        if (pos + n > m->data.size())
            m->data.resize(pos + n);
        if (n)
            memcpy(m->data.data() + pos, d, n);
        pos += n;
        return n;
    }
    kfr::imax tell() const override { return (kfr::imax)pos; }
    bool seek(kfr::imax o, kfr::seek_origin w) override
    {
        kfr::imax t = o + (w == kfr::seek_origin::begin ? 0 : w == kfr::seek_origin::current ? (kfr::imax)pos : (kfr::imax)m->data.size());
        if (t < 0)
            return false;
        pos = (size_t)t;
        return true;
    }
};
struct mem_reader : kfr::abstract_reader<>
{
    std::shared_ptr<Mem> m;
    size_t pos = 0;
    mem_reader(std::shared_ptr<Mem> m_) : m(m_) {}
    size_t read(void* d, size_t n) override
    {
        n = pos >= m->data.size() ? 0 : std::min(n, m->data.size() - pos);
        if (n)
            memcpy(d, m->data.data() + pos, n);
        pos += n;
        return n;
    }
    kfr::imax tell() const override { return (kfr::imax)pos; }
    bool seek(kfr::imax o, kfr::seek_origin w) override
    {
        kfr::imax t = o + (w == kfr::seek_origin::begin ? 0 : w == kfr::seek_origin::current ? (kfr::imax)pos : (kfr::imax)m->data.size());
        if (t < 0 || t > (kfr::imax)m->data.size())
            return false;
        pos = (size_t)t;
        return true;
    }
};
// a scratch file that goes away with the object
struct Scratch
{
    std::string dir, path;
    Scratch()
    {
        char t[] = "/tmp/kfrpbt-XXXXXX";
        if (!mkdtemp(t))
            throw Fail("mkdtemp");
        dir  = t;
        path = dir + "/f";
    }
    ~Scratch()
    {
        unlink(path.c_str());
        rmdir(dir.c_str());
    }
    bytes get() const
    {
        bytes b;
        FILE* f = fopen(path.c_str(), "rb");
        if (!f)
            return b;
        uint8_t buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0)
            b.insert(b.end(), buf, buf + n);
        fclose(f);
        return b;
    }
    void put(const bytes& b) const
    {
        FILE* f = fopen(path.c_str(), "wb");
        if (f)
        {
            fwrite(b.data(), 1, b.size(), f);
            fclose(f);
        }
    }
};

static inline ld full_scale(ST t)
{
    switch (t)
    {
    case ST::i8: return 127;
    case ST::i16: return 32767;
    case ST::i24: return 8388607;
    case ST::i32: return 2147483647.0L;
    case ST::i64: return 9223372036854775807.0L;
    default: return 1;
    }
}
static inline size_t st_size(ST t)
{
    switch (t)
    {
    case ST::i8: return 1;
    case ST::i16: return 2;
    case ST::i24: return 3;
    case ST::i32:
    case ST::f32: return 4;
    default: return 8;
    }
}
static inline bool st_float(ST t) { return t == ST::f32 || t == ST::f64; }
static inline const char* st_name(ST t)
{
    static const char* n[] = { "unknown", "i8", "i16", "i24", "i32", "i64", "f32", "f64" };
    return n[(int)t];
}
// value of the little-endian sample at p, as a number in its own scale
static inline ld st_value(ST t, const uint8_t* p)
{
    if (t == ST::f32)
    {
        float f;
        memcpy(&f, p, 4);
        return f;
    }
    if (t == ST::f64)
    {
        double f;
        memcpy(&f, p, 8);
        return f;
    }
    uint64_t v = 0;
    size_t n   = st_size(t);
    for (size_t i = 0; i < n; i++)
        v |= (uint64_t)p[i] << (8 * i);
    return (ld)((int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n));
}
static inline void st_random(ST t, Rng& r, uint8_t* p, bool loud)
{
    int k = (int)r.below(12);
    if (st_float(t))
    {
        double x = k == 0 ? 1 : k == 1 ? -1 : k == 2 ? 0 : k == 3 ? r.sym() * 1e-4 : r.sym();
        if (loud && k == 4)
            x = r.sym() * 3;
        if (t == ST::f32)
        {
            float f = (float)x;
            memcpy(p, &f, 4);
        }
        else
            memcpy(p, &x, 8);
        return;
    }
    size_t n   = st_size(t);
    int64_t mx = (int64_t)((uint64_t)-1 >> (65 - 8 * n));
    int64_t v  = k == 0 ? mx : k == 1 ? -mx : k == 2 && loud ? -mx - 1 : k == 3 ? r.range(-3, 3) : (int64_t)r.u64() >> (64 - 8 * n);
    if (!loud && v < -mx)
        v = -mx;
    for (size_t i = 0; i < n; i++)
        p[i] = (uint8_t)((uint64_t)v >> (8 * i));
}
// The documented conversion: rescale full scale to full scale, clip, drop the fraction.
// Compares the sample `got` of type `to` with the conversion of `in` (of type `from`).
static inline bool st_converted(ST from, ld in, ST to, ld got, ld& want)
{
    if (from == to)
    {
        want = in;
        return got == in;
    }
    ld x = in * (full_scale(to) / full_scale(from));
    if (x > full_scale(to))
        x = full_scale(to);
    if (x < -full_scale(to))
        x = -full_scale(to);
    // arithmetic is done in f32 unless a 32- or 64-bit integer or f64 takes part
    bool dbl = from == ST::f64 || to == ST::f64 || from == ST::i32 || to == ST::i32 || from == ST::i64 || to == ST::i64;
    ld eps   = dbl ? 0x1p-52L : 0x1p-23L;
    if (to == ST::f32)
        eps = 0x1p-23L;
    want = x;
    ld tol = std::fabs(x) * eps * 3;
    if (to == ST::i64)
        tol += 1024; // full scale is not representable in f64
    if (st_float(to))
        return std::fabs(got - x) <= tol + 1e-40L;
    // truncated after at most `tol` of rounding; never beyond full scale
    return std::fabs(got) <= full_scale(to) && std::fabs(got - x) < 1 + tol + (x == std::trunc(x) ? 0 : 0);
}
template <typename T>
constexpr ST st_of()
{
    return std::is_same_v<T, i8>    ? ST::i8
           : std::is_same_v<T, i16> ? ST::i16
           : std::is_same_v<T, i24> ? ST::i24
           : std::is_same_v<T, i32> ? ST::i32
           : std::is_same_v<T, i64> ? ST::i64
           : std::is_same_v<T, float> ? ST::f32
                                      : ST::f64;
}
static inline void put16(bytes& b, unsigned v)
{
    b.push_back((uint8_t)v);
    b.push_back((uint8_t)(v >> 8));
}
static inline void put32(bytes& b, uint32_t v)
{
    put16(b, v & 0xFFFF);
    put16(b, v >> 16);
}
static inline void put64(bytes& b, uint64_t v)
{
    put32(b, (uint32_t)v);
    put32(b, (uint32_t)(v >> 32));
}
static inline void puts4(bytes& b, const char* s) { b.insert(b.end(), s, s + 4); }
static inline uint64_t getn(const bytes& b, size_t at, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; i++)
        v |= (uint64_t)(at + (size_t)i < b.size() ? b[at + (size_t)i] : 0) << (8 * i);
    return v;
}
// ---- Sony Wave64 identifiers
static const uint8_t W64_RIFF[16] = { 0x72, 0x69, 0x66, 0x66, 0x2E, 0x91, 0xCF, 0x11, 0xA5, 0xD6, 0x28, 0xDB, 0x04, 0xC1, 0x00, 0x00 };
static const uint8_t W64_TAIL[12] = { 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
static inline void putguid(bytes& b, const char* s)
{
    puts4(b, s);
    b.insert(b.end(), W64_TAIL, W64_TAIL + 12);
}

// ---- a WAV file made here
struct WavSpec
{
    ST type;
    unsigned channels, rate;
    bool w64, extensible, float_tag;
    size_t junk_before = 0, junk_middle = 0, junk_after = 0; // sizes of foreign chunks, 0 for none
    bytes pcm; // little-endian signed samples as kfr sees them
};
static inline void wav_chunk(bytes& b, bool w64, const char* id, const bytes& body)
{
    if (!w64)
    {
        puts4(b, id);
        put32(b, (uint32_t)body.size());
        b.insert(b.end(), body.begin(), body.end());
        if (body.size() & 1)
            b.push_back(0);
    }
    else
    {
        putguid(b, id);
        put64(b, body.size() + 24);
        b.insert(b.end(), body.begin(), body.end());
        while (b.size() % 8)
            b.push_back(0);
    }
}
static inline bytes wav_make(const WavSpec& w, Rng& r)
{
    bytes b;
    auto junk = [&](size_t n)
    {
        bytes x(n);
        for (auto& v : x)
            v = (uint8_t)r.u64();
        if (n)
            wav_chunk(b, w.w64, "junk", x);
    };
    if (!w.w64)
    {
        puts4(b, "RIFF");
        put32(b, 0);
        puts4(b, "WAVE");
    }
    else
    {
        b.insert(b.end(), W64_RIFF, W64_RIFF + 16);
        put64(b, 0);
        putguid(b, "wave");
    }
    junk(w.junk_before);
    bytes f;
    unsigned bits = (unsigned)st_size(w.type) * 8, tag = st_float(w.type) ? 3 : 1;
    put16(f, w.extensible ? 0xFFFE : tag);
    put16(f, w.channels);
    put32(f, w.rate);
    put32(f, w.rate * w.channels * bits / 8);
    put16(f, w.channels * bits / 8);
    put16(f, bits);
    if (w.extensible)
    {
        put16(f, 22);
        put16(f, bits);
        put32(f, 0);
        put16(f, tag);
        static const uint8_t g[14] = { 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71 };
        f.insert(f.end(), g, g + 14);
    }
    wav_chunk(b, w.w64, "fmt ", f);
    junk(w.junk_middle);
    bytes d = w.pcm;
    if (w.type == ST::i8) // stored with an offset, as the format has it
        for (auto& v : d)
            v ^= 0x80;
    wav_chunk(b, w.w64, "data", d);
    junk(w.junk_after);
    if (!w.w64)
    {
        uint32_t n = (uint32_t)b.size() - 8;
        memcpy(&b[4], &n, 4);
    }
    else
    {
        uint64_t n = b.size();
        memcpy(&b[16], &n, 8);
    }
    return b;
}
template <typename T>
static ld num(const T& x)
{
    return (ld)x;
}
static inline ld num(const i24& x) { return (ld)x.as_int(); }
// zero-filled array of samples inside guards (i24 has no default constructor)
template <typename T>
struct Samples
{
    Buf<uint8_t> b;
    explicit Samples(size_t n) : b(n * sizeof(T), 0) {}
    T* data() { return reinterpret_cast<T*>(b.data()); }
    ld at(size_t i)
    {
        return num(data()[i]);
    }
};
