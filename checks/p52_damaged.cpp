// Damaged audio streams: readers stay within their memory, their request and the stream, and always give the same answer.
#include "p51_codecs.hpp"

static void mutate(Src& s, bytes& b, Rng& r, size_t head)
{
    int n = (int)s.skew("mutations", 1, 12);
    for (int i = 0; i < n && !b.empty(); i++)
    {
        int kind    = (int)s.in("mutation", 0, 9);
        size_t span = s.flag("header", 2, 3) ? std::min(b.size(), head) : b.size();
        size_t at   = (size_t)s.in("at", 0, (int64_t)span - 1);
        size_t len  = (size_t)s.skew("length", 1, 64);
        static const std::vector<uint64_t> edge = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 32, 33, 63, 64, 65, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFF, ~0ull };
        switch (kind)
        {
        case 0: b[at] ^= (uint8_t)(1u << r.below(8)); break;
        case 1: b[at] = (uint8_t)r.u64(); break;
        case 2:
        case 3: // a field, little or big-endian
        {
            size_t w   = (size_t)s.pick<int>("field", { 1, 2, 4, 8, 3 });
            uint64_t v = s.flag("edge value", 2, 3) ? s.pick<uint64_t>("value", edge) : r.u64();
            if (s.flag("relative", 1, 4))
                v = b.size() + (uint64_t)r.range(-12, 12);
            for (size_t k = 0; k < w && at + k < b.size(); k++)
                b[at + k] = (uint8_t)(v >> 8 * (kind == 2 ? k : w - 1 - k));
            break;
        }
        case 4: b.resize(at); break;
        case 5: b.erase(b.begin() + (long)at, b.begin() + (long)std::min(b.size(), at + len)); break;
        case 6:
        {
            bytes x(len);
            for (auto& v : x)
                v = (uint8_t)r.u64();
            b.insert(b.begin() + (long)at, x.begin(), x.end());
            break;
        }
        case 7: // repeat a part
        {
            bytes x(b.begin() + (long)at, b.begin() + (long)std::min(b.size(), at + len));
            size_t to = (size_t)r.below(b.size() + 1);
            b.insert(b.begin() + (long)to, x.begin(), x.end());
            break;
        }
        case 8:
            for (size_t k = at; k < std::min(b.size(), at + len); k++)
                b[k] = (uint8_t)r.u64();
            break;
        default:
            for (size_t k = at; k < std::min(b.size(), at + len); k++)
                b[k] = s.flag("ones") ? 0xFF : 0;
        }
    }
}
// leaves a known pattern where the next calls keep their local variables
__attribute__((noinline, no_sanitize("address"))) static void paint_stack(int v)
{
    volatile char x[96 * 1024];
    for (size_t i = 0; i < sizeof x; i++)
        x[i] = (char)v;
}
struct Answer
{
    size_t got;
    bool ok;
    long long pos;
    bytes data;
};
struct Op
{
    bool seek;
    int origin;
    long long offset;
    size_t n;
};
template <typename T, typename R>
static std::vector<Answer> run(Case& c, const bytes& data, const std::vector<Op>& ops, int paint, ST& type, size_t& channels, long long& length, std::string& note)
{
    auto mem  = std::make_shared<Mem>();
    mem->data = data;
    paint_stack(paint);
    R rd(std::make_shared<mem_reader>(mem));
    auto& f  = rd.format();
    type     = f.type;
    channels = f.channels;
    length   = (long long)f.length;
    std::vector<Answer> out;
    for (auto& o : ops)
    {
        long long before = (long long)rd.tell();
        Answer a{ 0, false, 0, {} };
        paint_stack(paint);
        if (o.seek)
        {
            a.ok  = rd.seek(o.offset, o.origin == 0 ? kfr::seek_origin::begin : o.origin == 1 ? kfr::seek_origin::current : kfr::seek_origin::end);
            a.pos = (long long)rd.tell();
            if (type == ST::unknown)
                c.expect(!a.ok, "seek in a stream that is not open succeeds");
            if (!a.ok)
                c.eq(a.pos, before, "tell() after a seek that failed");
            c.expect(a.pos >= 0, "tell() is negative");
        }
        else
        {
            Samples<T> x(o.n);
            memset(x.b.data(), 0x5C, o.n * sizeof(T));
            a.got = rd.read(x.data(), o.n);
            a.pos = (long long)rd.tell();
            x.b.check(c, "output");
            c.expect(a.got <= o.n, fmt("%zu samples read, %zu asked for", a.got, o.n));
            if (type == ST::unknown)
                c.eq(a.got, (size_t)0, "samples read from a stream that is not open");
            else
            {
                c.eq(a.got % channels, (size_t)0, "samples read of an incomplete frame");
                c.eq(a.pos, before + (long long)(a.got / channels), "tell() after read");
            }
            for (size_t i = a.got * sizeof(T); i < o.n * sizeof(T); i++)
                if (x.b[i] != 0x5C)
                {
                    note = "changed past the end";
                    break;
                }
            a.data.assign((uint8_t*)x.b.data(), (uint8_t*)x.b.data() + a.got * sizeof(T));
        }
        out.push_back(a);
    }
    return out;
}
template <typename T, typename R>
static void both(Src& s, Case& c, const bytes& data)
{
    std::vector<Op> ops;
    int n = (int)s.in("operations", 1, 7);
    for (int i = 0; i < n; i++)
    {
        Op o{ s.flag("seek", 1, 3), 0, 0, 0 };
        if (o.seek)
        {
            o.origin = (int)s.in("origin", 0, 2);
            o.offset = s.flag("far", 1, 6) ? s.pick<int64_t>("offset", { INT64_MAX / 4, -(INT64_MAX / 4), 1ll << 33, -(1ll << 33), 0x7FFFFFFF, 0x80000000ll }) : s.in("offset", -3000, 3000);
        }
        else
            o.n = (size_t)s.skew("samples", 0, 5000);
        ops.push_back(o);
    }
    ST t1, t2;
    size_t c1, c2;
    long long l1, l2;
    std::string note;
    auto a = run<T, R>(c, data, ops, 0x11, t1, c1, l1, note);
    auto b = run<T, R>(c, data, ops, 0xC3, t2, c2, l2, note);
    c.label(t1 == ST::unknown ? "rejected" : a.size() && std::any_of(a.begin(), a.end(), [](const Answer& x) { return x.got; }) ? "decoded" : "open");
    c.expect(t1 == t2 && c1 == c2 && l1 == l2, "the same stream is described differently when read again");
    for (size_t i = 0; i < a.size(); i++)
    {
        c.eq(b[i].got, a[i].got, "samples read from the same stream again");
        c.eq((int)b[i].ok, (int)a[i].ok, "result of seek in the same stream again");
        c.eq(b[i].pos, a[i].pos, "position in the same stream again");
        for (size_t k = 0; k < a[i].data.size(); k++)
            c.expect(a[i].data[k] == b[i].data[k], fmt("operation %zu: sample %zu differs when the same stream is read again", i, k / sizeof(T)));
    }
    uint64_t h = 1469598103934665603ull;
    for (auto v : data)
        h = (h ^ v) * 1099511628211ull;
    c.interesting((int)st_of<T>(), h);
}
template <typename T>
static void wav_case(Src& s, Case& c)
{
    WavSpec w{};
    w.type       = s.pick<ST>("type", { ST::i16, ST::i8, ST::i24, ST::i32, ST::f32, ST::f64 });
    w.channels   = (unsigned)s.in("channels", 1, 6);
    w.rate       = 44100;
    w.w64        = s.flag("w64", 1, 3);
    w.extensible = s.flag("extensible", 1, 3);
    w.float_tag  = st_float(w.type);
    if (s.flag("foreign chunks", 1, 2))
        w.junk_before = (size_t)s.in("before", 0, 20), w.junk_middle = (size_t)s.in("middle", 0, 20), w.junk_after = (size_t)s.in("after", 0, 20);
    size_t frames = (size_t)s.skew("frames", 0, 400);
    Rng r         = s.bulk();
    w.pcm.resize(frames * w.channels * st_size(w.type));
    for (auto& v : w.pcm)
        v = (uint8_t)r.u64();
    bytes b = wav_make(w, r);
    if (s.flag("compressed", 1, 4)) // formats dr_wav knows: ADPCM, A-law, mu-law, IMA
    {
        for (size_t i = 0; i + 8 < b.size() && i < 200; i++)
            if (!memcmp(&b[i], "fmt ", 4))
            {
                size_t f = i + (w.w64 ? 24 : 8);
                if (f + 16 <= b.size())
                {
                    unsigned tag = s.pick<unsigned>("tag", { 2u, 6u, 7u, 0x11u, 3u, 1u });
                    b[f] = (uint8_t)tag, b[f + 1] = 0;
                    b[f + 14] = (uint8_t)s.pick<int>("depth", { 4, 8, 16, 3, 64 });
                    b[f + 12] = (uint8_t)s.pick<int>("block align", { 0, 1, 2, 4, 7, 36, 255 });
                }
                break;
            }
    }
    mutate(s, b, r, 120);
    both<T, kfr::audio_reader_wav<T>>(s, c, b);
}
template <typename T>
static void flac_case(Src& s, Case& c)
{
    FlacSpec f = flac_pick(s, 1200);
    Rng r      = s.bulk();
    f.wild     = s.flag("checksums are right", 1, 2);
    if (f.wild && s.flag("small blocks", 1, 3))
        f.block = (unsigned)s.in("small block", 1, 16);
    bytes b = flac_make(f, r);
    if (f.wild && s.flag("otherwise undamaged", 3, 4))
        ;
    else if (s.flag("undamaged header", 1, 2))
    {
        bytes h(b.begin(), b.begin() + (long)std::min<size_t>(b.size(), 42)), t(b.begin() + (long)h.size(), b.end());
        mutate(s, t, r, 60);
        h.insert(h.end(), t.begin(), t.end());
        b = h;
    }
    else
        mutate(s, b, r, 80);
    both<T, kfr::audio_reader_flac<T>>(s, c, b);
}
template <typename T>
static void mp3_case(Src& s, Case& c)
{
    Mp3Spec m;
    bytes b = mp3_make(s, m, 8);
    Rng r   = s.bulk();
    mutate(s, b, r, 80);
    both<T, kfr::audio_reader_mp3<T>>(s, c, b);
}
template <typename T>
static void noise_case(Src& s, Case& c)
{
    size_t n = (size_t)s.skew("bytes", 0, 600);
    Rng r    = s.bulk();
    bytes b(n);
    for (auto& v : b)
        v = (uint8_t)r.u64();
    int magic = (int)s.in("magic", 0, 4);
    if (magic == 0 && n > 12)
        memcpy(b.data(), "RIFF", 4), memcpy(&b[8], "WAVE", 4);
    if (magic == 1 && n > 4)
        memcpy(b.data(), "fLaC", 4);
    if (magic == 2)
        for (size_t i = 0; i + 4 < n; i += 100)
            b[i] = 0xFF, b[i + 1] = 0xFB;
    if (magic == 3 && n > 64) // Ogg page with a FLAC stream
        memcpy(b.data(), "OggS", 4), b[4] = 0, b[5] = 2, b[26] = 1, b[27] = 51, b[28] = 0x7F, memcpy(&b[29], "FLAC", 4), b[33] = 1, memcpy(&b[37], "fLaC", 4);
    switch (s.in("reader", 0, 2))
    {
    case 0: both<T, kfr::audio_reader_wav<T>>(s, c, b); break;
    case 1: both<T, kfr::audio_reader_flac<T>>(s, c, b); break;
    default: both<T, kfr::audio_reader_mp3<T>>(s, c, b);
    }
}
#define T3(N, F, Q, TH)                                                                                      \
    PBT_TEST(N##_i16, Q, TH) { F<i16>(s, c); }                                                               \
    PBT_TEST(N##_i24, Q, TH) { F<i24>(s, c); }                                                               \
    PBT_TEST(N##_f32, Q, TH) { F<float>(s, c); }                                                             \
    PBT_TEST(N##_i32, Q, TH) { F<i32>(s, c); }
T3(damaged_wav, wav_case, 3000, 150000)
T3(damaged_flac, flac_case, 2000, 100000)
T3(damaged_mp3, mp3_case, 1500, 100000)
T3(noise, noise_case, 800, 80000)
