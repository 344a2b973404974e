// WAV files: what is written is a valid file that holds the samples; what is read is what the file holds.
#include "p50_io.hpp"

template <typename T>
static void write_case(Src& s, Case& c)
{
    constexpr ST own = st_of<T>();
    ST type       = s.pick<ST>("type", { ST::i16, ST::i24, ST::i32, ST::f32, ST::f64, ST::i8, ST::i64 });
    if (s.flag("same"))
        type = own;
    size_t ch     = (size_t)s.in("channels", 1, 6);
    size_t frames = (size_t)s.skew("frames", 0, 700);
    unsigned rate = s.pick<unsigned>("rate", { 44100u, 8000u, 48000u, 192000u, 1u, 4000000u });
    bool w64 = s.flag("w64", 1, 3), file = s.flag("file", 1, 6), chans = s.flag("channels2d", 1, 4), dtor = s.flag("destroy");
    auto parts    = s.splits("parts", frames, 300);
    size_t extra  = ch > 1 && s.flag("partial frames", 1, 3) ? (size_t)s.in("extra", 1, (int64_t)ch - 1) : 0;
    Rng r         = s.bulk();
    bool loud     = s.flag("loud");
    c.interesting((int)own, (int)type, ch, frames, w64);
    bytes src(frames * ch * sizeof(T));
    for (size_t i = 0; i < frames * ch; i++)
        st_random(own, r, &src[i * sizeof(T)], loud);

    auto mem = std::make_shared<Mem>();
    std::unique_ptr<Scratch> scratch(file ? new Scratch : nullptr);
    std::shared_ptr<kfr::abstract_writer<>> out;
    if (file)
        out = kfr::open_file_for_writing(scratch->path);
    else
        out = std::make_shared<mem_writer>(mem);
    kfr::audio_format f;
    f.channels = ch, f.type = type, f.samplerate = rate, f.use_w64 = w64;
    {
        auto w = std::make_unique<kfr::audio_writer_wav<T>>(std::move(out), f);
        size_t done = 0;
        for (size_t p : parts)
        {
            size_t got;
            if constexpr (!std::is_same_v<T, i24>)
            {
                if (chans)
                {
                    kfr::univector2d<T> d(ch, kfr::univector<T>(p));
                    for (size_t i = 0; i < p; i++)
                        for (size_t k = 0; k < ch; k++)
                            memcpy(&d[k][i], &src[((done + i) * ch + k) * sizeof(T)], sizeof(T));
                    got = w->write_channels(d) * ch;
                }
                else
                {
                    Buf<T> x(p * ch + extra, 0);
                    memcpy((void*)x.data(), src.data() + done * ch * sizeof(T), p * ch * sizeof(T));
                    got = w->write(x.data(), p * ch + extra);
                }
            }
            else
            {
                Samples<T> x(p * ch + extra);
                memcpy((void*)x.data(), src.data() + done * ch * sizeof(T), p * ch * sizeof(T));
                got = w->write(x.data(), p * ch + extra);
            }
            c.eq(got, p * ch, "number of samples accepted");
            done += p;
            c.eq((size_t)w->tell(), done, "tell()");
            c.eq((size_t)w->format().length, done, "format().length");
        }
        c.eq(w->format().channels, ch, "format().channels");
        if (!dtor)
        {
            w->close();
            if (parts.size() && parts[0])
                c.eq(w->write((const T*)src.data(), ch), (size_t)0, "write after close");
        }
    }
    bytes b = file ? scratch->get() : mem->data;
    // ---- read the file by the rules of the format
    size_t at, nd, fm;
    if (!w64)
    {
        c.expect(b.size() >= 44 && !memcmp(&b[0], "RIFF", 4) && !memcmp(&b[8], "WAVE", 4), "RIFF header");
        c.eq(getn(b, 4, 4), (uint64_t)b.size() - 8, "size in the RIFF header");
        c.eq(b.size() % 2, (size_t)0, "length of the file modulo 2");
        c.expect(!memcmp(&b[12], "fmt ", 4), "fmt chunk");
        fm = 20;
        at = 20 + getn(b, 16, 4);
        c.expect(at + 8 <= b.size() && !memcmp(&b[at], "data", 4), "data chunk");
        nd = getn(b, at + 4, 4);
        at += 8;
    }
    else
    {
        c.expect(b.size() >= 104 && !memcmp(&b[0], W64_RIFF, 16) && !memcmp(&b[24], "wave", 4) && !memcmp(&b[28], W64_TAIL, 12), "Wave64 header");
        c.eq(getn(b, 16, 8), (uint64_t)b.size(), "size in the Wave64 header");
        c.eq(b.size() % 8, (size_t)0, "length of the file modulo 8");
        c.expect(!memcmp(&b[40], "fmt ", 4), "fmt chunk");
        fm = 64;
        at = 40 + getn(b, 56, 8);
        c.expect(at + 24 <= b.size() && !memcmp(&b[at], "data", 4), "data chunk");
        nd = getn(b, at + 16, 8) - 24;
        at += 24;
    }
    c.eq(nd, frames * ch * st_size(type), "size of the data chunk");
    c.expect(at + nd <= b.size() && b.size() - at - nd < 8, "the data chunk ends the file");
    c.eq(getn(b, fm, 2), (uint64_t)(st_float(type) ? 3 : 1), "format tag");
    c.eq(getn(b, fm + 2, 2), (uint64_t)ch, "channels in the file");
    c.eq(getn(b, fm + 4, 4), (uint64_t)rate, "sample rate in the file");
    c.eq(getn(b, fm + 8, 4), (uint64_t)rate * ch * st_size(type) & 0xFFFFFFFF, "bytes per second");
    c.eq(getn(b, fm + 12, 2), (uint64_t)ch * st_size(type), "block size");
    c.eq(getn(b, fm + 14, 2), (uint64_t)st_size(type) * 8, "bits per sample");
    for (size_t i = 0; i < frames * ch; i++)
    {
        uint8_t q[8];
        memcpy(q, &b[at + i * st_size(type)], st_size(type));
        if (type == ST::i8)
            q[0] ^= 0x80;
        ld in = st_value(own, &src[i * sizeof(T)]), got = st_value(type, q), want;
        if (!st_converted(own, in, type, got, want))
            c.fail(fmt("sample %zu: %.12Lg of %s is stored as %.12Lg of %s, expected %.12Lg", i, in, st_name(own), got, st_name(type), want));
    }
}

template <typename T>
static void read_case(Src& s, Case& c)
{
    constexpr ST own = st_of<T>();
    WavSpec w;
    w.type = s.pick<ST>("type", { ST::i16, ST::i24, ST::i32, ST::f32, ST::f64, ST::i8, ST::i64 });
    if (s.flag("same", 1, 3))
        w.type = own;
    w.channels    = (unsigned)s.in("channels", 1, 6);
    size_t frames = (size_t)s.skew("frames", 0, 500);
    w.rate        = s.pick<unsigned>("rate", { 44100u, 8000u, 48000u, 192000u, 1u, 4000000u });
    w.w64         = s.flag("w64", 1, 3);
    w.extensible  = s.flag("extensible", 1, 3);
    w.float_tag   = false;
    if (s.flag("foreign chunks"))
    {
        w.junk_before = (size_t)s.in("junk before", 0, 40);
        w.junk_middle = (size_t)s.in("junk middle", 0, 40);
        w.junk_after  = (size_t)s.in("junk after", 0, 40);
    }
    bool file   = s.flag("file", 1, 6);
    Rng r       = s.bulk();
    size_t ch   = w.channels, sz = st_size(w.type);
    w.pcm.resize(frames * ch * sz);
    bool loud = s.flag("loud");
    for (size_t i = 0; i < frames * ch; i++)
        st_random(w.type, r, &w.pcm[i * sz], loud);
    c.interesting((int)own, (int)w.type, ch, frames, w.w64);
    auto mem  = std::make_shared<Mem>();
    mem->data = wav_make(w, r);
    std::unique_ptr<Scratch> scratch(file ? new Scratch : nullptr);
    std::shared_ptr<kfr::abstract_reader<>> in;
    if (file)
    {
        scratch->put(mem->data);
        in = kfr::open_file_for_reading(scratch->path);
    }
    else
        in = std::make_shared<mem_reader>(mem);
    kfr::audio_reader_wav<T> rd(std::move(in));
    c.eq((int)rd.format().type, (int)w.type, "format().type");
    c.eq(rd.format().channels, ch, "format().channels");
    c.eq((double)rd.format().samplerate, (double)w.rate, "format().samplerate");
    c.eq((size_t)rd.format().length, frames, "format().length");
    auto compare = [&](size_t frame, size_t k, ld got)
    {
        ld x = st_value(w.type, &w.pcm[(frame * ch + k) * sz]), want;
        if (!st_converted(w.type, x, own, got, want))
            c.fail(fmt("frame %zu channel %zu: %.12Lg of %s is read as %.12Lg of %s, expected %.12Lg", frame, k, x,
                       st_name(w.type), got, st_name(own), want));
    };
    if constexpr (!std::is_same_v<T, i24>)
        if (s.flag("read_channels", 1, 5))
        {
            size_t n = s.flag("all") ? frames : (size_t)s.in("first frames", 0, (int64_t)frames);
            auto d   = n == frames ? rd.read_channels() : rd.read_channels(n);
            c.eq(d.size(), ch, "channels of read_channels()");
            for (size_t k = 0; k < ch; k++)
            {
                c.eq(d[k].size(), n, "length of a channel of read_channels()");
                for (size_t i = 0; i < n; i++)
                    compare(i, k, num(d[k][i]));
            }
            c.eq((size_t)rd.tell(), n, "tell() after read_channels()");
            return;
        }
    long long pos = 0;
    int ops       = (int)s.in("operations", 1, 10);
    for (int o = 0; o < ops; o++)
    {
        if (s.flag("seek", 1, 3))
        {
            int org       = (int)s.in("origin", 0, 2);
            long long off = s.in("offset", -(int64_t)frames - 3, (int64_t)frames + 3);
            long long t   = off + (org == 1 ? pos : org == 2 ? (long long)frames : 0);
            bool ok       = rd.seek(off, org == 0 ? kfr::seek_origin::begin : org == 1 ? kfr::seek_origin::current : kfr::seek_origin::end);
            if (t < 0)
                c.expect(!ok, "seek before the beginning succeeds");
            else if (t <= (long long)frames)
                c.expect(ok, "seek within the file fails");
            if (ok)
                pos = std::min<long long>(t, (long long)frames);
            c.eq((long long)rd.tell(), pos, "tell() after seek");
        }
        else
        {
            size_t n = (size_t)s.skew("samples", 0, 800), rem = (size_t)((long long)frames - pos) * ch;
            size_t want = std::min(n / ch * ch, rem);
            Samples<T> x(n);
            memset(x.b.data(), 0x5C, n * sizeof(T));
            size_t got = rd.read(x.data(), n);
            c.eq(got, want, "samples read");
            for (size_t i = 0; i < got; i++)
                compare((size_t)pos + i / ch, i % ch, x.at(i));
            for (size_t i = got * sizeof(T); i < n * sizeof(T); i++)
                c.expect(x.b[i] == 0x5C, "memory past the samples read is changed");
            x.b.check(c, "output");
            pos += (long long)(got / ch);
            c.eq((long long)rd.tell(), pos, "tell() after read");
        }
    }
}
// written by the library, read back by the library
template <typename W, typename R>
static void trip(Src& s, Case& c)
{
    ST type   = s.pick<ST>("type", { ST::i16, ST::i24, ST::i32, ST::f32, ST::f64, ST::i8, ST::i64 });
    size_t ch = (size_t)s.in("channels", 1, 4), frames = (size_t)s.skew("frames", 0, 300);
    bool w64  = s.flag("w64", 1, 3);
    Rng r     = s.bulk();
    c.interesting((int)type, ch, frames);
    Samples<W> src(frames * ch);
    for (size_t i = 0; i < frames * ch; i++)
        st_random(st_of<W>(), r, (uint8_t*)src.data() + i * sizeof(W), false);
    auto mem = std::make_shared<Mem>();
    {
        kfr::audio_format f;
        f.channels = ch, f.type = type, f.use_w64 = w64;
        kfr::audio_writer_wav<W> w(std::make_shared<mem_writer>(mem), f);
        c.eq(w.write(src.data(), frames * ch), frames * ch, "samples written");
    }
    kfr::audio_reader_wav<R> rd(std::make_shared<mem_reader>(mem));
    Samples<R> dst(frames * ch + ch);
    c.eq(rd.read(dst.data(), frames * ch + ch), frames * ch, "samples read back");
    bool exact = st_of<W>() == type && st_of<R>() == type;
    auto step  = [](ST t) { return st_float(t) ? (t == ST::f32 ? 0x1p-22L : 0x1p-50L) : 1.01L / full_scale(t) + (t == ST::i8 || t == ST::i16 || t == ST::i24 ? 0x1p-22L : 0x1p-50L); };
    for (size_t i = 0; i < frames * ch; i++)
    {
        ld a = src.at(i) / full_scale(st_of<W>()), b = dst.at(i) / full_scale(st_of<R>());
        if (exact)
            c.expect(src.at(i) == dst.at(i), fmt("sample %zu: wrote %.12Lg, read %.12Lg", i, src.at(i), dst.at(i)));
        else
            c.close(b, a, step(type) + step(st_of<R>()) + (type == st_of<W>() ? 0 : 0x1p-23L), "sample after the round trip", (long long)i);
    }
}
#define T5(N, F, Q, TH)                                                                                      \
    PBT_TEST(N##_i16, Q, TH) { F<i16>(s, c); }                                                               \
    PBT_TEST(N##_i24, Q, TH) { F<i24>(s, c); }                                                               \
    PBT_TEST(N##_i32, Q, TH) { F<i32>(s, c); }                                                               \
    PBT_TEST(N##_f32, Q, TH) { F<float>(s, c); }                                                             \
    PBT_TEST(N##_f64, Q, TH) { F<double>(s, c); }
T5(wav_write, write_case, 1500, 40000)
T5(wav_read, read_case, 1500, 40000)
PBT_TEST(wav_round_trip, 3000, 60000)
{
    switch (s.in("types", 0, 7))
    {
    case 0: return trip<float, float>(s, c);
    case 1: return trip<i16, i16>(s, c);
    case 2: return trip<i24, i24>(s, c);
    case 3: return trip<i32, i32>(s, c);
    case 4: return trip<double, double>(s, c);
    case 5: return trip<float, i16>(s, c);
    case 6: return trip<i16, double>(s, c);
    default: return trip<i32, float>(s, c);
    }
}
