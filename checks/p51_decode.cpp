// FLAC and MP3: decoded audio does not depend on how it is read; FLAC is lossless.
#include "p51_codecs.hpp"

// a history of reads and seeks against the whole signal, of the reader's native type `from`
template <typename T, typename R>
static void history(Src& s, Case& c, R& rd, ST from, size_t ch, size_t frames, const std::vector<int32_t>& all, bool seeks)
{
    constexpr ST own = st_of<T>();
    auto compare = [&](size_t i, ld got)
    {
        ld want;
        if (!st_converted(from, all[i], own, got, want))
            c.fail(fmt("frame %zu channel %zu: %d of %s is read as %.12Lg of %s, expected %.12Lg", i / ch, i % ch, (int)all[i],
                       st_name(from), got, st_name(own), want));
    };
    if constexpr (!std::is_same_v<T, i24>)
        if (s.flag("read_channels", 1, 6))
        {
            size_t n = s.flag("all") ? frames : (size_t)s.in("first frames", 0, (int64_t)frames);
            auto d   = n == frames ? rd.read_channels() : rd.read_channels(n);
            c.eq(d.size(), ch, "channels of read_channels()");
            for (size_t k = 0; k < ch; k++)
            {
                c.eq(d[k].size(), n, "length of a channel of read_channels()");
                for (size_t i = 0; i < n; i++)
                    compare(i * ch + k, num(d[k][i]));
            }
            return;
        }
    long long pos = 0;
    int ops       = (int)s.in("operations", 1, 8);
    for (int o = 0; o < ops; o++)
    {
        if (seeks && s.flag("seek", 1, 3))
        {
            int org       = (int)s.in("origin", 0, 2);
            long long off = s.in("offset", -(int64_t)frames - 3, (int64_t)frames);
            long long t   = off + (org == 1 ? pos : org == 2 ? (long long)frames : 0);
            if (t > (long long)frames)
                continue;
            bool ok = rd.seek(off, org == 0 ? kfr::seek_origin::begin : org == 1 ? kfr::seek_origin::current : kfr::seek_origin::end);
            if (t < 0)
                c.expect(!ok, "seek before the beginning succeeds");
            else if (t < (long long)frames)
                c.expect(ok, fmt("seek to frame %lld of %zu fails", t, frames));
            if (!ok)
            {
                if (t < 0)
                    continue;
                return;
            }
            pos = t;
            c.eq((long long)rd.tell(), pos, "tell() after seek");
        }
        else
        {
            size_t n    = (size_t)s.skew("samples", 0, 4000), rem = (size_t)((long long)frames - pos) * ch;
            size_t want = std::min(n / ch * ch, rem);
            Samples<T> x(n);
            memset(x.b.data(), 0x5C, n * sizeof(T));
            size_t got = rd.read(x.data(), n);
            c.eq(got, want, "samples read");
            for (size_t i = 0; i < got; i++)
                compare((size_t)pos * ch + i, x.at(i));
            for (size_t i = got * sizeof(T); i < n * sizeof(T); i++)
                c.expect(x.b[i] == 0x5C, "memory past the samples read is changed");
            x.b.check(c, "output");
            pos += (long long)(got / ch);
            c.eq((long long)rd.tell(), pos, "tell() after read");
        }
    }
}
template <typename T>
static void flac_case(Src& s, Case& c)
{
    FlacSpec f = flac_pick(s, 3000);
    Rng r      = s.bulk();
    auto mem   = std::make_shared<Mem>();
    mem->data  = flac_make(f, r);
    size_t n = f.pcm[0].size(), ch = f.channels;
    s.say("subframes=" + f.kinds.substr(0, 90));
    c.interesting((int)st_of<T>(), ch, f.bps, n, f.block);
    for (char k : f.kinds)
        if (k >= 'a')
            c.label(k == 'c' ? "constant" : k == 'v' ? "verbatim" : k == 'f' ? "fixed" : "lpc");
    std::vector<int32_t> all(n * ch);
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < ch; k++)
            all[i * ch + k] = (int32_t)((uint32_t)f.pcm[k][i] << (32 - f.bps));
    bool file = s.flag("file", 1, 6);
    std::unique_ptr<Scratch> scratch(file ? new Scratch : nullptr);
    std::shared_ptr<kfr::abstract_reader<>> in;
    if (file)
    {
        scratch->put(mem->data);
        in = kfr::open_file_for_reading(scratch->path);
    }
    else
        in = std::make_shared<mem_reader>(mem);
    kfr::audio_reader_flac<T> rd(std::move(in));
    c.eq(rd.format().channels, ch, "format().channels");
    c.eq((double)rd.format().samplerate, (double)f.rate, "format().samplerate");
    c.eq((size_t)rd.format().length, n, "format().length");
    history<T>(s, c, rd, ST::i32, ch, n, all, true);
}
template <typename T>
static void mp3_case(Src& s, Case& c)
{
    Mp3Spec m;
    auto mem  = std::make_shared<Mem>();
    mem->data = mp3_make(s, m, 12);
    size_t ch = m.mono ? 1 : 2, per = m.v1 ? 1152 : 576;
    c.interesting((int)st_of<T>(), ch, m.rate, m.nframes, mem->data.size());
    kfr::audio_reader_mp3<i16> whole(std::make_shared<mem_reader>(mem));
    c.eq(whole.format().channels, ch, "format().channels");
    c.eq((double)whole.format().samplerate, (double)m.rate, "format().samplerate");
    c.eq((size_t)whole.format().length, m.nframes * per, "format().length");
    size_t n = m.nframes * per;
    std::vector<i16> x(n * ch + 1000);
    c.eq(whole.read(x.data(), x.size()), n * ch, "samples in the whole file");
    std::vector<int32_t> all(x.begin(), x.begin() + (long)(n * ch));
    int64_t loud = 0;
    for (auto v : all)
        loud += v != 0;
    c.label(loud > (int64_t)(n * ch / 4) ? "audible" : loud ? "partly silent" : "silent");
    kfr::audio_reader_mp3<T> rd(std::make_shared<mem_reader>(mem));
    c.eq((size_t)rd.format().length, n, "format().length");
    history<T>(s, c, rd, ST::i16, ch, n, all, true);
}
#define T5(N, F, Q, TH)                                                                                      \
    PBT_TEST(N##_i16, Q, TH) { F<i16>(s, c); }                                                               \
    PBT_TEST(N##_i24, Q, TH) { F<i24>(s, c); }                                                               \
    PBT_TEST(N##_i32, Q, TH) { F<i32>(s, c); }                                                               \
    PBT_TEST(N##_f32, Q, TH) { F<float>(s, c); }                                                             \
    PBT_TEST(N##_f64, Q, TH) { F<double>(s, c); }
T5(flac, flac_case, 700, 15000)
T5(mp3, mp3_case, 150, 3000)
