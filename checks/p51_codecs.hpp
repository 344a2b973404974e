// A FLAC encoder that uses the whole format, and a generator of decodable MPEG layer III streams.
#pragma once
#include "p50_io.hpp"

struct Bits
{
    bytes b;
    unsigned n = 0; // bits used in the last byte
    void put(uint64_t v, unsigned k)
    {
        for (int i = (int)k - 1; i >= 0; i--)
        {
            if (n == 0)
                b.push_back(0);
            b.back() |= (uint8_t)((v >> i & 1) << (7 - n));
            n = (n + 1) & 7;
        }
    }
    void sput(int64_t v, unsigned k) { put((uint64_t)v & (k == 64 ? ~0ull : (1ull << k) - 1), k); }
    void unary(uint64_t q)
    {
        for (uint64_t i = 0; i < q; i++)
            put(0, 1);
        put(1, 1);
    }
    void align() { n = 0; }
    size_t bits() const { return b.size() * 8 - (n ? 8 - n : 0); }
};
static inline uint8_t crc8(const uint8_t* p, size_t n)
{
    unsigned c = 0;
    for (size_t i = 0; i < n; i++)
    {
        c ^= p[i];
        for (int k = 0; k < 8; k++)
            c = c & 0x80 ? (c << 1 ^ 0x07) & 0xFF : c << 1;
    }
    return (uint8_t)c;
}
static inline uint16_t crc16(const uint8_t* p, size_t n)
{
    unsigned c = 0;
    for (size_t i = 0; i < n; i++)
    {
        c ^= (unsigned)p[i] << 8;
        for (int k = 0; k < 8; k++)
            c = c & 0x8000 ? (c << 1 ^ 0x8005) & 0xFFFF : c << 1;
    }
    return (uint16_t)c;
}
static inline void flac_utf8(Bits& o, uint64_t v)
{
    if (v < 0x80)
    {
        o.put(v, 8);
        return;
    }
    int n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
    o.put((0xFF00u >> n & 0xFF) | v >> (6 * (n - 1)), 8);
    for (int i = n - 2; i >= 0; i--)
        o.put(0x80 | (v >> (6 * i) & 0x3F), 8);
}
// residual with random partitioning; params chosen near the best one, sometimes escaped
static inline void flac_residual(Bits& o, const std::vector<int64_t>& res, size_t order, size_t block, Rng& r)
{
    // the first partition holds block/2^po - order values
    int pmax = 0;
    while (pmax < 6 && block % (2ull << pmax) == 0 && (block >> (pmax + 1)) > order)
        pmax++;
    int po     = (int)r.below((uint64_t)pmax + 1);
    bool five  = r.chance(1, 3);
    size_t per = block >> po, at = 0;
    // the 4-bit method reaches only parameter 14
    for (auto v : res)
        if (std::llabs(v) > (1ll << 18))
            five = true;
    o.put(five, 2);
    o.put((uint64_t)po, 4);
    for (size_t p = 0; p < (size_t)1 << po; p++)
    {
        size_t n    = per - (p == 0 ? order : 0);
        uint64_t mx = 0, sum = 0;
        for (size_t i = 0; i < n; i++)
        {
            uint64_t z = (uint64_t)std::llabs(res[at + i]);
            mx         = std::max(mx, z);
            sum += z;
        }
        unsigned raw = 0;
        while (raw < 33 && (1ull << raw) <= mx)
            raw++;
        if (mx)
            raw++; // sign
        if (raw <= 31 && r.chance(1, 8))
        {
            o.put(five ? 31 : 15, five ? 5 : 4);
            o.put(raw, 5);
            for (size_t i = 0; i < n; i++)
                o.sput(res[at + i], raw);
        }
        else
        {
            unsigned k = 0;
            while (k < (five ? 30u : 14u) && n && (sum / n) >> k)
                k++;
            if (k && r.chance(1, 3))
                k--;
            while (k < (five ? 30u : 14u) && (2 * mx) >> k > 4000)
                k++;
            o.put(k, five ? 5 : 4);
            for (size_t i = 0; i < n; i++)
            {
                int64_t v  = res[at + i];
                uint64_t z = v < 0 ? (uint64_t)(-v) * 2 - 1 : (uint64_t)v * 2;
                o.unary(z >> k);
                o.put(z & ((1ull << k) - 1), k);
            }
        }
        at += n;
    }
}
static inline void flac_subframe(Bits& o, std::vector<int64_t> x, unsigned bps, Rng& r, std::string* kinds)
{
    size_t n    = x.size();
    uint64_t m  = 0;
    bool konst  = true;
    for (auto v : x)
    {
        m |= (uint64_t)v;
        konst &= v == x[0];
    }
    unsigned wasted = 0;
    if (m)
        while (!(m >> wasted & 1))
            wasted++;
    if (wasted >= bps || r.chance(1, 4))
        wasted = 0;
    if (wasted)
        for (auto& v : x)
            v >>= wasted;
    unsigned b  = bps - wasted;
    int kind    = konst && r.chance(3, 4) ? 0 : (int)r.range(1, 3);
    size_t order = 0;
    std::vector<int64_t> coef, res;
    unsigned prec = 0;
    int shift     = 0;
    if (kind == 2)
    {
        order = std::min<size_t>(n ? n - 1 : 0, r.below(5));
        static const int F[5][4] = { {}, { 1 }, { 2, -1 }, { 3, -3, 1 }, { 4, -6, 4, -1 } };
        coef.assign(F[order], F[order] + order);
    }
    if (kind == 3)
    {
        order = std::min<size_t>(n ? n - 1 : 0, 1 + r.below(r.chance(1, 3) ? 32 : 12));
        if (order == 0)
            kind = 1;
        prec  = 1 + (unsigned)r.below(15);
        shift = (int)r.below(15);
        for (size_t i = 0; i < order; i++)
            coef.push_back(r.range(-(1ll << (prec - 1)), (1ll << (prec - 1)) - 1));
        if (r.chance(1, 2)) // close to the real thing
        {
            prec = 15, shift = 12;
            for (size_t i = 0; i < order; i++)
                coef[i] = i == 0 ? 7600 : i == 1 ? -3600 : r.range(-50, 50);
        }
    }
    if (kind >= 2)
    {
        for (size_t i = order; i < n; i++)
        {
            int64_t s = 0;
            for (size_t k = 0; k < order; k++)
                s += coef[k] * x[i - 1 - k];
            int64_t e = x[i] - (s >> shift);
            if (std::llabs(s >> shift) >= 1ll << 29 || std::llabs(e) >= 1ll << 29)
                kind = 1;
            res.push_back(e);
        }
    }
    if (kinds)
        *kinds += kind < 2 ? std::string(1, "cv"[kind]) : kind == 2 ? fmt("f%zu", order) : fmt("l%zu/%u>>%d", order, prec, shift);
    o.put(0, 1);
    o.put(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 8 | order : 32 | (order - 1), 6);
    o.put(wasted != 0, 1);
    if (wasted)
        o.unary(wasted - 1);
    if (kind == 0)
        o.sput(x[0], b);
    else if (kind == 1)
        for (auto v : x)
            o.sput(v, b);
    else
    {
        for (size_t i = 0; i < order; i++)
            o.sput(x[i], b);
        if (kind == 3)
        {
            o.put(prec - 1, 4);
            o.sput(shift, 5);
            for (auto v : coef)
                o.sput(v, prec);
        }
        flac_residual(o, res, order, n, r);
    }
}
struct FlacSpec
{
    unsigned channels, bps, rate;
    std::vector<std::vector<int64_t>> pcm; // [channel][frame]
    bool variable, seektable, padding;
    unsigned block; // for fixed blocking
    std::string kinds;
    bool wild = false; // frames with damaged contents and right checksums
};
static inline bytes flac_make(FlacSpec& f, Rng& r)
{
    size_t total = f.pcm[0].size();
    std::vector<size_t> blocks;
    if (f.variable)
        for (size_t left = total; left;)
        {
            size_t n = std::min<size_t>(left, 16 + r.below(f.block));
            blocks.push_back(n);
            left -= n;
        }
    else
        for (size_t left = total; left;)
        {
            size_t n = std::min<size_t>(left, f.block);
            blocks.push_back(n);
            left -= n;
        }
    bytes frames;
    std::vector<std::array<uint64_t, 3>> points;
    size_t at = 0, mxb = 16, mnb = 65535;
    for (size_t bi = 0; bi < blocks.size(); bi++)
    {
        size_t n = blocks[bi];
        mxb      = std::max(mxb, n);
        if (bi + 1 < blocks.size())
            mnb = std::min(mnb, n);
        points.push_back({ at, frames.size(), n });
        Bits o;
        o.put(0x3FFE, 14);
        o.put(0, 1);
        o.put(f.variable, 1);
        unsigned bcode = n <= 256 && r.chance(2, 3) ? 6 : 7;
        static const unsigned known[][2] = { { 192, 1 }, { 576, 2 }, { 1152, 3 }, { 2304, 4 }, { 4608, 5 }, { 256, 8 }, { 512, 9 }, { 1024, 10 }, { 2048, 11 }, { 4096, 12 } };
        for (auto& k : known)
            if (k[0] == n && r.chance(2, 3))
                bcode = k[1];
        o.put(bcode, 4);
        unsigned rcode = 0;
        static const unsigned rates[] = { 0, 88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000 };
        for (unsigned i = 1; i < 12; i++)
            if (rates[i] == f.rate && r.chance(1, 2))
                rcode = i;
        o.put(rcode, 4);
        unsigned assign = f.channels - 1;
        if (f.channels == 2)
            {
                unsigned q = (unsigned)r.below(5);
                assign     = q == 0 ? 8 : q == 1 ? 9 : q == 2 ? 10 : 1;
            }
        o.put(assign, 4);
        unsigned scode = 0;
        if (r.chance(1, 2))
            scode = f.bps == 8 ? 1 : f.bps == 12 ? 2 : f.bps == 16 ? 4 : f.bps == 20 ? 5 : f.bps == 24 ? 6 : 0;
        o.put(scode, 3);
        o.put(0, 1);
        flac_utf8(o, f.variable ? at : bi);
        if (bcode == 6)
            o.put(n - 1, 8);
        if (bcode == 7)
            o.put(n - 1, 16);
        if (f.wild && r.chance(1, 6))
            o.b[2 + r.below(o.b.size() - 2)] ^= (uint8_t)(1u << r.below(8));
        size_t body = o.b.size() + 1;
        o.put(crc8(o.b.data(), o.b.size()), 8);
        for (unsigned k = 0; k < f.channels; k++)
        {
            std::vector<int64_t> x(n);
            unsigned b = f.bps;
            for (size_t i = 0; i < n; i++)
            {
                if (assign < 8)
                    x[i] = f.pcm[k][at + i];
                else
                {
                    int64_t l = f.pcm[0][at + i], rr = f.pcm[1][at + i];
                    if (assign == 8)
                        x[i] = k == 0 ? l : l - rr;
                    else if (assign == 9)
                        x[i] = k == 0 ? l - rr : rr;
                    else
                        x[i] = k == 0 ? (l + rr) >> 1 : l - rr;
                }
            }
            if ((assign == 8 && k == 1) || (assign == 9 && k == 0) || (assign == 10 && k == 1))
                b++;
            flac_subframe(o, x, b, r, &f.kinds);
        }
        o.align();
        if (f.wild && r.chance(1, 2))
            for (int k = (int)r.below(4); k >= 0 && o.b.size() > body; k--)
            {
                size_t span = r.chance(2, 3) ? std::min<size_t>(o.b.size() - body, 8) : o.b.size() - body, w = body + r.below(span);
                switch (r.below(4))
                {
                case 0: o.b[w] = (uint8_t)r.u64(); break;
                case 1: o.b[w] ^= (uint8_t)(1u << r.below(8)); break;
                case 2: o.b.resize(w + 1); break;
                default: // a subframe header with a random order
                    o.b[body] = (uint8_t)(r.below(128) & 0xFE);
                }
            }
        uint16_t c16 = crc16(o.b.data(), o.b.size());
        o.put(c16, 16);
        frames.insert(frames.end(), o.b.begin(), o.b.end());
        at += n;
    }
    Bits h;
    for (char ch : std::string("fLaC"))
        h.put((uint8_t)ch, 8);
    bool more = f.seektable || f.padding;
    h.put(!more, 1);
    h.put(0, 7);
    h.put(34, 24);
    if (f.wild && r.chance(1, 4)) // the largest block there is, however small
        mxb = f.variable ? *std::max_element(blocks.begin(), blocks.end()) : mxb, f.block = (unsigned)*std::max_element(blocks.begin(), blocks.end());
    h.put(f.variable ? std::min(mnb, mxb) : f.block, 16);
    h.put(f.variable ? mxb : f.block, 16);
    h.put(0, 24);
    h.put(0, 24);
    h.put(f.rate, 20);
    h.put(f.channels - 1, 3);
    h.put(f.bps - 1, 5);
    h.put(total, 36);
    for (int i = 0; i < 16; i++)
        h.put(0, 8);
    if (f.seektable)
    {
        std::vector<std::array<uint64_t, 3>> p;
        for (auto& q : points)
            if (r.chance(1, 2))
                p.push_back(q);
        h.put(!f.padding, 1);
        h.put(3, 7);
        h.put(p.size() * 18, 24);
        for (auto& q : p)
        {
            h.put(q[0], 64);
            h.put(q[1], 64);
            h.put(q[2], 16);
        }
    }
    if (f.padding)
    {
        size_t n = r.below(60);
        h.put(1, 1);
        h.put(1, 7);
        h.put(n, 24);
        for (size_t i = 0; i < n; i++)
            h.put(0, 8);
    }
    h.b.insert(h.b.end(), frames.begin(), frames.end());
    return h.b;
}
static inline FlacSpec flac_pick(Src& s, size_t maxframes)
{
    FlacSpec f;
    f.channels   = (unsigned)(s.flag("stereo") ? 2 : s.in("channels", 1, 8));
    f.bps        = s.flag("usual depth", 2, 3) ? s.pick<unsigned>("bits", { 16u, 8u, 12u, 20u, 24u }) : (unsigned)s.in("bits", 4, 24);
    f.rate       = s.pick<unsigned>("rate", { 44100u, 8000u, 48000u, 96000u, 192000u, 12345u });
    size_t total = (size_t)s.skew("frames", 1, (int64_t)maxframes);
    f.variable   = s.flag("variable blocks", 1, 3);
    f.block      = s.flag("round blocks") ? s.pick<unsigned>("block", { 192u, 256u, 576u, 64u, 16u, 128u, 512u, 1152u }) : (unsigned)s.in("block", 16, 600);
    f.seektable  = s.flag("seek table", 1, 3);
    f.padding    = s.flag("padding", 1, 4);
    Rng r        = s.bulk();
    int64_t top  = (1ll << (f.bps - 1)) - 1;
    for (unsigned k = 0; k < f.channels; k++)
    {
        std::vector<int64_t> x(total);
        int kind   = (int)r.below(7);
        int64_t a  = r.chance(1, 3) ? top : (int64_t)r.below((uint64_t)top + 1);
        double w   = r.unit() * 0.3, ph = r.unit() * 6;
        unsigned z = (unsigned)r.below(std::min(f.bps, 8u));
        for (size_t i = 0; i < total; i++)
        {
            int64_t v;
            switch (kind)
            {
            case 0: v = 0; break;
            case 1: v = a; break;
            case 2: v = r.range(-a, a); break;
            case 3: v = (int64_t)std::llround((double)a * std::sin(w * (double)i + ph)); break;
            case 4: v = (r.range(-a, a) >> z) * (1ll << z); break;
            case 5: v = i / 100 % 2 ? a : -a - (a == top); break;
            default: v = (int64_t)std::llround(0.9 * (double)a * std::sin(w * (double)i + ph)) + r.range(-1, 1) * (a > 10); break;
            }
            x[i] = std::max(-top - 1, std::min(top, v));
        }
        if (k && r.chance(1, 3)) // alike channels, as stereo decorrelation expects
            for (size_t i = 0; i < total; i++)
                x[i] = std::max(-top - 1, std::min(top, f.pcm[0][i] + (x[i] >> 6)));
        f.pcm.push_back(x);
    }
    return f;
}

// ---- MPEG-1/2 layer III with random but decodable side information
struct Mp3Spec
{
    bool v1, mono;
    unsigned rate, nframes;
};
static inline bytes mp3_make(Src& s, Mp3Spec& m, unsigned maxframes)
{
    m.v1       = s.flag("mpeg1", 2, 3);
    m.mono     = s.flag("mono", 1, 3);
    int ri     = (int)s.in("rate", 0, 2);
    m.nframes  = (unsigned)s.in("mp3 frames", 3, maxframes);
    bool vbr   = s.flag("vbr", 1, 3), reservoir = s.flag("reservoir", 1, 2), id3 = s.flag("id3", 1, 5), crc = s.flag("crc", 1, 5);
    int gain   = (int)s.in("gain", 120, 200);
    Rng r      = s.bulk();
    static const unsigned R1[] = { 44100, 48000, 32000 }, R2[] = { 22050, 24000, 16000 };
    static const unsigned B1[] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 };
    static const unsigned B2[] = { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 };
    m.rate     = m.v1 ? R1[ri] : R2[ri];
    unsigned mode = m.mono ? 3 : (unsigned)r.below(3), nch = m.mono ? 1 : 2, ngr = m.v1 ? 2 : 1;
    unsigned br0  = 5 + (unsigned)r.below(9);
    bytes out;
    if (id3)
    {
        size_t n = r.below(100);
        for (char ch : std::string("ID3\x04"))
            out.push_back((uint8_t)ch);
        out.push_back(0), out.push_back(0);
        out.push_back(0), out.push_back(0), out.push_back(0), out.push_back((uint8_t)n);
        for (size_t i = 0; i < n; i++)
            out.push_back((uint8_t)(r.u64() & 0x7F));
    }
    size_t back = 0; // unused main data of the previous frames, in bytes
    for (unsigned f = 0; f < m.nframes; f++)
    {
        unsigned bi = vbr ? 5 + (unsigned)r.below(9) : br0, pad = (unsigned)r.below(2);
        size_t len  = (m.v1 ? 144000u * B1[bi] : 72000u * B2[bi]) / m.rate + pad;
        size_t side = m.v1 ? (m.mono ? 17 : 32) : (m.mono ? 9 : 17);
        Bits o;
        o.put(0x7FF, 11);
        o.put(m.v1 ? 3 : 2, 2);
        o.put(1, 2);
        o.put(!crc, 1);
        o.put(bi, 4);
        o.put((unsigned)ri, 2);
        o.put(pad, 1);
        o.put(0, 1);
        o.put(mode, 2);
        o.put(mode == 1 ? r.below(4) : 0, 2);
        o.put(0, 4);
        if (crc)
            o.put(r.u64() & 0xFFFF, 16);
        size_t here  = len - 4 - (crc ? 2 : 0) - side;
        size_t limit = m.v1 ? 511 : 255;
        size_t mdb   = reservoir ? r.below(std::min(back, limit) + 1) : 0;
        o.put(mdb, m.v1 ? 9 : 8);
        if (m.v1)
        {
            o.put(0, m.mono ? 5 : 3);
            for (unsigned k = 0; k < nch; k++)
                o.put(f ? r.below(16) & r.below(16) : 0, 4);
        }
        else
            o.put(0, m.mono ? 1 : 2);
        size_t avail = (mdb + here) * 8;
        if (reservoir && r.chance(1, 2))
            avail = avail / 2;
        size_t used = 0;
        for (unsigned g = 0; g < ngr; g++)
            for (unsigned k = 0; k < nch; k++)
            {
                size_t p23 = std::min<size_t>(4095, r.below(avail / (ngr * nch) + 1));
                if (r.chance(1, 10))
                    p23 = 0;
                used += p23;
                o.put(p23, 12);
                o.put(p23 ? r.below(r.chance(1, 2) ? 60 : 289) : 0, 9);
                o.put((unsigned)(gain + (int)r.below(16)), 8);
                o.put(r.u64() & (m.v1 ? 15 : 0x1FF), m.v1 ? 4 : 9);
                auto table = [&]
                {
                    unsigned t = (unsigned)r.below(32);
                    return t == 4 || t == 14 ? 1u : t;
                };
                if (r.chance(1, 3))
                {
                    o.put(1, 1);
                    o.put(1 + r.below(3), 2);
                    o.put(r.below(2), 1);
                    o.put(table(), 5);
                    o.put(table(), 5);
                    o.put(r.below(8), 3);
                    o.put(r.below(8), 3);
                    o.put(r.below(8), 3);
                }
                else
                {
                    o.put(0, 1);
                    o.put(table(), 5);
                    o.put(table(), 5);
                    o.put(table(), 5);
                    o.put(r.below(16), 4);
                    o.put(r.below(8), 3);
                }
                if (m.v1)
                    o.put(r.below(2), 1);
                o.put(r.below(2), 1);
                o.put(r.below(2), 1);
            }
        o.align();
        while (o.b.size() < len)
        {
            uint8_t v = (uint8_t)r.u64();
            o.b.push_back(v == 0xFF ? 0 : v); // no sync word within the data
        }
        out.insert(out.end(), o.b.begin(), o.b.end());
        back = mdb + here - (used + 7) / 8;
    }
    return out;
}
