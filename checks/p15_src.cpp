// Sample rate conversion against polyphase interpolation by the designed prototype, over any block history.
#include <kfr/base.hpp>
#include <kfr/dsp/sample_rate_conversion.hpp>
#include "pbt.hpp"
#include <complex>
#include <map>
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;
static const ld PI = 3.14159265358979323846264338327950288L;
using Q = kfr::sample_rate_conversion_quality;

template <typename T>
static T re_(T x) { return x; }
template <typename T>
static T re_(kfr::complex<T> x) { return x.real(); }
template <typename T>
static T im_(T) { return 0; }
template <typename T>
static T im_(kfr::complex<T> x) { return x.imag(); }

static ld bessel_i0(ld x)
{
    ld s = 1, t = 1;
    for (int k = 1; k < 400; k++)
    {
        t *= (x / 2 / k) * (x / 2 / k);
        s += t;
        if (t < s * 1e-22L)
            break;
    }
    return s;
}
// the prototype low-pass filter: Kaiser-windowed sinc for the interpolated rate
struct Design
{
    long long I, D, taps, depth;
    ld beta, att, fc, pass, stop; // ends of the pass band and of the stop band, fraction of the input rate
    std::vector<ld> h; // value at intermediate offset t, 0..taps-1
    Design(int q, long long i, long long d, ld scale, ld cutoff)
    {
        long long g = std::__gcd(i, d);
        I = i / g, D = d / g;
        depth = 1ll << (q + 1);
        taps  = depth * I;
        att   = (q - 3) * 20;
        beta  = att > 50 ? 0.1102L * (att - 8.7L)
                : att >= 21 ? 0.5842L * std::pow(att - 21, 0.4L) + 0.07886L * (att - 21) : 0;
        ld tw = (beta / 0.1102L + 8.7L - 8) / (ld)(depth - 1) / 2.285L;
        fc    = (cutoff - tw / (4 * PI)) / (ld)std::max(I, D);
        pass  = fc * (ld)I - tw / (4 * PI);
        stop  = fc * (ld)I + tw / (4 * PI);
        h.resize((size_t)taps);
        ld sum = 0, ib = bessel_i0(beta);
        for (long long t = 0; t < taps; t++)
        {
            ld u = (ld)t / (ld)(taps - 1) * 2 - 1;
            ld x = 2 * PI * fc * (ld)(t - taps / 2);
            h[(size_t)t] = (x == 0 ? 1 : std::sin(x) / x) * bessel_i0(beta * std::sqrt(std::max<ld>(0, 1 - u * u))) / ib;
            sum += h[(size_t)t];
        }
        for (auto& v : h)
            v *= (ld)I * scale / sum;
    }
    // output m of the whole stream
    template <typename X>
    cld at(const std::vector<X>& x, long long m, ld& mag) const
    {
        // n*I runs over [m*D-taps+1, m*D]
        long long lo = m * D - taps + 1, n = lo >= 0 ? (lo + I - 1) / I : -((-lo) / I);
        cld s = 0;
        mag   = 0;
        for (; n * I <= m * D; n++)
            if (n >= 0 && n < (long long)x.size())
            {
                ld c = h[(size_t)(n * I - lo)];
                cld v((ld)re_(x[(size_t)n]), (ld)im_(x[(size_t)n]));
                s += c * v;
                mag += std::abs(v);
            }
        return s;
    }
};
struct Ratio
{
    long long i, d;
};
static const std::vector<Ratio> ratios = { { 1, 1 }, { 2, 1 }, { 1, 2 }, { 3, 2 }, { 2, 3 }, { 160, 147 }, { 147, 160 }, { 4, 6 },
                                { 1, 7 }, { 7, 1 }, { 5, 4 }, { 48000, 44100 }, { 8, 1 }, { 1, 16 }, { 13, 11 } };

template <typename T>
static T mk(double re, double im)
{
    if constexpr (kfr::is_complex<T>)
        return T((kfr::subtype<T>)re, (kfr::subtype<T>)im);
    else
        return (T)re;
}

template <typename T>
static void stream(Src& s, Case& c)
{
    using R = kfr::subtype<T>;
    int q   = (int)s.skew("quality", 0, 4) * 2 + 4;
    Ratio r = s.flag("listed ratio") ? s.pick<Ratio>("ratio", ratios)
                                     : Ratio{ s.in("interpolation", 1, 12), s.in("decimation", 1, 12) };
    long long g = std::__gcd(r.i, r.d), I = r.i / g, D = r.d / g;
    while ((1ll << (q + 1)) * I > 24000 && q > 4)
        q -= 2;
    R scale  = s.flag("scaled", 1, 4) ? (R)s.real("scale", -3, 3) : R(1);
    R cutoff = s.flag("narrow", 1, 4) ? (R)s.real("cutoff", 0.2, 0.5) : R(0.5);
    s.say("ratio " + std::to_string(r.i) + "/" + std::to_string(r.d) + " quality " + std::to_string(q));
    auto conv = kfr::sample_rate_converter<T>((Q)q, (size_t)r.i, (size_t)r.d, scale, cutoff);
    Design des(q, r.i, r.d, scale, cutoff);
    c.eq((long long)conv.depth, des.depth, "filter length per phase");
    c.eq((long long)conv.taps, des.taps, "taps");
    // a whole stream of outputs in 1..7 blocks
    size_t blocks = (size_t)s.in("blocks", 1, 7);
    std::vector<size_t> outs(blocks);
    std::vector<int> mode(blocks);
    size_t total = 0;
    for (size_t b = 0; b < blocks; b++)
    {
        mode[b] = (int)s.in("mode", 0, 3); // pull, push, skip, end of stream (input runs short)
        outs[b] = (size_t)s.skew("size", 0, 300);
        total += outs[b];
    }
    Rng rng = s.bulk("data");
    std::vector<T> x;
    size_t consumed = 0, produced = 0;
    bool ended = false;
    int kind = (int)s.in("signal", 0, 2);
    auto grow = [&](size_t n)
    {
        while (x.size() < n)
        {
            double re = kind == 0 ? rng.sym() : kind == 1 ? (x.size() % 37 == 5) : 1.0;
            double im = kind == 0 ? rng.sym() : kind == 1 ? -(double)(x.size() % 23 == 0) : 0.5;
            x.push_back(mk<T>(re, im));
        }
    };
    ld eps = std::numeric_limits<R>::epsilon();
    ld rel = eps * (24 + 2 * des.beta + (ld)des.depth / 4 + 2 * std::sqrt((ld)des.taps)) * std::fabs((ld)scale);
    bool crossing = false;
    for (size_t b = 0; b < blocks; b++)
    {
        size_t nin, nout;
        if (mode[b] == 1)
        {
            nin = outs[b]; // push: the caller has this much input
            if (ended)
                continue;
            nout = (size_t)conv.output_size_for_input((long long)nin);
        }
        else
        {
            nout = outs[b];
            nin  = (size_t)conv.input_size_for_output((long long)nout);
        }
        // documented arithmetic of the two sizes
        auto o2i    = [&](long long o) { return o >= 0 ? o * D / I : -((-o * D + I - 1) / I); };
        size_t need = (size_t)(o2i((long long)(produced + nout) - 1) - o2i((long long)produced - 1));
        if (mode[b] != 1)
            c.eq(nin, need, "input_size_for_output");
        else
            c.expect(need <= nin || nout == 0, "a push asks for more input than was given");
        size_t give = mode[b] == 1 ? std::max(nin, need) : nin;
        if (mode[b] == 3 || ended)
        {
            give  = ended ? 0 : (size_t)s.in(0, (int64_t)nin);
            ended = true; // what is missing is zeros from here on
            grow(consumed + give);
            x.resize(consumed + give);
        }
        else
            grow(consumed + give);
        Buf<T> in(give, (size_t)s.in(0, 3));
        for (size_t i = 0; i < give; i++)
            in[i] = x[consumed + i];
        size_t used;
        if (mode[b] == 2)
            used = conv.skip(nout, kfr::make_univector((const T*)in.data(), give));
        else
        {
            Buf<T> out(nout, (size_t)s.in(0, 3));
            auto o = kfr::make_univector(out.data(), nout);
            used   = conv.process(o, kfr::make_univector((const T*)in.data(), give));
            out.check(c, "output block");
            for (size_t i = 0; i < nout; i++)
            {
                ld mag;
                cld w = des.at(x, (long long)(produced + i), mag);
                c.close((ld)re_(out[i]), w.real(), rel * mag, "converted sample", (long long)(produced + i));
                c.close((ld)im_(out[i]), w.imag(), rel * mag, "converted sample (imaginary)",
                        (long long)(produced + i));
            }
            crossing |= nout > 1 && produced > 0;
        }
        in.check(c, "input block");
        c.eq(used, need, "input consumed");
        consumed += used;
        produced += nout;
        if (ended)
        {
            // later blocks continue past the end: the missing input counts as zeros
            while (x.size() < consumed)
                x.push_back(mk<T>(0, 0));
        }
    }
    for (size_t b = 0; b < blocks; b++)
        c.label(mode[b] == 0 ? "pull" : mode[b] == 1 ? "push" : mode[b] == 2 ? "skip" : "end of stream");
    if (crossing)
        c.interesting(I, D, q, outs.size(), total, mode[0], outs[0]);
}
PBT_TEST(stream_f32, 700, 10000) { stream<float>(s, c); }
PBT_TEST(stream_f64, 700, 10000) { stream<double>(s, c); }
PBT_TEST(stream_c32, 350, 5000) { stream<kfr::complex<float>>(s, c); }
PBT_TEST(stream_c64, 350, 5000) { stream<kfr::complex<double>>(s, c); }

// ---- push only: the caller hands over input blocks and takes what comes out; nothing is lost or repeated
template <typename T>
static void push(Src& s, Case& c)
{
    int q   = (int)s.in("quality", 0, 1) * 2 + 4;
    Ratio r = s.flag("listed ratio") ? s.pick<Ratio>("ratio", ratios)
                                     : Ratio{ s.in("interpolation", 1, 12), s.in("decimation", 1, 12) };
    auto conv = kfr::sample_rate_converter<T>((Q)q, (size_t)r.i, (size_t)r.d);
    Design des(q, r.i, r.d, 1, 0.5L);
    size_t blocks = (size_t)s.in("blocks", 1, 8);
    Rng rng = s.bulk("data");
    std::vector<T> x;
    size_t pos = 0, produced = 0; // pos: input the converter has taken
    ld eps = std::numeric_limits<T>::epsilon();
    ld rel = eps * (24 + 2 * des.beta + (ld)des.depth / 4 + 2 * std::sqrt((ld)des.taps));
    for (size_t b = 0; b < blocks; b++)
    {
        size_t n = (size_t)s.skew("block", 1, 400);
        for (size_t i = 0; i < n; i++)
            x.push_back((T)rng.sym());
        size_t avail = x.size() - pos;
        long long m = conv.output_size_for_input((long long)avail);
        c.expect(m >= 0, "negative output size");
        c.expect(conv.input_size_for_output(m) <= (long long)avail, "a push asks for more input than was given");
        c.expect(conv.input_size_for_output(m + 1) > (long long)avail, "output held back although its input is there");
        Buf<T> in(avail, (size_t)s.in(0, 3)), out((size_t)m, (size_t)s.in(0, 3));
        for (size_t i = 0; i < avail; i++)
            in[i] = x[pos + i];
        auto o = kfr::make_univector(out.data(), (size_t)m);
        size_t used = conv.process(o, kfr::make_univector((const T*)in.data(), avail));
        out.check(c, "output block");
        c.expect(used <= avail, "more input consumed than given");
        for (size_t i = 0; i < (size_t)m; i++)
        {
            ld mag;
            cld w = des.at(x, (long long)(produced + i), mag);
            c.close(out[i], w.real(), rel * mag, "converted sample", (long long)(produced + i));
        }
        pos += used;
        produced += (size_t)m;
    }
    if (blocks > 1 && produced)
        c.interesting(des.I, des.D, q, x.size(), blocks);
}
PBT_TEST(push_f32, 700, 10000) { push<float>(s, c); }
PBT_TEST(push_f64, 300, 5000) { push<double>(s, c); }

// ---- the documented quality: tones in the pass band keep their amplitude, tones above the new Nyquist rate vanish
template <typename R>
static void tones(Src& s, Case& c)
{
    using T     = kfr::complex<R>;
    int q       = (int)s.in("quality", 1, 3) * 2 + 4;
    long long I = s.in("interpolation", 1, 6), D = s.in("decimation", 1, 6);
    auto conv = kfr::sample_rate_converter<T>((Q)q, (size_t)I, (size_t)D);
    Design des(q, I, D, 1, 0.5L);
    bool stop = des.stop < 0.49L && s.flag("stop band");
    ld f = stop ? s.real("f", (double)des.stop, 0.5) : s.real("f", 0, (double)des.pass);
    size_t nout = (size_t)s.in("outputs", 1, 20), lead = (size_t)((des.taps + des.D - 1) / des.D) + 1;
    size_t nin = (size_t)conv.input_size_for_output((long long)(nout + lead));
    Buf<T> in(nin, 0), out(nout + lead, 0);
    for (size_t i = 0; i < nin; i++)
    {
        ld a  = 2 * PI * std::fmod(f * (ld)i, 1.0L);
        in[i] = T((R)std::cos(a), (R)std::sin(a));
    }
    auto o = kfr::make_univector(out.data(), out.size());
    conv.process(o, kfr::make_univector((const T*)in.data(), nin));
    ld ripple = std::pow(10.0L, -des.att / 20) * 3, eps = std::numeric_limits<R>::epsilon();
    ripple += eps * (24 + 2 * des.beta + (ld)des.depth);
    for (size_t i = lead; i < lead + nout; i++)
    {
        cld v((ld)out[i].real(), (ld)out[i].imag());
        c.close(std::abs(v), stop ? 0 : 1, ripple, stop ? "stop-band tone" : "pass-band tone", (long long)i);
        if (!stop)
        {
            // delayed by get_fractional_delay() to within half an intermediate sample
            ld ph  = std::arg(v) / (2 * PI) - f * ((ld)i - (ld)conv.get_fractional_delay()) * (ld)des.D / (ld)des.I;
            ph     = ph - std::round(ph);
            c.close(ph, 0, f / (ld)des.I * 0.75L + ripple, "phase of a pass-band tone", (long long)i);
        }
    }
    c.label(stop ? "stop band" : "pass band");
    c.interesting(I, D, q, stop, (int64_t)(f * 1e6L));
}
PBT_TEST(tones_f32, 300, 12000) { tones<float>(s, c); }
PBT_TEST(tones_f64, 300, 12000) { tones<double>(s, c); }
