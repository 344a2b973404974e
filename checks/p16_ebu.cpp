// EBU R128 / ITU-R BS.1770 loudness meter against a long-double model over any history of packets.
#include <kfr/base.hpp>
#include <kfr/dsp/ebu.hpp>
#include "pbt.hpp"
#include <array>
#include <deque>
using namespace pbt;
using ld = long double;
static const ld PI = 3.14159265358979323846264338327950288L;

struct Sec
{
    ld b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0, z1 = 0, z2 = 0;
    ld run(ld x)
    {
        ld y = b0 * x + z1;
        z1   = b1 * x - a1 * y + z2;
        z2   = b2 * x - a2 * y;
        return y;
    }
    ld power(ld w) const // squared magnitude
    {
        std::complex<ld> z = std::polar<ld>(1, -w), z2_ = z * z;
        return std::norm(b0 + b1 * z + b2 * z2_) / std::norm(ld(1) + a1 * z + a2 * z2_);
    }
};
// The K-weighting of BS.1770 (parameters that reproduce the 48 kHz table of the recommendation)
static void kweight(ld sr, Sec& s1, Sec& s2)
{
    ld K = std::tan(PI * 1681.974450955533L / sr), Q = 0.7071752369554196L, Vh = std::pow(10.0L, 3.999843853973347L / 20),
       Vb = std::pow(Vh, 0.4996667741545416L), a0 = 1 + K / Q + K * K;
    s1.b0 = (Vh + Vb * K / Q + K * K) / a0;
    s1.b1 = 2 * (K * K - Vh) / a0;
    s1.b2 = (Vh - Vb * K / Q + K * K) / a0;
    s1.a1 = 2 * (K * K - 1) / a0;
    s1.a2 = (1 - K / Q + K * K) / a0;
    K     = std::tan(PI * 38.13547087602444L / sr);
    Q     = 0.5003270373238773L;
    a0    = 1 + K / Q + K * K;
    s2.b0 = 1, s2.b1 = -2, s2.b2 = 1;
    s2.a1 = 2 * (K * K - 1) / a0;
    s2.a2 = (1 - K / Q + K * K) / a0;
}
static ld lufs(ld e) { return 10 * std::log10(e) - 0.691L; }
static ld energy(ld l) { return std::pow(10.0L, (l + 0.691L) / 10); }

static ld channel_gain(kfr::Speaker sp)
{
    using kfr::Speaker;
    if (sp == Speaker::Lfe || sp == Speaker::Lfe2)
        return 0;
    if (sp == Speaker::Ls || sp == Speaker::Rs)
        return std::pow(10.0L, 0.15L);
    return 1;
}

struct Model
{
    size_t packet, factor;
    std::vector<std::array<Sec, 2>> filt;
    std::vector<ld> gain;
    std::vector<std::deque<ld>> sums; // per channel: energy of each packet since the start
    std::vector<ld> integrated, shortterm;
    std::vector<ld> int_in, short_in; // total unweighted energies, for error bounds
    bool running = true, pending = false;

    ld window(size_t ch, size_t n) const
    {
        ld r = 0;
        for (size_t i = 0; i < n && i < sums[ch].size(); i++)
            r += sums[ch][sums[ch].size() - 1 - i];
        return r / n / packet;
    }
    ld momentary() const
    {
        ld r = 0;
        for (size_t c = 0; c < gain.size(); c++)
            r += gain[c] * window(c, 4 * factor);
        return r;
    }
    ld short_term() const
    {
        ld r = 0;
        for (size_t c = 0; c < gain.size(); c++)
            r += gain[c] * window(c, 30 * factor);
        return r;
    }
    template <typename T>
    void feed(const std::vector<kfr::univector<T>>& x)
    {
        if (pending)
        {
            for (auto& s : sums)
                s.clear();
            integrated.clear();
            shortterm.clear();
            pending = false;
        }
        for (size_t c = 0; c < gain.size(); c++)
        {
            ld e = 0;
            for (T v : x[c])
            {
                ld y = filt[c][1].run(filt[c][0].run(v));
                e += y * y;
            }
            sums[c].push_back(e);
            if (sums[c].size() > 30 * factor)
                sums[c].pop_front();
        }
        if (running)
        {
            integrated.push_back(momentary());
            shortterm.push_back(short_term());
        }
    }
};

// relative precision of an energy
template <typename T>
static constexpr ld EREL = sizeof(T) == 4 ? 4e-3L : 1e-9L;
template <typename T>
static constexpr ld DBTOL = sizeof(T) == 4 ? 0.02L : 1e-7L;

template <typename T>
static void history(Src& s, Case& c)
{
    using kfr::Speaker;
    int sr        = s.pick<int>("rate", { 8000, 44100, 48000, 11025, 96000, 22050 });
    size_t factor = (size_t)s.in("factor", 1, 6), nch = (size_t)s.in("channels", 1, 5);
    std::vector<Speaker> sp;
    for (size_t i = 0; i < nch; i++)
        sp.push_back(s.pick<Speaker>("speaker", { Speaker::Left, Speaker::Right, Speaker::Center, Speaker::Mono, Speaker::Ls,
                                                  Speaker::Rs, Speaker::Lfe, Speaker::Lfe2 }));
    kfr::ebu_r128<T> meter(sr, sp, (int)factor);
    Model m;
    m.factor = factor;
    m.packet = (size_t)(sr / 10 / (int)factor);
    c.eq(meter.packet_size(), m.packet, "packet size");
    c.eq(meter.count(), nch, "channels");
    for (size_t i = 0; i < nch; i++)
    {
        // the same coefficients as the meter: the filter itself is checked by the other test
        kfr::biquad_section<T> bq[2] = { kfr::biquad_highshelf(T(1681.81 / sr), T(4)),
                                         kfr::biquad_highpass(T(38.1106678246655 / sr), T(0.5)).normalized_all() };
        std::array<Sec, 2> f;
        for (int k = 0; k < 2; k++)
            f[k].b0 = bq[k].b0 / (ld)bq[k].a0, f[k].b1 = bq[k].b1 / (ld)bq[k].a0, f[k].b2 = bq[k].b2 / (ld)bq[k].a0,
            f[k].a1 = bq[k].a1 / (ld)bq[k].a0, f[k].a2 = bq[k].a2 / (ld)bq[k].a0;
        m.filt.push_back(f);
        m.gain.push_back(channel_gain(sp[i]));
    }
    m.sums.resize(nch);

    // the recursive filter leaves rounding noise relative to the loudest sample so far
    ld noise = 0;
    auto tol = [&](ld e) { return DBTOL<T> + 8.7L * noise / std::sqrt(std::max(e, 1e-18L)); };
    auto check = [&]
    {
        T M, S, I, lo, hi;
        meter.get_values(M, S, I, lo, hi);
        // without energy the reading is minus infinity (or very low: the filter rings)
        auto cmp = [&](T got, ld e, const char* what)
        {
            if (e < energy(-150) || tol(e) > 3)
                c.expect(!(lufs(e) > -120 ? got > lufs(e) + 30 : got > -90), std::string(what) + " of silence");
            else
                c.close(got, lufs(e), tol(e), what);
        };
        if (!m.pending)
        {
            cmp(M, m.momentary(), "momentary loudness");
            cmp(S, m.short_term(), "short-term loudness");
        }
        // integrated: gating at -70 and 10 below the mean; skip when a block is too close to a gate
        if (m.pending)
            return;
        bool ambiguous = false;
        auto near      = [&](ld e, ld g) { ambiguous |= std::fabs(lufs(e) - g) < 2 * tol(e); };
        ld tot = 0;
        size_t n = 0;
        for (ld e : m.integrated)
        {
            near(e, -70);
            if (lufs(e) >= -70)
                tot += e, n++;
        }
        ld want = -INFINITY;
        if (n)
        {
            ld gate = lufs(tot / n) - 10, z = 0;
            size_t k = 0;
            for (ld e : m.integrated)
                if (lufs(e) >= -70)
                {
                    near(e, gate);
                    if (lufs(e) >= gate)
                        z += e, k++;
                }
            want = lufs(z / k);
        }
        if (ambiguous)
            c.label("gate too close");
        else if (n == 0)
            c.expect(I == -kfr::c_infinity<T>, "integrated loudness of silence");
        else
            c.close(I, want, 2 * tol(energy(want)), "integrated loudness");
        // range
        ambiguous = false;
        std::vector<ld> v;
        tot = 0;
        for (ld e : m.shortterm)
        {
            near(e, -70);
            if (lufs(e) >= -70)
                v.push_back(e), tot += e;
        }
        ld wlo = -70, whi = -70;
        if (v.size() >= 2)
        {
            ld gate = lufs(tot / v.size()) - 20;
            std::vector<ld> g;
            for (ld e : v)
            {
                near(e, gate);
                if (lufs(e) > gate)
                    g.push_back(e);
            }
            std::sort(g.begin(), g.end());
            if (g.size() >= 2)
            {
                ld a = (g.size() - 1) * 0.10L, b = (g.size() - 1) * 0.95L;
                // a position exactly between two blocks may round either way
                auto at = [&](ld p, ld q)
                {
                    if (std::fabs(p - std::floor(p) - 0.5L) < 1e-4L)
                        ambiguous = true;
                    return lufs(g[(size_t)std::floor(q + 0.5L)]);
                };
                wlo = at(a, a);
                whi = at(b, b);
            }
        }
        if (!ambiguous)
        {
            c.close(lo, wlo, 2 * tol(energy(wlo)), "low end of the loudness range");
            c.close(hi, whi, 2 * tol(energy(whi)), "high end of the loudness range");
        }
        if (n && !ambiguous)
            c.label("gated values");
    };

    size_t packets = 0, steps = (size_t)s.in("segments", 1, 6);
    bool resets = false;
    for (size_t st = 0; st < steps; st++)
    {
        int op = (int)s.in("op", 0, 9);
        if (op == 7)
        {
            meter.stop();
            m.running = false;
        }
        if (op == 8)
        {
            meter.start();
            m.running = true;
        }
        if (op == 9)
        {
            meter.reset();
            m.pending = true;
            resets    = packets > 0;
        }
        // a segment of packets with one level and spectrum
        size_t k  = (size_t)s.skew("packets", 0, m.packet > 2000 ? 20 : 60);
        ld dB     = -(ld)s.in("level", 0, 85);
        int kind  = (int)s.in("kind", 0, 2);
        ld freq   = std::pow(10.0L, 2 + (ld)s.in("freq", 0, 30) / 30 * 1.4L); // 100 .. 2500 Hz
        Rng r     = s.bulk("data");
        T amp     = (T)std::pow(10.0L, dB / 20);
        std::vector<double> chg(nch);
        for (auto& g : chg)
            g = r.chance(1, 6) ? 0 : r.unit();
        bool vary = r.chance(1, 2);
        for (size_t p = 0; p < k; p++)
        {
            std::vector<kfr::univector<T>> x;
            noise     = std::max(noise, (ld)amp * (sizeof(T) == 4 ? 1e-9L : 1e-17L) * sr);
            double lv = vary ? std::pow(10.0, -r.unit() * 1.5) : 1;
            for (size_t ch = 0; ch < nch; ch++)
            {
                kfr::univector<T> u(m.packet);
                for (size_t i = 0; i < m.packet; i++)
                    u[i] = (T)(amp * lv * chg[ch] *
                               (kind == 0   ? std::sin(2 * (double)PI * (double)freq * (double)((packets + p) * m.packet + i) / sr)
                                : kind == 1 ? r.sym()
                                            : ((int)((double)i * (double)freq / sr * 2) & 1 ? 1.0 : -1.0)));
                x.push_back(std::move(u));
            }
            meter.process_packet(x);
            m.feed(x);
            if (r.chance(1, 8))
                check();
        }
        packets += k;
        check();
    }
    if (resets)
        c.label("reset in mid-stream");
    if (packets > 1)
        c.interesting(sr, factor, nch, packets, steps, (int)resets);
}
PBT_TEST(history_f32, 160, 8000) { history<float>(s, c); }
PBT_TEST(history_f64, 160, 8000) { history<double>(s, c); }

// A steady tone reads its K-weighted mean square, summed over the channels with their weights
template <typename T>
static void tone(Src& s, Case& c)
{
    using kfr::Speaker;
    int sr    = s.pick<int>("rate", { 48000, 44100, 96000, 32000, 192000, 88200 });
    size_t f  = (size_t)s.in("factor", 1, 3);
    ld freq   = 60 * std::pow(200.0L, (ld)s.in("frequency", 0, 1000) / 1000); // 60 .. 12000 Hz
    ld dB     = -(ld)s.in("level", 0, 40);
    Speaker sp = s.pick<Speaker>("speaker", { Speaker::Left, Speaker::Center, Speaker::Ls, Speaker::Rs, Speaker::Right });
    bool lfe   = s.flag("lfe");
    std::vector<Speaker> spk{ sp };
    if (lfe)
        spk.push_back(Speaker::Lfe);
    kfr::ebu_r128<T> meter(sr, spk, (int)f);
    Sec a, b;
    kweight(sr, a, b);
    ld w = 2 * PI * freq / sr, amp = std::pow(10.0L, dB / 20);
    ld want = lufs(amp * amp / 2 * a.power(w) * b.power(w) * channel_gain(sp));
    size_t ps = meter.packet_size(), k = 0;
    T M = 0, S, I, lo, hi;
    for (size_t p = 0; p < 8 * f; p++)
    {
        std::vector<kfr::univector<T>> x(spk.size(), kfr::univector<T>(ps));
        for (size_t i = 0; i < ps; i++, k++)
        {
            x[0][i] = (T)(amp * std::sin(w * (ld)k));
            if (lfe)
                x[1][i] = (T)std::cos(0.01L * (ld)k);
        }
        meter.process_packet(x);
    }
    meter.get_values(M, S, I, lo, hi);
    // the recommendation's own tolerance is 0.1 LU
    c.close(M, want, 0.1L, "loudness of a steady tone");
    c.interesting(sr, f, (int64_t)freq, (int64_t)dB, (int)sp, lfe);
}
PBT_TEST(tone_f32, 30, 1500) { tone<float>(s, c); }
PBT_TEST(tone_f64, 60, 3000) { tone<double>(s, c); }
PBT_TEST(units_loudness, 100, 5000)
{
    double l = s.real("loudness", -120, 20);
    c.close(kfr::loudness_to_energy(l), energy(l), energy(l) * 1e-13L, "energy");
    c.close(kfr::energy_to_loudness(kfr::loudness_to_energy(l)), l, 1e-11L, "loudness");
    c.interesting((int64_t)(l * 1e6));
}
