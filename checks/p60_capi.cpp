// The C API: plans and filters against the definitions and the C++ classes, memory blocks against a model, errors.
#define KFR_NO_C_COMPLEX_TYPES 1
#include <kfr/base.hpp>
#include <kfr/capi.h>
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
#include <map>
#include <thread>
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

// ---- one name for the two precisions
template <typename T>
struct Api;
#define API(T, S, U)                                                                                         \
    template <>                                                                                              \
    struct Api<T>                                                                                            \
    {                                                                                                        \
        using dft                                 = KFR_DFT_PLAN_##U;                                        \
        using real                                = KFR_DFT_REAL_PLAN_##U;                                   \
        using dct                                 = KFR_DCT_PLAN_##U;                                        \
        using filter                              = KFR_FILTER_##U;                                          \
        static constexpr auto dft1                = kfr_dft_create_plan_##S;                                 \
        static constexpr auto dft2                = kfr_dft_create_2d_plan_##S;                              \
        static constexpr auto dft3                = kfr_dft_create_3d_plan_##S;                              \
        static constexpr auto dftn                = kfr_dft_create_md_plan_##S;                              \
        static constexpr auto dft_size            = kfr_dft_get_size_##S;                                    \
        static constexpr auto dft_temp            = kfr_dft_get_temp_size_##S;                               \
        static constexpr auto dft_exec            = kfr_dft_execute_##S;                                     \
        static constexpr auto dft_inv             = kfr_dft_execute_inverse_##S;                             \
        static constexpr auto dft_delete          = kfr_dft_delete_plan_##S;                                 \
        static constexpr auto real1               = kfr_dft_real_create_plan_##S;                            \
        static constexpr auto real2               = kfr_dft_real_create_2d_plan_##S;                         \
        static constexpr auto real3               = kfr_dft_real_create_3d_plan_##S;                         \
        static constexpr auto realn               = kfr_dft_real_create_md_plan_##S;                         \
        static constexpr auto real_size           = kfr_dft_real_get_size_##S;                               \
        static constexpr auto real_temp           = kfr_dft_real_get_temp_size_##S;                          \
        static constexpr auto real_exec           = kfr_dft_real_execute_##S;                                \
        static constexpr auto real_inv            = kfr_dft_real_execute_inverse_##S;                        \
        static constexpr auto real_delete         = kfr_dft_real_delete_plan_##S;                            \
        static constexpr auto dct_create          = kfr_dct_create_plan_##S;                                 \
        static constexpr auto dct_size            = kfr_dct_get_size_##S;                                    \
        static constexpr auto dct_temp            = kfr_dct_get_temp_size_##S;                               \
        static constexpr auto dct_exec            = kfr_dct_execute_##S;                                     \
        static constexpr auto dct_inv             = kfr_dct_execute_inverse_##S;                             \
        static constexpr auto dct_delete          = kfr_dct_delete_plan_##S;                                 \
        static constexpr auto fir                 = kfr_filter_create_fir_plan_##S;                          \
        static constexpr auto conv                = kfr_filter_create_convolution_plan_##S;                  \
        static constexpr auto iir                 = kfr_filter_create_iir_plan_##S;                          \
        static constexpr auto process             = kfr_filter_process_##S;                                  \
        static constexpr auto reset               = kfr_filter_reset_##S;                                    \
        static constexpr auto filter_delete       = kfr_filter_delete_plan_##S;                              \
    };
API(float, f32, F32)
API(double, f64, F64)

static std::vector<unsigned> pick_shape(Src& s, bool even)
{
    size_t nd = (size_t)s.in("dims", 1, 4), total = 1;
    std::vector<unsigned> d;
    for (size_t i = 0; i < nd; i++)
    {
        unsigned v = (unsigned)s.in("size", 1, (int64_t)std::max<size_t>(1, std::min<size_t>(400 / total, i ? 24 : 200)));
        if (even && i + 1 == nd)
            v = (v + 1) & ~1u;
        d.push_back(v);
        total *= v;
    }
    return d;
}
template <typename D>
static size_t prod(const D& d)
{
    size_t r = 1;
    for (auto v : d)
        r *= v;
    return r;
}
static void ok(Case& c, const char* what)
{
    c.expect(kfr_last_error()[0] == 0, std::string(what) + " succeeded but left an error: " + kfr_last_error());
}
static void ref_nd(std::vector<cld>& x, const std::vector<unsigned>& d, bool inverse)
{
    size_t total = prod(d), stride = total;
    for (size_t n : d)
    {
        stride /= n;
        std::vector<cld> line(n);
        for (size_t b = 0; b < total; b++)
            if ((b / stride) % n == 0)
            {
                for (size_t i = 0; i < n; i++)
                    line[i] = x[b + i * stride];
                auto r = ref::dft(line, inverse);
                for (size_t i = 0; i < n; i++)
                    x[b + i * stride] = r[i];
            }
    }
}
template <typename T>
static ld tolnd(const std::vector<unsigned>& d, ld nrm, ld mx)
{
    ld t = 0;
    for (auto v : d)
        t += ref::tol<T>(v, nrm, mx);
    return t + ref::tol<T>(prod(d), nrm, mx);
}

template <typename T>
static void dft(Src& s, Case& c)
{
    using A      = Api<T>;
    auto d       = pick_shape(s, false);
    bool generic = s.flag("md") || d.size() == 4, inverse = s.flag("inverse"), inplace = s.flag("inplace"),
         temp = s.flag("temp");
    size_t n = prod(d);
    auto* p  = generic         ? A::dftn(d.size(), d.data())
               : d.size() == 1 ? A::dft1(d[0])
               : d.size() == 2 ? A::dft2(d[0], d[1])
                               : A::dft3(d[0], d[1], d[2]);
    c.expect(p != nullptr, "no plan");
    ok(c, "create");
    c.eq(A::dft_size(p), n, "plan size");
    Buf<unsigned char> tmp(A::dft_temp(p));
    auto x = complex_signal<T>(s, n);
    Buf<T> in(2 * n), out(2 * n);
    std::vector<cld> w(n);
    for (size_t i = 0; i < n; i++)
        in[2 * i] = x[i].real(), in[2 * i + 1] = x[i].imag(), w[i] = cld(x[i].real(), x[i].imag());
    T* o = inplace ? in.data() : out.data();
    (inverse ? A::dft_inv : A::dft_exec)(p, o, in.data(), temp ? tmp.data() : nullptr);
    ok(c, "execute");
    in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
    A::dft_delete(p);
    ok(c, "delete");
    ld nrm = ref::norm2(w), mx = 0;
    ref_nd(w, d, inverse);
    for (auto& v : w)
        mx = std::max(mx, std::abs(v));
    ld tol = tolnd<T>(d, nrm, mx);
    for (size_t i = 0; i < n; i++)
    {
        c.close(o[2 * i], w[i].real(), tol, "real part", (long long)i);
        c.close(o[2 * i + 1], w[i].imag(), tol, "imaginary part", (long long)i);
    }
    c.label(pbt::fmt("dft %zud", d.size()));
    if (n > 1 && nrm > 0)
        c.interesting(n, d.size(), d[0], generic, inverse, inplace, temp, s.rec.back());
}
PBT_TEST(dft_f32, 500, 20000) { dft<float>(s, c); }
PBT_TEST(dft_f64, 500, 20000) { dft<double>(s, c); }

template <typename T>
static void real1d(Src& s, Case& c)
{
    using A      = Api<T>;
    size_t n     = 2 * (size_t)s.in("half", 1, 200), h = n / 2;
    bool perm    = s.flag("perm"), inverse = s.flag("inverse"), temp = s.flag("temp");
    auto* p      = A::real1(n, perm ? Perm : CCs);
    c.expect(p != nullptr, "no plan");
    ok(c, "create");
    c.eq(A::real_size(p), n, "plan size");
    Buf<unsigned char> tmp(A::real_temp(p));
    auto x = real_signal<T>(s, n);
    std::vector<cld> w(x.begin(), x.end()), X = ref::dft(w, false);
    ld nrm = ref::norm2(w), mx = 0;
    for (auto& v : X)
        mx = std::max(mx, std::abs(v));
    size_t bins = perm ? h : h + 1;
    Buf<T> sp(2 * bins), re(n);
    T* t = nullptr;
    unsigned char* tp = temp ? tmp.data() : nullptr;
    (void)t;
    if (!inverse)
    {
        for (size_t i = 0; i < n; i++)
            re[i] = x[i];
        A::real_exec(p, sp.data(), re.data(), tp);
        ld tol = ref::tol<T>(n, nrm, mx);
        for (size_t k = 0; k < bins; k++)
        {
            cld v = X[k];
            if (perm && k == 0)
                v = cld(X[0].real(), X[h].real());
            c.close(sp[2 * k], v.real(), tol, "real part", (long long)k);
            c.close(sp[2 * k + 1], v.imag(), tol, "imaginary part", (long long)k);
        }
    }
    else
    {
        for (size_t k = 0; k < bins; k++)
        {
            sp[2 * k]     = (T)X[k].real();
            sp[2 * k + 1] = k == 0 || k == h ? 0 : (T)X[k].imag();
        }
        if (perm)
            sp[1] = (T)X[h].real();
        A::real_inv(p, re.data(), sp.data(), tp);
        ld tol = ref::tol<T>(n, mx * std::sqrt((ld)n), mx * n) + std::numeric_limits<T>::epsilon() * mx * n;
        for (size_t i = 0; i < n; i++)
            c.close(re[i], (ld)x[i] * n, tol, "sample", (long long)i);
    }
    ok(c, "execute");
    sp.check(c, "spectrum"), re.check(c, "samples"), tmp.check(c, "temp");
    A::real_delete(p);
    if (n > 2 && nrm > 0)
        c.interesting(n, perm, inverse, temp, s.rec.back());
}
PBT_TEST(real_f32, 300, 15000) { real1d<float>(s, c); }
PBT_TEST(real_f64, 300, 15000) { real1d<double>(s, c); }

template <typename T>
static void realmd(Src& s, Case& c)
{
    using A = Api<T>;
    auto d  = pick_shape(s, true);
    if (d.size() == 1)
        d.insert(d.begin(), 1);
    bool generic = s.flag("md") || d.size() > 3, temp = s.flag("temp"), roundtrip = s.flag("inverse"),
         enough = s.flag("real_out_is_enough");
    auto* p = generic ? A::realn(d.size(), d.data(), enough) : d.size() == 2 ? A::real2(d[0], d[1], enough)
                                                                           : A::real3(d[0], d[1], d[2], enough);
    c.expect(p != nullptr, "no plan");
    ok(c, "create");
    size_t n = prod(d), last = d.back(), rows = n / last, bins = last / 2 + 1;
    c.eq(A::real_size(p), n, "plan size");
    Buf<unsigned char> tmp(A::real_temp(p));
    unsigned char* tp = temp ? tmp.data() : nullptr;
    auto x            = real_signal<T>(s, n);
    std::vector<cld> w(x.begin(), x.end());
    ld nrm = ref::norm2(w), mx = 0;
    ref_nd(w, d, false);
    for (auto& v : w)
        mx = std::max(mx, std::abs(v));
    Buf<T> re(n), sp(2 * rows * bins), back(enough ? 2 * rows * bins : n);
    for (size_t i = 0; i < n; i++)
        re[i] = x[i];
    A::real_exec(p, sp.data(), re.data(), tp);
    ok(c, "execute");
    ld tol = tolnd<T>(d, nrm, mx) * 2;
    for (size_t r = 0; r < rows; r++)
        for (size_t k = 0; k < bins; k++)
        {
            c.close(sp[2 * (r * bins + k)], w[r * last + k].real(), tol, "real part", (long long)(r * bins + k));
            c.close(sp[2 * (r * bins + k) + 1], w[r * last + k].imag(), tol, "imaginary part", (long long)(r * bins + k));
        }
    if (roundtrip)
    {
        A::real_inv(p, back.data(), sp.data(), tp);
        ok(c, "inverse");
        for (size_t i = 0; i < n; i++)
            c.close(back[i], (ld)x[i] * n, 4 * tol * std::sqrt((ld)n), "sample", (long long)i);
    }
    re.check(c, "input"), sp.check(c, "spectrum"), back.check(c, "output"), tmp.check(c, "temp");
    A::real_delete(p);
    if (n > 2 && nrm > 0)
        c.interesting(n, d.size(), d[0], generic, temp, roundtrip, enough, s.rec.back());
}
PBT_TEST(realmd_f32, 250, 12000) { realmd<float>(s, c); }
PBT_TEST(realmd_f64, 250, 12000) { realmd<double>(s, c); }

template <typename T>
static void dct(Src& s, Case& c)
{
    using A      = Api<T>;
    size_t n     = (size_t)s.in("n", 1, 200);
    bool inverse = s.flag("inverse"), temp = s.flag("temp");
    auto* p      = A::dct_create(n);
    c.expect(p != nullptr, "no plan");
    ok(c, "create");
    c.eq(A::dct_size(p), n, "plan size");
    Buf<unsigned char> tmp(A::dct_temp(p));
    auto x = real_signal<T>(s, n);
    Buf<T> in(n), out(n);
    ld nrm = 0;
    for (size_t i = 0; i < n; i++)
        in[i] = x[i], nrm += (ld)x[i] * x[i];
    nrm = std::sqrt(nrm);
    (inverse ? A::dct_inv : A::dct_exec)(p, out.data(), in.data(), temp ? tmp.data() : nullptr);
    ok(c, "execute");
    in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
    A::dct_delete(p);
    const ld PI = 3.14159265358979323846264338327950288L;
    ld tol = ref::tol<T>(2 * n, nrm * 2, nrm * 2) + 16 * std::numeric_limits<T>::epsilon() * nrm * std::sqrt((ld)n);
    for (size_t k = 0; k < n; k++)
    {
        ld w = 0;
        for (size_t i = 0; i < n; i++)
            w += inverse ? (ld)x[i] * (i ? std::cos(PI * i * (k + 0.5L) / n) : 0.5L) : (ld)x[i] * std::cos(PI * k * (i + 0.5L) / n);
        c.close(out[k], w, tol, "coefficient", (long long)k);
    }
    if (n > 1 && nrm > 0)
        c.interesting(n, inverse, temp, s.rec.back());
}
PBT_TEST(dct_f32, 200, 10000) { dct<float>(s, c); }
PBT_TEST(dct_f64, 200, 10000) { dct<double>(s, c); }

// ---- filters: any history of blocks and resets
template <typename T>
static void filters(Src& s, Case& c)
{
    using A  = Api<T>;
    int kind = (int)s.in("kind", 0, 2);
    size_t n = (size_t)s.in("n", 1, kind == 2 ? 12 : 90);
    Rng r    = s.bulk("data");
    std::vector<T> coef;
    typename A::filter* f;
    std::vector<std::array<ld, 5>> sec;
    std::vector<std::array<ld, 2>> st;
    if (kind == 2)
    {
        for (size_t i = 0; i < n; i++)
        {
            ld rad = 0.9L * r.unit(), w = 3.14L * r.unit(), a1 = -2 * rad * std::cos(w), a2 = rad * rad;
            T q[6] = { 1, (T)a1, (T)a2, (T)(r.sym() * 0.5), (T)(r.sym() * 0.5), (T)(r.sym() * 0.5) };
            coef.insert(coef.end(), q, q + 6);
            sec.push_back({ q[1], q[2], q[3], q[4], q[5] });
            st.push_back({ 0, 0 });
        }
        f = A::iir(coef.data(), n);
    }
    else
    {
        for (size_t i = 0; i < n; i++)
            coef.push_back((T)r.sym());
        size_t block = kind ? (size_t)s.pick<int>("block", { 0, 1, 2, 4, 8, 16, 32, 64, 256 }) : 0;
        f            = kind ? A::conv(coef.data(), n, block) : A::fir(coef.data(), n);
    }
    c.expect(f != nullptr, "no filter");
    ok(c, "create");
    std::vector<T> taps = coef;
    std::fill(coef.begin(), coef.end(), (T)1e30); // the plan must not depend on the caller's array
    std::vector<T> hist;
    size_t blocks = (size_t)s.in("blocks", 1, 8), total = 0;
    bool reset = false;
    ld gain = 0, eps = std::numeric_limits<T>::epsilon(), peak = 0;
    for (auto v : taps)
        gain += std::fabs((ld)v);
    for (size_t b = 0; b < blocks; b++)
    {
        if (s.flag("reset", 1, 6))
        {
            A::reset(f);
            ok(c, "reset");
            hist.clear();
            for (auto& q : st)
                q = { 0, 0 };
            reset = total > 0;
        }
        size_t len   = (size_t)s.skew("len", 0, 300);
        bool inplace = s.flag("inplace");
        Buf<T> x(len, (size_t)s.in(0, 2)), y(len, (size_t)s.in(0, 2));
        for (size_t i = 0; i < len; i++)
            x[i] = (T)r.sym();
        std::vector<T> xs(x.data(), x.data() + len);
        T* o = inplace ? x.data() : y.data();
        A::process(f, o, x.data(), len);
        ok(c, "process");
        x.check(c, "input"), y.check(c, "output");
        for (size_t i = 0; i < len; i++)
        {
            ld w = 0;
            if (kind == 2)
            {
                w = xs[i];
                for (size_t k = 0; k < n; k++)
                {
                    ld y_   = sec[k][2] * w + st[k][0];
                    st[k][0] = sec[k][3] * w - sec[k][0] * y_ + st[k][1];
                    st[k][1] = sec[k][4] * w - sec[k][1] * y_;
                    w        = y_;
                    peak     = std::max(peak, std::fabs(w));
                }
                peak = std::max(peak, (ld)1);
                c.close(o[i], w, 2000 * eps * n * peak, "iir output", (long long)(total + i));
            }
            else
            {
                hist.push_back(xs[i]);
                for (size_t k = 0; k < n && k < hist.size(); k++)
                    w += (ld)taps[k] * hist[hist.size() - 1 - k];
                c.close(o[i], w, 32 * eps * (gain + 1), "filtered sample", (long long)(total + i));
            }
        }
        total += len;
    }
    A::filter_delete(f);
    ok(c, "delete");
    c.label(kind == 2 ? "iir" : kind ? "convolution" : "fir");
    if (reset)
        c.label("reset");
    if (total > 1)
        c.interesting(kind, n, blocks, total, reset);
}
PBT_TEST(filters_f32, 500, 20000) { filters<float>(s, c); }
PBT_TEST(filters_f64, 500, 20000) { filters<double>(s, c); }

// ---- memory
PBT_TEST(memory, 500, 20000)
{
    struct Block
    {
        unsigned char* p;
        size_t size, align, refs;
        unsigned char fill;
    };
    std::vector<Block> live;
    auto content = [&](const Block& b, size_t upto, const char* what)
    {
        for (size_t i = 0; i < std::min(b.size, upto); i++)
            if (b.p[i] != (unsigned char)(b.fill + i * 7))
                c.fail(pbt::fmt("%s: byte %zu changed", what, i));
    };
    auto fresh = [&](Block b)
    {
        c.expect(b.p != nullptr, "allocation failed");
        c.expect((uintptr_t)b.p % b.align == 0, "block is not aligned");
        c.eq(kfr_allocated_size(b.p), b.size, "allocated size");
        for (auto& o : live)
            c.expect(b.p + b.size <= o.p || o.p + o.size <= b.p, "blocks overlap");
    };
    auto paint = [&](Block& b)
    {
        b.fill = (unsigned char)(live.size() * 31 + b.size);
        for (size_t i = 0; i < b.size; i++)
            b.p[i] = (unsigned char)(b.fill + i * 7);
    };
    size_t ops = (size_t)s.in("ops", 1, 40), done = 0;
    for (size_t i = 0; i < ops; i++)
    {
        int op       = (int)s.in(0, 7);
        size_t size  = (size_t)s.skew(nullptr, 1, 5000);
        size_t align = (size_t)1 << s.in(0, 15);
        size_t k     = live.empty() ? 0 : (size_t)s.in(0, (int64_t)live.size() - 1);
        if (op <= 1)
        {
            Block b{ (unsigned char*)(op ? kfr_allocate_aligned(size, align) : kfr_allocate(size)), size, op ? align : 64, 1, 0 };
            fresh(b);
            paint(b);
            live.push_back(b);
        }
        else if (live.empty())
            continue;
        else if (op <= 3) // reallocate (a shared block leaves the other owners alone)
        {
            Block old  = live[k];
            bool huge  = s.flag(nullptr, 1, 10);
            size_t req = huge ? (s.flag() ? SIZE_MAX - size : ((size_t)1 << 62)) : size;
            auto* q    = (unsigned char*)(op == 2 ? kfr_reallocate(old.p, req) : kfr_reallocate_aligned(old.p, req, align));
            if (huge)
            {
                c.expect(q == nullptr, "reallocation to an impossible size succeeded");
                content(old, old.size, "after a failed reallocation");
                continue;
            }
            if (--live[k].refs == 0)
                live.erase(live.begin() + (long)k);
            Block b{ q, size, op == 2 ? 64 : align, 1, old.fill };
            fresh(b);
            content(b, old.size, "reallocation");
            paint(b);
            live.push_back(b);
        }
        else if (op == 4)
        {
            c.expect(kfr_add_ref(live[k].p) == live[k].p, "add_ref returned another pointer");
            live[k].refs++;
        }
        else if (op <= 6)
        {
            op == 5 ? kfr_release(live[k].p) : kfr_deallocate(live[k].p);
            if (--live[k].refs == 0)
                live.erase(live.begin() + (long)k);
        }
        else
        {
            size_t bad = s.flag() ? SIZE_MAX - size : ((size_t)1 << 62);
            c.expect(kfr_allocate_aligned(bad, align) == nullptr, "allocation of an impossible size succeeded");
            c.expect(kfr_allocate_aligned(size, 0) == nullptr, "alignment 0 accepted");
            c.expect(kfr_allocate_aligned(size, 65536) == nullptr, "alignment 65536 accepted");
        }
        done++;
        for (auto& b : live)
        {
            content(b, b.size, "a live block");
            c.eq(kfr_allocated_size(b.p), b.size, "size of a live block");
        }
    }
    for (auto& b : live)
        while (b.refs--)
            kfr_release(b.p);
    if (done > 1)
        c.interesting(ops, done, live.size(), s.rec.size(), s.rec[s.rec.size() / 2]);
}

// ---- errors: a failing call returns null and describes itself to its own thread; a good one clears it
PBT_TEST(errors, 60, 3000)
{
    size_t odd = 2 * (size_t)s.in("half", 1, 60) + 1, steps = (size_t)s.in("steps", 1, 12);
    bool failed = false;
    for (size_t i = 0; i < steps; i++)
    {
        if (s.flag())
        {
            void* p = s.flag() ? (void*)kfr_dft_real_create_plan_f32(odd, CCs) : (void*)kfr_dft_real_create_plan_f64(odd, Perm);
            c.expect(p == nullptr, "a real plan of odd size was created");
            c.expect(std::strstr(kfr_last_error(), "even") != nullptr, std::string("error text: ") + kfr_last_error());
            failed = true;
        }
        else
        {
            auto* p = kfr_dft_create_plan_f32(odd);
            c.expect(p != nullptr, "no plan");
            ok(c, "create");
            kfr_dft_delete_plan_f32(p);
            failed = false;
        }
        if (s.flag())
        {
            std::string here = kfr_last_error(), there;
            std::thread t(
                [&]
                {
                    there = kfr_last_error();
                    auto* q = kfr_dft_real_create_plan_f32(odd, CCs);
                    if (q || !kfr_last_error()[0])
                        there = "the other thread saw no error";
                });
            t.join();
            c.expect(there.empty(), "another thread: " + there);
            c.expect(here == kfr_last_error(), "another thread changed this thread's error");
        }
        c.expect((kfr_last_error()[0] != 0) == failed, "error state");
    }
    c.interesting(odd, steps, s.rec.size());
}
