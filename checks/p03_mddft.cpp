// Multidimensional complex and real DFT against a separable reference built from the one-dimensional definition.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "pbt.hpp"
#include "dft_ref.hpp"
using namespace pbt;
using ld  = long double;
using cld = std::complex<ld>;

static std::vector<size_t> pick_dims(Src& s, size_t nd, size_t maxtotal, bool evenlast)
{
    std::vector<size_t> d(nd);
    size_t total = 1;
    for (size_t i = 0; i < nd; i++)
    {
        size_t cap = maxtotal / total;
        bool last  = i + 1 == nd;
        size_t v;
        switch (s.in(0, 2))
        {
        case 0: v = (size_t)s.in(1, 8); break;
        case 1: v = (size_t)s.pick<int>(nullptr, { 1, 2, 4, 8, 16, 32, 64, 128 }); break;
        default: v = (size_t)s.in(1, 40);
        }
        v = std::max<size_t>(1, std::min(v, cap));
        if (last && evenlast)
            v = std::max<size_t>(2, v & ~(size_t)1);
        d[i] = v;
        total *= v;
        s.describe("dim", (long long)v);
    }
    return d;
}
static void ref_nd(std::vector<cld>& x, const std::vector<size_t>& d, bool inverse)
{
    size_t total = 1;
    for (auto v : d)
        total *= v;
    size_t stride = total;
    for (size_t ax = 0; ax < d.size(); ax++)
    {
        stride /= d[ax];
        std::vector<cld> line(d[ax]);
        for (size_t base = 0; base < total; base++)
        {
            if ((base / stride) % d[ax])
                continue;
            for (size_t i = 0; i < d[ax]; i++)
                line[i] = x[base + i * stride];
            auto r = ref::dft(line, inverse);
            for (size_t i = 0; i < d[ax]; i++)
                x[base + i * stride] = r[i];
        }
    }
}
template <kfr::index_t D>
static kfr::shape<D> mkshape(const std::vector<size_t>& d)
{
    if constexpr (D == kfr::dynamic_shape)
        return kfr::shape<D>(d.data(), d.data() + d.size());
    else
    {
        kfr::shape<D> r;
        for (size_t i = 0; i < D; i++)
            r[i] = d[i];
        return r;
    }
}
template <typename T>
static ld tolnd(const std::vector<size_t>& d, ld nrm, ld mx)
{
    ld t = 0, total = 1;
    for (auto v : d)
        total *= v;
    for (auto v : d)
        t += ref::tol<T>(v, nrm, mx);
    return t + ref::tol<T>((size_t)total, nrm, mx);
}

template <typename T, kfr::index_t D>
static void complex_nd(Src& s, Case& c, size_t nd)
{
    using C      = kfr::complex<T>;
    auto d       = pick_dims(s, nd, 2400, false);
    bool inverse = s.flag("inverse"), inplace = s.flag("inplace"), temp = s.flag("temp");
    int api      = (int)s.in("api", 0, 2);
    size_t n     = 1;
    for (auto v : d)
        n *= v;
    auto x = complex_signal<T>(s, n);
    kfr::dft_plan_md<T, D> plan(mkshape<D>(d));
    Buf<C> in(n), out(n);
    for (size_t i = 0; i < n; i++)
        in[i] = C(x[i].real(), x[i].imag());
    Buf<unsigned char> tmp(plan.temp_size);
    C* o          = inplace ? in.data() : out.data();
    unsigned char* tp = temp ? tmp.data() : nullptr;
    if (api == 0)
        plan.execute(o, in.data(), tp, inverse);
    else if (api == 1)
    {
        if (inverse)
            plan.template execute<true>(o, in.data(), tp, kfr::ctrue);
        else
            plan.template execute<false>(o, in.data(), tp, kfr::cfalse);
    }
    else
    {
        if constexpr (D != kfr::dynamic_shape)
        {
            kfr::tensor<C, D> tin(in.data(), mkshape<D>(d), nullptr), tout(o, mkshape<D>(d), nullptr);
            plan.execute(tout, tin, tp, inverse);
        }
        else
            plan.execute(o, in.data(), tp, inverse);
    }
    in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
    if (!inplace)
        for (size_t i = 0; i < n; i++)
            c.expect(in[i].real() == x[i].real() && in[i].imag() == x[i].imag(), pbt::fmt("input changed at %zu", i));
    std::vector<cld> w(n);
    ld mx = 0;
    for (size_t i = 0; i < n; i++)
        w[i] = cld(x[i].real(), x[i].imag());
    ld nrm = ref::norm2(w);
    ref_nd(w, d, inverse);
    for (auto& v : w)
        mx = std::max(mx, std::abs(v));
    ld tol = tolnd<T>(d, nrm, mx);
    for (size_t i = 0; i < n; i++)
    {
        c.close(o[i].real(), w[i].real(), tol, "re X", (long long)i);
        c.close(o[i].imag(), w[i].imag(), tol, "im X", (long long)i);
    }
    c.label(pbt::fmt("%zud", nd));
    uint64_t h = 0;
    for (auto v : d)
        h = mix(h, v);
    if (n > 1 && nrm > 0)
        c.interesting(h, inverse, inplace, temp, api, s.rec.back());
}
template <typename T, kfr::index_t D>
static void real_nd(Src& s, Case& c, size_t nd)
{
    using C    = kfr::complex<T>;
    auto d     = pick_dims(s, nd, 2400, true);
    bool back  = s.flag("inverse"), temp = s.flag("temp"), enough = s.flag("real_out_is_enough");
    bool inplace = s.flag("inplace");
    int api      = (int)s.in("api", 0, 1);
    size_t n     = 1;
    for (auto v : d)
        n *= v;
    size_t last = d.back(), rows = n / last, cl = last / 2 + 1, cn = rows * cl;
    auto x = real_signal<T>(s, n);
    kfr::dft_plan_md_real<T, D> plan(mkshape<D>(d), enough);
    c.eq((size_t)plan.complex_size().product(), cn, "complex_size");
    c.eq((size_t)plan.real_out_size(), cn * 2, "real_out_size");
    Buf<unsigned char> tmp(plan.temp_size);
    unsigned char* tp = temp ? tmp.data() : nullptr;
    std::vector<cld> w(n);
    for (size_t i = 0; i < n; i++)
        w[i] = x[i];
    ld nrm = ref::norm2(w);
    ref_nd(w, d, false);
    ld mx = 0;
    for (auto& v : w)
        mx = std::max(mx, std::abs(v));
    ld tol = tolnd<T>(d, nrm, mx);
    if (!back)
    {
        Buf<T> in(n);
        Buf<C> out(cn);
        T* ip = inplace ? (T*)out.data() : in.data();
        for (size_t i = 0; i < n; i++)
            in[i] = x[i], ip[i] = x[i];
        if (api == 1 && !inplace)
            plan.execute(out.data(), ip, tp, kfr::cdirect_t{});
        else
            plan.execute(out.data(), ip, tp);
        in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
        for (size_t i = 0; i < n; i++)
            c.expect(in[i] == x[i], pbt::fmt("input changed at %zu", i));
        for (size_t r = 0; r < rows; r++)
            for (size_t k = 0; k < cl; k++)
            {
                c.close(out[r * cl + k].real(), w[r * last + k].real(), tol, "re X", (long long)(r * cl + k));
                c.close(out[r * cl + k].imag(), w[r * last + k].imag(), tol, "im X", (long long)(r * cl + k));
            }
    }
    else
    {
        Buf<C> in(cn);
        Buf<T> out(enough ? cn * 2 : n);
        C* ip = in.data();
        T* op = out.data();
        if (inplace)
            op = (T*)in.data();
        std::vector<C> keep(cn);
        for (size_t r = 0; r < rows; r++)
            for (size_t k = 0; k < cl; k++)
                ip[r * cl + k] = keep[r * cl + k] = C((T)w[r * last + k].real(), (T)w[r * last + k].imag());
        if (api == 1)
            plan.execute(op, ip, tp, kfr::cinvert_t{});
        else
            plan.execute(op, ip, tp);
        in.check(c, "input"), out.check(c, "output"), tmp.check(c, "temp");
        if (!inplace)
            for (size_t i = 0; i < cn; i++)
                c.expect(in[i].real() == keep[i].real() && in[i].imag() == keep[i].imag(),
                         pbt::fmt("input changed at %zu", i));
        ld snrm = nrm * std::sqrt((ld)n), mb = 0;
        for (size_t i = 0; i < n; i++)
            mb = std::max(mb, std::fabs((ld)x[i]) * n);
        ld t2 = tolnd<T>(d, snrm, mb) + std::numeric_limits<T>::epsilon() * snrm;
        for (size_t i = 0; i < n; i++)
            c.close(op[i], (ld)n * x[i], t2, "x", (long long)i);
    }
    c.label(pbt::fmt("%zud", nd));
    c.label(back ? "c2r" : "r2c");
    uint64_t h = 0;
    for (auto v : d)
        h = mix(h, v);
    if (nrm > 0)
        c.interesting(h, back, temp, enough, inplace, s.rec.back());
}
#define DISPATCH(FN, T)                                                                                      \
    {                                                                                                        \
        size_t nd = (size_t)s.in("dims", 1, 4);                                                              \
        if (s.flag("dynamic"))                                                                               \
            FN<T, kfr::dynamic_shape>(s, c, nd);                                                             \
        else if (nd == 1)                                                                                    \
            FN<T, 1>(s, c, nd);                                                                              \
        else if (nd == 2)                                                                                    \
            FN<T, 2>(s, c, nd);                                                                              \
        else if (nd == 3)                                                                                    \
            FN<T, 3>(s, c, nd);                                                                              \
        else                                                                                                 \
            FN<T, 4>(s, c, nd);                                                                              \
    }
PBT_TEST(complex_f32, 600, 12000) DISPATCH(complex_nd, float)
PBT_TEST(complex_f64, 600, 12000) DISPATCH(complex_nd, double)
PBT_TEST(real_f32, 600, 12000) DISPATCH(real_nd, float)
PBT_TEST(real_f64, 600, 12000) DISPATCH(real_nd, double)

// the overloads that take the direction as a bool
PBT_TEST(real_bool_direction, 60, 400)
{
    size_t a = (size_t)s.in("a", 1, 6), b = 2 * (size_t)s.in("b/2", 1, 6);
    kfr::dft_plan_md_real<double, 2> plan(kfr::shape<2>{ (kfr::index_t)a, (kfr::index_t)b });
    Rng r = s.bulk("seed");
    std::vector<double> x(a * b), y(a * b);
    for (auto& v : x)
        v = r.sym();
    std::vector<kfr::complex<double>> sp(plan.complex_size().product());
    plan.execute(sp.data(), x.data(), nullptr, false);
    plan.execute(y.data(), sp.data(), nullptr, true);
    for (size_t i = 0; i < x.size(); i++)
        c.close(y[i], x[i] * (double)(a * b), 1e-12, "round trip", (long long)i);
    c.interesting(a, b, s.rec.back());
}

// any transposition of a row-major matrix, in place or not (the step the transform is built on)
template <typename T>
static void transpose_case(Src& s, Case& c)
{
    size_t a = (size_t)s.skew("rows", 1, 70), b = (size_t)s.skew("cols", 1, 70);
    bool inplace = s.flag("inplace");
    Buf<T> in(a * b), out(a * b);
    for (size_t i = 0; i < a * b; i++)
        in[i] = T((float)(i + 1));
    T* o = inplace ? in.data() : out.data();
    kfr::matrix_transpose(o, in.data(), kfr::shape<2>{ (kfr::index_t)a, (kfr::index_t)b });
    in.check(c, "input"), out.check(c, "output");
    for (size_t i = 0; i < a; i++)
        for (size_t j = 0; j < b; j++)
            c.expect(o[j * a + i] == T((float)(i * b + j + 1)), pbt::fmt("element (%zu,%zu) misplaced", i, j));
    if (a > 1 && b > 1)
        c.interesting(a, b, inplace);
}
PBT_TEST(transpose_f32, 500, 5000) { transpose_case<float>(s, c); }
PBT_TEST(transpose_f64, 500, 5000) { transpose_case<double>(s, c); }
PBT_TEST(transpose_c32, 500, 5000) { transpose_case<kfr::complex<float>>(s, c); }
PBT_TEST(transpose_c64, 500, 5000) { transpose_case<kfr::complex<double>>(s, c); }
