// Plans are immutable: several threads execute one plan at the same time (each with its own buffers), and the plan
// cache hands out plans concurrently. Built with the thread sanitizer: a data race is a failing case even when the
// numbers happen to be right.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include <thread>
#include <atomic>
#include <memory>
#include "pbt.hpp"
using namespace pbt;

template <typename F>
static void run_threads(int n, F f)
{
    std::atomic<int> ready{ 0 };
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++)
        th.emplace_back(
            [&, i]
            {
                ready++;
                while (ready.load() < n)
                    std::this_thread::yield();
                f(i);
            });
    for (auto& t : th)
        t.join();
}
static size_t size_for(Src& s)
{
    switch (s.in(0, 3))
    {
    case 0: return (size_t)s.in("n", 1, 64);
    case 1: return (size_t)1 << s.in("log2n", 0, 13);
    case 2: return (size_t)s.pick<int>("n", { 101, 103, 127, 202, 211, 303, 509, 1013 }); // convolution algorithm
    default: return (size_t)s.in("n", 65, 1500);
    }
}
enum Kind { K_dft, K_real, K_dct, K_md, K_mdreal };

template <typename T>
static void share(Src& s, Case& c, bool every_size = false)
{
    using C   = kfr::complex<T>;
    size_t n  = every_size ? (size_t)s.sweep("n", 1, 256) : 0;
    int kind  = every_size ? (int)s.in("kind", 0, 1) : (int)s.in("kind", 0, 4);
    if (!every_size)
        n = size_for(s);
    else if (kind == K_real)
        n *= 2;
    int nth   = (int)s.in("threads", 2, 4);
    int iters = (int)s.in("iterations", 1, 4);
    bool temp = s.flag("temp"), inv = s.flag("inverse");
    uint64_t seed = s.bulk("seed").u64();
    if (kind == K_real || kind == K_mdreal)
        n += n & 1;
    if (kind >= K_md)
        n = std::min<size_t>(n, 202);
    std::unique_ptr<kfr::dft_plan<T>> p0;
    std::unique_ptr<kfr::dft_plan_real<T>> p1;
    std::unique_ptr<kfr::dct_plan<T>> p2;
    std::unique_ptr<kfr::dft_plan_md<T, 2>> p3;
    std::unique_ptr<kfr::dft_plan_md_real<T, 2>> p4;
    size_t rows = 3, N = n, ts = 0;
    switch (kind)
    {
    case K_dft: p0.reset(new kfr::dft_plan<T>(n)); ts = p0->temp_size; break;
    case K_real: p1.reset(new kfr::dft_plan_real<T>(n)); ts = p1->temp_size; break;
    case K_dct: p2.reset(new kfr::dct_plan<T>(n)); ts = p2->temp_size; break;
    case K_md: p3.reset(new kfr::dft_plan_md<T, 2>(kfr::shape<2>{ (kfr::index_t)rows, (kfr::index_t)n })); N = rows * n; ts = p3->temp_size; break;
    default: p4.reset(new kfr::dft_plan_md_real<T, 2>(kfr::shape<2>{ (kfr::index_t)rows, (kfr::index_t)n })); N = rows * n; ts = p4->temp_size;
    }
    size_t buf = 2 * (N + 2 * rows + 2);
    auto exec  = [&](std::vector<T>& out, const std::vector<T>& in, unsigned char* tp)
    {
        switch (kind)
        {
        case K_dft: p0->execute((C*)out.data(), (const C*)in.data(), tp, inv); break;
        case K_real:
            if (inv)
                p1->execute(out.data(), (const C*)in.data(), tp);
            else
                p1->execute((C*)out.data(), in.data(), tp);
            break;
        case K_dct: p2->execute(out.data(), in.data(), tp, inv); break;
        case K_md: p3->execute((C*)out.data(), (const C*)in.data(), tp, inv); break;
        default:
            if (inv)
                p4->execute(out.data(), (const C*)in.data(), tp);
            else
                p4->execute((C*)out.data(), in.data(), tp);
        }
    };
    auto data = [&](int th, int it)
    {
        std::vector<T> v(buf);
        Rng r(seed + th * 1000 + it);
        for (auto& x : v)
            x = (T)r.sym();
        return v;
    };
    std::vector<std::vector<T>> want(nth * iters), got(nth * iters), in(nth * iters);
    for (int t = 0; t < nth; t++)
        for (int i = 0; i < iters; i++)
        {
            in[t * iters + i] = data(t, i);
            want[t * iters + i].assign(buf, T(0));
            got[t * iters + i].assign(buf, T(0));
            std::vector<unsigned char> tb(ts + 64);
            unsigned char* tp = (unsigned char*)(((uintptr_t)tb.data() + 63) & ~(uintptr_t)63);
            exec(want[t * iters + i], in[t * iters + i], temp ? tp : nullptr);
        }
    run_threads(nth,
                [&](int t)
                {
                    std::vector<unsigned char> tb(ts + 64);
                    unsigned char* tp = (unsigned char*)(((uintptr_t)tb.data() + 63) & ~(uintptr_t)63);
                    for (int i = 0; i < iters; i++)
                        exec(got[t * iters + i], in[t * iters + i], temp ? tp : nullptr);
                });
    for (size_t k = 0; k < got.size(); k++)
        for (size_t i = 0; i < buf; i++)
            c.expect(got[k][i] == want[k][i], fmt("thread %zu, run %zu: value %zu is %g, alone it is %g",
                                                  k / iters, k % iters, i, (double)got[k][i], (double)want[k][i]));
    const char* names[] = { "complex", "real", "dct", "2d", "2d real" };
    c.label(names[kind]);
    if (n > 1)
        c.interesting(kind, n, nth, iters, temp, inv);
}
PBT_TEST(shared_plan_f32, 250, 3000) { share<float>(s, c); }
PBT_TEST(shared_plan_f64, 250, 3000) { share<double>(s, c); }

// every size in turn: some sizes have algorithms of their own
PBT_TEST(every_size_f32, 256, 2048) { share<float>(s, c, true); }
PBT_TEST(every_size_f64, 256, 2048) { share<double>(s, c, true); }

PBT_TEST(plan_cache, 150, 2000)
{
    // threads ask for plans of a few sizes while another clears the cache; the plans stay usable and correct
    int nth = (int)s.in("threads", 2, 4), steps = (int)s.in("steps", 1, 8);
    bool clears   = s.flag("clear");
    std::vector<size_t> sizes;
    size_t nsz = (size_t)s.in("sizes", 1, 4);
    for (size_t i = 0; i < nsz; i++)
        sizes.push_back(2 * (size_t)s.in("n/2", 1, 80));
    uint64_t seed = s.bulk("seed").u64();
    kfr::dft_cache::instance().clear();
    std::vector<std::string> errs(nth);
    run_threads(nth,
                [&](int t)
                {
                    Rng r(seed + t);
                    for (int i = 0; i < steps; i++)
                    {
                        size_t n = sizes[r.below(sizes.size())];
                        if (clears && t == 0 && r.chance(1, 3))
                        {
                            kfr::dft_cache::instance().clear();
                            continue;
                        }
                        size_t k = r.below(n);
                        if (r.chance(1, 2))
                        {
                            kfr::univector<kfr::complex<double>> x(n, kfr::complex<double>(0, 0));
                            x[k]   = 1;
                            auto y = kfr::dft(x);
                            for (size_t j = 0; j < n; j++)
                            {
                                double a = -6.283185307179586 * (double)((j * k) % n) / (double)n;
                                if (std::fabs(y[j].real() - std::cos(a)) + std::fabs(y[j].imag() - std::sin(a)) > 1e-11)
                                    errs[t] = fmt("dft(impulse %zu of %zu) bin %zu wrong", k, n, j);
                            }
                        }
                        else
                        {
                            kfr::univector<float> x(n, 0.f);
                            x[k]   = 1;
                            auto y = kfr::irealdft(kfr::realdft(x));
                            for (size_t j = 0; j < n; j++)
                                if (std::fabs(y[j] - (j == k ? (float)n : 0.f)) > 1e-3f * (float)n)
                                    errs[t] = fmt("irealdft(realdft(impulse %zu of %zu)) sample %zu wrong", k, n, j);
                        }
                    }
                });
    for (auto& e : errs)
        c.expect(e.empty(), e);
    auto a = kfr::dft_cache::instance().get(kfr::ctype_t<double>(), sizes[0]);
    auto b = kfr::dft_cache::instance().get(kfr::ctype_t<double>(), sizes[0]);
    c.expect(a == b, "the cache must return the same plan for the same size");
    c.eq(a->size, sizes[0], "size of the cached plan");
    kfr::dft_cache::instance().clear();
    c.expect(kfr::dft_cache::instance().get(kfr::ctype_t<double>(), sizes[0]) != a, "clear() must drop the plans");
    c.interesting(nth, steps, clears, sizes[0], nsz, s.rec.back());
}
