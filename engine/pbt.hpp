// A small property-based testing engine.
//
// A generated case is the sequence of bounded choices its generator drew ("choice sequence").
// Cases are run in a forked worker which publishes the choices of the case it is running in
// shared memory, so that a crash, a sanitizer abort or a hang becomes an ordinary failing case.
// A failure is shrunk on the choice sequence (delete / zero / lower), each candidate in its own
// process, and written as a replay file.
//
//   PBT_TEST(name, quick, thorough) { size_t n = s.sweep("n", 1, 100); ...; c.expect(cond, "msg"); }
//
// argv: --seed S --tier quick|thorough --shard I/N --out FILE --label ARCH [--only TEST] [--scale F]
//       --replay FILE (re-run one recorded case in process, exit 1 when it fails)
#pragma once
#include <algorithm>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

namespace pbt
{
inline uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
    return splitmix(s);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Fail : std::exception
{
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard
{
};

// ---------------------------------------------------------------------------- local random stream
struct Rng
{
    uint64_t st;
    explicit Rng(uint64_t seed) : st(seed * 0x2545F4914F6CDD1Dull + 0x1234567) {}
    uint64_t u64() { return splitmix(st); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); } // [0,1)
    double sym() { return unit() * 2 - 1; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------------------- choice source
struct SharedCase
{
    volatile uint64_t case_index;
    volatile uint64_t len;
    volatile uint64_t started;
    volatile uint64_t finished;
    char msg[4096];
    char desc[4096];
    volatile int outcome; // 0 running, 1 pass, 2 fail, 3 discard
    uint64_t seq[1 << 15];
};

struct Src
{
    std::vector<uint64_t> prefix;
    bool replaying = false;
    std::vector<uint64_t> rec;
    std::string text;
    Rng rng{ 0 };
    uint64_t index = 0;
    SharedCase* sh = nullptr;

    uint64_t note(uint64_t v)
    {
        if (sh && rec.size() < (1 << 15))
        {
            sh->seq[rec.size()] = v;
            sh->len             = rec.size() + 1;
        }
        rec.push_back(v);
        return v;
    }
    // raw choice in [0,bound]
    uint64_t draw(uint64_t bound)
    {
        uint64_t v;
        if (replaying)
        {
            v = rec.size() < prefix.size() ? prefix[rec.size()] : 0;
            if (v > bound)
                v = bound == UINT64_MAX ? v : v % (bound + 1);
        }
        else
            v = bound == UINT64_MAX ? rng.u64() : rng.below(bound + 1);
        return note(v);
    }
    void describe(const char* name, long long v)
    {
        if (text.size() < 3000)
            text += fmt("%s%s=%lld", text.empty() ? "" : " ", name, v);
    }
    void say(const std::string& t)
    {
        if (text.size() < 3000)
            text += (text.empty() ? "" : " ") + t;
    }
    // uniform in [a,b]; shrinks towards a
    int64_t in(const char* name, int64_t a, int64_t b)
    {
        int64_t v = a + (int64_t)draw((uint64_t)(b - a));
        if (name)
            describe(name, v);
        return v;
    }
    int64_t in(int64_t a, int64_t b) { return in(nullptr, a, b); }
    // mostly small, occasionally up to b (log-uniform-ish); shrinks towards a
    int64_t skew(const char* name, int64_t a, int64_t b)
    {
        uint64_t span = (uint64_t)(b - a);
        unsigned bits = 0;
        while (bits < 63 && (span >> bits))
            bits++;
        int64_t v;
        if (replaying)
            v = a + (int64_t)draw(span);
        else
        {
            unsigned k  = (unsigned)rng.below(bits + 1);
            uint64_t lo = k ? (1ull << (k - 1)) : 0, hi = k >= 63 ? span : (1ull << k) - 1;
            if (hi > span)
                hi = span;
            if (lo > hi)
                lo = hi;
            v = a + (int64_t)note(lo + rng.below(hi - lo + 1));
        }
        if (name)
            describe(name, v);
        return v;
    }
    // walks [a,b] systematically over the case index while generating; an ordinary choice on replay
    int64_t sweep(const char* name, int64_t a, int64_t b)
    {
        uint64_t span = (uint64_t)(b - a) + 1;
        int64_t v     = replaying ? a + (int64_t)draw(span - 1) : a + (int64_t)note(index % span);
        if (name)
            describe(name, v);
        return v;
    }
    bool flag(const char* name = nullptr, unsigned num = 1, unsigned den = 2)
    {
        uint64_t v;
        if (replaying)
            v = draw(1);
        else
            v = note(rng.below(den) < num ? 1 : 0);
        if (name)
            describe(name, (long long)v);
        return v != 0;
    }
    template <typename T>
    const T& pick(const char* name, const std::vector<T>& v)
    {
        size_t i = (size_t)draw(v.size() - 1);
        if (name)
            say(fmt("%s=#%zu", name, i));
        return v[i];
    }
    template <typename T>
    T pick(const char* name, std::initializer_list<T> l)
    {
        std::vector<T> v(l);
        size_t i = (size_t)draw(v.size() - 1);
        if (name)
        {
            if constexpr (std::is_integral_v<T>)
                describe(name, (long long)v[i]);
            else if constexpr (std::is_floating_point_v<T>)
                say(fmt("%s=%g", name, (double)v[i]));
            else
                say(fmt("%s=#%zu", name, i));
        }
        return v[i];
    }
    // a seed for bulk data; small seeds first so shrinking prefers seed 0
    Rng bulk(const char* name = nullptr)
    {
        uint64_t v = draw(0xFFFF);
        if (name)
            describe(name, (long long)v);
        return Rng(v + 77);
    }
    // real in [a,b] on a grid fine enough for tests (20 bits), shrinks towards a
    double real(const char* name, double a, double b)
    {
        uint64_t k = draw((1u << 20));
        double v   = a + (b - a) * (double)k / (double)(1u << 20);
        if (name)
            say(fmt("%s=%.9g", name, v));
        return v;
    }
    // log-uniform positive real
    double logreal(const char* name, double a, double b)
    {
        uint64_t k = draw((1u << 20));
        double v   = a * std::pow(b / a, (double)k / (double)(1u << 20));
        if (name)
            say(fmt("%s=%.9g", name, v));
        return v;
    }
    // split total into parts (ordered). Parts may include 0 when zero_ok.
    std::vector<size_t> splits(const char* name, size_t total, size_t maxpart, bool zero_ok = true)
    {
        std::vector<size_t> r;
        size_t left = total;
        std::string t;
        while (left)
        {
            size_t p = (size_t)skew(nullptr, zero_ok ? 0 : 1, (int64_t)std::min(left, maxpart));
            if (r.size() > 4000 || (p == 0 && r.size() > 3 && r[r.size() - 1] == 0 && r[r.size() - 2] == 0))
                p = std::min(left, maxpart);
            r.push_back(p);
            left -= p;
            if (t.size() < 200)
                t += fmt("%s%zu", r.size() > 1 ? "," : "", p);
        }
        if (name)
            say(fmt("%s=[%s]", name, t.c_str()));
        return r;
    }
};

// ---------------------------------------------------------------------------- case context
struct Case
{
    Src* src        = nullptr;
    bool nontrivial = false;
    uint64_t key    = 0;
    std::vector<std::string> labels;
    double worst = 0; // largest error/tolerance ratio seen by close()
    void label(const std::string& l) { labels.push_back(l); }
    template <typename... A>
    void interesting(A... parts)
    {
        nontrivial = true;
        ((key = mix(key, (uint64_t)parts)), ...);
    }
    [[noreturn]] void fail(const std::string& m) { throw Fail(m); }
    void expect(bool ok, const std::string& m)
    {
        if (!ok)
            throw Fail(m);
    }
    void expect(bool ok, const char* m)
    {
        if (!ok)
            throw Fail(m);
    }
    template <typename A, typename B>
    void eq(const A& a, const B& b, const char* what)
    {
        if (!(a == b))
            throw Fail(fmt("%s: got %.17g, expected %.17g", what, (double)a, (double)b));
    }
    // |got-want| <= tol (NaN never passes)
    void close(long double got, long double want, long double tol, const char* what, long long i = -1)
    {
        long double e = std::fabs(got - want);
        if (tol > 0 && e == e && (double)(e / tol) > worst)
            worst = (double)(e / tol);
        if (!(e <= tol))
            throw Fail(fmt("%s%s: got %.17Lg, expected %.17Lg, |error| %.3Lg > tolerance %.3Lg", what,
                           i >= 0 ? fmt("[%lld]", i).c_str() : "", got, want, e, tol));
    }
};

using TestFn = void (*)(Src&, Case&);
struct Test
{
    const char* name;
    uint64_t quick, thorough;
    TestFn fn;
};
inline std::vector<Test>& tests()
{
    static std::vector<Test> t;
    return t;
}
struct Reg
{
    Reg(const char* n, uint64_t q, uint64_t t, TestFn f) { tests().push_back({ n, q, t, f }); }
};
#define PBT_TEST(NAME, QUICK, THOROUGH)                                                                      \
    static void pbt_##NAME(pbt::Src&, pbt::Case&);                                                           \
    static pbt::Reg pbtreg_##NAME(#NAME, QUICK, THOROUGH, pbt_##NAME);                                       \
    static void pbt_##NAME([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)

// ---------------------------------------------------------------------------- guarded buffers
// Buffer with canaries on both sides and a chosen element misalignment, to catch stray writes.
template <typename T>
struct Buf
{
    std::vector<unsigned char> raw;
    size_t n;
    T* p;
    static constexpr size_t G = 256;
    explicit Buf(size_t n_, size_t misalign_elems = 0, unsigned char fill = 0xA5)
        : raw(n_ * sizeof(T) + 2 * G + 64 + misalign_elems * sizeof(T), 0xC7), n(n_)
    {
        uintptr_t a = (uintptr_t)raw.data() + G;
        a           = (a + 63) & ~(uintptr_t)63;
        p           = (T*)(a + misalign_elems * sizeof(T));
        memset((void*)p, fill, n * sizeof(T));
    }
    Buf(const Buf&)            = delete;
    Buf& operator=(const Buf&) = delete;
    T* data() { return p; }
    size_t size() const { return n; }
    T& operator[](size_t i) { return p[i]; }
    T* begin() { return p; }
    T* end() { return p + n; }
    bool intact() const
    {
        const unsigned char* b = raw.data();
        const unsigned char* e = b + raw.size();
        for (const unsigned char* q = b; q < (const unsigned char*)p; q++)
            if (*q != 0xC7)
                return false;
        for (const unsigned char* q = (const unsigned char*)(p + n); q < e; q++)
            if (*q != 0xC7)
                return false;
        return true;
    }
    void check(Case& c, const char* what)
    {
        if (!intact())
            c.fail(fmt("%s: memory outside the buffer was overwritten", what));
    }
};

// ---------------------------------------------------------------------------- signals
// Bulk data described by two choices (kind, seed): the first kinds are the simplest.
template <typename F>
void fill_signal(Src& s, size_t n, F set, const char* name = "sig")
{
    int kind = (int)s.in(0, 6);
    Rng r    = s.bulk();
    s.say(fmt("%s(kind=%d,seed=%llu)", name, kind, (unsigned long long)s.rec.back()));
    if (n == 0)
        return;
    switch (kind)
    {
    case 0: // small integers
        for (size_t i = 0; i < n; i++)
            set(i, (double)r.range(-8, 8));
        break;
    case 1: // unit impulse
    {
        size_t k = r.below(n);
        for (size_t i = 0; i < n; i++)
            set(i, i == k ? 1.0 : 0.0);
        break;
    }
    case 2: // ramp
        for (size_t i = 0; i < n; i++)
            set(i, (double)(i + 1) / (double)n);
        break;
    case 3: // single sinusoid
    {
        double f = r.unit() * 3.14159, ph = r.unit() * 6;
        for (size_t i = 0; i < n; i++)
            set(i, std::sin(f * (double)i + ph));
        break;
    }
    case 4: // wide dynamic range
    {
        for (size_t i = 0; i < n; i++)
            set(i, r.sym() * std::exp2((double)r.range(-10, 10)));
        break;
    }
    default:
        for (size_t i = 0; i < n; i++)
            set(i, r.sym());
    }
}
template <typename T>
std::vector<T> real_signal(Src& s, size_t n, const char* name = "sig")
{
    std::vector<T> v(n);
    fill_signal(s, n, [&](size_t i, double x) { v[i] = (T)x; }, name);
    return v;
}
template <typename T>
std::vector<std::complex<T>> complex_signal(Src& s, size_t n, const char* name = "sig")
{
    std::vector<std::complex<T>> v(n);
    fill_signal(s, 2 * n,
                [&](size_t i, double x)
                {
                    if (i & 1)
                        v[i / 2].imag((T)x);
                    else
                        v[i / 2].real((T)x);
                },
                name);
    return v;
}

// ---------------------------------------------------------------------------- statistics
struct Stats
{
    uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
    std::set<uint64_t> keys;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    double worst = 0;
};
struct Failure
{
    std::string test, msg, desc, kind;
    std::vector<uint64_t> seq;
    uint64_t index = 0, shrinks = 0;
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += (char)ch;
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f)
            o += fmt("\\u%04x", ch);
        else
            o += (char)ch;
    }
    return o + "\"";
}
inline double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

// hook run once in the process before any case (e.g. select the dispatched CPU)
inline std::function<void()>& init_hook()
{
    static std::function<void()> h;
    return h;
}

struct RunResult
{
    int outcome; // 1 pass 2 fail 3 discard
    std::string msg, desc;
};

inline RunResult run_case(const Test& t, Src& s, Case& c)
{
    c.src = &s;
    try
    {
        t.fn(s, c);
        return { 1, "", s.text };
    }
    catch (const Fail& f)
    {
        return { 2, f.msg, s.text };
    }
    catch (const Discard&)
    {
        return { 3, "", s.text };
    }
    catch (const std::exception& e)
    {
        return { 2, std::string("unexpected exception: ") + e.what(), s.text };
    }
    catch (...)
    {
        return { 2, "unexpected exception of unknown type", s.text };
    }
}

struct Options
{
    uint64_t seed = 1, shard = 0, shards = 1;
    bool thorough = false;
    std::string out, label, only, replay;
    double scale    = 1;
    double case_max = 60;  // seconds before a case counts as hung
    double budget   = 600; // total seconds before the run stops early (reported as truncated)
};

inline void copystr(char* dst, size_t cap, const std::string& s)
{
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

inline std::string sigdesc(int st)
{
    if (WIFSIGNALED(st))
        return fmt("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt("terminated abnormally with exit status %d", WEXITSTATUS(st));
}

// run one recorded sequence in its own process
inline RunResult run_forked(const Test& t, SharedCase* sh, const std::vector<uint64_t>& seq, double limit,
                            std::vector<uint64_t>* used = nullptr)
{
    sh->len     = 0;
    sh->outcome = 0;
    sh->msg[0] = sh->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int dn = open("/dev/null", O_WRONLY);
        if (dn >= 0)
        {
            dup2(dn, 1);
            dup2(dn, 2);
        }
        Src s;
        s.replaying = true;
        s.prefix    = seq;
        s.sh        = sh;
        Case c;
        RunResult r = run_case(t, s, c);
        copystr(sh->msg, sizeof sh->msg, r.msg);
        copystr(sh->desc, sizeof sh->desc, r.desc);
        sh->outcome = r.outcome;
        _exit(0);
    }
    double t0 = now();
    int st    = 0;
    bool hung = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(now() - t0 < 0.02 ? 200 : 3000);
    }
    if (used)
        used->assign(sh->seq, sh->seq + std::min<uint64_t>((uint64_t)sh->len, 1 << 15));
    if (hung)
        return { 2, fmt("did not finish within %.0f s", limit), "" };
    if (sh->outcome == 0)
        return { 2, sigdesc(st), "" };
    return { sh->outcome, sh->msg, sh->desc };
}

inline void shrink(const Test& t, SharedCase* sh, Failure& f, double limit)
{
    double t0    = now();
    int attempts = 0;
    auto better  = [&](std::vector<uint64_t> cand) -> bool
    {
        if (attempts >= 1500 || now() - t0 > 60)
            return false;
        attempts++;
        std::vector<uint64_t> used;
        RunResult r = run_forked(t, sh, cand, limit, &used);
        if (r.outcome != 2)
            return false;
        if (!used.empty() && used.size() < cand.size())
            cand = used;
        if (cand.size() > f.seq.size() || (cand.size() == f.seq.size() && !(cand < f.seq)))
            return false;
        f.seq  = cand;
        f.msg  = r.msg;
        f.desc = r.desc;
        f.shrinks++;
        return true;
    };
    bool progress = true;
    while (progress && attempts < 1500 && now() - t0 < 60)
    {
        progress = false;
        for (size_t k = std::max<size_t>(1, f.seq.size() / 2);; k /= 2)
        {
            for (size_t i = 0; i + k <= f.seq.size();)
            {
                auto cand = f.seq;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (better(cand))
                    progress = true;
                else
                    i += k;
                if (attempts >= 1500)
                    break;
            }
            for (size_t i = 0; i + k <= f.seq.size(); i += k)
            {
                auto cand = f.seq;
                bool any  = false;
                for (size_t j = i; j < i + k; j++)
                    any |= cand[j] != 0, cand[j] = 0;
                if (any && better(cand))
                    progress = true;
            }
            if (k <= 1)
                break;
        }
        for (size_t i = 0; i < f.seq.size(); i++)
        {
            uint64_t lo = 0, hi = f.seq[i];
            int guard = 0;
            while (lo < hi && guard++ < 24)
            {
                uint64_t mid = lo + (hi - lo) / 2;
                auto cand    = f.seq;
                cand[i]      = mid;
                if (better(cand))
                {
                    progress = true;
                    if (i >= f.seq.size())
                        break;
                    hi = f.seq[i];
                }
                else
                    lo = mid + 1;
            }
            if (i < f.seq.size() && f.seq[i])
            {
                auto cand = f.seq;
                cand[i]--;
                if (better(cand))
                    progress = true;
            }
        }
    }
}

inline bool run_test(const Test& t, const Options& o, Stats& st, std::vector<Failure>& fails, bool& truncated,
                     double t_start)
{
    uint64_t total = (uint64_t)((double)(o.thorough ? t.thorough : t.quick) * o.scale);
    if (total == 0)
        total = 1;
    SharedCase* sh = (SharedCase*)mmap(nullptr, sizeof(SharedCase), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t next  = o.shard;
    bool ok        = true;
    uint64_t tseed = hash_bytes(t.name, strlen(t.name), mix(o.seed, 0xABCDEF));
    tseed          = hash_bytes(o.label.data(), o.label.size(), tseed);
    while (next < total)
    {
        int pfd[2];
        if (pipe(pfd))
            abort();
        sh->case_index = next;
        sh->outcome    = 0;
        sh->len        = 0;
        sh->started = sh->finished = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(pfd[0]);
            Stats ws;
            bool trunc = false;
            uint64_t i = next;
            for (; i < total; i += o.shards)
            {
                if (now() - t_start > o.budget)
                {
                    trunc = true;
                    break;
                }
                sh->case_index = i;
                sh->len        = 0;
                sh->started    = sh->started + 1;
                Src s;
                s.rng   = Rng(mix(tseed, i));
                s.index = i;
                s.sh    = sh;
                Case c;
                RunResult r = run_case(t, s, c);
                if (r.outcome == 2)
                {
                    sh->len = std::min<uint64_t>(s.rec.size(), 1 << 15);
                    copystr(sh->msg, sizeof sh->msg, r.msg);
                    copystr(sh->desc, sizeof sh->desc, r.desc);
                    sh->outcome = 2;
                    break;
                }
                sh->finished = sh->finished + 1;
                if (r.outcome == 3)
                {
                    ws.discarded++;
                    continue;
                }
                ws.evaluations++;
                ws.worst = std::max(ws.worst, c.worst);
                if (c.nontrivial)
                {
                    ws.nontrivial++;
                    if (ws.keys.size() < 60000)
                        ws.keys.insert(mix(c.key, tseed));
                    if (ws.samples.size() < 6 || (i % 97) == 0)
                    {
                        if (ws.samples.size() >= 12)
                            ws.samples.erase(ws.samples.begin() + 6);
                        ws.samples.push_back(s.text.substr(0, 300));
                    }
                }
                for (auto& l : c.labels)
                    ws.labels[l]++;
            }
            if (sh->outcome == 0)
                sh->outcome = trunc ? 4 : 1;
            // send stats
            FILE* f = fdopen(pfd[1], "w");
            fprintf(f, "E %" PRIu64 " %" PRIu64 " %" PRIu64 " %.17g\n", ws.evaluations, ws.discarded,
                    ws.nontrivial, ws.worst);
            for (auto k : ws.keys)
                fprintf(f, "K %" PRIu64 "\n", k);
            for (auto& l : ws.labels)
                fprintf(f, "L %" PRIu64 " %s\n", l.second, l.first.c_str());
            for (auto& x : ws.samples)
                fprintf(f, "S %s\n", x.c_str());
            fclose(f);
            _exit(0);
        }
        close(pfd[1]);
        // read stats while watching for hangs
        fcntl(pfd[0], F_SETFL, O_NONBLOCK);
        std::string data;
        int wst          = 0;
        double lastmove  = now();
        uint64_t laststd = ~0ull;
        bool hung = false, eof = false;
        for (;;)
        {
            char buf[65536];
            ssize_t k = eof ? 0 : read(pfd[0], buf, sizeof buf);
            if (k > 0)
            {
                data.append(buf, (size_t)k);
                lastmove = now();
                continue;
            }
            if (k == 0)
                eof = true;
            if (eof && waitpid(pid, &wst, 0) == pid)
                break;
            uint64_t cur = sh->started * 2 + (sh->finished & 1);
            if (cur != laststd)
            {
                laststd  = cur;
                lastmove = now();
            }
            else if (now() - lastmove > o.case_max)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &wst, 0);
                hung = true;
                break;
            }
            usleep(2000);
        }
        close(pfd[0]);
        // parse
        size_t pos = 0;
        while (pos < data.size())
        {
            size_t nl = data.find('\n', pos);
            if (nl == std::string::npos)
                break;
            std::string line = data.substr(pos, nl - pos);
            pos              = nl + 1;
            if (line.size() < 3)
                continue;
            if (line[0] == 'E')
            {
                uint64_t a, b, d;
                double w;
                if (sscanf(line.c_str() + 2, "%" SCNu64 " %" SCNu64 " %" SCNu64 " %lf", &a, &b, &d, &w) == 4)
                {
                    st.evaluations += a;
                    st.discarded += b;
                    st.nontrivial += d;
                    st.worst = std::max(st.worst, w);
                }
            }
            else if (line[0] == 'K')
                st.keys.insert(strtoull(line.c_str() + 2, nullptr, 10));
            else if (line[0] == 'L')
            {
                char* e;
                uint64_t v = strtoull(line.c_str() + 2, &e, 10);
                st.labels[e + 1] += v;
            }
            else if (line[0] == 'S' && st.samples.size() < 40)
                st.samples.push_back(line.substr(2));
        }
        int oc = sh->outcome;
        if (oc == 1)
            break;
        if (oc == 4)
        {
            truncated = true;
            break;
        }
        // failure
        Failure f;
        f.test  = t.name;
        f.index = sh->case_index;
        f.seq.assign(sh->seq, sh->seq + std::min<uint64_t>((uint64_t)sh->len, 1 << 15));
        if (hung)
        {
            f.kind = "timeout";
            f.msg  = fmt("did not finish within %.0f s", o.case_max);
        }
        else if (oc == 2)
        {
            f.kind = "oracle";
            f.msg  = sh->msg;
            f.desc = sh->desc;
        }
        else
        {
            f.kind = "crash";
            f.msg  = sigdesc(wst);
        }
        if (f.kind == "timeout")
        {
            // confirm on its own before believing it
            int again = 0;
            for (int k = 0; k < 2; k++)
                again += run_forked(t, sh, f.seq, o.case_max).outcome == 2;
            if (again < 2)
            {
                next = f.index + o.shards;
                continue;
            }
        }
        fprintf(stderr, "[pbt] %s case %" PRIu64 " failed: %s\n[pbt]   %s\n[pbt]   shrinking...\n", t.name,
                f.index, f.msg.c_str(), f.desc.c_str());
        shrink(t, sh, f, f.kind == "timeout" ? 10 : o.case_max / 3);
        fprintf(stderr, "[pbt] %s shrunk (%" PRIu64 " steps, %zu choices): %s\n[pbt]   %s\n", t.name, f.shrinks,
                f.seq.size(), f.msg.c_str(), f.desc.c_str());
        fails.push_back(f);
        ok = false;
        break;
    }
    munmap(sh, sizeof(SharedCase));
    return ok;
}

inline int main_impl(int argc, char** argv)
{
    Options o;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next     = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            o.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier")
            o.thorough = next() == "thorough";
        else if (a == "--shard")
        {
            std::string v = next();
            sscanf(v.c_str(), "%" SCNu64 "/%" SCNu64, &o.shard, &o.shards);
        }
        else if (a == "--out")
            o.out = next();
        else if (a == "--label")
            o.label = next();
        else if (a == "--only")
            o.only = next();
        else if (a == "--replay")
            o.replay = next();
        else if (a == "--scale")
            o.scale = atof(next().c_str());
        else if (a == "--budget")
            o.budget = atof(next().c_str());
        else if (a == "--list")
        {
            for (auto& t : tests())
                printf("%s %" PRIu64 " %" PRIu64 "\n", t.name, t.quick, t.thorough);
            return 0;
        }
    }
    if (init_hook())
        init_hook()();
    if (!o.replay.empty())
    {
        // file: test name, then choices, whitespace separated
        FILE* f = fopen(o.replay.c_str(), "r");
        if (!f)
            return 2;
        char name[256];
        if (fscanf(f, "%255s", name) != 1)
            return 2;
        std::vector<uint64_t> seq;
        uint64_t v;
        while (fscanf(f, "%" SCNu64, &v) == 1)
            seq.push_back(v);
        fclose(f);
        for (auto& t : tests())
            if (!strcmp(t.name, name))
            {
                SharedCase* sh = (SharedCase*)mmap(nullptr, sizeof(SharedCase), PROT_READ | PROT_WRITE,
                                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                RunResult r    = run_forked(t, sh, seq, o.case_max);
                printf("%s: %s\n  %s\n", name, r.outcome == 2 ? r.msg.c_str() : "passes", r.desc.c_str());
                return r.outcome == 2 ? 1 : 0;
            }
        return 2;
    }
    double t0 = now();
    std::string js = "{\"label\":" + jstr(o.label) + ",\"tests\":[";
    std::vector<Failure> fails;
    bool truncated = false, first = true;
    for (auto& t : tests())
    {
        if (!o.only.empty() && o.only != t.name)
            continue;
        Stats st;
        double tt = now();
        run_test(t, o, st, fails, truncated, t0);
        js += fmt("%s{\"name\":%s,\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64 ",\"nontrivial\":%" PRIu64
                  ",\"worst\":%.4g,\"wall\":%.3f,",
                  first ? "" : ",", jstr(t.name).c_str(), st.evaluations, st.discarded, st.nontrivial,
                  std::isfinite(st.worst) ? st.worst : 1e300, now() - tt);
        first = false;
        js += "\"labels\":{";
        bool fl = true;
        for (auto& l : st.labels)
        {
            js += (fl ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second);
            fl = false;
        }
        js += "},\"samples\":[";
        for (size_t i = 0; i < st.samples.size(); i++)
            js += (i ? "," : "") + jstr(st.samples[i]);
        js += "],\"keys\":[";
        bool fk = true;
        for (auto k : st.keys)
        {
            js += (fk ? "" : ",") + std::to_string(k);
            fk = false;
        }
        js += "]}";
    }
    js += "],\"failures\":[";
    for (size_t i = 0; i < fails.size(); i++)
    {
        auto& f = fails[i];
        js += fmt("%s{\"test\":%s,\"case\":%" PRIu64 ",\"shrinks\":%" PRIu64 ",\"kind\":%s,\"message\":%s,\"input\":%s,\"choices\":[",
                  i ? "," : "", jstr(f.test).c_str(), f.index, f.shrinks, jstr(f.kind).c_str(),
                  jstr(f.msg).c_str(), jstr(f.desc).c_str());
        for (size_t k = 0; k < f.seq.size(); k++)
            js += (k ? "," : "") + std::to_string(f.seq[k]);
        js += "]}";
    }
    js += fmt("],\"truncated\":%s,\"wall\":%.3f}", truncated ? "true" : "false", now() - t0);
    if (!o.out.empty())
    {
        FILE* f = fopen(o.out.c_str(), "w");
        if (!f)
            return 2;
        fwrite(js.data(), 1, js.size(), f);
        fclose(f);
    }
    return fails.empty() ? 0 : 1;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
