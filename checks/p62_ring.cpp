// The lock-free ring buffer hands over every element once and in order: histories of one thread against std::deque,
// and schedules of one producing and one consuming thread against the sequence that was sent.
#include <kfr/base.hpp>
#include <atomic>
#include <deque>
#include <thread>
#include "pbt.hpp"
using namespace pbt;

template <typename T>
static T value_of(uint64_t i)
{
    if constexpr (std::is_same_v<T, kfr::complex<float>>)
        return T((float)(i % 4093), (float)(i % 1021) - 500);
    else
        return (T)(i % 251 + (sizeof(T) > 1 ? i % 30011 : 0));
}
template <typename T>
static bool same(const T& a, const T& b)
{
    return !memcmp(&a, &b, sizeof(T));
}

// ------------------------------------------------------------------ one thread
template <typename T, typename Buffer>
static void history(Src& s, Case& c, Buffer& buf)
{
    const size_t cap = buf.size();
    kfr::lockfree_ring_buffer<T> ring;
    std::deque<T> model;
    uint64_t sent = 0, key = pbt::mix(cap, sizeof(T));
    int steps     = (int)s.in("steps", 1, 60);
    bool wrapped = false, refused = false, part = false;
    for (int k = 0; k < steps; k++)
    {
        bool put     = s.flag();
        bool partial = s.flag();
        size_t room  = put ? cap - model.size() : model.size();
        size_t n     = 0;
        switch (s.in(nullptr, 0, 4))
        {
        case 0: n = (size_t)s.in(nullptr, 0, (int64_t)room); break;
        case 1: n = room; break;
        case 2: n = room + 1; break;
        case 3: n = (size_t)s.in(nullptr, 0, (int64_t)cap * 2 + 3); break;
        case 4: n = std::min<size_t>(room, (size_t)s.in(nullptr, 0, 3)); break;
        }
        key = pbt::mix(key, n * 4 + put * 2 + partial);
        size_t want = n <= room ? n : partial ? room : 0;
        refused |= n > room && !partial;
        part |= n > room && partial;
        if (put)
        {
            Buf<T> src(n);
            for (size_t i = 0; i < n; i++)
                src[i] = value_of<T>(sent + i);
            size_t got = ring.try_enqueue(src.data(), n, buf, partial);
            if (got != want)
                c.fail(fmt("step %d: try_enqueue of %zu into %zu of %zu (partial %d) took %zu instead of %zu", k, n, model.size(), cap, partial, got, want));
            wrapped |= sent / cap != (sent + got) / cap;
            for (size_t i = 0; i < got; i++)
                model.push_back(src[i]);
            sent += got;
        }
        else
        {
            Buf<T> dst(n);
            size_t got = ring.try_dequeue(dst.data(), n, buf, partial);
            if (got != want)
                c.fail(fmt("step %d: try_dequeue of %zu from %zu of %zu (partial %d) gave %zu instead of %zu", k, n, model.size(), cap, partial, got, want));
            for (size_t i = 0; i < got; i++)
            {
                if (!same(dst[i], model.front()))
                    c.fail(fmt("step %d: element %zu of %zu taken out is not the one put in", k, i, got));
                model.pop_front();
            }
            const unsigned char* rest = (const unsigned char*)(dst.data() + got);
            for (size_t i = 0; i < (n - got) * sizeof(T); i++)
                if (rest[i] != 0xA5)
                    c.fail(fmt("step %d: memory after the %zu elements taken out was written", k, got));
            dst.check(c, "try_dequeue");
        }
        if (ring.size() != model.size())
            c.fail(fmt("step %d: size() is %zu, %zu elements are inside", k, ring.size(), model.size()));
    }
    if (sent > cap && wrapped)
        c.interesting(key), c.label("wrapped");
    if (refused)
        c.label("refused");
    if (part)
        c.label("partly done");
}
template <typename T>
static void history_any(Src& s, Case& c)
{
    switch (s.in("storage", 0, 2))
    {
    case 0:
    {
        kfr::univector<T> b((size_t)s.skew("capacity", 1, 300));
        return history<T>(s, c, b);
    }
    case 1:
    {
        kfr::univector<T, 7> b;
        return history<T>(s, c, b);
    }
    case 2:
    {
        Buf<T> mem((size_t)s.skew("capacity", 1, 64), 1);
        kfr::univector_ref<T> b(mem.data(), mem.size());
        history<T>(s, c, b);
        mem.check(c, "ring over foreign memory");
    }
    }
}
PBT_TEST(ring_history, 40000, 1000000)
{
    switch (s.in("type", 0, 3))
    {
    case 0: return history_any<int32_t>(s, c);
    case 1: return history_any<uint8_t>(s, c);
    case 2: return history_any<double>(s, c);
    case 3: return history_any<kfr::complex<float>>(s, c);
    }
}

// ------------------------------------------------------------------ two threads
template <typename T>
static void schedule(Src& s, Case& c)
{
    const size_t cap   = (size_t)s.skew("capacity", 1, 200);
    const size_t total = (size_t)s.in("total", 1, 6000);
    const size_t pmax  = (size_t)s.skew("largest put", 1, (int64_t)cap * 2);
    const size_t gmax  = (size_t)s.skew("largest get", 1, (int64_t)cap * 2);
    const bool ppart   = s.flag("partial put") || pmax > cap;
    const bool gpart   = s.flag("partial get") || gmax > cap;
    const int ppause   = (int)s.in("put pause", 0, 3);
    const int gpause   = (int)s.in("get pause", 0, 3);
    Rng seeds          = s.bulk("sizes");
    const uint64_t s1 = seeds.u64(), s2 = seeds.u64();
    kfr::univector<T> buf(cap);
    kfr::lockfree_ring_buffer<T> ring;
    std::atomic<int> ready{ 0 };
    std::atomic<bool> stop{ false };
    std::string perr, gerr;
    auto relax = [](int pause, Rng& r)
    {
        if (pause == 1 && r.chance(1, 4))
            std::this_thread::yield();
        else if (pause >= 2)
            for (volatile int i = 0, e = (int)r.below(pause == 2 ? 20 : 200); i < e; i = i + 1)
                ;
    };
    auto start = [&]
    {
        ready++;
        while (ready.load() < 2)
            std::this_thread::yield();
    };
    std::thread producer(
        [&]
        {
            Rng r(s1);
            std::vector<T> v(2 * cap + 1);
            start();
            size_t pos = 0, idle = 0;
            while (pos < total && !stop)
            {
                size_t n = std::min<size_t>(1 + r.below(pmax), total - pos);
                for (size_t i = 0; i < n; i++)
                    v[i] = value_of<T>(pos + i);
                size_t got = ring.try_enqueue(v.data(), n, buf, ppart);
                // what was passed may be overwritten as soon as the call returns
                for (size_t i = 0; i < got; i++)
                    v[i] = value_of<T>(pos + i + 12345);
                if (got > n || (got != n && !ppart && got != 0))
                {
                    perr = fmt("put %zu of %zu (partial %d)", got, n, ppart);
                    stop = true;
                    return;
                }
                pos += got;
                size_t now = ring.size();
                if (now > cap)
                {
                    perr = fmt("the producer sees %zu elements in a buffer of %zu", now, cap);
                    stop = true;
                    return;
                }
                if (!got && ++idle % 64 == 0)
                    std::this_thread::yield();
                relax(ppause, r);
            }
        });
    std::thread consumer(
        [&]
        {
            Rng r(s2);
            std::vector<T> v(2 * cap + 1);
            start();
            size_t pos = 0, idle = 0;
            while (pos < total && !stop)
            {
                size_t n   = std::min<size_t>(1 + r.below(gmax), total - pos);
                size_t now = ring.size();
                if (now > cap)
                {
                    gerr = fmt("the consumer sees %zu elements in a buffer of %zu", now, cap);
                    stop = true;
                    return;
                }
                size_t got = ring.try_dequeue(v.data(), n, buf, gpart);
                if (got > n || (got != n && !gpart && got != 0) || got < std::min(n, gpart ? now : n <= now ? n : 0))
                {
                    gerr = fmt("got %zu of %zu while %zu were inside (partial %d)", got, n, now, gpart);
                    stop = true;
                    return;
                }
                for (size_t i = 0; i < got; i++)
                    if (!same(v[i], value_of<T>(pos + i)))
                    {
                        gerr = fmt("element %zu of %zu is not the one sent", pos + i, total);
                        stop = true;
                        return;
                    }
                pos += got;
                if (!got && ++idle % 64 == 0)
                    std::this_thread::yield();
                relax(gpause, r);
            }
        });
    producer.join();
    consumer.join();
    if (!perr.empty() || !gerr.empty())
        c.fail(perr + gerr);
    c.eq(ring.size(), size_t(0), "elements left");
    if (total > cap)
        c.interesting(cap, total, pmax, gmax, s1);
}
PBT_TEST(ring_schedule, 6000, 200000)
{
    switch (s.in("type", 0, 3))
    {
    case 0: return schedule<int32_t>(s, c);
    case 1: return schedule<uint8_t>(s, c);
    case 2: return schedule<double>(s, c);
    case 3: return schedule<kfr::complex<float>>(s, c);
    }
}
