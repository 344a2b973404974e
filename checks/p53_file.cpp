// Typed readers and writers of files: any history of reads, writes, seeks and appends acts like one on the bytes of the file.
#include <kfr/base.hpp>
#include <kfr/io.hpp>
#include "pbt.hpp"
#include <unistd.h>
using namespace pbt;
using bytes = std::vector<uint8_t>;

template <typename T, size_t E = sizeof(T)>
static void typed(Src& s, Case& c)
{
    struct Scratch
    {
        std::string name = "/tmp/p53-XXXXXX";
        Scratch()
        {
            int f = mkstemp(&name[0]);
            if (f >= 0)
                close(f);
        }
        ~Scratch() { unlink(name.c_str()); }
    } scratch;
    const std::string& path = scratch.name;
    Rng r = s.bulk("values");
    bytes model;
    int sessions = (int)s.in("sessions", 1, 4);
    size_t steps = 0;
    for (int k = 0; k < sessions; k++)
    {
        int mode = (int)s.in("mode", 0, 2);
        size_t pos = 0;
        int ops = (int)s.in("operations", 1, 12);
        if (mode == 0)
        {
            auto f = kfr::open_file_for_reading<T>(path);
            c.expect(f != nullptr, "the file opens for reading");
            for (int i = 0; i < ops; i++, steps++)
            {
                if (s.flag("seek", 1, 3))
                {
                    auto o      = s.pick<kfr::seek_origin>("origin", { kfr::seek_origin::begin, kfr::seek_origin::current, kfr::seek_origin::end });
                    int64_t ref = o == kfr::seek_origin::begin ? 0 : o == kfr::seek_origin::current ? (int64_t)pos : (int64_t)model.size();
                    int64_t off = s.in("target", -20, (int64_t)model.size() + 20) - ref;
                    bool ok     = f->seek(off, o);
                    c.eq(ok, ref + off >= 0, "seek answers");
                    if (ok)
                        pos = (size_t)(ref + off);
                }
                else
                {
                    size_t n    = (size_t)s.skew("count", 0, 300);
                    size_t left = pos < model.size() ? model.size() - pos : 0;
                    size_t want = std::min(n, left / E);
                    if (s.flag("vector", 1, 4))
                    {
                        kfr::univector<T> v(n, T());
                        c.eq(f->read(v), want, "elements read");
                        if (want)
                            c.expect(memcmp(v.data(), model.data() + pos, want * E) == 0, "contents read");
                    }
                    else
                    {
                        Buf<T> v(n, 0, T());
                        c.eq(f->read(v.data(), n), want, "elements read");
                        if (want)
                            c.expect(memcmp(v.data(), model.data() + pos, want * E) == 0, "contents read");
                        v.check(c, "beyond the request");
                    }
                    pos += std::min(left, n * E);
                }
                c.eq(f->tell(), (kfr::imax)pos, "position");
            }
        }
        else
        {
            auto f = mode == 1 ? kfr::open_file_for_writing<T>(path) : kfr::open_file_for_appending<T>(path);
            c.expect(f != nullptr, "the file opens for writing");
            if (mode == 1)
                model.clear();
            pos = mode == 1 ? 0 : model.size();
            for (int i = 0; i < ops; i++, steps++)
            {
                if (s.flag("seek", 1, 3))
                {
                    auto o      = mode == 1 ? s.pick<kfr::seek_origin>("origin", { kfr::seek_origin::begin, kfr::seek_origin::current, kfr::seek_origin::end }) : kfr::seek_origin::begin;
                    int64_t ref = o == kfr::seek_origin::begin ? 0 : o == kfr::seek_origin::current ? (int64_t)pos : (int64_t)model.size();
                    int64_t off = s.in("target", -20, (int64_t)model.size() + 20) - ref;
                    bool ok     = f->seek(off, o);
                    c.eq(ok, ref + off >= 0, "seek answers");
                    if (ok)
                        pos = (size_t)(ref + off);
                    if (ok)
                        c.eq(f->tell(), (kfr::imax)pos, "position");
                }
                else
                {
                    size_t n = (size_t)s.skew("count", 0, 300);
                    std::vector<T> v(n);
                    uint8_t* b = (uint8_t*)v.data();
                    for (size_t j = 0; j < n * E; j++)
                        b[j] = (uint8_t)r.u64();
                    size_t done;
                    if (s.flag("vector", 1, 4))
                    {
                        kfr::univector<T> u(n);
                        if (n)
                            memcpy((void*)u.data(), v.data(), n * E);
                        done = f->write(u);
                    }
                    else
                        done = f->write(v.data(), n);
                    c.eq(done, n, "elements written");
                    if (n)
                    {
                        if (mode == 2)
                            pos = model.size();
                        if (model.size() < pos + n * E)
                            model.resize(pos + n * E);
                        memcpy(model.data() + pos, b, n * E);
                        pos += n * E;
                        c.eq(f->tell(), (kfr::imax)pos, "position");
                    }
                }
            }
        }
        // the whole file
        FILE* q = fopen(path.c_str(), "rb");
        bytes now(model.size() + 16);
        size_t n = fread(now.data(), 1, now.size(), q);
        fclose(q);
        c.eq(n, model.size(), "size of the file");
        c.expect(n == 0 || memcmp(now.data(), model.data(), n) == 0, "contents of the file");
    }
    uint64_t h = 0;
    for (auto x : model)
        h = (h ^ x) * 1099511628211ull;
    if (steps > 1)
        c.interesting(h, steps);
}
template <typename T>
static void fresh(Src& s, Case& c)
{
    typed<T>(s, c);
}
PBT_TEST(file_u8, 400, 8000) { fresh<kfr::u8>(s, c); }
PBT_TEST(file_i16, 400, 8000) { fresh<kfr::i16>(s, c); }
PBT_TEST(file_f32, 400, 8000) { fresh<float>(s, c); }
PBT_TEST(file_f64, 400, 8000) { fresh<double>(s, c); }
int p53_file_module = 0; // a symbol of its own keeps the sanitizer's string tables of the files apart
