// Selects the run-time dispatched architecture named by PBT_ARCH before any case runs.
#pragma once
#include <cstdlib>
#include <cstring>
#include <kfr/runtime.hpp>
inline void select_arch()
{
    const char* a = getenv("PBT_ARCH");
    if (!a)
        return;
    struct
    {
        const char* n;
        kfr::cpu_t c;
    } m[] = { { "sse2", kfr::cpu_t::sse2 },   { "sse41", kfr::cpu_t::sse41 },   { "avx", kfr::cpu_t::avx },
              { "avx2", kfr::cpu_t::avx2 }, { "avx512", kfr::cpu_t::avx512 } };
    for (auto& e : m)
        if (!strcmp(e.n, a))
            kfr::override_cpu(e.c);
}
