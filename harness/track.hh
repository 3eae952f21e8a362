// Tracks what a piece of code leaves allocated: heap blocks, file descriptors, mappings of scratch files.
#pragma once
#include "pbt.hh"
#include <dirent.h>
#include <link.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
extern "C" void __sanitizer_print_stack_trace(void);

namespace track {
using namespace pbt;
static const size_t N = 1 << 16;
struct Ent {
    uintptr_t p;
    size_t n;
    uint32_t seq;
};
static Ent tab[N]; // open addressing; 0 free, 1 deleted
static bool armed = false, overflow = false;
static uint32_t seq = 0;
static size_t live = 0;
static inline size_t slot(uintptr_t p) { return (size_t)((p >> 4) * 0x9e3779b97f4a7c15ull >> 40) & (N - 1); }
static void on_malloc(const volatile void *vp, size_t n)
{
    uintptr_t p = (uintptr_t)vp;
    if (!armed || p < 2)
        return;
    size_t i = slot(p);
    for (size_t k = 0; k < N; k++, i = (i + 1) & (N - 1))
        if (tab[i].p < 2) {
            tab[i] = {p, n, seq++};
            live++;
            return;
        }
    overflow = true;
}
static void on_free(const volatile void *vp)
{
    uintptr_t p = (uintptr_t)vp;
    if (!live || p < 2)
        return;
    size_t i = slot(p);
    for (size_t k = 0; k < N; k++, i = (i + 1) & (N - 1)) {
        if (tab[i].p == p) {
            tab[i].p = 1;
            live--;
            return;
        }
        if (tab[i].p == 0)
            return;
    }
}
static inline void setup()
{
    static bool done = false;
    if (!done)
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    done = true;
}
static inline void begin()
{
    memset(tab, 0, sizeof tab);
    live = 0;
    seq = 0;
    overflow = false;
    armed = true;
}
struct Left {
    size_t blocks = 0, bytes = 0, first = 0;
    uint32_t firstseq = 0;
};
static inline Left end()
{
    armed = false;
    Left l;
    uint32_t best = UINT32_MAX;
    for (size_t i = 0; i < N; i++)
        if (tab[i].p > 1) {
            l.blocks++;
            l.bytes += tab[i].n;
            if (tab[i].seq < best) {
                best = tab[i].seq;
                l.first = tab[i].n;
                l.firstseq = best;
            }
        }
    live = 0;
    return l;
}
static inline std::set<int> fds()
{
    std::set<int> r;
    DIR *d = opendir("/proc/self/fd");
    if (!d)
        FAILF("harness: /proc/self/fd");
    while (struct dirent *e = readdir(d)) {
        int n = atoi(e->d_name);
        if (e->d_name[0] != '.' && n != dirfd(d))
            r.insert(n);
    }
    closedir(d);
    return r;
}
static inline size_t maps(const std::string &dir) // mappings of files below dir
{
    FILE *f = fopen("/proc/self/maps", "r");
    if (!f)
        FAILF("harness: /proc/self/maps");
    char buf[4096];
    size_t n = 0;
    while (fgets(buf, sizeof buf, f))
        if (strstr(buf, dir.c_str()))
            n++;
    fclose(f);
    return n;
}
} // namespace track
