#include "memwrap.hpp"
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
}

static std::atomic<long> g_live{0}, g_total{0};
static thread_local bool t_arena = false;
static char *g_base = nullptr;
static const size_t ARENA = 256u << 20;
static size_t g_top = 0;
static std::mutex g_mu;

namespace memw {
long live() { return g_live.load(); }
long allocations() { return g_total.load(); }
void arena_on() { t_arena = true; }
void arena_off() { t_arena = false; }
bool in_arena(const void *p) { return g_base && (const char *)p >= g_base && (const char *)p < g_base + ARENA; }
void *arena_alloc(size_t n)
{
    std::lock_guard<std::mutex> l(g_mu);
    if (!g_base) {
        void *p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("arena"); _exit(3); }
        g_base = (char *)p;
    }
    size_t need = ((n + 15) & ~(size_t)15) + 32;
    if (g_top + need > ARENA) { fprintf(stderr, "harness: arena exhausted\n"); _exit(3); }
    char *p = g_base + g_top + 16;
    memcpy(p - 16, &n, sizeof n);
    g_top += need;
    return p;
}
void protect() { if (g_base) mprotect(g_base, ARENA, PROT_READ); }
void unprotect() { if (g_base) mprotect(g_base, ARENA, PROT_READ | PROT_WRITE); }
}

static size_t arena_size(void *p) { size_t n; memcpy(&n, (char *)p - 16, sizeof n); return n; }

extern "C" {
void *__wrap_malloc(size_t n)
{
    g_total++;
    g_live++;
    if (t_arena) { void *p = memw::arena_alloc(n); memset(p, 0x5b, n); return p; }
    return __real_malloc(n);
}
void *__wrap_calloc(size_t a, size_t b)
{
    g_total++;
    g_live++;
    if (t_arena) { void *p = memw::arena_alloc(a * b); memset(p, 0, a * b); return p; }
    return __real_calloc(a, b);
}
void __wrap_free(void *p)
{
    if (!p) return;
    g_live--;
    if (memw::in_arena(p)) return;
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    g_total++;
    if (!p) { g_live++; if (!t_arena) return __real_malloc(n); return memw::arena_alloc(n); }
    if (memw::in_arena(p)) {
        void *q = t_arena ? memw::arena_alloc(n) : __real_malloc(n);
        size_t o = arena_size(p);
        memcpy(q, p, o < n ? o : n);
        return q;
    }
    return __real_realloc(p, n);
}
char *__wrap_strdup(const char *s)
{
    char *p = (char *)__wrap_malloc(strlen(s) + 1);
    strcpy(p, s);
    return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    g_total++;
    g_live++;
    return __real_posix_memalign(p, a, n);
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    g_total++;
    g_live++;
    return __real_aligned_alloc(a, n);
}
}
