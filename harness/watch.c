#include "watch.h"
#include <alloca.h>

#define NW 4096
static struct { u64 v; const char *what; int dead; } W[NW];
static int nw;
static u8 bloom[8192];

/* kept masked, so that looking for a secret does not put it into registers and onto the stack */
#define MASK 0xd1b54a32d192ed03ULL
static u64 ld(const u8 *p) { u64 v; memcpy(&v, p, 8); return v; }
static unsigned bl(u64 v) { v *= 0x9E3779B97F4A7C15ULL; return (unsigned)(v >> 48); }
void watch_reset(void) { nw = 0; memset(bloom, 0, sizeof bloom); }
void watch_add(const u8 *p, size_t n, const char *what)
{
    for (size_t i = 0; i + 8 <= n && nw < NW; i++) {
        u64 v = ld(p + i);
        int distinct = 0;
        for (int a = 0; a < 8; a++) {
            int seen = 0;
            for (int b = 0; b < a; b++) seen |= p[i + a] == p[i + b];
            distinct += !seen;
        }
        if (distinct < 6) continue;      /* too regular to be recognised as secret data */
        W[nw].v = v ^ MASK; W[nw].what = what; W[nw].dead = 0; nw++;
        bloom[bl(v) >> 3] |= (u8)(1 << (bl(v) & 7));
    }
}
void watch_public(const u8 *p, size_t n)
{
    for (size_t i = 0; i + 8 <= n; i++) {
        u64 x = ld(p + i);
        for (int order = 0; order < 2; order++) {
            u64 v = order ? __builtin_bswap64(x) : x;
            if (!(bloom[bl(v) >> 3] >> (bl(v) & 7) & 1)) continue;
            for (int j = 0; j < nw; j++) if (W[j].v == (v ^ MASK)) W[j].dead = 1;
        }
    }
}
int watch_windows(void) { int n = 0; for (int j = 0; j < nw; j++) n += !W[j].dead; return n; }
__attribute__((no_sanitize("address")))
const char *watch_scan(const u8 *lo, const u8 *hi, const u8 **where)
{
    for (const u8 *p = lo; p + 8 <= hi; p++) {
        u64 v = 0;
        __builtin_memcpy(&v, p, 8);
        if (!(bloom[bl(v) >> 3] >> (bl(v) & 7) & 1)) continue;
        for (int j = 0; j < nw; j++) if (W[j].v == (v ^ MASK) && !W[j].dead) { if (where) *where = p; return W[j].what; }
    }
    return NULL;
}
extern char vt_bss_lo[], vt_bss_hi[], vt_data_lo[], vt_data_hi[];
const char *watch_statics(const u8 **where)
{
    const char *w = NULL;
    if (&vt_bss_lo[0] < &vt_bss_hi[0]) w = watch_scan((u8 *)vt_bss_lo, (u8 *)vt_bss_hi, where);
    if (!w && &vt_data_lo[0] < &vt_data_hi[0]) w = watch_scan((u8 *)vt_data_lo, (u8 *)vt_data_hi, where);
    return w;
}

__attribute__((noinline)) u8 *stack_paint(u8 v)
{
    volatile u8 *p = alloca(PAINT);
    for (size_t i = 0; i < PAINT; i++) p[i] = v;
    uintptr_t a = (uintptr_t)p;
    __asm__ volatile("" : "+r"(a) : : "memory");
    return (u8 *)a;
}
__attribute__((noinline)) size_t stack_used(u8 *lo, u8 v)
{
    volatile u8 *p = lo;
    size_t i = 0;
    while (i < PAINT && p[i] == v) i++;
    return PAINT - i;
}

/* -Wl,--wrap=malloc etc. in builds that use it */
int heap_watch;
u64 heap_calls, heap_bytes;
struct hblk heap_blk[64];
int heap_nblk;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static void note(void *p, size_t n)
{
    if (!heap_watch || !p) return;
    heap_calls++; heap_bytes += n;
    if (heap_nblk < 64) { heap_blk[heap_nblk].p = p; heap_blk[heap_nblk].n = n; heap_nblk++; }
}
#ifdef WRAP_HEAP
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); note(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); note(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); note(p, n); return p; }
void __wrap_free(void *p) { if (heap_watch) return; __real_free(p); }   /* kept for inspection */
#endif
const char *watch_heap(const u8 **where)
{
    for (int i = 0; i < heap_nblk; i++) {
        const char *w = watch_scan(heap_blk[i].p, heap_blk[i].p + heap_blk[i].n, where);
        if (w) return w;
    }
    return NULL;
}
