/* Small property-based testing engine in C (runs natively and under qemu-arm).
 *
 * A case is a sequence of choices. In RANDOM mode choices come from a PRNG seeded with
 * (seed, property, variant, case index) and are recorded; in REPLAY mode they come from a
 * recorded (possibly edited) list; in FUZZ mode they come from a libFuzzer input. */
#ifndef ENGINE_H
#define ENGINE_H
/* keep the harness's global names apart from those of the code under test */
#define T vt_T
#define X vt_X
#define aead_init vt_aead_init
#define gen_case vt_gen_case
#define gen_lens vt_gen_lens
#define gen_data vt_gen_data
#define dirty_stack vt_dirty_stack
#define note_case vt_note_case
#define case_hash vt_case_hash
#define classify vt_classify
#define tamper vt_tamper
#define h64 vt_h64
#define h_map vt_h_map
#define region_new vt_region_new
#define region_end vt_region_end
#define region_begin vt_region_begin
#define heap_watch vt_heap_watch
#define heap_calls vt_heap_calls
#define heap_bytes vt_heap_bytes
#define heap_blk vt_heap_blk
#define heap_nblk vt_heap_nblk
#define stack_paint vt_stack_paint
#define stack_used vt_stack_used
#define PROPS vt_PROPS
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

enum { G_RANDOM, G_REPLAY, G_FUZZ };
#define MAXCHOICE 4096

typedef struct {
    int mode, verbose;
    u64 rng;
    u32 pos;
    const u8 *fz; size_t fzn, fzp;
    u64 idx;             /* case index in RANDOM mode */
} G;

typedef struct { const char *id; void (*run)(G *); void (*init)(void); } prop_t;
extern const prop_t PROPS[];

extern const char *opt_variant;      /* name of the implementation under test */
extern int opt_alg;                  /* ALG_* */
extern u32 opt_walk;                  /* lengths below this are walked through */
extern int opt_slow;                 /* running under emulation: keep sizes moderate */
extern u64 opt_arg;                  /* free per-property argument */
extern u64 opt_seed, opt_budget;
extern double opt_until;             /* a time of day (s) at which complete runs are to be given up, or 0 */

u32 g_draw(G *g, u32 bound);                       /* uniform in [0,bound) */
u32 g_put(G *g, u32 bound, u32 v);                  /* a scheduled value, recorded like a draw */
int g_chance(G *g, u32 num, u32 den);
u64 g_u64(G *g);
void g_bytes(G *g, u8 *p, size_t n);               /* patterned or random bytes */
void g_rand(G *g, u8 *p, size_t n);                /* random bytes */
size_t g_len(G *g, size_t max);                    /* structured length */
void g_note(G *g, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void g_hex(G *g, const char *label, const u8 *p, size_t n);
void g_class(const char *name);                    /* histogram of what was generated */
void g_mark(u64 hash, int nontrivial);             /* distinctness of the case */
void g_count(u64 n);                               /* additional oracle evaluations in this case */
void g_metric(const char *name, double v);         /* max over the run is reported */
void g_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
u64 h64(u64 h, const void *p, size_t n);

/* Guarded memory: [PROT_NONE][pages][PROT_NONE] */
typedef struct { u8 *base; size_t size; } region_t;
region_t region_new(size_t size);
u8 *region_end(region_t *r, size_t len);           /* buffer ending exactly at the upper guard */
u8 *region_begin(region_t *r);                     /* buffer starting right after the lower guard */
void *h_map(size_t n, int shared);
#endif
