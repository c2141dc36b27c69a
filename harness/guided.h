/* Comparison-guided search (see guided.c). Properties say where their inputs are; the search changes
 * them through patches, which are recorded as choices like everything else. */
#ifndef GUIDED_H
#define GUIDED_H
#include "engine.h"
enum { IN_KEY, IN_NONCE, IN_AD, IN_MSG, IN_CT, IN_TAG, IN_ADLEN, IN_MLEN, NIN };
#define NPATCH 16
typedef struct { u8 what, w; u32 off; u64 v; } patch_t;
typedef struct { u32 n; patch_t p[NPATCH]; } pset_t;
extern pset_t gp_cur;                               /* set by the search before a case is run */
void gp_begin(G *g);                                /* first choices of a case: the patches */
int gp_has(int what);
void gp_apply(int what, u8 *p, size_t n);
size_t gp_len(int what, size_t v, size_t max);
void gi_input(int what, const u8 *p, size_t n);     /* inputs of the running case */
void gi_length(int what, size_t v);
#ifdef GUIDED
void guided_seed(u64 idx);
void guided_log(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame);
int engine_case(u64 idx);                           /* runs one case; 0 when out of time */
extern int opt_guided;
#endif
#endif
