#ifndef SANCOV_H
#define SANCOV_H
#include "engine.h"
#define sc_mode vt_sc_mode
#define sc_chunks vt_sc_chunks
#define sc_hook vt_sc_hook
#define sc_cmp_a vt_sc_cmp_a
#define sc_cmp_b vt_sc_cmp_b
enum { EV_PC = 1, EV_LOAD, EV_STORE, EV_CMP, EV_LIB, EV_CMPLIB };
extern int sc_chunks;
extern int sc_mode;              /* callbacks are delivered while this is set */
extern void (*sc_hook)(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame);
extern u64 sc_cmp_a, sc_cmp_b;   /* operands of the last EV_CMP */
#ifdef STEP
void step_init(void);
#if defined __x86_64__
#define sc_thread_on() __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100)
#define sc_thread_off() __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~0x100ull)
#define sc_on() do { sc_mode = 1; sc_thread_on(); } while (0)
#define sc_off() do { sc_thread_off(); sc_mode = 0; } while (0)
#else
#define sc_on() do { } while (0)
#define sc_off() do { } while (0)
#define STEP_REQ 200
#define STEP_ANS 201
#endif
/* what armtrace found; sizes are the same on both sides */
#include "weights.h"
typedef struct { u32 recorded, compared, differs, pc1, a1, pc2, a2, type; w_found_t w; } step_ans_t;
void step_ask(char what, step_ans_t *a);     /* 'R' record from here, 'C' compare from here, 'Q' the result; nothing is followed after 'Q'.
                                             * Weights: 'N' forget all, '0' and '1' a run in that group starts, 'S' it ends, 'W' what differs */
#else
#define sc_on() (sc_mode = 1)
#define sc_off() (sc_mode = 0)
#endif
#ifndef sc_thread_on           /* the callbacks are delivered in every thread */
#define sc_thread_on() ((void)0)
#define sc_thread_off() ((void)0)
#endif
#endif
