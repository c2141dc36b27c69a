/* Runtime for -fsanitize-coverage builds: dispatches every callback to the property being checked.
 * clang: trace-pc-guard, trace-cmp, trace-loads, trace-stores; gcc: trace-pc, trace-cmp. */
#include "sancov.h"

int sc_mode, sc_chunks;
void (*sc_hook)(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame);

#define EV(t, a, b, n) do { if (__builtin_expect(sc_mode, 0)) sc_hook(t, (uintptr_t)__builtin_return_address(0), \
    (uintptr_t)(a), (uintptr_t)(b), n, __builtin_frame_address(0)); } while (0)

void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { static u32 n; if (a == b || *a) return; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(u32 *g) { EV(EV_PC, g ? *g : 0, 0, 0); }
void __sanitizer_cov_trace_pc(void) { EV(EV_PC, 0, 0, 0); }
void __sanitizer_cov_load1(void *p) { EV(EV_LOAD, p, 0, 1); }
void __sanitizer_cov_load2(void *p) { EV(EV_LOAD, p, 0, 2); }
void __sanitizer_cov_load4(void *p) { EV(EV_LOAD, p, 0, 4); }
void __sanitizer_cov_load8(void *p) { EV(EV_LOAD, p, 0, 8); }
void __sanitizer_cov_load16(void *p) { EV(EV_LOAD, p, 0, 16); }
void __sanitizer_cov_store1(void *p) { EV(EV_STORE, p, 0, 1); }
void __sanitizer_cov_store2(void *p) { EV(EV_STORE, p, 0, 2); }
void __sanitizer_cov_store4(void *p) { EV(EV_STORE, p, 0, 4); }
void __sanitizer_cov_store8(void *p) { EV(EV_STORE, p, 0, 8); }
void __sanitizer_cov_store16(void *p) { EV(EV_STORE, p, 0, 16); }
/* 64-bit operands do not fit uintptr_t on ARM: pass them through globals */
u64 sc_cmp_a, sc_cmp_b;
#define CMP(a, b, n) do { if (__builtin_expect(sc_mode, 0)) { sc_cmp_a = (a); sc_cmp_b = (b); \
    sc_hook(EV_CMP, (uintptr_t)__builtin_return_address(0), 0, 0, n, __builtin_frame_address(0)); } } while (0)
void __sanitizer_cov_trace_cmp1(u8 a, u8 b) { CMP(a, b, 1); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { CMP(a, b, 2); }
void __sanitizer_cov_trace_cmp4(u32 a, u32 b) { CMP(a, b, 4); }
void __sanitizer_cov_trace_cmp8(u64 a, u64 b) { CMP(a, b, 8); }
void __sanitizer_cov_trace_const_cmp1(u8 a, u8 b) { CMP(a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { CMP(a, b, 2); }
void __sanitizer_cov_trace_const_cmp4(u32 a, u32 b) { CMP(a, b, 4); }
void __sanitizer_cov_trace_const_cmp8(u64 a, u64 b) { CMP(a, b, 8); }
void __sanitizer_cov_trace_cmpf(float a, float b) { (void)a; (void)b; }
void __sanitizer_cov_trace_cmpd(double a, double b) { (void)a; (void)b; }
void __sanitizer_cov_trace_switch(u64 v, u64 *c)
{
    /* one comparison for every case label; a tells them apart */
    if (!__builtin_expect(sc_mode, 0)) return;
    for (u64 i = 0; i < c[0] && i < 256; i++) {
        sc_cmp_a = v; sc_cmp_b = c[2 + i];
        sc_hook(EV_CMP, (uintptr_t)__builtin_return_address(0), (uintptr_t)(i + 1) << 16, 0, c[1] / 8, __builtin_frame_address(0));
    }
}
void __sanitizer_cov_trace_div4(u32 v) { (void)v; }
void __sanitizer_cov_trace_div8(u64 v) { (void)v; }
void __sanitizer_cov_trace_gep(uintptr_t v) { (void)v; }

/* Library comparisons stop at the first difference: their callers see (and leak) where that is. */
static int lib_cmp(const u8 *a, const u8 *b, size_t n, int str, uintptr_t pc)
{
    size_t i = 0;
    while (i < n && a[i] == b[i] && !(str && !a[i])) i++;
    if (sc_mode) {
        sc_hook(EV_LIB, pc, i, n, n, __builtin_frame_address(0));
        for (size_t j = 0, w; sc_chunks && j + 1 < n && !str; j += w) {          /* several bytes at once */
            w = n - j >= 8 ? 8 : n - j >= 4 ? 4 : 2;
            if (n - j < 2) break;
            sc_cmp_a = sc_cmp_b = 0;
            for (size_t q = 0; q < w; q++) { sc_cmp_a |= (u64)a[j + q] << (8 * q); sc_cmp_b |= (u64)b[j + q] << (8 * q); }
            sc_hook(EV_CMPLIB, pc, (j << 16) + 1, 0, w, __builtin_frame_address(0));
        }
        for (size_t j = 0; j < n && !str; j++) { sc_cmp_a = a[j]; sc_cmp_b = b[j]; sc_hook(EV_CMPLIB, pc, j << 16, 0, 1, __builtin_frame_address(0)); }
    }
    return i == n || (str && a[i] == b[i]) ? 0 : a[i] < b[i] ? -1 : 1;
}
#define PC ((uintptr_t)__builtin_return_address(0))
int __wrap_memcmp(const void *a, const void *b, size_t n) { return lib_cmp(a, b, n, 0, PC); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return lib_cmp(a, b, n, 0, PC); }
int __wrap_strncmp(const void *a, const void *b, size_t n) { return lib_cmp(a, b, n, 1, PC); }
int __wrap_strcmp(const void *a, const void *b) { return lib_cmp(a, b, (size_t)-1 >> 1, 1, PC); }

#ifdef TRACE
/* Library copies, word by word, so that what they read and write is seen too. */
void vt_text_lo(void), vt_text_hi(void);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
#define OURS(pc) (sc_mode && (pc) >= (uintptr_t)vt_text_lo && (pc) < (uintptr_t)vt_text_hi)
#define AT(t, p, w) sc_hook(t, pc, (uintptr_t)(p), 0, w, __builtin_frame_address(0))
static void copy(u8 *d, const u8 *s, size_t n, int c, uintptr_t pc)
{
    size_t w;
    int back = s && d > s && d < s + n;
    for (size_t i = 0; i < n; i += w) {
        w = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1;
        size_t o = back ? n - i - w : i;
        u8 tmp[8];
        if (s) { AT(EV_LOAD, s + o, w); __real_memcpy(tmp, s + o, w); }
        else __real_memset(tmp, c, w);
        AT(EV_STORE, d + o, w);
        __real_memcpy(d + o, tmp, w);
    }
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (!OURS(PC)) return __real_memcpy(d, s, n);
    copy(d, s, n, 0, PC);
    return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (!OURS(PC)) return __real_memmove(d, s, n);
    copy(d, s, n, 0, PC);
    return d;
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (!OURS(PC)) return __real_memset(d, c, n);
    copy(d, NULL, n, c, PC);
    return d;
}
#endif
