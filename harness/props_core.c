/* Properties decided on plain builds: C01-C09. */
#include <unistd.h>
#include "aead.h"
#include <sys/mman.h>
#include <alloca.h>
#include <pthread.h>

#include "watch.h"
#include "guided.h"
#ifdef SANCOV
#include "sancov.h"
#endif

static u8 *OUT0;                      /* big plain output buffer */
#define OUT (OUT0 + T.oo)
static u8 *AL0;
static u64 heap_seen;
static region_t RK, RN, RA, RM, RC, RL, RO;

static void init_plain(void)
{
    aead_init();
    if (OUT0) return;
    OUT0 = h_map(MAXLEN + 8192, 0);
    AL0 = h_map(MAXLEN + 8192, 0);
}
static void init_guard(void)
{
    init_plain();
    if (RK.base) return;
    RK = region_new(4096); RN = region_new(4096); RL = region_new(4096);
    RA = region_new(MAXLEN); RM = region_new(MAXLEN); RC = region_new(MAXLEN); RO = region_new(MAXLEN);
}
static size_t maxlen(void) { return opt_slow ? (1u << 17) + 64 : (1u << 20) + 64; }

static void first_diff(const u8 *a, const u8 *b, size_t n, const char *what)
{
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) g_fail("%s differs at byte %zu of %zu: got %02x, specification says %02x (adlen=%zu mlen=%zu)", what, i, n, a[i], b[i], T.adlen, T.mlen);
}

static void ro(region_t *r, int on) { mprotect(r->base, r->size, on ? PROT_READ : PROT_READ | PROT_WRITE); }
static void check_fill(region_t *r, const u8 *p, size_t n, u8 fill, const char *what)
{
    /* everything outside [p,p+n) within 4 KiB still has the fill value */
    const u8 *lo = p - r->base > 4096 ? p - 4096 : r->base;
    const u8 *hi = p + n + 4096 < r->base + r->size ? p + n + 4096 : r->base + r->size;
    for (const u8 *q = lo; q < p; q++) if (*q != fill) g_fail("%s: byte %ld before the buffer was overwritten", what, (long)(p - q));
    for (const u8 *q = p + n; q < hi; q++) if (*q != fill) g_fail("%s: byte %ld after the end of the buffer was overwritten", what, (long)(q - p - (long)n));
}
#ifdef HAVE_AEAD
/* ------------------------------------------------------------------ C01 */
static void c01(G *g)
{
    gen_case(g, maxlen());
    u32 fill = g_draw(g, 4);
    memset(OUT, fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xa5 : 0x80, T.mlen + 64);
    unsigned long long clen = fill == 3 ? 0 : 0xdeadbeefcafef00dULL;
    u8 nsec[16] = {1, 2, 3};
    if (g_draw(g, 4) == 0) dirty_stack((u8)g_draw(g, 256));
    int r = crypto_aead_encrypt(OUT, &clen, T.m, T.mlen, T.ad, T.adlen, g_draw(g, 3) ? NULL : nsec, T.n, T.k);
    if (r != 0) g_fail("encryption returned %d instead of 0 (adlen=%zu mlen=%zu)", r, T.adlen, T.mlen);
    if (clen != T.mlen + 16) g_fail("encryption reported length %llu for a message of %zu bytes", clen, T.mlen);
    first_diff(OUT, T.c, T.mlen, "ciphertext");
    first_diff(OUT + T.mlen, T.c + T.mlen, 16, "tag");
}

/* ------------------------------------------------------------------ C02 */
static void c02(G *g)
{
    gen_case(g, maxlen());
    u32 fill = g_draw(g, 4);
    memset(OUT, fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0xa5 : 0x80, T.mlen + 64);
    unsigned long long mlen = fill == 3 ? 0 : 0xdeadbeefcafef00dULL;
    u8 nsec[16] = {1, 2, 3};
    if (g_draw(g, 4) == 0) dirty_stack((u8)g_draw(g, 256));
    u8 *in = T.c;
    if (g_draw(g, 4) == 0) {           /* this implementation's own ciphertext */
        unsigned long long clen = 0;
        static u8 *own;
        if (!own) own = h_map(MAXLEN + 4096, 0);
        int r = crypto_aead_encrypt(own, &clen, T.m, T.mlen, T.ad, T.adlen, NULL, T.n, T.k);
        if (r != 0 || clen != T.mlen + 16) g_fail("encryption returned %d, length %llu", r, clen);
        in = own;
        g_class("ciphertext:own");
    } else g_class("ciphertext:from the model");
    int r = crypto_aead_decrypt(OUT, &mlen, g_draw(g, 3) ? NULL : nsec, in, T.mlen + 16, T.ad, T.adlen, T.n, T.k);
    if (r != 0) g_fail("a genuine ciphertext was rejected with %d (adlen=%zu mlen=%zu)", r, T.adlen, T.mlen);
    if (mlen != T.mlen) g_fail("decryption reported length %llu for a message of %zu bytes", mlen, T.mlen);
    first_diff(OUT, T.m, T.mlen, "plaintext");
}

/* ------------------------------------------------------------------ C03 */
/* What is to be forged is the message of the model or, if an implementation should not produce
 * the same, the one it produces itself. */
static void own_message(G *g)
{
    if (g_draw(g, opt_slow ? 16 : 4)) return;
    unsigned long long l = 0;
    int r = crypto_aead_encrypt(OUT, &l, T.m, T.mlen, T.ad, T.adlen, NULL, T.n, T.k);
    if (r != 0 || l != T.mlen + 16) return;             /* C01 */
    memcpy(T.c, OUT, T.mlen + 16);
    g_class("base:message of the implementation");
}
/* one byte of a long input changed, anywhere */
static void c03_long(G *g)
{
    u32 which = g_draw(g, 2);
    size_t n = (opt_slow ? 1u << (12 + g_draw(g, 5)) : 65536u * (1 + g_draw(g, 3))) + g_draw(g, 400);
    n = n > 200 ? n - 200 : 0;
    T.adlen = which ? n : g_draw(g, 40);
    T.mlen = which ? g_draw(g, 40) : n;
    gen_data(g);
    if (which || g_draw(g, 2)) own_message(g);
    if (g->verbose) note_case(g);
    classify();
    g_class("forged:one byte of a long input");
    u32 cnt = opt_slow ? 2 : 6;
    for (u32 i = 0; i < cnt; i++) {
        u8 *p = which ? T.ad : T.c, d = (u8)(1 + g_draw(g, 255));
        u32 at = g_draw(g, 4) == 0 ? (u32)n - 1 - g_draw(g, n < 400 ? (u32)n : 400) : g_draw(g, (u32)n);
        unsigned long long l = 0;
        p[at] ^= d;
        int r = crypto_aead_decrypt(OUT, &l, NULL, T.c, T.mlen + 16, T.ad, T.adlen, T.n, T.k);
        p[at] ^= d;
        g_count(1);
        g_mark(h64(case_hash(), &at, 4), 1);
        if (r == 0) g_fail("forgery accepted: byte %u of %zu bytes of %s changed", at, n, which ? "associated data" : "ciphertext");
        if (r != -1) g_fail("forgery rejected with %d instead of -1", r);
    }
}
static void c03(G *g)
{
    if (g_draw(g, opt_slow ? 200 : 40) == 0) { gp_begin(g); gen_place(g); c03_long(g); return; }
    gen_case(g, g_draw(g, opt_slow ? 150 : 24) ? 5000 : 150000);
    own_message(g);
    u32 n = 1 + g_draw(g, 3);
    for (u32 i = 0; i < n; i++) {
        if (!tamper(g) || X.clen < 16) continue;
        unsigned long long mlen = 0;
        int r = crypto_aead_decrypt(OUT, &mlen, NULL, X.c, X.clen, X.ad, X.adlen, X.n, X.k);
        g_count(1);
        if (r == 0) g_fail("forgery accepted: %s (adlen=%zu clen=%zu)", X.how, X.adlen, X.clen);
        if (r != -1) g_fail("forgery rejected with %d instead of -1: %s", r, X.how);
        u64 h = h64(case_hash(), X.c, X.clen < 200 ? X.clen : 200);
        g_mark(h64(h, X.how, strlen(X.how)), 1);
    }
}

/* ------------------------------------------------------------------ C05 */
static void c05(G *g)
{
    /* anything shorter than a tag is not a ciphertext */
    size_t clen = g->mode == G_RANDOM && g->idx < 64 ? g_put(g, 16, (u32)(g->idx % 16)) : g_draw(g, 16);
    gen_lens(g, g_draw(g, 40) ? 2048 : opt_slow ? 20000 : 280000);
    gen_data(g);
    /* the bytes lie against an inaccessible page, after the last or before the first; so does m */
    u8 *c = g_draw(g, 2) ? region_begin(&RC) : region_end(&RC, clen), *m = RO.base + RO.size;
    switch (g_draw(g, 4)) {
    case 0: memcpy(c, T.c, clen); g_class("prefix of a genuine ciphertext"); break;
    case 1: /* the end of a genuine tag, whose other bytes lie directly before the buffer */
        c = region_end(&RC, clen);
        model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, 0, region_end(&RC, 16)); g_class("end of a genuine tag"); break;
    case 2: model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, 0, X.c); memcpy(c, X.c, clen); g_class("start of a genuine tag"); break;
    default: g_bytes(g, c, clen); g_class("arbitrary bytes");
    }
    unsigned long long mlen = 0x5555;
    if (g->verbose) { g_note(g, "clen=%zu ", clen); g_hex(g, "c", c, clen); note_case(g); }
    char cls[32];
    snprintf(cls, sizeof cls, "clen:%zu", clen);
    g_class(cls);
    g_mark(h64(case_hash() + clen, c, clen), 1);
    ro(&RC, 1);
    int r = crypto_aead_decrypt(m, &mlen, NULL, c, clen, T.ad, T.adlen, T.n, T.k);
    ro(&RC, 0);
    if (r != -1) g_fail("a ciphertext of %zu bytes (shorter than a tag) gave %d instead of -1", clen, r);
}

/* ------------------------------------------------------------------ C06 */
/* Every buffer has exactly its documented size and lies against an inaccessible page, either
 * after its last or before its first byte; inputs are mapped read-only. */
static u8 *put(G *g, region_t *r, const u8 *src, size_t n)
{
    u32 where = g_draw(g, 4);
    u8 *p = where == 3 ? region_begin(r) : region_end(r, n);
    if (src) memcpy(p, src, n);
    return p;
}
static void c06(G *g)
{
    size_t lim = g_draw(g, 8) == 0 ? (opt_slow ? 20000u : 140000u) : 1500;
    gen_case(g, lim);
    int op = (int)g_draw(g, 4);      /* 0,1 encrypt; 2 decrypt genuine; 3 decrypt forged */
    u8 fill = (u8)(g_draw(g, 2) ? 0xc3 : 0x3c);
    int ret;
    size_t adl = T.adlen, cl = T.mlen + 16;
    const u8 *adsrc = T.ad, *csrc = T.c, *ksrc = T.k, *nsrc = T.n;
    if (op == 3) {
        if (!tamper(g) || X.clen < 16) op = 2;
        else { adl = X.adlen; cl = X.clen; adsrc = X.ad; csrc = X.c; ksrc = X.k; nsrc = X.n; }
    }
    size_t ml = cl - 16;
    u8 *k = put(g, &RK, ksrc, 16), *n = put(g, &RN, nsrc, 16), *ad = put(g, &RA, adsrc, adl);
    unsigned long long *len = (void *)(RL.base + (g_draw(g, 2) ? RL.size - sizeof *len : 0));
    if (adl == 0 && g_draw(g, 3) == 0) { ad = NULL; g_class("null ad"); }
    memset(RL.base, fill, RL.size);
    if (op <= 1) {
        u8 *m = put(g, &RM, T.m, ml), *c = put(g, &RO, NULL, ml + 16);
        if (ml == 0 && g_draw(g, 3) == 0) { m = NULL; g_class("null message"); }
        u8 *lo = c - RO.base > 4096 ? c - 4096 : RO.base;
        size_t sp = (size_t)(RO.base + RO.size - lo);
        if (sp > ml + 16 + 8192) sp = ml + 16 + 8192;
        memset(lo, fill, sp);
        ro(&RK, 1); ro(&RN, 1); ro(&RA, 1); ro(&RM, 1);
        ret = crypto_aead_encrypt(c, len, m, ml, ad, adl, NULL, n, k);
        ro(&RK, 0); ro(&RN, 0); ro(&RA, 0); ro(&RM, 0);
        g_class("op:encrypt");
        if (ret) g_fail("encryption returned %d", ret);
        check_fill(&RO, c, ml + 16, fill, "ciphertext");
        check_fill(&RL, (u8 *)len, sizeof *len, fill, "ciphertext length");
        first_diff(c, T.c, ml + 16, "ciphertext");
    } else {
        u8 *c = put(g, &RC, csrc, cl), *m = op == 2 ? put(g, &RO, NULL, ml) : RO.base + RO.size;
        if (op == 2 && ml == 0 && g_draw(g, 3) == 0) { m = NULL; g_class("null plaintext"); }
        if (op == 2 && m) {
            u8 *lo = m - RO.base > 4096 ? m - 4096 : RO.base;
            size_t sp = (size_t)(RO.base + RO.size - lo);
            if (sp > ml + 16 + 8192) sp = ml + 16 + 8192;
            memset(lo, fill, sp);
        }
        ro(&RK, 1); ro(&RN, 1); ro(&RA, 1); ro(&RC, 1);
        ret = crypto_aead_decrypt(m, len, NULL, c, cl, ad, adl, n, k);
        ro(&RK, 0); ro(&RN, 0); ro(&RA, 0); ro(&RC, 0);
        check_fill(&RL, (u8 *)len, sizeof *len, fill, "plaintext length");
        if (op == 2) {
            g_class("op:decrypt genuine");
            if (ret) g_fail("a genuine ciphertext was rejected");
            if (m) check_fill(&RO, m, ml, fill, "plaintext");
            if (m) first_diff(m, T.m, ml, "plaintext");
        } else {
            g_class("op:decrypt forged");
            if (ret != -1) g_fail("forgery gave %d: %s", ret, X.how);
        }
    }
}

/* ------------------------------------------------------------------ C07 */
static u8 *AL;                        /* 64-byte aligned scratch for misaligned buffers */
#define SLOT (150 * 1024)
static void init_align(void)
{
    init_plain();
    if (!AL) AL = h_map(SLOT * 10, 0);
}
static u8 *off(int slot, u32 o) { return AL + slot * SLOT + 128 + o; }
static void c07(G *g)
{
    u32 o[6];
    gen_lens(g, g_draw(g, 24) ? 2000 : opt_slow ? 10000 : 140000);
    gen_data(g);
    /* one buffer walks through its offsets while the others are drawn */
    for (int i = 0; i < 6; i++) o[i] = g_draw(g, 3) == 0 ? g_draw(g, 64) : g_draw(g, 3) == 0 ? 0 : g_draw(g, 8);
    if (g->verbose) { note_case(g); g_note(g, "offsets k=%u n=%u ad=%u m=%u c=%u out=%u ", o[0], o[1], o[2], o[3], o[4], o[5]); }
    u64 h = case_hash();
    int odd = 0;
    for (int i = 0; i < 6; i++) odd |= o[i] & 7;
    g_mark(h64(h, o, sizeof o), odd != 0);
    g_class(odd & 1 ? "some buffer at an odd address" : odd ? "some buffer misaligned" : "all aligned");
    u8 *k = off(0, o[0]), *n = off(1, o[1]), *ad = off(2, o[2]), *m = off(3, o[3]), *c = off(4, o[4]), *out = off(5, o[5]);
    memcpy(k, T.k, 16); memcpy(n, T.n, 16); memcpy(ad, T.ad, T.adlen); memcpy(m, T.m, T.mlen);
    unsigned long long l = 0;
    int r = crypto_aead_encrypt(c, &l, m, T.mlen, ad, T.adlen, NULL, n, k);
    if (r || l != T.mlen + 16) g_fail("encryption returned %d, length %llu", r, l);
    first_diff(c, T.c, T.mlen + 16, "ciphertext");
    l = 0;
    r = crypto_aead_decrypt(out, &l, NULL, c, T.mlen + 16, ad, T.adlen, n, k);
    if (r || l != T.mlen) g_fail("decryption of a genuine ciphertext returned %d, length %llu", r, l);
    first_diff(out, T.m, T.mlen, "plaintext");
    u32 i = g_draw(g, (u32)(T.mlen + 16) * 8);
    c[i / 8] ^= (u8)(1 << (i % 8));
    r = crypto_aead_decrypt(out, &l, NULL, c, T.mlen + 16, ad, T.adlen, n, k);
    if (r != -1) g_fail("ciphertext with bit %u flipped gave %d", i, r);
    g_count(2);
}
/* ------------------------------------------------------------------ C04 */
/* The would-be plaintext and keystream of a rejected ciphertext never exist in memory. In builds
 * with coverage callbacks memory is also looked at during the call: the whole live stack, the static
 * data and the heap at every n-th callback, and the place of every store right after it happened. */
static const char *c04_found;
static const u8 *c04_hi;                /* the live stack ends here */
static u64 c04_scans;
static u8 WB[2][512];
static int __attribute__((noinline)) c04_call(u8 *m, unsigned long long *ml);
#ifdef TRACE
static u64 c04_tick;
static u32 c04_every;
static void c04_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    static uintptr_t last;
    static u64 lastn;
    const u8 *sp = frame;
    (void)pc; (void)b;
    if (c04_found) return;
    if (last) {
        uintptr_t lo = last - 7, hi = last + lastn + 7, page = last & ~(uintptr_t)4095;
        if (lo < page) lo = page;
        if (hi > page + 4096) hi = page + 4096;
        c04_found = watch_scan((u8 *)lo, (u8 *)hi, NULL);
        c04_scans++;
    }
    last = type == EV_STORE ? a : 0;
    lastn = size;
    if (!c04_found && ++c04_tick % c04_every == 0) {
        if (sp < c04_hi && (size_t)(c04_hi - sp) < 65536) c04_found = watch_scan(sp, c04_hi, NULL);
        if (!c04_found) c04_found = watch_statics(NULL);
        if (!c04_found) c04_found = watch_heap(NULL);
        c04_scans++;
    }
}
#endif
static int __attribute__((noinline)) c04_call(u8 *m, unsigned long long *ml)
{
    int r;
    c04_hi = __builtin_frame_address(0);
#ifdef TRACE
    sc_hook = c04_hook;
    sc_mode = 1;
#endif
    r = crypto_aead_decrypt(m, ml, NULL, X.c, X.clen, X.ad, X.adlen, X.n, X.k);
#ifdef TRACE
    sc_mode = 0;
#endif
    return r;
}
static struct { u8 *m; int guard, skip; size_t ml0; } c4;
/* Runs in a thread of its own: the secrets it works with never enter the stack or the registers of
 * the thread that makes the call, where the search would find them. */
static void *c04_prepare(void *arg)
{
    G *g = arg;
    gen_lens(g, opt_arg ? 200 : g_draw(g, 16) ? 1500 : opt_slow ? 20000 : 280000);
    if (T.mlen < 8 && g_draw(g, 4)) T.mlen += 8 + g_draw(g, 60);
    if (!opt_arg && g_draw(g, 8) == 0) T.mlen = gp_len(IN_MLEN, g_draw(g, opt_slow ? 2500 : 9000), 9000);
    gen_data(g);
    /* a random message: with a regular one the public ciphertext is as good as the keystream */
    g_rand(g, T.m, T.mlen);
    model_encrypt(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, T.mlen, T.c);
    if (g->verbose) note_case(g);
    classify();
    int ok = tamper(g);
    c4.guard = g_draw(g, 3) != 0;
    c4.skip = !ok || X.clen < 16;
    if (c4.skip) { g_mark(0, 0); return NULL; }
    size_t ml0 = X.clen - 16, ns = ml0 < sizeof WB[0] ? ml0 : sizeof WB[0];
    c4.ml0 = ml0;
    c4.m = c4.guard ? RO.base + RO.size : region_end(&RO, ml0);
    if (!c4.guard) memset(c4.m, 0x5a, ml0);
    /* what an eager decryption would compute */
    model_enc_t e;
    u8 rev[8];
    watch_reset();
    memset(WB, 0, sizeof WB);
    model_enc_init(&e, opt_alg, X.k, X.n);
    model_enc_update(&e, WB[0], WB[0], ns);
    watch_add(WB[0], ns, "keystream");
    size_t r = model_rate(opt_alg);
    if (r == 8) for (size_t b = 0; b + 8 <= ns; b += 8) { for (int i = 0; i < 8; i++) rev[i] = WB[0][b + 7 - (size_t)i]; watch_add(rev, 8, "keystream (word order)"); }
    for (size_t i = 0; i < ns; i++) WB[1][i] = WB[0][i] ^ X.c[i];
    watch_add(WB[1], ns, "plaintext");
    if (r == 8) for (size_t b = 0; b + 8 <= ns; b += 8) { for (int i = 0; i < 8; i++) rev[i] = WB[1][b + 7 - (size_t)i]; watch_add(rev, 8, "plaintext (word order)"); }
    watch_public(X.c, X.clen); watch_public(X.ad, X.adlen); watch_public(X.k, 16); watch_public(X.n, 16);
    int win = watch_windows();
    u64 h = h64(case_hash(), X.c, X.clen < 200 ? X.clen : 200);
    g_mark(h64(h, X.how, strlen(X.how)), win > 0);
    g_class(win ? "recognisable plaintext" : "plaintext too short to recognise");
    return NULL;
}
static void c04(G *g)
{
    pthread_t th;
    unsigned long long ml = 0;
    if (pthread_create(&th, NULL, c04_prepare, g)) { fprintf(stderr, "harness: pthread_create\n"); _exit(3); }
    pthread_join(th, NULL);
    if (c4.skip) return;
    u8 *m = c4.m;
    int guard = c4.guard;
    size_t ml0 = c4.ml0;
    heap_nblk = 0;
    c04_found = NULL;
#ifdef TRACE
    c04_every = 20 + g_draw(g, 400);
#endif
    u8 *lo = stack_paint(0x11);
    heap_watch = 1;
    int ret = c04_call(m, &ml);
    heap_watch = 0;
    const char *f = c04_found;
    if (f) g_fail("%s was in memory during the call, before the ciphertext was rejected: %s (clen=%zu)", f, X.how, X.clen);
    if (ret != -1) g_fail("forgery gave %d: %s", ret, X.how);
    if (!guard) for (size_t i = 0; i < ml0; i++) if (m[i] != 0x5a) g_fail("rejected, but byte %zu of the plaintext buffer was written: %s", i, X.how);
    const u8 *w = NULL;
    f = watch_scan(lo, lo + PAINT, &w);
    if (f) g_fail("%s was left on the stack (%ld bytes below the caller) after rejection: %s", f, (long)(lo + PAINT - w), X.how);
    if ((f = watch_statics(&w))) g_fail("%s was left in static data after rejection: %s", f, X.how);
    if ((f = watch_heap(&w))) g_fail("%s was left on the heap after rejection: %s", f, X.how);
    if (c04_scans) g_metric("memory scans during calls (one process)", (double)c04_scans);
}

/* ------------------------------------------------------------------ C09 */
#define HB 70000
static u8 HS[8][96] __attribute__((aligned(64))), HD[6][HB + 64] __attribute__((aligned(64))), HE[4][HB + 200] __attribute__((aligned(64)));
static u8 *HK[4], *HN[4], *HA[3], *HM[3], *HC[3], *HO;
static void h_place(G *g)
{
    u32 some = g_draw(g, 4) == 3;           /* else all aligned */
#define O(p, b) p = (b) + (some ? gen_offset(g) : 0)
    for (int i = 0; i < 4; i++) { O(HK[i], HS[i]); O(HN[i], HS[4 + i]); }
    for (int i = 0; i < 3; i++) { O(HA[i], HD[i]); O(HM[i], HD[3 + i]); O(HC[i], HE[i]); }
    O(HO, HE[3]);
    if (some) g_class("buffers not aligned");
}
static struct { u8 k[16], n[16], ad[HB], m[HB], c[HB + 100]; size_t al, ml; int set; } HR;      /* a genuine message of the past */
static void mutate(G *g, u8 *p, size_t n)
{
    u32 i;
    if (!n) return;
    switch (g_draw(g, 4)) {
    case 0: i = g_draw(g, (u32)n * 8); p[i / 8] ^= (u8)(1 << (i % 8)); break;
    case 1: i = g_draw(g, (u32)n); p[i] = (u8)(p[i] + 1); break;
    case 2: i = g_draw(g, (u32)n); g_rand(g, p + i, n - i); break;       /* common prefix */
    default: i = g_draw(g, (u32)n); g_rand(g, p, i); break;              /* common suffix */
    }
}
/* The same genuine message, decrypted several times with something wrong, then as it should be. */
static void burst(G *g, u32 op, char *kinds, u32 *done)
{
    u32 n = g_draw(g, 16) || HR.ml + HR.al > 4000 ? g_draw(g, 6) : g_draw(g, opt_slow ? 20 : 70), what = g_draw(g, 5);
    u8 k[16], nn[16], t[16], tag[16];
    size_t al = HR.al;
    unsigned long long l;
    memcpy(k, HR.k, 16); memcpy(nn, HR.n, 16); memcpy(tag, HR.c + HR.ml, 16);
    switch (what) {
    case 0: memcpy(k, HK[g_draw(g, 4)], 16); break;
    case 1: memcpy(nn, HN[g_draw(g, 4)], 16); break;
    case 2: if (al) al--; break;
    case 3: HR.c[HR.ml + g_draw(g, 16)] ^= (u8)(1 + g_draw(g, 255)); break;
    default: k[g_draw(g, 16)] ^= (u8)(1 + g_draw(g, 255));
    }
    model_mac(opt_alg, k, nn, HR.ad, al, HR.c, HR.ml, t);
    int want = memcmp(t, HR.c + HR.ml, 16) ? -1 : 0;
    if (g->verbose) g_note(g, "[%u times the message of %zu/%zu bytes with change %u, then genuine] ", n, HR.al, HR.ml, what);
    for (u32 i = 0; i < n; i++) {
        l = 0;
        int r = crypto_aead_decrypt(HO, &l, NULL, HR.c, HR.ml + 16, HR.ad, al, nn, k);
        if (r != want) g_fail("call %u of the history %s: decryption number %u of the same altered message gave %d, expected %d", op, kinds, i, r, want);
    }
    memcpy(HR.c + HR.ml, tag, 16);
    l = 0;
    memset(HO, 0xee, HR.ml + 64);
    int r = crypto_aead_decrypt(HO, &l, NULL, HR.c, HR.ml + 16, HR.ad, HR.al, HR.n, HR.k);
    if (r || l != HR.ml) g_fail("call %u of the history %s: a genuine ciphertext gave %d, length %llu after %u decryptions of it with something wrong", op, kinds, r, l, n);
    if (memcmp(HO, HR.m, HR.ml)) g_fail("call %u of the history %s: wrong plaintext after %u rejections", op, kinds, n);
    g_count(n);
    kinds[(*done)++] = 'b';
    g_class("burst of wrong decryptions, then genuine");
}
/* One process, tens of thousands of calls: results come from a small set computed beforehand. */
#define LC 24
static struct { int op, want; u8 kb[32], nb[32], adb[96], mb[96], cb[112], d[32], *k, *n, *ad, *m, *c; size_t al, ml; } LP[LC];
static void c09l(G *g)
{
    u32 calls = opt_slow ? 400 + g_draw(g, 1200) : g_draw(g, 4) ? 2000 + g_draw(g, 9000) : 66000 + g_draw(g, 3000);
    u32 mix = g_draw(g, 6);               /* mostly one kind of call, or all */
    for (int i = 0; i < LC; i++) {
        u32 same = i && g_draw(g, 3) == 0, o = g_draw(g, 4) == 3 ? g_draw(g, 0x8000) : 0;
        LP[i].k = LP[i].kb + o % 8; LP[i].n = LP[i].nb + o / 8 % 8; LP[i].ad = LP[i].adb + o / 64 % 8; LP[i].m = LP[i].mb + o / 512 % 8; LP[i].c = LP[i].cb + o / 4096;
        if (same) { memcpy(LP[i].k, LP[0].k, 16); memcpy(LP[i].n, LP[0].n, 16); } else { g_rand(g, LP[i].k, 16); g_rand(g, LP[i].n, 16); }
        LP[i].al = g_draw(g, g_draw(g, 4) ? 12 : 80); LP[i].ml = g_draw(g, g_draw(g, 4) ? 12 : 80);
        g_rand(g, LP[i].ad, 80); g_rand(g, LP[i].m, 80);
        model_encrypt(opt_alg, LP[i].k, LP[i].n, LP[i].ad, LP[i].al, LP[i].m, LP[i].ml, LP[i].c);
        u32 k = mix < 3 ? (g_draw(g, 12) ? mix : g_draw(g, 3)) : g_draw(g, 4);
        LP[i].op = (int)k; LP[i].want = 0;
        if (k == 2) { LP[i].c[g_draw(g, (u32)LP[i].ml + 16)] ^= (u8)(1 + g_draw(g, 255)); LP[i].want = -1; }
        if (k == 3) {
#ifdef HAVE_HASH
            model_hash(LP[i].m, LP[i].ml, LP[i].d);
#else
            LP[i].op = 0;
#endif
        }
    }
    u64 s = g_draw(g, 0xffffffffu) | 1;
    if (g->verbose) g_note(g, "%u calls in one process, kinds %u ", calls, mix);
    g_mark(h64(s, LP[0].k, 16), 1);
    g_class("tens of thousands of calls in one process");
    g_count(calls - 1);
    for (u32 i = 0; i < calls; i++) {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        int j = (int)((s >> 20) % LC), r;
        unsigned long long l = 0;
        u8 o[112];
        memset(o, 0xee, sizeof o);
        if (LP[j].op == 0) {
            r = crypto_aead_encrypt(o, &l, LP[j].m, LP[j].ml, LP[j].ad, LP[j].al, NULL, LP[j].n, LP[j].k);
            if (r || l != LP[j].ml + 16 || memcmp(o, LP[j].c, LP[j].ml + 16)) g_fail("call %u of %u in one process: encryption returned %d, length %llu, or a wrong ciphertext", i, calls, r, l);
        } else if (LP[j].op < 3) {
            r = crypto_aead_decrypt(o, &l, NULL, LP[j].c, LP[j].ml + 16, LP[j].ad, LP[j].al, LP[j].n, LP[j].k);
            if (r != LP[j].want) g_fail("call %u of %u in one process: decryption gave %d, expected %d", i, calls, r, LP[j].want);
            if (!r && (l != LP[j].ml || memcmp(o, LP[j].m, LP[j].ml))) g_fail("call %u of %u in one process: wrong plaintext", i, calls);
        } else {
#ifdef HAVE_HASH
            crypto_hash(o, LP[j].m, LP[j].ml);
            if (memcmp(o, LP[j].d, 32)) g_fail("call %u of %u in one process: wrong digest", i, calls);
#endif
        }
    }
}
static void c09(G *g)
{
    gp_begin(g);
    u32 nops = 2 + g_draw(g, 16), big = g_draw(g, opt_slow ? 60 : 20) == 0;
    u32 hb = big ? opt_slow ? 9000 : HB : 2300;            /* the longest data of this history */
    h_place(g);
    memset(HE, 0, sizeof HE);
    if (big) g_class("history with long data");
    for (int i = 0; i < 4; i++) { g_rand(g, HK[i], 16); g_rand(g, HN[i], 16); }
    for (int i = 1; i < 4; i++) {
        if (g_draw(g, 2)) { memcpy(HK[i], HK[0], 16); mutate(g, HK[i], 16); }
        if (g_draw(g, 2)) { memcpy(HN[i], HN[0], 16); mutate(g, HN[i], 16); }
    }
    for (int i = 0; i < 3; i++) { g_bytes(g, HA[i], hb); g_bytes(g, HM[i], hb); }
    HR.set = 0;
    gp_apply(IN_KEY, HK[0], 16); gp_apply(IN_NONCE, HN[0], 16); gp_apply(IN_AD, HA[0], hb); gp_apply(IN_MSG, HM[0], hb);
    gi_input(IN_KEY, HK[0], 16); gi_input(IN_NONCE, HN[0], 16); gi_input(IN_AD, HA[0], 64); gi_input(IN_MSG, HM[0], 64);
    int lk = 0, ln = 0, la = 0, lm = 0;
    size_t lal = 0, lml = 0;
    u64 h = nops;
    char kinds[40];
    memset(kinds, 0, sizeof kinds);
    u32 done = 0, pwhat = 0, again = 0;
    for (u32 op = 0; op < nops; op++) {
        unsigned long long l = 0;
        int r;
        int pk = lk, pn = ln, pa = la, pm = lm;
        size_t pal = lal, pml = lml;
        /* stay close to the previous call: what a stale cache would confuse */
        if (g_draw(g, 2)) lk = (int)g_draw(g, 4);
        if (g_draw(g, 2)) ln = (int)g_draw(g, 4);
        if (g_draw(g, 3) == 0) la = (int)g_draw(g, 3);
        if (g_draw(g, 3) == 0) lm = (int)g_draw(g, 3);
        if (g_draw(g, 2)) lal = g_draw(g, 8) ? g_draw(g, 70) : g_draw(g, hb - 100);
        if (g_draw(g, 2)) lml = g_draw(g, 8) ? g_draw(g, 70) : g_draw(g, hb - 100);
        if (gp_has(IN_ADLEN) && g_draw(g, 3)) lal = gp_len(IN_ADLEN, lal, hb - 100);
        if (gp_has(IN_MLEN) && g_draw(g, 3)) lml = gp_len(IN_MLEN, lml, hb - 100);
        gi_length(IN_ADLEN, lal); gi_length(IN_MLEN, lml);
        u32 what = g_draw(g, 14);
        if (what >= 10) {
            if (what == 13 || !HR.set) { what = pwhat; again = op > 0; }      /* exactly the previous call again */
            else { burst(g, op, kinds, &done); h = h64(h, &done, 4); continue; }
        } else again = 0;
        if (!again && g_draw(g, 3) == 0) switch (g_draw(g, 4)) {
            case 0: mutate(g, HK[lk], 16); break;
            case 1: mutate(g, HN[ln], 16); break;
            case 2: mutate(g, HA[la], lal); break;
            default: mutate(g, HM[lm], lml);
        }
        if (again) { lk = pk; ln = pn; la = pa; lm = pm; lal = pal; lml = pml; }
        pwhat = what;
        if (g_draw(g, 8) == 0) dirty_stack((u8)g_draw(g, 256));
        /* expected, from the model alone */
        model_encrypt(opt_alg, HK[lk], HN[ln], HA[la], lal, HM[lm], lml, HC[0]);
        if (g->verbose) g_note(g, "[%u k%d n%d ad%d/%zu m%d/%zu] ", what, lk, ln, la, lal, lm, lml);
        u32 sig[5] = {what, (u32)lk, (u32)ln, (u32)lal, (u32)lml};
        h = h64(h, sig, sizeof sig);
        kinds[done++] = what < 4 ? 'e' : what < 6 ? 'd' : what < 9 ? 'f' : 'h';
        if (what < 4) {
            memset(HO, 0xee, lml + 64);
            r = crypto_aead_encrypt(HO, &l, HM[lm], lml, HA[la], lal, NULL, HN[ln], HK[lk]);
            if (r || l != lml + 16) g_fail("call %u of the history (encrypt): returned %d, length %llu", op, r, l);
            if (memcmp(HO, HC[0], lml + 16)) g_fail("call %u of the history %s: encryption (adlen=%zu mlen=%zu) differs from what the same call must give on its own", op, kinds, lal, lml);
        } else if (what < 6) {
            memset(HO, 0xee, lml + 64);
            r = crypto_aead_decrypt(HO, &l, NULL, HC[0], lml + 16, HA[la], lal, HN[ln], HK[lk]);
            if (r || l != lml) g_fail("call %u of the history %s: genuine ciphertext gave %d, length %llu", op, kinds, r, l);
            if (memcmp(HO, HM[lm], lml)) g_fail("call %u of the history %s: wrong plaintext", op, kinds);
        } else if (what < 9) {
            memcpy(HC[1], HC[0], lml + 16);
            u32 i = g_draw(g, 3);
            u8 t[16];
            if (i == 0 && lml) HC[1][g_draw(g, (u32)lml)] ^= (u8)(1 + g_draw(g, 255));
            else if (i == 1) HC[1][lml + g_draw(g, 16)] ^= (u8)(1 + g_draw(g, 255));
            else memcpy(HC[1] + lml, HC[2], 16);        /* the tag of the previous call */
            model_mac(opt_alg, HK[lk], HN[ln], HA[la], lal, HC[1], lml, t);
            int want = memcmp(t, HC[1] + lml, 16) ? -1 : 0;
            r = crypto_aead_decrypt(HO, &l, NULL, HC[1], lml + 16, HA[la], lal, HN[ln], HK[lk]);
            if (r != want) g_fail("call %u of the history %s: forged ciphertext gave %d, expected %d", op, kinds, r, want);
        } else {
#ifdef HAVE_HASH
            u8 w[32], o[32];
            model_hash(HM[lm], lml, w);
            crypto_hash(o, HM[lm], lml);
            if (memcmp(w, o, 32)) g_fail("call %u of the history %s: digest of %zu bytes differs", op, kinds, lml);
#else
            done--; kinds[done] = 0;
#endif
        }
        memcpy(HC[2], HC[0] + lml, 16);
        if (!HR.set || g_draw(g, 4) == 0) {
            HR.set = 1; HR.al = lal; HR.ml = lml;
            memcpy(HR.k, HK[lk], 16); memcpy(HR.n, HN[ln], 16); memcpy(HR.ad, HA[la], lal); memcpy(HR.m, HM[lm], lml); memcpy(HR.c, HC[0], lml + 16);
        }
        if (g_draw(g, 4)) { /* keep operating on the same buffers */ } else { la = (la + 1) % 3; }
    }
    g_count(done ? done - 1 : 0);
    if (g->verbose) g_note(g, "history %s", kinds);
    g_class(done < 5 ? "history: 2-4 calls" : done < 10 ? "history: 5-9 calls" : "history: 10+ calls");
    g_mark(h64(h, kinds, done), done >= 2);
}

/* ------------------------------------------------------------------ C16 */
static size_t base_stack[3];
static u64 base_heap[3];
static size_t __attribute__((noinline)) measure(int op, size_t adl, size_t ml)
{
    unsigned long long l = 0;
    int r = 0;
    if (op) { model_mac(opt_alg, T.k, T.n, T.ad, adl, T.m, ml, T.m + ml); if (op == 2) T.m[ml + 15] ^= 1; }
    heap_nblk = 0; heap_bytes = 0; heap_calls = 0;
    u8 *lo = stack_paint(0x77);
    heap_watch = 1;
    if (op == 0) r = crypto_aead_encrypt(OUT, &l, T.m, ml, T.ad, adl, NULL, T.n, T.k);
    else r = crypto_aead_decrypt(OUT, &l, NULL, T.m, ml + 16, T.ad, adl, T.n, T.k);
    heap_watch = 0;
    size_t u = stack_used(lo, 0x77);
    heap_seen = heap_bytes;
    (void)r;
    return u;
}
/* T's buffers and the output, all at the same offset; aead_init's place otherwise */
static void place_all(u32 o)
{
    static u8 *ad, *m, *k, *n;
    if (!ad) { ad = T.ad; m = T.m; k = T.k; n = T.n; }
    T.ad = ad + o; T.m = m + o; T.k = k + o; T.n = n + o; T.oo = o;
}
static void init_c16(void)
{
    static const size_t ls[] = {0, 1, 7, 8, 9, 15, 16, 17, 18, 19, 24, 31, 32, 33, 36, 40, 63, 64, 65, 72, 80, 100, 127, 128, 129, 144, 150, 200, 256, 260, 300, 400, 512, 520, 1024, 1027, 2048, 2100};
    init_plain();
    for (int op = 0; op < 3; op++) { base_stack[op] = 0; base_heap[op] = 0; }
    for (int op = 0; op < 3; op++)
        for (size_t i = 0; i < sizeof ls / sizeof *ls; i++)
            for (int w = 0; w < 3; w++) {
                u32 o = i % 4 == 3 ? (u32)i % 7 + 1 : 0;
                place_all(o);
                size_t u = measure(op, w != 1 ? ls[i] : 16, w != 0 ? ls[i] : 16);
                if (u > base_stack[op]) base_stack[op] = u;
                if (heap_seen > base_heap[op]) base_heap[op] = heap_seen;
            }
}
static void c16(G *g)
{
    int op = (int)g_draw(g, 3);
    gen_place(g);
    size_t lim = opt_slow ? 40000 : 400000;
    size_t adl = g_draw(g, 3) ? g_len(g, lim) : g_draw(g, (u32)lim), ml = g_draw(g, 3) ? g_len(g, lim) : g_draw(g, (u32)lim);
    if (g_draw(g, 3)) ml += 2100 + g_draw(g, 3000);
    if (g_draw(g, 3) == 0) adl += 2100 + g_draw(g, 3000);
    g_rand(g, T.k, 16); g_rand(g, T.n, 16);
    if (g->verbose) g_note(g, "op=%d adlen=%zu mlen=%zu ", op, adl, ml);
    size_t u = measure(op, adl, ml);
    g_class(op == 0 ? "encrypt" : op == 1 ? "decrypt genuine" : "decrypt forged");
    g_mark(h64(adl * 31 + (u64)op, &ml, sizeof ml), adl > 2100 || ml > 2100);
    g_metric("stack bytes, short inputs", (double)base_stack[op]);
    g_metric("stack bytes, long inputs", (double)u);
    if (u > base_stack[op] + 256)
        g_fail("stack use grows with the input: %zu bytes for adlen=%zu mlen=%zu, at most %zu for lengths up to 2100", u, adl, ml, base_stack[op]);
    if (heap_seen > base_heap[op] + 256)
        g_fail("heap use grows with the input: %llu bytes for adlen=%zu mlen=%zu, at most %llu for lengths up to 2100",
               (unsigned long long)heap_seen, adl, ml, (unsigned long long)base_heap[op]);
}
#endif /* HAVE_AEAD */

#ifdef HAVE_HASH
/* ------------------------------------------------------------------ C08 */
static void c08(G *g)
{
    u8 want[32];
    u32 walk = opt_slow ? 300 : opt_walk;
    gp_begin(g);
    gen_place(g);
    T.oo = 0;
    size_t n = g->mode == G_RANDOM && g->idx < walk ? (g_put(g, 2, 0), g_put(g, 65536, (u32)g->idx))
             : g_draw(g, 2) ? g_len(g, maxlen()) : g_draw(g, opt_slow ? 4096 : 65536);
    if (n > maxlen()) n = maxlen();
    n = gp_len(IN_MLEN, n, maxlen());
    g_bytes(g, T.m, n);
    gp_apply(IN_MSG, T.m, n);
    gi_input(IN_MSG, T.m, n);
    gi_length(IN_MLEN, n);
    model_hash(T.m, n, want);
    u32 o = g_draw(g, 4) == 0 ? gen_offset(g) : 0, oo = g_draw(g, 4) == 0 ? gen_offset(g) : 0;
    int guard = n < 100000 && g_draw(g, 2);
    if (g->verbose) { g_note(g, "len=%zu offset in %u out %u guard %d ", n, o, oo, guard); g_hex(g, "in", T.m, n); }
    g_class(n == 0 ? "empty" : n < 8 ? "below one block" : n % 8 ? "partial last block" : "whole blocks");
    if (n > 1024) g_class("long (>1 KiB)");
    g_mark(h64(h64(n, T.m, n < 100 ? n : 100), &o, 4), n > 0);
    u8 *in, *out;
    if (guard) {
        in = region_end(&RA, n);
        out = g_draw(g, 2) ? region_end(&RO, 32) : region_begin(&RO);
        memcpy(in, T.m, n);
        memset(RO.base, 0x3c, 8192); memset(RO.base + RO.size - 8192, 0x3c, 8192);
        ro(&RA, 1);
    } else {
        in = AL0 + o; out = OUT + 64 + oo;
        memmove(in, T.m, n);
        memset(OUT, 0x3c, 256);
    }
    if (n == 0 && g_draw(g, 3) == 0) in = NULL;
    if (g_draw(g, 4) == 0) dirty_stack((u8)g_draw(g, 256));
    int r = crypto_hash(out, in, n);
    if (guard) ro(&RA, 0);
    if (r) g_fail("hash returned %d", r);
    for (int i = 0; i < 32; i++) if (out[i] != want[i]) g_fail("digest of %zu bytes differs at byte %d", n, i);
    if (guard) check_fill(&RO, out, 32, 0x3c, "digest");
    else {
        for (u8 *q = OUT; q < OUT + 256; q++) if ((q < out || q >= out + 32) && *q != 0x3c) g_fail("byte %ld relative to the digest was overwritten", (long)(q - out));
        if (in && memcmp(in, T.m, n)) g_fail("the hash changed its input");
    }
}
#endif

#ifdef HAVE_HASH
static void c16h(G *g);
static size_t hbase; static u64 hheap;
static size_t __attribute__((noinline)) hmeasure(size_t n)
{
    u8 d[32];
    heap_nblk = 0; heap_bytes = 0;
    u8 *lo = stack_paint(0x77);
    heap_watch = 1;
    crypto_hash(d, T.m, n);
    heap_watch = 0;
    size_t u = stack_used(lo, 0x77);
    heap_seen = heap_bytes;
    return u;
}
static void init_c16h(void)
{
    init_plain();
    hbase = 0; hheap = 0;
    for (size_t n = 0; n <= 2100; n += n < 40 ? 1 : n < 520 ? 13 : 101) {
        size_t u = hmeasure(n);
        if (u > hbase) hbase = u;
        if (heap_seen > hheap) hheap = heap_seen;
    }
}
static void c16h(G *g)
{
    gen_place(g);
    size_t n = g_draw(g, 2) ? g_len(g, 400000) : 2100 + g_draw(g, 40000);
    size_t u = hmeasure(n);
    if (g->verbose) g_note(g, "hash of %zu bytes ", n);
    g_class("hash");
    g_mark(n, n > 2100);
    if (u > hbase + 256) g_fail("stack use of the hash grows with the input: %zu bytes for %zu, at most %zu for short inputs", u, n, hbase);
    if (heap_seen > hheap + 256) g_fail("heap use of the hash grows with the input: %llu for %zu", (unsigned long long)heap_seen, n);
}
#endif

/* ------------------------------------------------------------------ C13 */
/* the functional properties together, for many builds of the same source */
static void c13(G *g)
{
#ifdef HAVE_HASH
    u32 k = g_draw(g, 8);
#else
    u32 k = g_draw(g, 7);
#endif
#ifdef HAVE_AEAD
    if (k < 3) { g_class("op:encrypt"); c01(g); }
    else if (k < 5) { g_class("op:decrypt genuine"); c02(g); }
    else if (k < 7) { g_class("op:decrypt forged"); c03(g); }
#endif
#ifdef HAVE_HASH
    if (k == 7) { g_class("op:hash"); c08(g); }
#endif
}
#if defined TRACE || defined STEP
void c04w(G *g); void c10(G *g); void c11(G *g); void c14(G *g); void init_sched(void); void init_trace(void);
#endif
#ifdef LONG
void c12(G *g); void init_long(void);
#endif
#ifdef CONV
void c15(G *g); void init_conv(void);
#endif
const prop_t PROPS[] = {
#if defined CONV && defined HAVE_AEAD
    {"C15", c15, init_conv},
#endif
#ifdef LONG
    {"C12", c12, init_long},
#endif
#if (defined TRACE || defined STEP) && defined HAVE_AEAD
    {"C10", c10, init_sched}, {"C11", c11, init_trace}, {"C14", c14, init_trace}, {"C04w", c04w, init_trace},
#endif
#ifdef HAVE_AEAD
    {"C01", c01, init_plain}, {"C02", c02, init_plain}, {"C03", c03, init_plain}, {"C04", c04, init_guard},
    {"C05", c05, init_guard}, {"C06", c06, init_guard}, {"C07", c07, init_align}, {"C09", c09, init_plain}, {"C09L", c09l, init_plain},
    {"C16", c16, init_c16}, {"C13", c13, init_guard},
#endif
#ifdef HAVE_HASH
    {"C08", c08, init_guard}, {"C16h", c16h, init_c16h},
#endif
    {NULL, NULL, NULL}
};
