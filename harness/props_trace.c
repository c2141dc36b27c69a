/* Properties decided on builds with coverage callbacks: C10, C11, C14. */
#define _GNU_SOURCE
#include "aead.h"
#include "sancov.h"
#include "guided.h"
#include <errno.h>
#include <stddef.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#if defined STEP && defined __x86_64__
#include <ucontext.h>
extern ucontext_t *step_uc;
#elif defined STEP
#define ARMSTEP
#endif

#ifdef GUIDED
#define GUIDED_ON opt_guided
#else
#define GUIDED_ON 0
#define guided_log(...) ((void)0)
#endif
#ifdef HAVE_AEAD
#define BUF 9216
/* ------------------------------------------------------------------ C11 */
typedef struct { u32 pc; u32 a; } ev_t;         /* addresses: the low 32 bits are enough within a process */
#define NEV (6u << 20)
static ev_t *E;
static u32 en, ecmp;                            /* recorded, compared */
static int recording, differs, forward;
static ev_t got;
static int gtype;
static u8 BS[2][96] __attribute__((aligned(64))), BB[4][BUF + 96] __attribute__((aligned(64)));
static u8 *BK, *BN, *BA, *BM, *BC, *BO;
static void place(G *g)
{
    u32 some = g_draw(g, 4) == 3;           /* else all aligned */
#define O(p, b) p = (b) + (some ? gen_offset(g) : 0)
    O(BK, BS[0]); O(BN, BS[1]); O(BA, BB[0]); O(BM, BB[1]); O(BC, BB[2]); O(BO, BB[3]);
    if (some) g_class("buffers not aligned");
}
static u8 SK[3][16], SM[3][BUF], ST[3][16], SC[3][BUF + 16];
static const char *TYPES[] = {"?", "block", "load", "store", "comparison", "library comparison", "?"};

void init_trace(void)
{
    aead_init();
    if (!E) E = h_map(sizeof *E * NEV, 0);
#ifdef STEP
    step_init();
#endif
}
static void trace_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    if (GUIDED_ON && forward) guided_log(type, pc, a, b, size, frame);
    if (type == EV_CMP || type == EV_CMPLIB) return;
    ev_t e = {(u32)pc, type == EV_PC ? 0 : (u32)a};
    if (recording) {
        if (en < NEV) E[en] = e;
        en++;
        return;
    }
    if (!differs && ecmp < NEV && (ecmp >= en || E[ecmp].pc != e.pc || E[ecmp].a != e.a)) { differs = 1; got = e; gtype = type; return; }
    if (!differs) ecmp++;
}
static int c11_op;
static size_t c11_adl, c11_ml;
static int __attribute__((noinline)) c11_run(int i)
{
    unsigned long long l = 0;
    int r = 0;
    memcpy(BK, SK[i], 16);
    if (c11_op == 1) memcpy(BC, SC[i], c11_ml + 16);
    else memcpy(BM, SM[i], c11_ml);
    memset(BO, 0, BUF + 16);
    sc_on();
    if (c11_op == 0) r = crypto_aead_encrypt(BO, &l, BM, c11_ml, BA, c11_adl, NULL, BN, BK);
    else if (c11_op == 1) r = crypto_aead_decrypt(BO, &l, NULL, BC, c11_ml + 16, BA, c11_adl, BN, BK);
#ifdef HAVE_HASH
    else r = crypto_hash(BO, BM, c11_ml);
#endif
    sc_off();
    return r;
}
static void secret16(G *g, u8 *p)
{
    switch (g_draw(g, 6)) {
    case 0: memset(p, g_draw(g, 2) ? 0xff : 0, 16); break;
    case 1: { u32 b = g_draw(g, 128); memset(p, 0, 16); p[b / 8] = (u8)(1 << b % 8); break; }
    case 2: g_bytes(g, p, 16); break;
    default: g_rand(g, p, 16);
    }
}
static void secret_msg(G *g, u8 *p, size_t n) { if (g_draw(g, 3)) g_bytes(g, p, n); else g_rand(g, p, n); }
/* a wrong tag at a drawn distance from the right one */
static void wrong_tag(G *g, u8 *t, const u8 *right)
{
    u32 i = g_draw(g, 16);
    memcpy(t, right, 16);
    switch (g_draw(g, 6)) {
    case 0: t[i] ^= (u8)(1 << g_draw(g, 8)); break;
    case 1: g_rand(g, t, 16); break;
    case 2: for (; i < 16; i++) t[i] ^= (u8)(1 + g_draw(g, 255)); break;         /* a right prefix */
    case 3: for (u32 j = 0; j <= i; j++) t[j] ^= (u8)(1 + g_draw(g, 255)); break; /* a right suffix */
    case 4: for (u32 j = 0; j < 16; j++) t[j] = (u8)~t[j]; break;
    default: t[i] ^= (u8)(1 + g_draw(g, 255));
    }
    if (!memcmp(t, right, 16)) t[i] ^= 1;
}
void c11(G *g)
{
#ifdef STEP
    size_t lim = 700;
#else
    size_t lim = opt_slow ? 700 : g_draw(g, 8) ? 2000 : 9000;
#endif
    static const char *KINDS[] = {"encrypt, same ciphertext under different keys", "encrypt, different keys and messages", "encrypt, same key, different messages",
                                  "decrypt genuine, different keys and messages", "reject, different wrong tags", "reject, different keys", "hash, different inputs"};
    place(g);
    gen_lens(g, g_draw(g, 8) ? 200 : lim);
    if (T.adlen > BUF) T.adlen = BUF;
    if (T.mlen > BUF) T.mlen = BUF;
    c11_adl = T.adlen; c11_ml = T.mlen;
#ifdef HAVE_HASH
    u32 kind = g_draw(g, 8);
    if (kind > 6) kind = 6;
#else
    u32 kind = g_draw(g, 6);
#endif
    secret16(g, BN);
    g_bytes(g, BA, c11_adl);
    int want = 0;
    c11_op = kind < 3 ? 0 : kind < 6 ? 1 : 2;
    for (int i = 0; i < 3; i++) secret16(g, SK[i]);
    for (int i = 0; i < 3; i++) secret_msg(g, SM[i], c11_ml);
    gp_apply(IN_KEY, SK[1], 16); gp_apply(IN_NONCE, BN, 16); gp_apply(IN_AD, BA, c11_adl); gp_apply(IN_MSG, SM[1], c11_ml);
    gi_input(IN_KEY, SK[1], 16); gi_input(IN_NONCE, BN, 16); gi_input(IN_AD, BA, c11_adl); gi_input(IN_MSG, SM[1], c11_ml);
    gi_length(IN_ADLEN, c11_adl); gi_length(IN_MLEN, c11_ml);
    if (kind == 0) {           /* C is SM[0]; every message is its decryption under another key */
        memcpy(SC[0], SM[0], c11_ml);
        for (int i = 0; i < 3; i++) {
            model_enc_t e;
            model_enc_init(&e, opt_alg, SK[i], BN);
            model_enc_update(&e, SC[0], SM[i], c11_ml);
        }
    } else if (kind == 2) { memcpy(SK[1], SK[0], 16); memcpy(SK[2], SK[0], 16); }
    else if (kind == 3) for (int i = 0; i < 3; i++) model_encrypt(opt_alg, SK[i], BN, BA, c11_adl, SM[i], c11_ml, SC[i]);
    else if (kind == 4 || kind == 5) {
        want = -1;
        for (int i = 0; i < 3; i++) {
            u8 right[16];
            memcpy(SC[i], SM[0], c11_ml);
            if (kind == 4) memcpy(SK[i], SK[0], 16);
            model_mac(opt_alg, SK[i], BN, BA, c11_adl, SC[i], c11_ml, right);
            wrong_tag(g, ST[i], right);
            if (i == 1) { gp_apply(IN_TAG, ST[1], 16); gi_input(IN_TAG, ST[1], 16); if (!memcmp(ST[1], right, 16)) ST[1][0] ^= 1; }
            memcpy(SC[i] + c11_ml, ST[i], 16);
        }
    }
    if (g->verbose) {
        g_note(g, "%s: adlen=%zu mlen=%zu ", KINDS[kind], c11_adl, c11_ml);
        g_hex(g, "nonce", BN, 16);
        for (int i = 1; i < 3; i++) {
            g_hex(g, i == 1 ? "key1" : "key2", SK[i], 16);
            if (want) { g_hex(g, "tag", ST[i], 16); } else g_hex(g, "m", SM[i], c11_ml);
        }
    }
    g_class(KINDS[kind]);
    u64 h = h64(h64(h64(c11_adl * 4096 + c11_ml + (u64)kind * 7919, SK[1], 16), SK[2], 16), BN, 16);
    h = h64(h64(h64(h, SM[1], c11_ml < 64 ? c11_ml : 64), SM[2], c11_ml < 64 ? c11_ml : 64), ST, sizeof ST);
    int same = !memcmp(SK[1], SK[2], 16) && !memcmp(SM[1], SM[2], c11_ml) && (!want || !memcmp(ST[1], ST[2], 16));
    g_mark(h, !same && (c11_op != 2 || c11_ml));
    sc_hook = trace_hook;
    recording = 1; en = 0;
#ifdef ARMSTEP
    step_ans_t ans;
    int r = c11_run(0);
    step_ask('R', &ans);
    r |= c11_run(1);
    step_ask('C', &ans);
    r |= c11_run(2);
    step_ask('Q', &ans);
    en = ans.recorded; ecmp = ans.compared; differs = (int)ans.differs; gtype = (int)ans.type;
    if (ecmp < NEV) E[ecmp] = (ev_t){ans.pc1, ans.a1};
    got = (ev_t){ans.pc2, ans.a2};
#else
    int r = c11_run(0);                 /* one-time initialisation, if any, happens here */
    recording = 1; en = 0; forward = 1;
    r |= c11_run(1);
    recording = 0; forward = 0; ecmp = 0; differs = 0;
    r |= c11_run(2);
#endif
    g_count(1);
    g_metric("events in a trace", (double)en);
    if (r != want) g_fail("unexpected result %d: %s", r, KINDS[kind]);
    if (differs && ecmp >= en)
        g_fail("%s: the second run goes on after the first has ended (event %u), with a %s at pc=0x%x", KINDS[kind], ecmp, TYPES[gtype], got.pc);
    if (differs && E[ecmp].pc != got.pc)
        g_fail("%s: control flow depends on secrets: event %u of %u is at pc=0x%x in one run and at pc=0x%x in the other", KINDS[kind], ecmp, en, E[ecmp].pc, got.pc);
    if (differs)
        g_fail("%s: a memory access depends on secrets: %s at pc=0x%x touches 0x%x in one run and 0x%x in the other (event %u of %u)",
               KINDS[kind], TYPES[gtype], got.pc, E[ecmp].a, got.a, ecmp, en);
    if (ecmp != en) g_fail("%s: one run has %u events, the other only %u; the next would be at pc=0x%x", KINDS[kind], en, ecmp, E[ecmp < NEV ? ecmp : 0].pc);
}

/* ------------------------------------------------------------------ C04, the work oracle */
/* A plaintext that never exists as such (masked, or kept in registers) still has to be computed. The
 * work a rejection adds per byte of ciphertext is compared with that of authenticating as many bytes
 * of associated data, and with that of encrypting and of decrypting them: it must be nearer to the
 * first, or clearly less than the last. */
static u64 c04_events;
static void __attribute__((unused)) count_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    (void)pc; (void)a; (void)b; (void)size; (void)frame;
    c04_events += type != EV_CMP && type != EV_CMPLIB;
}
static u64 __attribute__((noinline)) c04w_run(int what, size_t adl, size_t ml, int *r)
{
    unsigned long long l = 0;
    c04_events = 0;
#ifdef ARMSTEP
    step_ans_t ans;
    step_ask('R', &ans);
#else
    sc_hook = count_hook;
#endif
    sc_on();
    if (what) *r = crypto_aead_decrypt(BO, &l, NULL, BC, ml + 16, BA, adl, BN, BK);
    else *r = crypto_aead_encrypt(BO, &l, BM, ml, BA, adl, NULL, BN, BK);
    sc_off();
#ifdef ARMSTEP
    step_ask('Q', &ans);
    c04_events = ans.recorded;
#endif
    return c04_events;
}
void c04w(G *g)
{
    size_t r = model_rate(opt_alg), adl, l1, d;
    int ret = 0;
    place(g);
#ifdef STEP
    u32 blocks = 10;
#else
    u32 blocks = opt_slow ? 40 : g_draw(g, 6) ? 60 : 4500 / (u32)r;
#endif
    adl = g_draw(g, 3) ? g_draw(g, 40) : g_draw(g, 300);
#ifdef STEP
    l1 = g_draw(g, 40);
#else
    l1 = g_draw(g, 4) ? g_draw(g, 40) : g_draw(g, 300);
#endif
    d = 16 * r + (g_draw(g, 2) ? 8 * g_draw(g, blocks * (u32)r / 8) : g_draw(g, blocks * (u32)r));
    secret16(g, BK); secret16(g, BN);
    g_bytes(g, BA, BUF); g_bytes(g, BM, BUF);
    u64 n[4][2];
    for (int i = 0; i < 2; i++) {
        size_t ml = l1 + (i ? d : 0);
        u8 right[16];
        n[0][i] = c04w_run(0, adl + ml, 0, &ret);
        n[2][i] = c04w_run(0, adl, ml, &ret);
        memcpy(BC, BM, ml);
        model_mac(opt_alg, BK, BN, BA, adl, BC, ml, right);
        memcpy(BC + ml, right, 16);
        n[3][i] = c04w_run(1, adl, ml, &ret);
        if (ret) g_fail("genuine ciphertext gave %d", ret);
        wrong_tag(g, BC + ml, right);
        n[1][i] = c04w_run(1, adl, ml, &ret);
        if (ret != -1) g_fail("forgery gave %d", ret);
    }
    double mac = (double)n[0][1] - (double)n[0][0], rej = (double)n[1][1] - (double)n[1][0], enc = (double)n[2][1] - (double)n[2][0], dec = (double)n[3][1] - (double)n[3][0];
    double saved = dec > 0 ? 100 * (dec - rej) / dec : 100;
    if (g->verbose) g_note(g, "adlen=%zu, forged ciphertexts of %zu and %zu bytes: associated data %.0f, rejection %.0f, encryption %.0f, decryption %.0f more events ", adl, l1, l1 + d, mac, rej, enc, dec);
    g_mark(h64(h64(adl * 65536 + l1 + d * 256, BK, 16), BN, 16), enc > mac);
    g_class("work of a rejection");
    g_metric("work saved by rejecting, 100 minus percent", 100 - saved);
    if (enc > mac && rej > mac + (enc - mac) / 2 && saved < 18)
        g_fail("rejecting takes as much work as computing the plaintext: for %zu bytes more of ciphertext %.0f steps more, against %.0f for as many bytes of associated data, %.0f for encrypting and %.0f for decrypting them (adlen=%zu clen=%zu)",
               d, rej, mac, enc, dec, adl, l1 + d + 16);
}

/* ------------------------------------------------------------------ C14 */
/* Over random keys the received tag on its own is uniformly distributed whether it is one bit or 64
 * bits away from the right one. So no value the program stores or compares may be distributed
 * differently in the two cases, unless it reveals the distance of the two tags. */
#define WEIGHTS_IMPL
#include "weights.h"
static uintptr_t lastst; static u64 lastsz; static uintptr_t lastpc;
static int c14_first;
static void c14_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    (void)b; (void)frame;
#if defined STEP && defined __x86_64__
    /* what the instruction before this one has left in registers and flags */
    static uintptr_t prev;
    static greg_t old[17];
    static u64 oldx[32];
    static const int R[] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    (void)a; (void)size;
    if (type != EV_PC) return;
    if (!c14_first) {
        u64 x[32];
        memcpy(x, step_uc->uc_mcontext.fpregs->_xmm, sizeof x);
        for (int i = 0; i < 15; i++) if (old[i] != step_uc->uc_mcontext.gregs[R[i]]) w_acc(prev, 16 + i, w_hw((u64)step_uc->uc_mcontext.gregs[R[i]]));
        for (int i = 0; i < 32; i++) if (oldx[i] != x[i]) w_acc(prev, 32 + i, w_hw(x[i]));
        w_acc(prev, 64, (unsigned)(step_uc->uc_mcontext.gregs[REG_EFL] >> 6 & 1));
        w_acc(prev, 65, (unsigned)(step_uc->uc_mcontext.gregs[REG_EFL] & 1));
    }
    c14_first = 0;
    prev = pc;
    for (int i = 0; i < 15; i++) old[i] = step_uc->uc_mcontext.gregs[R[i]];
    memcpy(oldx, step_uc->uc_mcontext.fpregs->_xmm, sizeof oldx);
    return;
#endif
    if (lastst) {
        u64 v = 0;
        memcpy(&v, (void *)lastst, lastsz > 8 ? 8 : lastsz);
        w_acc(lastpc, EV_STORE, w_hw(v));
        if (lastsz == 16) { memcpy(&v, (u8 *)lastst + 8, 8); w_acc(lastpc, EV_STORE, w_hw(v)); }
    }
    lastst = type == EV_STORE ? a : 0; lastsz = size; lastpc = pc;
    if (type == EV_CMP || type == EV_CMPLIB) w_acc(pc, EV_CMP, w_hw(sc_cmp_a ^ sc_cmp_b));
    if (type == EV_LIB) w_acc(pc, EV_LIB, (unsigned)a * 8);
}
void c14(G *g)
{
#ifdef STEP
    step_init();
#endif
    place(g);
    gen_lens(g, g_draw(g, 6) ? 150 : opt_slow ? 300 : 1500);
    w_new();
#ifdef ARMSTEP
    step_ans_t ans;
    step_ask('N', &ans);
#endif
    size_t adl = T.adlen, ml = T.mlen;
    u64 h = adl * 4096 + ml;
    u32 nb = 1 + g_draw(g, 3);            /* "near": 1-3 bits */
    if (g->verbose) g_note(g, "adlen=%zu mlen=%zu, %d wrong tags with %u bits changed and %d random ones ", adl, ml, NS, nb, NS);
    char cls[40];
    snprintf(cls, sizeof cls, "near: %u bit(s) changed", nb);
    g_class(cls);
    sc_hook = c14_hook;
    for (int s = 0; s < 2 * NS + 2; s++) {
        u8 right[16];
        unsigned long long l = 0;
        int far = s & 1, genuine = s >= 2 * NS;
        g_rand(g, BK, 16); g_rand(g, BN, 16); g_rand(g, BA, adl); g_rand(g, BC, ml);
        model_mac(opt_alg, BK, BN, BA, adl, BC, ml, right);
        memcpy(BC + ml, right, 16);
        if (genuine) ;
        else if (far) g_rand(g, BC + ml, 16);
        else for (u32 i = 0; i < nb; i++) { u32 b = g_draw(g, 128); BC[ml + b / 8] ^= (u8)(1 << b % 8); }
        int isgen = !memcmp(BC + ml, right, 16);
        h = h64(h, BC + ml, 16);
        w_sample();
        lastst = 0; c14_first = 1;
#ifdef ARMSTEP
        if (!genuine) step_ask(far ? '1' : '0', &ans);
#endif
        if (!genuine) sc_on();
        int r = crypto_aead_decrypt(BO, &l, NULL, BC, ml + 16, BA, adl, BN, BK);
        sc_off();
#ifdef ARMSTEP
        if (!genuine) step_ask('S', &ans);
#endif
        if (r != (isgen ? 0 : -1)) g_fail("%s tag gave %d (adlen=%zu mlen=%zu)", isgen ? "the right" : "a wrong", r, adl, ml);
        if (!genuine) w_add(far);
    }
    g_count(2 * NS + 1);
    g_mark(h, 1);
    w_found_t w = {0};
#ifdef ARMSTEP
    step_ask('W', &ans);
    w = ans.w;
#else
    w_find(&w);
#endif
    g_metric("program points observed", w.points);
    if (w.pc)
        g_fail("the %s at pc=0x%x shows how close a wrong tag is: mean weight %.1f with %u wrong bit(s), %.1f with a random tag (adlen=%zu mlen=%zu)",
               w.type == EV_STORE ? "value stored" : w.type >= 64 ? "flag set" : w.type >= 16 ? "register value" : "comparison", w.pc, w.mean[0], nb, w.mean[1], adl, ml);
}

/* ------------------------------------------------------------------ C10 */
#define NT 3
#define CB 9300
typedef struct { int op; size_t adl, ml; u8 *k, *n, *ad, *m, *c, *out, want[CB + 64]; int ret, wret; unsigned long long len, wlen; } call_t;
static call_t CL[NT];
static u8 CS[NT][2][96] __attribute__((aligned(64))), CD[NT][4][CB + 192] __attribute__((aligned(64)));
#ifdef STEP
#define LONGER 2500
#else
#define LONGER (opt_slow ? 2500 : g_draw(g, 3) ? 2500 : 9200)
#endif
#define NPCS (1u << 20)
#define NHOT 4096
typedef struct { u32 n[NT], nhot[NT]; u8 stored[8192]; u32 hot[NT][NHOT], where[NT][NHOT]; u32 pc[NT][NPCS]; } dry_t;
#define GRAN(a) (((a) >> 3) * 2654435761u >> 7 & 8191)
static dry_t *D;
static __thread int me = -1;
static __thread u32 tick;
static struct { int thr; u32 at; int to; int hit; } PT[12];
static u32 npt;
static int nthr, done[NT], started[NT];
static volatile int tok;
static volatile u64 progress;
static u32 switches;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[NT] = {PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER, PTHREAD_COND_INITIALIZER};

void init_sched(void)
{
    aead_init();
    if (!D) D = h_map(sizeof *D, 1);
#ifdef STEP
    step_init();
#endif
}
static void call_one(call_t *c)
{
    c->len = 0;
    if (c->op == 0) c->ret = crypto_aead_encrypt(c->out, &c->len, c->m, c->ml, c->ad, c->adl, NULL, c->n, c->k);
    else if (c->op < 3) c->ret = crypto_aead_decrypt(c->out, &c->len, NULL, c->c, c->ml + 16, c->ad, c->adl, c->n, c->k);
#ifdef HAVE_HASH
    else c->ret = crypto_hash(c->out, c->m, c->ml);
#endif
}
/* Memory that another call could see as well: neither constant, nor on the stack, nor given by the caller.
 * Where the code under test uses such memory is where schedules can matter. */
extern char __data_start[], end[];
static uintptr_t dry_sp;
static int may_be_shared(uintptr_t a, u64 size)
{
    (void)size;
#define IN(o) (a >= (uintptr_t)(o) && a < (uintptr_t)(o) + sizeof (o))
    if (a < (uintptr_t)__data_start || IN(CL) || IN(CS) || IN(CD)) return 0;
    return a < dry_sp - (1u << 20) || a > dry_sp + (1u << 16);
}
static void dry_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    (void)b; (void)frame;
    if (D->n[me] < NPCS) D->pc[me][D->n[me]] = (u32)pc;
    if ((type == EV_LOAD || type == EV_STORE) && may_be_shared(a, size)) {
        u32 h = D->nhot[me]++;
        if (h >= NHOT) h = h * 2654435761u % D->nhot[me];
        if (h < NHOT) { D->hot[me][h] = D->n[me]; D->where[me][h] = (u32)GRAN(a); }
#ifndef STEP                        /* there, loads and stores are not told apart */
        if (type == EV_STORE)
#endif
        for (u64 o = 0; o <= (size ? size - 1 : 0); o += 8) D->stored[GRAN(a + o)] = D->stored[GRAN(a + (size ? size - 1 : 0))] = 1;
    }
    D->n[me]++;
}
static void wait_tok(int i)
{
    /* mu held. The thread that has the token may be blocked in a lock this one holds: after 100 ms
     * without progress the token is taken back. */
    u64 seen = progress;
    while (tok != i) {
        struct timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        t.tv_nsec += 100000000;
        if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
        if (pthread_cond_timedwait(&cv[i], &mu, &t) == ETIMEDOUT) {
            if (seen == progress) tok = i;
            seen = progress;
        }
    }
}
static void pass(int to) { tok = to; pthread_cond_signal(&cv[to]); }
static void sched_hook(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    (void)type; (void)pc; (void)a; (void)b; (void)size; (void)frame;
    if (me < 0) return;
    u32 t = tick++;
    progress++;
    for (u32 i = 0; i < npt; i++) {
        if (PT[i].thr != me || PT[i].at != t) continue;
        int to = PT[i].to;
        pthread_mutex_lock(&mu);
        if (tok == me && to != me && !done[to]) {
            if (started[to]) switches++;
            PT[i].hit = 1;
            switches += !started[to];
            pass(to);
            wait_tok(me);
        }
        pthread_mutex_unlock(&mu);
    }
}
static void *thread(void *p)
{
    me = (int)(intptr_t)p;
    tick = 0;
    pthread_mutex_lock(&mu);
    wait_tok(me);
    started[me] = 1;
    pthread_mutex_unlock(&mu);
    sc_thread_on();
    call_one(&CL[me]);
    sc_thread_off();
    pthread_mutex_lock(&mu);
    done[me] = 1;
    for (int j = 1; j < nthr; j++) { int o = (me + j) % nthr; if (!done[o]) { pass(o); break; } }
    pthread_mutex_unlock(&mu);
    me = -1;
    return NULL;
}
static int cmp32(const void *a, const void *b) { u32 x = *(const u32 *)a, y = *(const u32 *)b; return x < y ? -1 : x > y; }
static const char *OPS[] = {"encrypt", "decrypt", "reject", "hash"};
static void gen_call(G *g, call_t *c, int i, int twin)
{
    u8 *key;
    if (twin) {             /* what the first thread does, with other bytes, also to buffers placed alike */
        call_t *f = &CL[0];
#define P(q, b, p, a) q = (b) + ((p) - (a))
        P(key, CS[i][0], f->k, CS[0][0]); P(c->n, CS[i][1], f->n, CS[0][1]); P(c->ad, CD[i][0], f->ad, CD[0][0]);
        P(c->m, CD[i][1], f->m, CD[0][1]); P(c->c, CD[i][2], f->c, CD[0][2]); P(c->out, CD[i][3], f->out, CD[0][3]);
        g_rand(g, key, 16);
        g_rand(g, c->n, 16);
        c->k = key; c->op = f->op; c->adl = f->adl; c->ml = f->ml;
    } else {
        u32 some = g_draw(g, 4) == 3;
        O(key, CS[i][0]); O(c->n, CS[i][1]); O(c->ad, CD[i][0]); O(c->m, CD[i][1]); O(c->c, CD[i][2]); O(c->out, CD[i][3]);
        int share = i && g_draw(g, 3) == 0;        /* the same key, read by both */
        g_rand(g, key, 16);
        c->k = share ? CL[0].k : key;
        g_rand(g, c->n, 16);
#ifdef HAVE_HASH
        u32 k = g_draw(g, 9);
#else
        u32 k = g_draw(g, 7);
#endif
        c->op = k < 3 ? 0 : k < 5 ? 1 : k < 7 ? 2 : 3;
        c->adl = g_draw(g, 8) ? g_draw(g, 40) : g_draw(g, 300);
        c->ml = g_draw(g, 8) ? g_draw(g, 60) : g_draw(g, 600);
        if (g_draw(g, 48) == 0) c->ml = g_draw(g, LONGER);
        if (g_draw(g, 72) == 0) c->adl = g_draw(g, LONGER);
    }
    g_rand(g, c->ad, c->adl);
    g_rand(g, c->m, c->ml);
    memset(c->out, 0xa5, sizeof c->want);
    memset(c->want, 0xa5, sizeof c->want);
    model_encrypt(opt_alg, c->k, c->n, c->ad, c->adl, c->m, c->ml, c->c);
    c->wret = 0;
    if (c->op == 0) { memcpy(c->want, c->c, c->ml + 16); c->wlen = c->ml + 16; }
    else if (c->op == 1) { memcpy(c->want, c->m, c->ml); c->wlen = c->ml; }
    else if (c->op == 2) { u32 b = g_draw(g, 3) ? (u32)c->ml * 8 + g_draw(g, 128) : g_draw(g, (u32)(c->ml + 16) * 8); c->c[b / 8] ^= (u8)(1 << b % 8); c->wret = -1; c->wlen = 0; }
    else { model_hash(c->m, c->ml, c->want); c->wlen = 0; }
}
void c10(G *g)
{
    nthr = g_draw(g, 4) ? 2 : 3;
    int twin = g_draw(g, 5) < 2;
    char kinds[64] = "";
    u64 h = (u64)nthr;
    for (int i = 0; i < nthr; i++) {
        gen_call(g, &CL[i], i, i && twin);
        if (i) strcat(kinds, "+");
        strcat(kinds, OPS[CL[i].op]);
        h = h64(h64(h, CL[i].k, 16), CL[i].n, 16);
        if (g->verbose) g_note(g, "thread %d: %s adlen=%zu mlen=%zu%s; ", i, OPS[CL[i].op], CL[i].adl, CL[i].ml, i && CL[i].k == CL[0].k ? " (same key as 0)" : "");
    }
    /* alone, in another process: how many points does each call pass, and where are they */
    memset(D, 0, offsetof(dry_t, hot));
    dry_sp = (uintptr_t)__builtin_frame_address(0);
    for (int i = 0; i < nthr; i++) {
        pid_t p = fork();
        if (!p) {
            sc_hook = dry_hook;
            me = i;
            sc_on();
            call_one(&CL[i]);
            sc_off();
            _exit(0);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    }
    for (int i = 0; i < nthr; i++) {          /* only where something is stored can another call interfere */
        u32 k = 0;
        if (D->nhot[i] > NHOT) D->nhot[i] = NHOT;
        for (u32 j = 0; j < D->nhot[i]; j++) if (D->stored[D->where[i][j]]) D->hot[i][k++] = D->hot[i][j];
        D->nhot[i] = k;
    }
    u32 focus = g_draw(g, 4);             /* in three of four cases */
    static u32 uniq[NPCS];
    npt = 1 + g_draw(g, 8);
    for (u32 i = 0; i < npt; i++) {
        int t = (int)g_draw(g, (u32)nthr);
        u32 n = D->n[t] < NPCS ? D->n[t] : NPCS;
        PT[i].thr = t;
        PT[i].to = (t + 1 + (int)g_draw(g, (u32)nthr - 1)) % nthr;
        PT[i].hit = 0;
        PT[i].at = 0;
        if (!n) continue;
        u32 nh = D->nhot[t];
        if (focus && nh) {
            u32 at = D->hot[t][g_draw(g, nh)] + g_draw(g, 2);
            PT[i].at = at < D->n[t] ? at : at - 1;
            continue;
        }
        if (g_draw(g, 3) == 0) { PT[i].at = g_draw(g, n); continue; }
        /* a program point drawn among the distinct ones, then one of the times it is passed */
        memcpy(uniq, D->pc[t], 4 * n);
        qsort(uniq, n, 4, cmp32);
        u32 m = 0;
        for (u32 j = 0; j < n; j++) if (!m || uniq[m - 1] != uniq[j]) uniq[m++] = uniq[j];
        u32 pc = uniq[g_draw(g, m)], occ = 0;
        for (u32 j = 0; j < n; j++) occ += D->pc[t][j] == pc;
        u32 w = g_draw(g, 4), o = w == 0 ? 0 : w == 1 ? occ - 1 : g_draw(g, occ);
        for (u32 j = 0; j < n; j++) if (D->pc[t][j] == pc && !o--) { PT[i].at = j; break; }
    }
    int first = (int)g_draw(g, (u32)nthr);
    if (g->verbose) for (u32 i = 0; i < npt; i++) g_note(g, "at point %u of %u of thread %d switch to %d; ", PT[i].at, D->n[PT[i].thr], PT[i].thr, PT[i].to);
    h = h64(h, PT, sizeof PT[0] * npt);
    /* together */
    pthread_t th[NT];
    memset(done, 0, sizeof done);
    memset(started, 0, sizeof started);
    switches = 0;
    tok = first;
    sc_hook = sched_hook;
    sc_mode = 1;
    for (int i = 0; i < nthr; i++) if (pthread_create(&th[i], NULL, thread, (void *)(intptr_t)i)) { fprintf(stderr, "harness: pthread_create\n"); _exit(3); }
    for (int i = 0; i < nthr; i++) pthread_join(th[i], NULL);
    sc_mode = 0;
    g_class(kinds);
    g_count(switches);
    g_metric("switches in a case", switches);
    if (D->nhot[0]) g_class("static or heap memory is written");
    g_mark(h, switches > 0);
    for (int i = 0; i < nthr; i++) {
        call_t *c = &CL[i];
        if (c->ret != c->wret) g_fail("%s: the %s call of thread %d returned %d instead of %d (%u switches)", kinds, OPS[c->op], i, c->ret, c->wret, switches);
        if (c->wret == 0 && c->op < 2 && c->len != c->wlen) g_fail("%s: the %s call of thread %d reported length %llu", kinds, OPS[c->op], i, c->len);
        if (c->wret == 0 && memcmp(c->out, c->want, sizeof c->want)) g_fail("%s: the %s call of thread %d wrote other bytes than it does alone (%u switches)", kinds, OPS[c->op], i, switches);
    }
}
#endif
