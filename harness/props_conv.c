/* C15: a call keeps to the calling convention and can be interrupted at any instruction.
 *
 * The functions of the real binary are called through a piece of assembly code that fills the registers
 * a caller may expect back, and those that hold nothing on entry, with generated values, and looks at
 * them afterwards. During the call drawn instructions of the code under test are replaced by ones that
 * trap; the handler plays the interrupt: it overwrites what lies below the stack pointer and, in most
 * cases, makes another call of the library, with other data, before the interrupted one continues. */
#define _GNU_SOURCE
#include "aead.h"
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

typedef uintptr_t reg;
#if defined __x86_64__
#define NSAVED 6
static const char *const RN[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
#else
#define NSAVED 8
static const char *const RN[] = {"r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"};
#endif
/* read and written by the assembly code */
reg vt_cv_save[12] __attribute__((used)), vt_cv_in[48] __attribute__((used)), vt_cv_out[12] __attribute__((used)), vt_cv_target __attribute__((used));
u32 vt_cv_fp[4] __attribute__((used));

#if defined __x86_64__
__attribute__((naked, noinline, used)) void vt_cv_call(void)
{
    __asm__ volatile(
        "movq %rbx, vt_cv_save(%rip)\n movq %rbp, vt_cv_save+8(%rip)\n movq %r12, vt_cv_save+16(%rip)\n"
        "movq %r13, vt_cv_save+24(%rip)\n movq %r14, vt_cv_save+32(%rip)\n movq %r15, vt_cv_save+40(%rip)\n"
        "popq vt_cv_save+48(%rip)\n movq %rsp, vt_cv_save+56(%rip)\n"
        "movq vt_cv_in(%rip), %rbx\n movq vt_cv_in+8(%rip), %rbp\n movq vt_cv_in+16(%rip), %r12\n"
        "movq vt_cv_in+24(%rip), %r13\n movq vt_cv_in+32(%rip), %r14\n movq vt_cv_in+40(%rip), %r15\n"
        "movq vt_cv_in+48(%rip), %r10\n movq vt_cv_in+56(%rip), %r11\n movq vt_cv_in+64(%rip), %rax\n"
        "movdqu vt_cv_in+72(%rip), %xmm0\n movdqu vt_cv_in+88(%rip), %xmm1\n movdqu vt_cv_in+104(%rip), %xmm2\n movdqu vt_cv_in+120(%rip), %xmm3\n"
        "movdqu vt_cv_in+136(%rip), %xmm4\n movdqu vt_cv_in+152(%rip), %xmm5\n movdqu vt_cv_in+168(%rip), %xmm6\n movdqu vt_cv_in+184(%rip), %xmm7\n"
        "movdqu vt_cv_in+80(%rip), %xmm8\n movdqu vt_cv_in+96(%rip), %xmm9\n movdqu vt_cv_in+112(%rip), %xmm10\n movdqu vt_cv_in+128(%rip), %xmm11\n"
        "movdqu vt_cv_in+144(%rip), %xmm12\n movdqu vt_cv_in+160(%rip), %xmm13\n movdqu vt_cv_in+176(%rip), %xmm14\n movdqu vt_cv_in+192(%rip), %xmm15\n"
        "stmxcsr vt_cv_fp(%rip)\n fnstcw vt_cv_fp+4(%rip)\n"
        "call *vt_cv_target(%rip)\n"
        "movq %rbx, vt_cv_out(%rip)\n movq %rbp, vt_cv_out+8(%rip)\n movq %r12, vt_cv_out+16(%rip)\n"
        "movq %r13, vt_cv_out+24(%rip)\n movq %r14, vt_cv_out+32(%rip)\n movq %r15, vt_cv_out+40(%rip)\n"
        "movq %rsp, vt_cv_out+56(%rip)\n movq vt_cv_save+56(%rip), %rsp\n"
        "pushfq\n popq vt_cv_out+64(%rip)\n cld\n"
        "stmxcsr vt_cv_fp+8(%rip)\n fnstcw vt_cv_fp+12(%rip)\n"
        "movq vt_cv_save(%rip), %rbx\n movq vt_cv_save+8(%rip), %rbp\n movq vt_cv_save+16(%rip), %r12\n"
        "movq vt_cv_save+24(%rip), %r13\n movq vt_cv_save+32(%rip), %r14\n movq vt_cv_save+40(%rip), %r15\n"
        "pushq vt_cv_save+48(%rip)\n ret\n");
}
#else
__attribute__((naked, noinline, used)) void vt_cv_call(void)
{
    __asm__ volatile(
        "ldr ip, =vt_cv_save\n stmia ip!, {r4-r11}\n str sp, [ip]\n str lr, [ip, #4]\n"
        "ldr ip, =vt_cv_in\n ldmia ip!, {r4-r11}\n ldr lr, [ip]\n msr APSR_nzcvq, lr\n"
        "ldr lr, =vt_cv_target\n ldr lr, [lr]\n ldr ip, [ip, #4]\n blx lr\n"
        "ldr ip, =vt_cv_out\n stmia ip!, {r4-r11}\n str sp, [ip]\n"
        "ldr ip, =vt_cv_save\n ldmia ip!, {r4-r11}\n ldr sp, [ip]\n ldr lr, [ip, #4]\n bx lr\n"
        ".ltorg\n");
}
#endif

/* ---------------------------------------------------------------- the instructions */
typedef struct { uintptr_t pc; u32 len; } row_t;        /* length: of the instruction to put there */
static row_t *R;
static u32 nrow;
#define NSLOT 32
static struct { int on; u32 row, again, stage; u8 was[4]; } SL[NSLOT];
static volatile u32 hits, nested_calls;
static volatile const char *bad;
static u32 work;                                /* what an interrupt does */
static volatile int depth;
static void run_other(void);

static void put(uintptr_t pc, const u8 *b, u32 n)
{
    volatile u8 *p = (volatile u8 *)pc;
    for (u32 i = 0; i < n; i++) p[i] = b[i];
    __builtin___clear_cache((char *)pc, (char *)pc + n);
}
static int arm_slot(u32 i, u32 row)
{
    if (row >= nrow) return 0;
    for (u32 j = 0; j < NSLOT; j++) if (SL[j].on && SL[j].row == row) return 0;
#if defined __x86_64__
    static const u8 T1[] = {0xcc};
    const u8 *t = T1;
#else
    /* undefined instructions of the same length: those of Thumb are skipped like the ones they replace */
    static const u8 T2[] = {0x00, 0xde}, T4[] = {0xf0, 0xf7, 0x00, 0xa0}, A4[] = {0xf0, 0x00, 0xf0, 0xe7};
    const u8 *t = R[row].len == 2 ? T2 : R[row].len == 4 ? T4 : A4;
#endif
    u32 n = R[row].len > 4 ? 4 : R[row].len;
    SL[i].on = 1; SL[i].row = row;
    memcpy(SL[i].was, (const void *)R[row].pc, n);
    put(R[row].pc, t, n);
    return 1;
}
static void disarm(u32 i)
{
    if (!SL[i].on) return;
    SL[i].on = 0;
    u32 n = R[SL[i].row].len > 4 ? 4 : R[SL[i].row].len;
    put(R[SL[i].row].pc, SL[i].was, n);
}
static void on_trap(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_;
    (void)si;
#if defined __x86_64__
    uintptr_t pc = (uintptr_t)uc->uc_mcontext.gregs[REG_RIP] - 1, sp = (uintptr_t)uc->uc_mcontext.gregs[REG_RSP] - 128;
#else
    uintptr_t pc = uc->uc_mcontext.arm_pc & ~1u, sp = uc->uc_mcontext.arm_sp;
#endif
    u32 i = 0;
    while (i < NSLOT && !(SL[i].on && R[SL[i].row].pc == pc)) i++;
    if (i == NSLOT) { signal(sig, SIG_DFL); raise(sig); return; }
    disarm(i);
#if defined __x86_64__
    uc->uc_mcontext.gregs[REG_RIP] = (greg_t)pc;
#endif
    if (depth) return;
    if (SL[i].again) {
        /* not this time: wait for the next instruction, then come back here */
        SL[i].again--;
        if (SL[i].stage) { SL[i].stage = 0; arm_slot(i, SL[i].row - 1); return; }
        SL[i].stage = 1;
        if (arm_slot(i, SL[i].row + 1)) return;
    }
    hits++;
    memset((void *)(sp - 1024), (int)(0x11 + hits % 200), 1024);
    if (work & 1) { depth = 1; run_other(); depth = 0; }
}
void init_conv(void)
{
    aead_init();
    if (R) return;
    char p[4200];
    ssize_t n = readlink("/proc/self/exe", p, 4096);
    if (n < 0) return;
    strcpy(p + n, ".ins");
    FILE *f = fopen(p, "r");
    unsigned long pc, lo, hi;
    unsigned len;
    if (!f || fscanf(f, "range %lx %lx", &lo, &hi) != 2) { fprintf(stderr, "harness: no %s\n", p); _exit(3); }
    R = h_map(sizeof *R * (hi - lo + 1), 0);
    while (fscanf(f, "%lx %u", &pc, &len) == 2) R[nrow++] = (row_t){pc, len};
    fclose(f);
    uintptr_t a = lo & ~4095ul, b = (hi + 4095) & ~4095ul;
    if (mprotect((void *)a, b - a, PROT_READ | PROT_WRITE | PROT_EXEC)) { fprintf(stderr, "harness: mprotect\n"); _exit(3); }
    stack_t st = {.ss_sp = h_map(1 << 20, 0), .ss_size = 1 << 20};
    sigaltstack(&st, NULL);
    struct sigaction sa = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER};
    sigaction(SIGTRAP, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
}

/* ---------------------------------------------------------------- the calls */
enum { O_ENC, O_DEC, O_FORGED, O_HASH };
static const char *const ON[] = {"encryption", "decryption of a genuine ciphertext", "decryption of a forged ciphertext", "hashing"};
#define MAXN 4200
typedef struct { int op; size_t al, ml; u8 k[16], n[16], ad[MAXN], m[MAXN], c[MAXN + 16], out[MAXN + 16]; } call_t;
static call_t C[2];
static unsigned long long other_len;
typedef int enc_t(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *, unsigned long long, const unsigned char *, const unsigned char *, const unsigned char *);
typedef int dec_t(unsigned char *, unsigned long long *, unsigned char *, const unsigned char *, unsigned long long, const unsigned char *, unsigned long long, const unsigned char *, const unsigned char *);
typedef int hash_t(unsigned char *, const unsigned char *, unsigned long long);

/* through: the assembly code, or the function itself */
static int make(call_t *q, unsigned long long *l, int through)
{
    *l = 0x77;
    switch (q->op) {
    case O_ENC: {
        enc_t *f = crypto_aead_encrypt;
        vt_cv_target = through ? (reg)f : vt_cv_target;
        if (through) f = (enc_t *)(uintptr_t)vt_cv_call;
        return f(q->out, l, q->m, q->ml, q->ad, q->al, NULL, q->n, q->k);
    }
#ifdef HAVE_HASH
    case O_HASH: {
        hash_t *f = crypto_hash;
        vt_cv_target = through ? (reg)f : vt_cv_target;
        if (through) f = (hash_t *)(uintptr_t)vt_cv_call;
        return f(q->out, q->m, q->ml);
    }
#endif
    default: {
        dec_t *f = crypto_aead_decrypt;
        vt_cv_target = through ? (reg)f : vt_cv_target;
        if (through) f = (dec_t *)(uintptr_t)vt_cv_call;
        return f(q->out, l, NULL, q->c, q->ml + 16, q->ad, q->al, q->n, q->k);
    }
    }
}
static u8 want_hash[2][32];
static const char *judge(call_t *q, int i, int r, unsigned long long l)
{
    if (q->op == O_FORGED) return r == -1 ? NULL : "accepted a forgery";
    if (r) return "returned an error";
    if (q->op == O_ENC) {
        if (l != q->ml + 16) return "reported a wrong length";
        return memcmp(q->out, q->c, q->ml + 16) ? "gave a wrong result" : NULL;
    }
    if (q->op == O_HASH) return memcmp(q->out, want_hash[i], 32) ? "gave a wrong result" : NULL;
    if (l != q->ml) return "reported a wrong length";
    return memcmp(q->out, q->m, q->ml) ? "gave a wrong result" : NULL;
}
static void run_other(void)
{
    int r = make(&C[1], &other_len, 0);
    const char *j = judge(&C[1], 1, r, other_len);
    if (j) bad = j;
    nested_calls++;
}
static void gen_call(G *g, int i)
{
    call_t *q = &C[i];
    gen_lens(g, i ? 260 : g_draw(g, 10) ? 400 : opt_slow ? 1500 : 4000);
    /* sometimes the other call is of the same shape */
    int twin = !i && g_draw(g, 3) == 0;
    if (twin) { T.adlen = C[1].al; T.mlen = C[1].ml; g_class("calls of the same shape"); }
    gen_data(g);
    model_encrypt(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, T.mlen, T.c);
    if (!i && g->verbose) note_case(g);
#ifdef HAVE_HASH
    q->op = (int)g_draw(g, 5);
    if (q->op == 4) q->op = O_ENC;
#else
    q->op = (int)g_draw(g, 3);
#endif
    if (T.adlen > MAXN || T.mlen > MAXN) g_fail("harness: lengths");
    if (twin) q->op = C[1].op;
    q->al = T.adlen; q->ml = T.mlen;
    memcpy(q->k, T.k, 16); memcpy(q->n, T.n, 16); memcpy(q->ad, T.ad, q->al); memcpy(q->m, T.m, q->ml); memcpy(q->c, T.c, q->ml + 16);
    memset(q->out, 0xee, q->ml + 16);
    if (q->op == O_FORGED) q->c[q->ml + g_draw(g, 16)] ^= (u8)(1 + g_draw(g, 255));
    if (q->op == O_HASH) model_hash(q->m, q->ml, want_hash[i]);
}
void c15(G *g)
{
    unsigned long long l = 0;
    for (u32 i = 0; i < NSLOT; i++) disarm(i);
    work = g_draw(g, 3);
    gen_call(g, 1);
    gen_call(g, 0);
    for (u32 i = 0; i < sizeof vt_cv_in / sizeof *vt_cv_in; i++) vt_cv_in[i] = (reg)g_u64(g);
    /* a short, exact list of places */
    u32 n = g_draw(g, 8) ? g_draw(g, NSLOT) : 0;
    depth = 0; hits = nested_calls = 0; bad = NULL;
    memset(SL, 0, sizeof SL);
    u64 h = case_hash();
    u32 rows[NSLOT], skip[NSLOT];
    for (u32 i = 0; i < n; i++) {
        rows[i] = g_draw(g, 2) || !i ? g_draw(g, nrow) : (rows[i - 1] + g_draw(g, 40)) % nrow;
        skip[i] = g_draw(g, 4) ? 0 : 2 * g_draw(g, 12);
    }
    h = h64(h, rows, n * sizeof *rows);
    if (g->verbose) {
        g_note(g, "%s, %zu bytes of associated data, %zu bytes; interrupts at", ON[C[0].op], C[0].al, C[0].ml);
        for (u32 i = 0; i < n; i++) g_note(g, " pc=0x%lx(+%u)", (unsigned long)R[rows[i]].pc, skip[i]);
        if (work & 1) g_note(g, " by %s of %zu/%zu bytes", ON[C[1].op], C[1].al, C[1].ml);
    }
    for (u32 i = 0; i < n; i++) { SL[i].again = skip[i]; arm_slot(i, rows[i]); }
    int r = make(&C[0], &l, 1);
    for (u32 i = 0; i < NSLOT; i++) disarm(i);
    g_mark(h64(h, &work, sizeof work), hits > 0);
    g_class(!hits ? "not interrupted" : nested_calls ? "interrupted by another call" : "interrupted");
    g_class(ON[C[0].op]);
    g_count(hits);
    for (int i = 0; i < NSAVED; i++)
        if (vt_cv_out[i] != vt_cv_in[i]) g_fail("%s changed the caller's register %s", ON[C[0].op], RN[i]);
#if defined __x86_64__
    if (vt_cv_out[7] != vt_cv_save[7]) g_fail("%s changed the stack pointer", ON[C[0].op]);
    if (vt_cv_out[8] & 0x400) g_fail("%s left the direction flag set", ON[C[0].op]);
    if ((vt_cv_fp[0] & 0xffc0) != (vt_cv_fp[2] & 0xffc0) || (uint16_t)vt_cv_fp[1] != (uint16_t)vt_cv_fp[3]) g_fail("%s changed the floating-point mode", ON[C[0].op]);
#else
    if (vt_cv_out[8] != vt_cv_save[8]) g_fail("%s changed the stack pointer", ON[C[0].op]);
#endif
    const char *j = judge(&C[0], 0, r, l);
    if (j) g_fail("%s %s after %u interrupts%s", ON[C[0].op], j, hits, nested_calls ? " by other calls" : "");
    if (bad) g_fail("%s, made while another call was interrupted, %s", ON[C[1].op], (const char *)bad);
}
