/* The program points of the real, uninstrumented binary: every instruction of the code under test,
 * with the address its memory operand refers to. x86 builds run with the processor's trap flag set;
 * ARM builds ask armtrace.c, which runs the emulator and reads its log. The instructions that access
 * memory, and the registers they take the address from, are in <program>.mem, written by vt/build.py
 * from the disassembly. */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include "sancov.h"

int sc_mode, sc_chunks;
void (*sc_hook)(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame);
u64 sc_cmp_a, sc_cmp_b;

#if defined __x86_64__
typedef struct { u8 in, base, index, scale; } ins_t;
static ins_t *ins;
static uintptr_t lo, hi;
static const u8 GREG[] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
ucontext_t *step_uc;

static void on_trap(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_;
    const greg_t *r = uc->uc_mcontext.gregs;
    uintptr_t pc = (uintptr_t)r[REG_RIP];
    (void)sig; (void)si;
    if (!sc_mode || pc < lo || pc >= hi) return;
    ins_t *e = &ins[pc - lo];
    if (!e->in) return;
    step_uc = uc;
    sc_hook(EV_PC, pc, 0, 0, 0, NULL);
    if (!e->scale) return;
    uintptr_t a = 0;
    if (e->base) a += (uintptr_t)r[GREG[e->base - 1]];
    if (e->index && e->index < 32) a += (uintptr_t)r[GREG[e->index - 1]] * e->scale;
    else if (e->index >= 32 && uc->uc_mcontext.fpregs) {
        u64 v[2];
        memcpy(v, &uc->uc_mcontext.fpregs->_xmm[(e->index - 32) & 15], 16);
        a += (uintptr_t)(v[0] ^ v[1] * 31) * e->scale;
    }
    sc_hook(EV_LOAD, pc, a, 0, 0, NULL);
}
void step_init(void)
{
    char p[4200];
    ssize_t n = readlink("/proc/self/exe", p, 4096);
    if (ins || n < 0) return;
    strcpy(p + n, ".mem");
    FILE *f = fopen(p, "r");
    unsigned long pc;
    unsigned b, i, s;
    if (!f || fscanf(f, "range %lx %lx", &lo, &hi) != 2) { fprintf(stderr, "harness: no %s\n", p); _exit(3); }
    ins = h_map(sizeof *ins * (hi - lo), 0);
    while (fscanf(f, "%lx %u %u %u", &pc, &b, &i, &s) == 4) if (pc >= lo && pc < hi) ins[pc - lo] = (ins_t){1, (u8)b, (u8)i, (u8)s};
    fclose(f);
    struct sigaction sa = {.sa_sigaction = on_trap, .sa_flags = SA_SIGINFO};
    sigaction(SIGTRAP, &sa, NULL);
}
#else
/* the emulator's log is read by armtrace, which answers on these descriptors */
static void ask(char what, void *answer, size_t n)
{
    size_t got = 0;
    if (write(STEP_REQ, &what, 1) != 1) { fprintf(stderr, "harness: armtrace is gone\n"); _exit(3); }
    while (got < n) {
        ssize_t r = read(STEP_ANS, (u8 *)answer + got, n - got);
        if (r <= 0) { fprintf(stderr, "harness: armtrace is gone\n"); _exit(3); }
        got += (size_t)r;
    }
}
void step_ask(char what, step_ans_t *a) { ask(what, a, sizeof *a); }
void step_init(void) { }
#endif
