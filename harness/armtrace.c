/* armtrace qemu-arm [options] PROGRAM ARGS...: runs an ARM program of the harness in the emulator, one
 * instruction at a time, and follows the emulator's log for it: the instructions executed and, from the
 * register contents printed before each, the addresses of memory operands. See step.c. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
typedef uint8_t u8;
typedef uint32_t u32;
#define REQ 200
#define ANS 201
#define WEIGHTS_IMPL
#include "weights.h"
typedef struct { u32 recorded, compared, differs, pc1, a1, pc2, a2, type; w_found_t w; } ans_t;
typedef struct { u8 in, base, index, shift, cond; } ins_t;      /* base, index: register + 1; cond + 1 */
typedef struct { u32 pc, a; } ev_t;
#define NEV (8u << 20)
static ins_t *ins;
static u32 lo, hi;
static ev_t *E;
static ans_t A;
static int state;                       /* 0 idle, 1 record, 2 compare, 3 and 4 weigh */

static void event(int type, u32 pc, u32 a)
{
    if (state == 1) {
        if (A.recorded < NEV) E[A.recorded] = (ev_t){pc, a};
        A.recorded++;
    } else if (state == 2 && !A.differs) {
        if (A.compared >= NEV) return;
        if (A.compared < A.recorded && E[A.compared].pc == pc && E[A.compared].a == a) { A.compared++; return; }
        A.differs = 1; A.type = (u32)type; A.pc2 = pc; A.a2 = a;
        if (A.compared < A.recorded) { A.pc1 = E[A.compared].pc; A.a1 = E[A.compared].a; }
    }
}
static int holds(int cond, u32 psr)
{
    int n = psr >> 31, z = psr >> 30 & 1, c = psr >> 29 & 1, v = psr >> 28 & 1, r;
    switch (cond >> 1) {
    case 0: r = z; break; case 1: r = c; break; case 2: r = n; break; case 3: r = v; break;
    case 4: r = c && !z; break; case 5: r = n == v; break; case 6: r = n == v && !z; break; default: return 1;
    }
    return cond & 1 ? !r : r;
}
static u32 pc_now, regs[16], old[16], prev;
static ins_t *cur;
static u32 hexn(const char *p, int n) { u32 v = 0; while (n-- > 0) { char c = *p++; v = v * 16 + (u32)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
static void line(char *l, size_t n)
{
    if (!state) return;
    if (n > 6 && !memcmp(l, "Trace ", 6)) {
        char *b = memchr(l, '/', n);
        cur = NULL;
        if (!b || b + 17 > l + n) return;
        pc_now = hexn(b + 9, 8);
        if (pc_now < lo || pc_now >= hi || !ins[pc_now - lo].in) return;
        event(1, pc_now, 0);
        if (state > 2 || ins[pc_now - lo].base) cur = &ins[pc_now - lo];
    } else if (cur && n >= 51 && l[0] == 'R') {
        int r = (l[1] - '0') * 10 + l[2] - '0';
        for (int i = 0; i < 4 && r + i < 16; i++) regs[r + i] = hexn(l + 4 + 13 * i, 8);
    } else if (cur && n >= 12 && !memcmp(l, "PSR=", 4)) {
        u32 psr = hexn(l + 4, 8), a;
        if (state > 2) {                        /* what the instruction before this one has left in registers and flags */
            if (prev) {
                for (int i = 0; i < 15; i++) if (regs[i] != old[i]) w_acc(prev, 16 + i, w_hw(regs[i]));
                for (int i = 0; i < 4; i++) w_acc(prev, 64 + i, psr >> (28 + i) & 1);
            }
            prev = pc_now;
            memcpy(old, regs, sizeof old);
            cur = NULL;
            return;
        }
        a = regs[cur->base - 1];
        if (cur->index) a += regs[cur->index - 1] << cur->shift;
        if (cur->cond && !holds(cur->cond - 1, psr)) a = 0xffffffff;
        event(2, pc_now, a);
        cur = NULL;
    }
}
static char buf[1 << 20];
static size_t fill;
static int drain(int fd)
{
    int any = 0;
    for (;;) {
        ssize_t r = read(fd, buf + fill, sizeof buf - fill);
        if (r <= 0) break;
        any = 1;
        fill += (size_t)r;
        char *p = buf, *q;
        while ((q = memchr(p, '\n', (size_t)(buf + fill - p)))) { line(p, (size_t)(q - p)); p = q + 1; }
        fill = (size_t)(buf + fill - p);
        memmove(buf, p, fill);
        if (fill == sizeof buf) fill = 0;
    }
    return any;
}
int main(int argc, char **argv)
{
    int p = 1;
    char mem[4200], dir[] = "/tmp/vt-armtrace-XXXXXX", fifo[80], filter[64];
    while (p < argc && !strstr(argv[p], "/exe/")) p++;
    if (p >= argc) { fprintf(stderr, "usage: armtrace qemu-arm PROGRAM ARGS...\n"); return 3; }
    snprintf(mem, sizeof mem, "%s.mem", argv[p]);
    FILE *f = fopen(mem, "r");
    if (!f || fscanf(f, "range %x %x", &lo, &hi) != 2) { fprintf(stderr, "harness: no %s\n", mem); return 3; }
    ins = calloc(hi - lo, sizeof *ins);
    E = mmap(NULL, sizeof *E * NEV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    unsigned pc, b, i, s, c;
    while (fscanf(f, "%x %u %u %u %u", &pc, &b, &i, &s, &c) == 5) if (pc >= lo && pc < hi) ins[pc - lo] = (ins_t){1, (u8)b, (u8)i, (u8)s, (u8)c};
    fclose(f);
    if (!mkdtemp(dir)) return 3;
    snprintf(fifo, sizeof fifo, "%s/log", dir);
    snprintf(filter, sizeof filter, "0x%x..0x%x", lo, hi - 1);
    int req[2], ans[2];
    if (mkfifo(fifo, 0600) || pipe(req) || pipe(ans)) return 3;
    int log = open(fifo, O_RDONLY | O_NONBLOCK);
    fcntl(log, F_SETPIPE_SZ, 1 << 20);
    signal(SIGPIPE, SIG_IGN);
    pid_t pid = fork();
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(req[1], REQ); dup2(ans[0], ANS);
        close(req[0]); close(req[1]); close(ans[0]); close(ans[1]); close(log);
        char **a = calloc((size_t)argc + 16, sizeof *a);
        int n = 0;
        for (int j = 1; j < p; j++) a[n++] = argv[j];
        a[n++] = "-one-insn-per-tb"; a[n++] = "-d"; a[n++] = "exec,cpu,nochain"; a[n++] = "-dfilter"; a[n++] = filter; a[n++] = "-D"; a[n++] = fifo;
        for (int j = p; j < argc; j++) a[n++] = argv[j];
        execvp(a[0], a);
        _exit(3);
    }
    close(req[1]); close(ans[0]);
    struct pollfd pf[2] = {{log, POLLIN, 0}, {req[0], POLLIN, 0}};
    int st = 0;
    for (;;) {
        poll(pf, 2, 200);
        if (pf[0].revents & POLLIN) drain(log);
        if (pf[0].revents & POLLHUP) usleep(200);       /* no writer yet, or none any more */
        if (pf[1].revents & POLLIN) {
            char w;
            if (read(req[0], &w, 1) != 1) break;
            drain(log);                         /* the guest waits: all it has done is in the pipe */
            cur = NULL;
            if (w == 'R') { memset(&A, 0, sizeof A); state = 1; }
            else if (w == 'C') { state = 2; }
            else if (w == 'N') { state = 0; w_new(); }
            else if (w == '0' || w == '1') { w_sample(); prev = 0; state = w == '0' ? 3 : 4; }
            else if (w == 'S') { if (state > 2) w_add(state - 3); state = 0; }
            else if (w == 'W') { w_find(&A.w); state = 0; }
            else state = 0;
            if (write(ans[1], &A, sizeof A) != sizeof A) break;
        } else if (pf[1].revents & POLLHUP) break;
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    unlink(fifo);
    rmdir(dir);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
