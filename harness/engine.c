#define _GNU_SOURCE
#include "engine.h"
#ifdef GUIDED
#include "guided.h"
#include "sancov.h"
int opt_guided;
#endif
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

const char *opt_variant = "?";
int opt_alg = 0;
int opt_slow = 0;
double opt_until = 0;
u32 opt_walk = 700;
u64 opt_seed = 1, opt_arg = 0, opt_budget = 0;

#define NCLASS 160
#define NSAMPLE 6
#define NMETRIC 24
#define HBITS 18
typedef struct {
    u32 nchoice, choice[MAXCHOICE];
    u64 cur;                       /* index of the case being run */
    u64 evals, nontrivial, marked, extra;
    char msg[2048], desc[4096];
    u32 desclen;
    struct { char name[48]; u64 n; } cls[NCLASS];
    struct { char name[48]; double v; } met[NMETRIC];
    char sample[NSAMPLE][700];
    u32 nsample;
    int done, counting;
    u32 nhash;
    u64 hash[1u << HBITS];
} shared_t;
static shared_t *S;
static int verbose_desc;
static u64 sample_from, sample_step = 1;

/* ---------------------------------------------------------------- choices */
static u64 splitmix(u64 *s)
{
    u64 z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
u64 h64(u64 h, const void *p, size_t n)
{
    const u8 *b = p;
    h ^= 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    return h ^ (h >> 29);
}
static u64 fz_take(G *g, int nb)
{
    u64 v = 0;
    for (int i = 0; i < nb; i++) v |= (u64)(g->fzp < g->fzn ? g->fz[g->fzp++] : 0) << (8 * i);
    return v;
}
u32 g_draw(G *g, u32 bound)
{
    u32 v;
    if (bound <= 1) return 0;
    if (g->mode == G_FUZZ) return (u32)(fz_take(g, bound <= 256 ? 1 : bound <= 65536 ? 2 : 4) % bound);
    if (g->mode == G_REPLAY) v = g->pos < S->nchoice ? S->choice[g->pos] % bound : 0;
    else v = (u32)(((splitmix(&g->rng) >> 32) * bound) >> 32);
    if (g->pos < MAXCHOICE) {
        S->choice[g->pos] = v;
        if (g->mode == G_RANDOM) S->nchoice = g->pos + 1;
    }
    g->pos++;
    return v;
}
u32 g_put(G *g, u32 bound, u32 v)
{
    /* records v as if it had been drawn (scheduled values of a walk); a replay reads it back */
    if (g->mode != G_RANDOM) return g_draw(g, bound);
    if (g->pos < MAXCHOICE) { S->choice[g->pos] = v; S->nchoice = g->pos + 1; }
    g->pos++;
    return v % bound;
}
int g_chance(G *g, u32 num, u32 den) { return g_draw(g, den) >= den - num; }
u64 g_u64(G *g) { u64 a = g_draw(g, 0xffffffffu), b = g_draw(g, 0xffffffffu); return a << 32 | b; }
void g_rand(G *g, u8 *p, size_t n)
{
    if (g->mode == G_FUZZ) { for (size_t i = 0; i < n; i++) p[i] = (u8)fz_take(g, 1); return; }
    u64 s = g_draw(g, 0xffffffffu), v = 0;
    s = s * 0x2545F4914F6CDD1DULL + 77;
    for (size_t i = 0; i < n; i++) { if (!(i & 7)) v = splitmix(&s); p[i] = (u8)v; v >>= 8; }
}
void g_bytes(G *g, u8 *p, size_t n)
{
    if (g->mode == G_FUZZ) {
        /* raw prefix, then a cheap expansion so that long buffers do not need long inputs */
        size_t raw = n < 48 ? n : 48;
        for (size_t i = 0; i < raw; i++) p[i] = (u8)fz_take(g, 1);
        for (size_t i = raw; i < n; i++) p[i] = (u8)(p[i - 48] * 5 + i);
        return;
    }
    u32 kind = g_draw(g, 16);
    size_t i;
    switch (kind) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, (int)g_draw(g, 256), n); break;
    case 3: for (i = 0; i < n; i++) p[i] = (u8)i; break;
    case 4: { /* one bit set */
        memset(p, 0, n);
        if (n) { u32 b = g_draw(g, (u32)(n < 500000000 ? n * 8 : 1)); p[b / 8] = (u8)(1 << (b % 8)); }
        break; }
    case 5: /* looks like the mode's own padding */
        memset(p, 0, n);
        if (n) p[g_draw(g, (u32)n)] = 0x80;
        break;
    case 6: g_rand(g, p, n); for (i = 0; i < n; i++) p[i] |= 0x80; break;
    case 7: { u32 per = 1 + g_draw(g, 24); u8 t[24]; g_rand(g, t, per); for (i = 0; i < n; i++) p[i] = t[i % per]; break; }
    case 8: { /* random with a long zero run */
        g_rand(g, p, n);
        if (n) { u32 a = g_draw(g, (u32)n), l = g_draw(g, (u32)n); for (i = a; i < n && i < (size_t)a + l; i++) p[i] = 0; }
        break; }
    default: g_rand(g, p, n);
    }
}
size_t g_len(G *g, size_t max)
{
    static const u32 rates[] = {8, 18, 16, 64, 128, 144, 256, 512, 32, 24};
    static const u32 pows[] = {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1u << 20};
    u64 v;
    u32 kind = g_draw(g, 100);
    if (kind < 14) v = g_draw(g, 20);
    else if (kind < 44) v = g_draw(g, 80);
    else if (kind < 70) v = g_draw(g, 320);
    else if (kind < 86) {
        u32 r = rates[g_draw(g, 10)];
        u64 k = g_draw(g, g_chance(g, 1, 4) ? 40 : 9);
        v = r * k + g_draw(g, 5);
        v = v >= 2 ? v - 2 : v;
    } else if (kind < 94) {
        v = pows[g_draw(g, g_chance(g, 1, opt_slow ? 40 : 12) ? 12 : 5)] + g_draw(g, 41);
        v = v >= 20 ? v - 20 : v;
    } else if (kind < 98) v = g_draw(g, 1100);
    else v = g_draw(g, opt_slow ? 3000 : 9000);
    return v > max ? (size_t)(max ? v % max : 0) : (size_t)v;
}

/* ---------------------------------------------------------------- bookkeeping */
void g_note(G *g, const char *fmt, ...)
{
    if (!g->verbose) return;
    va_list ap;
    va_start(ap, fmt);
    if (S->desclen < sizeof S->desc - 2) {
        int n = vsnprintf(S->desc + S->desclen, sizeof S->desc - S->desclen, fmt, ap);
        S->desclen += n > 0 ? (u32)n : 0;
        if (S->desclen > sizeof S->desc - 2) S->desclen = sizeof S->desc - 2;
    }
    va_end(ap);
}
void g_hex(G *g, const char *label, const u8 *p, size_t n)
{
    if (!g->verbose) return;
    g_note(g, "%s[%zu]=", label, n);
    for (size_t i = 0; i < n && i < 48; i++) g_note(g, "%02x", p[i]);
    g_note(g, n > 48 ? "... " : " ");
}
void g_class(const char *name)
{
    if (!S->counting) return;
    for (int i = 0; i < NCLASS; i++) {
        if (!S->cls[i].name[0]) { strncpy(S->cls[i].name, name, 47); S->cls[i].n = 1; return; }
        if (!strcmp(S->cls[i].name, name)) { S->cls[i].n++; return; }
    }
}
void g_metric(const char *name, double v)
{
    if (!S->counting) return;
    for (int i = 0; i < NMETRIC; i++) {
        if (!S->met[i].name[0]) { strncpy(S->met[i].name, name, 47); S->met[i].v = v; return; }
        if (!strcmp(S->met[i].name, name)) { if (v > S->met[i].v) S->met[i].v = v; return; }
    }
}
void g_mark(u64 h, int nontrivial)
{
    if (!S->counting) return;
    S->marked++;
    if (!nontrivial) return;
    if (!h) h = 1;
    u32 i = (u32)(h >> 7) & ((1u << HBITS) - 1);
    if (S->nhash > (1u << HBITS) / 4 * 3) return;
    while (S->hash[i] && S->hash[i] != h) i = (i + 1) & ((1u << HBITS) - 1);
    if (!S->hash[i]) { S->hash[i] = h; S->nhash++; }
}
void g_count(u64 n) { if (S->counting) S->extra += n; }
void g_fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
#ifdef FUZZ
    fprintf(stderr, "PROPERTY-FAIL: %s\n", S->msg);
    abort();
#else
    _exit(77);
#endif
}

/* ---------------------------------------------------------------- memory */
void *h_map(size_t n, int shared)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE,
                   (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "harness: mmap %zu failed\n", n); _exit(3); }
    return p;
}
#define PG 4096
region_t region_new(size_t size)
{
    size_t n = (size + PG - 1) / PG * PG;
    if (!n) n = PG;
    /* room so that the guards are whole even where the host page is larger */
    u8 *p = h_map(n + 2 * PG, 0);
    if (mprotect(p, PG, PROT_NONE) || mprotect(p + PG + n, PG, PROT_NONE)) { perror("mprotect"); _exit(3); }
    region_t r = {p + PG, n};
    return r;
}
u8 *region_end(region_t *r, size_t len)
{
    if (len > r->size) { fprintf(stderr, "harness: region too small\n"); _exit(3); }
    return r->base + r->size - len;
}
u8 *region_begin(region_t *r) { return r->base; }

static const prop_t *P;
static void one_case(G *g)
{
    S->desclen = 0;
    S->desc[0] = 0;
    S->msg[0] = 0;
    P->run(g);
}

#ifdef FUZZ
int LLVMFuzzerTestOneInput(const u8 *data, size_t n)
{
    if (!S) {
        S = h_map(sizeof *S, 0);
        const char *id = getenv("FUZZ_PROP");
        opt_alg = atoi(getenv("FUZZ_ALG") ? getenv("FUZZ_ALG") : "0");
        for (P = PROPS; P->id && strcmp(P->id, id ? id : "C01"); P++) ;
        if (!P->id) abort();
        if (P->init) P->init();
    }
    G g = {.mode = G_FUZZ, .fz = data, .fzn = n, .verbose = getenv("FUZZ_VERBOSE") != NULL};
    one_case(&g);
    if (g.verbose) fprintf(stderr, "CASE: %s\n", S->desc);
    return 0;
}
#else

/* ---------------------------------------------------------------- running */
static int cpu_limit = 60;           /* CPU seconds for one case */
static const char *errfile;
static void on_prof(int s) { (void)s; _exit(78); }
static void arm_timer(int secs)
{
    struct itimerval t = {{0, 0}, {secs, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
}
static u64 case_seed(u64 idx)
{
    u64 h = h64(opt_seed * 0x9E3779B97F4A7C15ULL, P->id, strlen(P->id));
    h = h64(h, opt_variant, strlen(opt_variant));
    return h64(h, &idx, 8);
}
static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static pid_t child_begin(void)
{
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p) return p;
    int nul = open("/dev/null", O_WRONLY);          /* what the code under test prints is not part of the report */
    if (nul >= 0) { dup2(nul, 1); close(nul); }
    if (errfile) {
        int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_prof);
    if (P->init) P->init();
    return 0;
}
static int child_wait(pid_t p)
{
    int st;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
    return st;
}
#ifdef GUIDED
static double case_deadline;
int engine_case(u64 idx)
{
    if (now() > case_deadline) return 0;
    G g = {.mode = G_RANDOM, .rng = case_seed(idx), .idx = idx};
    S->nchoice = 0;
    g.verbose = S->counting && S->nsample < NSAMPLE && S->extra % 1024 == 1023;
    arm_timer(cpu_limit);
    sc_mode = 1;
    one_case(&g);
    sc_mode = 0;
    S->extra++;
    if (g.verbose && S->desc[0]) memcpy(S->sample[S->nsample++], S->desc, sizeof S->sample[0] - 1);
    return 1;
}
#endif
static int run_range(u64 from, u64 to, double deadline)
{
    pid_t p = child_begin();
    if (!p) {
        for (u64 i = from; i < to; i++) {
            if (now() > deadline) break;
#ifdef GUIDED
            if (opt_guided) {
                case_deadline = deadline;
                S->cur = i;
                guided_seed(i & 1 ? i + 1000000 : i);
                S->evals++;
                continue;
            }
#endif
            G g = {.mode = G_RANDOM, .rng = case_seed(i), .idx = i};
            S->cur = i;
            S->nchoice = 0;
            g.verbose = verbose_desc || (S->counting && S->nsample < NSAMPLE && i >= sample_from + (S->nsample + 1) * sample_step);
            arm_timer(cpu_limit);
            one_case(&g);
            S->evals++;
            if (g.verbose && S->desc[0] && S->nsample < NSAMPLE && S->counting) {
                memcpy(S->sample[S->nsample], S->desc, sizeof S->sample[0] - 1);
                S->nsample++;
            }
        }
        _exit(0);
    }
    return child_wait(p);
}
static int run_choices(void)
{
    pid_t p = child_begin();
    if (!p) {
        G g = {.mode = G_REPLAY, .verbose = 1};
        arm_timer(cpu_limit);
        one_case(&g);
        _exit(0);
    }
    return child_wait(p);
}
static int failed(int st) { return !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)); }
/* 1: oracle failure, 2: crash or sanitizer abort, 3: out of CPU time */
static int kind_of(int st)
{
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return 3;
    return 2;
}
static void jstr(const char *s)
{
    putchar('"');
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static void describe(int st, char *out, size_t n)
{
    char err[900] = "";
    if (errfile) {
        FILE *f = fopen(errfile, "r");
        if (f) { size_t r = fread(err, 1, sizeof err - 1, f); err[r] = 0; fclose(f); }
    }
    if (kind_of(st) == 1) snprintf(out, n, "%s", S->msg);
    else if (kind_of(st) == 3) snprintf(out, n, "the call did not finish within %d CPU seconds", cpu_limit);
    else if (WIFSIGNALED(st)) snprintf(out, n, "the code under test died with signal %d (%s); %s", WTERMSIG(st), strsignal(WTERMSIG(st)), err);
    else snprintf(out, n, "the code under test stopped the process with status %d: %s", WEXITSTATUS(st), err);
}

static int try_choices(const u32 *c, u32 n, int kind, u32 *outn)
{
    memcpy(S->choice, c, n * sizeof *c);
    S->nchoice = n;
    int st = run_choices();
    *outn = S->nchoice;
    return failed(st) && kind_of(st) == kind;
}
static u32 shrink(u32 *best, u32 n, int kind, double until)
{
    static u32 t[MAXCHOICE];
    u32 dummy, changed = 1;
    while (changed && now() < until) {
        changed = 0;
        for (u32 sz = n > 1 ? n / 2 : 1; sz >= 1 && now() < until; sz /= 2)
            for (u32 i = 0; i + sz <= n && now() < until;) {
                memcpy(t, best, i * 4);
                memcpy(t + i, best + i + sz, (n - i - sz) * 4);
                if (try_choices(t, n - sz, kind, &dummy)) { memcpy(best, t, (n - sz) * 4); n -= sz; changed = 1; }
                else i += sz;
            }
        for (u32 i = 0; i < n && now() < until; i++) {
            u32 lo = 0, hi = best[i];
            if (!hi) continue;
            memcpy(t, best, n * 4);
            t[i] = 0;
            if (try_choices(t, n, kind, &dummy)) { best[i] = 0; changed = 1; continue; }
            while (hi - lo > 1 && now() < until) {
                u32 mid = lo + (hi - lo) / 2;
                memcpy(t, best, n * 4);
                t[i] = mid;
                if (try_choices(t, n, kind, &dummy)) { hi = mid; best[i] = mid; changed = 1; } else lo = mid;
            }
        }
    }
    return n;
}

static void print_stats(double t0)
{
    printf("\"evaluations\":%llu,\"nontrivial_distinct\":%u,\"marked\":%llu,\"seconds\":%.2f,",
           (unsigned long long)(S->evals + S->extra), S->nhash, (unsigned long long)S->marked, now() - t0);
    printf("\"cases\":%llu,\"classes\":{", (unsigned long long)S->evals);
    for (int i = 0; i < NCLASS && S->cls[i].name[0]; i++) {
        if (i) putchar(',');
        jstr(S->cls[i].name);
        printf(":%llu", (unsigned long long)S->cls[i].n);
    }
    printf("},\"metrics\":{");
    for (int i = 0; i < NMETRIC && S->met[i].name[0]; i++) {
        if (i) putchar(',');
        jstr(S->met[i].name);
        printf(":%g", S->met[i].v);
    }
    printf("},\"samples\":[");
    for (u32 i = 0; i < S->nsample; i++) { if (i) putchar(','); jstr(S->sample[i]); }
    printf("]");
}

/* leaks are not looked for: that does not work under emulation */
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "detect_leaks=0"; }

int main(int argc, char **argv)
{
    const char *id = NULL, *replay = NULL;
    u64 cases = 100, batch = 200, from = 0;
    double budget = 30;
    long rfrom = -1, rto = -1;
    for (int i = 1; i < argc; i++) {
        const char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--prop")) id = v, i++;
        else if (!strcmp(a, "--seed")) opt_seed = strtoull(v, 0, 10), i++;
        else if (!strcmp(a, "--cases")) cases = strtoull(v, 0, 10), i++;
        else if (!strcmp(a, "--from")) from = strtoull(v, 0, 10), i++;
        else if (!strcmp(a, "--batch")) batch = strtoull(v, 0, 10), i++;
        else if (!strcmp(a, "--time")) budget = atof(v), i++;
        else if (!strcmp(a, "--cpu")) cpu_limit = atoi(v), i++;
        else if (!strcmp(a, "--arg")) opt_arg = strtoull(v, 0, 10), i++;
        else if (!strcmp(a, "--alg")) opt_alg = atoi(v), i++;
        else if (!strcmp(a, "--variant")) opt_variant = v, i++;
#ifdef GUIDED
        else if (!strcmp(a, "--guided")) opt_guided = atoi(v), i++;
#endif
        else if (!strcmp(a, "--walk")) opt_walk = (u32)atoi(v), i++;
        else if (!strcmp(a, "--until")) opt_until = atof(v), i++;
        else if (!strcmp(a, "--slow")) opt_slow = atoi(v), i++;
        else if (!strcmp(a, "--errfile")) errfile = v, i++;
        else if (!strcmp(a, "--replay")) replay = v, i++;          /* comma separated choices */
        else if (!strcmp(a, "--range")) { char *e; rfrom = strtol(v, &e, 10); rto = *e == ':' ? strtol(e + 1, 0, 10) : rfrom; i++; }
        else { fprintf(stderr, "unknown option %s\n", a); return 3; }
    }
    S = h_map(sizeof *S, 1);
    for (P = PROPS; P->id && (!id || strcmp(P->id, id)); P++) ;
    if (!P->id) { fprintf(stderr, "no property %s\n", id ? id : ""); return 3; }
    opt_budget = (u64)budget;
    double t0 = now();
    char what[3072];

    if (replay || rfrom >= 0) {
        int bad = 0, st = 0;
        for (int rep = 0; rep < 3; rep++) {
            if (replay) {
                S->nchoice = 0;
                for (const char *p = replay; *p && S->nchoice < MAXCHOICE;) {
                    char *e;
                    S->choice[S->nchoice++] = (u32)strtoul(p, &e, 10);
                    if (e == p) break;
                    p = *e ? e + 1 : e;
                }
                st = run_choices();
            } else {
                verbose_desc = 1;
                st = run_range((u64)rfrom, (u64)rto + 1, now() + 1e6);
            }
            if (failed(st)) { bad++; describe(st, what, sizeof what); printf("FAILS (%d/3): %s\n  case: %s\n", rep + 1, what, S->desc); }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { printf("harness error\n"); return 3; }
            else printf("holds (%d/3): %s\n", rep + 1, S->desc);
        }
        return bad ? 1 : 0;
    }

    S->counting = 1;
    sample_from = from;
    sample_step = cases / (NSAMPLE + 2);
    double deadline = t0 + budget;
    for (u64 i = from; i < from + cases && now() < deadline; i += batch) {
        u64 to = i + batch < from + cases ? i + batch : from + cases;
        int st = run_range(i, to, deadline);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            fprintf(stderr, "harness error in case %llu\n", (unsigned long long)S->cur);
            return 3;
        }
        if (!failed(st)) continue;
        S->counting = 0;
        int kind = kind_of(st), repro = 0;
        u64 idx = S->cur;
        describe(st, what, sizeof what);
        static u32 best[MAXCHOICE], save[MAXCHOICE];
        u32 n = S->nchoice, got;
        memcpy(best, S->choice, n * 4);
        memcpy(save, best, n * 4);
        const char *how = "choices";
        double cost = now();
        int single = try_choices(best, n, kind, &got);
        cost = now() - cost;
        if (single) {
            if (cost < 5) n = shrink(best, n, kind, now() + (kind == 3 ? 40 : 20));
            else repro = 1;                         /* too expensive to make smaller */
            for (int r = 0; r < (cost < 5 ? 3 : 1); r++) {
                memcpy(S->choice, best, n * 4);
                S->nchoice = n;
                st = run_choices();
                if (failed(st) && kind_of(st) == kind) { repro++; describe(st, what, sizeof what); }
            }
        } else {
            how = "range";
            verbose_desc = 1;
            for (int r = 0; r < 6 && repro < 3; r++) {
                st = run_range(i, idx + 1, now() + 600);
                if (failed(st)) { repro++; describe(st, what, sizeof what); }
            }
        }
        printf("{\"prop\":"); jstr(P->id);
        printf(",\"variant\":"); jstr(opt_variant);
        printf(",\"violation\":true,\"reproduced\":%d,\"how\":\"%s\",\"kind\":%d,\"what\":", repro, how, kind);
        jstr(what);
        printf(",\"case\":"); jstr(S->desc);
        printf(",\"index\":%llu,\"range\":\"%llu:%llu\",\"choices\":\"", (unsigned long long)idx, (unsigned long long)i, (unsigned long long)idx);
        for (u32 j = 0; j < n; j++) printf(j ? ",%u" : "%u", best[j]);
        printf("\",");
        print_stats(t0);
        printf("}\n");
        return 1;
    }
    printf("{\"prop\":"); jstr(P->id);
    printf(",\"variant\":"); jstr(opt_variant);
    printf(",\"violation\":false,");
    print_stats(t0);
    printf("}\n");
    return 0;
}
#endif
