/* C12: lengths beyond 2^16, 2^24, 2^31 and 2^32. The first part of an input of 2^31 or 2^32 bytes is a
 * fixed pattern for which the model's state was computed beforehand (checkpoints.h); the rest, and the
 * exact length, are generated. A run is either complete, or cut off after a second of CPU time: code
 * that has lost the upper bits of a length returns (with a wrong result) long before that. */
#define _GNU_SOURCE
#include "aead.h"
#include "longdata.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static const struct { int alg, kind, b; u8 st[50]; } CKS[] = {
#include "checkpoints.h"
};
static const u8 *ck(int alg, int kind, int b)
{
    for (size_t i = 0; i < sizeof CKS / sizeof *CKS; i++)
        if (CKS[i].alg == alg && CKS[i].kind == kind && CKS[i].b == b) return CKS[i].st;
    fprintf(stderr, "harness: no checkpoint\n");
    _exit(3);
}
#define TAILMAX ((1u << 20) + (1u << 16))
static u8 *W;                                   /* the pattern */
static int wfd, ofd;
static struct { int b; u8 *p, *o; u64 n; } MAPS[33];
static u8 *small_ad, *small_m, *small_o;

static u8 *reserve(u64 n)
{
    void *p = mmap(NULL, (size_t)n + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? NULL : p;
}
static int tile(u8 *p, u64 n, int fd)
{
    for (u64 at = 0; at < n; at += WIN)
        if (mmap(p + at, (size_t)(n - at < WIN ? n - at : WIN), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
    return 1;
}
static int mkfd(void)
{
    int fd = (int)syscall(SYS_memfd_create, "vt", 0);
    if (fd < 0 || ftruncate(fd, WIN)) { fprintf(stderr, "harness: memfd\n"); _exit(3); }
    return fd;
}
/* input of 2^b bytes and some: pattern, then private memory from the page of L0 on */
static u8 *big(int b)
{
    if (MAPS[b].p) return MAPS[b].p;
    u64 n = (1ULL << b) + (1 << 16), t = L0(b) & ~4095ULL;
    if (n > (u64)SIZE_MAX - (1 << 22)) return NULL;
    u8 *p = reserve(n);
    if (!p || !tile(p, n, wfd)) return NULL;
    if (mmap(p + t, (size_t)(n - t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) return NULL;
    memcpy(p + t, W + t % WIN, (size_t)(L0(b) - t));
    MAPS[b].p = p;
    MAPS[b].n = n;
    return p;
}
static u8 *alias_out(int b)
{
    if (!MAPS[b].o) {
        u8 *p = reserve(MAPS[b].n);
        if (!p || !tile(p, MAPS[b].n, ofd)) return NULL;
        MAPS[b].o = p;
    }
    return MAPS[b].o;
}
void init_long(void)
{
    aead_init();
    if (W) return;
    wfd = mkfd(); ofd = mkfd();
    W = mmap(NULL, WIN, PROT_READ | PROT_WRITE, MAP_SHARED, wfd, 0);
    if (W == MAP_FAILED) { fprintf(stderr, "harness: mmap\n"); _exit(3); }
    long_pattern(W);
    small_m = h_map(WIN + (1 << 17), 0);
    small_o = h_map(WIN + (1 << 17), 0);
    memcpy(small_m, W, WIN);
    memcpy(small_m + WIN, W, 1 << 17);
    small_ad = h_map(WIN + (1 << 17), 0);
    memcpy(small_ad, W, WIN);
    memcpy(small_ad + WIN, W, 1 << 17);
}
static sigjmp_buf out;
static void on_time(int s) { (void)s; siglongjmp(out, 1); }
static void box(int ms)
{
    struct itimerval t = {{0, 0}, {ms / 1000, ms % 1000 * 1000}};
    signal(SIGVTALRM, on_time);
    setitimer(ITIMER_VIRTUAL, &t, NULL);
}
enum { O_AD, O_GENUINE, O_ENC, O_HASH, O_FORGED };
static const char *ON[] = {"encrypt with long associated data", "decrypt a long genuine ciphertext", "encrypt a long message", "hash a long input", "decrypt a long forged ciphertext"};

/* --------------------------------------------------------------- up to 2^27 */
static u8 *pattern_copy(size_t n)
{
    u8 *p = h_map(n, 0);
    for (size_t i = 0; i < n; i += WIN) memcpy(p + i, W, n - i < WIN ? n - i : WIN);
    return p;
}
static void small_case(G *g, int op)
{
    static const int K[] = {16, 16, 16, 17, 18, 20, 22, 24};
    static u8 *s_c, *b_m, *b_ad, *b_o, *b_c;
    u8 *S_M = small_m, *S_AD = small_ad, *S_O = small_o;
    int mid = (opt_arg & 128) != 0;
    int e = mid ? 25 + (int)g_draw(g, 3) : K[g_draw(g, opt_slow ? 4 : 8)];
    if (mid && !b_m) {
        size_t room = (1u << 27) + (1u << 17);
        b_m = pattern_copy(room); b_ad = pattern_copy(room);
        b_o = h_map(room, 0); b_c = h_map(room, 0);
    }
    if (mid) { S_M = b_m; S_AD = b_ad; S_O = b_o; }
    size_t n = ((size_t)1 << e) + g_draw(g, 200) - 100;
    size_t on = g_draw(g, 60);
    u8 k[16], nn[16], tag[16];
    unsigned long long l = 0;
    g_rand(g, k, 16); g_rand(g, nn, 16);
    u32 at = g_draw(g, (u32)n);
    S_M[at] ^= 1; S_AD[at] ^= 2;
    if (g->verbose) g_note(g, "%s: %zu bytes (2^%d), the other input %zu bytes ", ON[op], n, e, on);
    char cls[48];
    snprintf(cls, sizeof cls, "2^%d: %.30s", e, ON[op]);
    g_class(cls);
    g_mark(h64(n * 8 + (u64)op, k, 16), 1);
    int r;
    if (op == O_AD) {
        r = crypto_aead_encrypt(S_O, &l, S_M, on, S_AD, n, NULL, nn, k);
        model_encrypt(opt_alg, k, nn, S_AD, n, S_M, on, T.c);
        if (r || l != on + 16 || memcmp(S_O, T.c, on + 16)) g_fail("wrong result with %zu bytes of associated data (returned %d, length %llu)", n, r, l);
        for (int i = 0; i < (e > 18 ? 1 : 3); i++) {
            u32 p = g_draw(g, (u32)n);
            S_AD[p] ^= 0x41;
            r = crypto_aead_decrypt(S_O, &l, NULL, T.c, on + 16, S_AD, n, nn, k);
            S_AD[p] ^= 0x41;
            if (r != -1) g_fail("%zu bytes of associated data with byte %u changed gave %d", n, p, r);
        }
    } else if (op == O_ENC || op == O_GENUINE || op == O_FORGED) {
        if (!s_c) s_c = h_map(WIN + (1 << 17), 0);
        u8 *c = mid ? b_c : s_c;
        model_encrypt(opt_alg, k, nn, S_AD, on, S_M, n, c);
        memcpy(tag, c + n, 16);
        if (op == O_ENC) {
            r = crypto_aead_encrypt(S_O, &l, S_M, n, S_AD, on, NULL, nn, k);
            if (r || l != n + 16 || memcmp(S_O, c, n + 16)) g_fail("encryption of %zu bytes is wrong (returned %d, length %llu)", n, r, l);
        } else if (op == O_GENUINE) {
            r = crypto_aead_decrypt(S_O, &l, NULL, c, n + 16, S_AD, on, nn, k);
            if (r || l != n || memcmp(S_O, S_M, n)) g_fail("decryption of %zu bytes is wrong (returned %d, length %llu)", n, r, l);
        } else {
            c[g_draw(g, (u32)n + 16)] ^= (u8)(1 + g_draw(g, 255));
            r = crypto_aead_decrypt(S_O, &l, NULL, c, n + 16, S_AD, on, nn, k);
            if (r != -1) g_fail("a forged ciphertext of %zu bytes gave %d", n, r);
        }
    } else {
#ifdef HAVE_HASH
        u8 d[32], w[32];
        r = crypto_hash(d, S_M, n);
        model_hash(S_M, n, w);
        if (r || memcmp(d, w, 32)) g_fail("the digest of %zu bytes is wrong", n);
#endif
    }
    S_M[at] ^= 1; S_AD[at] ^= 2;
}

/* --------------------------------------------------------------- 2^31 and 2^32 */
static volatile int r_ret;
static unsigned long long r_len;
#define NO_LEN 0x5a5a5a5a5a5a5a5aULL
/* a call that was cut off has perhaps reported the length already: then it has to be the right one, and
 * not that with bits lost (other values may be the code's own business, as long as it has not returned) */
static void lost_bits(int op, u64 n)
{
    u64 t = op == O_ENC ? n + 16 : n;
    if (op == O_AD || op == O_HASH || r_len == NO_LEN || r_len == t || r_len == 0) return;
    for (int b = 16; b < 38; b++)
        if (t >> b && (r_len == (t & ((1ULL << b) - 1)) || r_len == (u64)((long long)(t << (64 - b)) >> (64 - b))))
            g_fail("%s of %llu bytes: the length reported is %llu, %d bits of the right one", ON[op], (unsigned long long)n, r_len, b);
}
/* 2^25 bytes and more: nothing can process that much in the time given (2 GB/s), so a return is a wrong answer */
static void huge_case(G *g, int op)
{
    static const int B[] = {35, 33, 34, 36, 37, 25, 26, 27, 28, 29, 30};
    int b = B[g_draw(g, 11)];
    u64 n = (1ULL << b) + g_draw(g, 5000);
    if (g_draw(g, 4) == 0 && b > 30) n -= 5000;
    size_t room = (size_t)n + WIN;
    u8 k[16], nn[16], o[64], oth[64];
    g_rand(g, k, 16); g_rand(g, nn, 16); g_rand(g, oth, 64);
    size_t on = g_draw(g, 40);
    if (g->verbose) g_note(g, "%s: %llu bytes (2^%d%+lld), the other input %zu bytes ", ON[op], (unsigned long long)n, b, (long long)(n - (1ULL << b)), on);
    g_mark(h64(n * 8 + (u64)op, k, 16), 1);
    char cls[48];
    snprintf(cls, sizeof cls, "2^%d cut off: %.30s", b, ON[op]);
    g_class(cls);
    int has_out = op == O_GENUINE || op == O_FORGED || op == O_ENC;
    u8 *in = room < ((size_t)-1 >> 1) && (u64)room > n ? reserve(room) : NULL, *ob = NULL;
    if (in && has_out) ob = reserve(room);
    if (!in || !tile(in, room, wfd) || (has_out && (!ob || !tile(ob, room, ofd)))) { g_class("no room for an input of this size (skipped)"); goto done; }
    r_len = NO_LEN;
    static volatile int cut;
    cut = 0;
    if (sigsetjmp(out, 1)) cut = 1;
    else {
        box(b < 29 ? 16 << (b - 25) : 300);
        if (op == O_AD) r_ret = crypto_aead_encrypt(o, &r_len, oth, on, in, n, NULL, nn, k);
        else if (op == O_GENUINE || op == O_FORGED) r_ret = crypto_aead_decrypt(ob, &r_len, NULL, in, n + 16, oth, on, nn, k);
        else if (op == O_ENC) r_ret = crypto_aead_encrypt(ob, &r_len, in, n, oth, on, NULL, nn, k);
#ifdef HAVE_HASH
        else r_ret = crypto_hash(o, in, n);
#endif
    }
    box(0);
    if (!cut) g_fail("%s of %llu bytes: returned %d (length %llu) long before it can have processed the input", ON[op], (unsigned long long)n, r_ret, r_len);
    lost_bits(op, n);
    g_class("still at work when cut off");
done:
    if (in) munmap(in, room + (1 << 20));
    if (ob) munmap(ob, room + (1 << 20));
}
void c12(G *g)
{
    int op = (int)(opt_arg & 7), b = opt_arg & 8 ? 32 : 31, full = (opt_arg >> 4) & 1;
    if (opt_arg & 160) { small_case(g, op); return; }
    if (opt_arg & 64) { huge_case(g, op); return; }
    u8 *in = big(b);
    if (!in) { g_class("no room for an input of this size (skipped)"); g_mark(0, 0); return; }
    u64 l0 = L0(b), n = 1ULL << b;
    switch (g_draw(g, 4)) {
    case 0: n += g_draw(g, 3); break;
    case 1: n += g_draw(g, 40); break;
    case 2: n += g_draw(g, 5000); break;
    default: n -= g_draw(g, 20);
    }
    if (full && b == 31 && n < (1ULL << 31) + 2) n = (1ULL << 31) + 2;
    size_t on = g_draw(g, 40);
    u8 k[16], nn[16], o[64], tag[16], *tail = in + l0;
    u64 tn = n - l0;
    g_rand(g, k, 16);
    memcpy(nn, LN, 16);
    g_rand(g, tail, TAILMAX < MAPS[b].n - l0 ? TAILMAX : (size_t)(MAPS[b].n - l0));
    u8 oth[64];
    g_rand(g, oth, 64);
    if (g->verbose) g_note(g, "%s: %llu bytes (2^%d%+lld), the other input %zu bytes, %s ", ON[op], (unsigned long long)n, b, (long long)(n - (1ULL << b)), on, full ? "complete" : "cut off after a time");
    g_mark(h64(n * 8 + (u64)op, k, 16), 1);
    char cls[48];
    snprintf(cls, sizeof cls, "2^%d %s: %.26s", b, full ? "complete" : "cut off", ON[op]);
    g_class(cls);

    model_mac_t h;
    model_enc_t e;
    memset(&h, 0, sizeof h); memset(&e, 0, sizeof e);
    h.alg = e.alg = opt_alg;
    size_t stn = model_state(opt_alg);
    u8 *tailout = NULL, want[64];
    static u8 *real;
    static size_t realn;
    if (op == O_AD) {
        model_enc_init(&e, opt_alg, k, nn);
        model_enc_update(&e, oth, want, on);
        memcpy(h.st, ck(opt_alg, CK_AD, b), stn);
        model_mac_update(&h, tail, tn); model_mac_pad(&h); model_mac_domain(&h);
        model_mac_update(&h, want, on); model_mac_pad(&h); model_mac_final(&h, k, want + on);
    } else if (op == O_GENUINE || op == O_FORGED) {
        memcpy(k, LK, 16);
        memcpy(h.st, ck(opt_alg, CK_C, b), stn);
        model_mac_update(&h, tail, tn); model_mac_pad(&h); model_mac_final(&h, k, tail + tn);
        if (op == O_FORGED) tail[tn - 5 + g_draw(g, 21)] ^= (u8)(1 + g_draw(g, 255));
        else {
            tailout = small_o;
            memcpy(e.st, ck(opt_alg, CK_ENC, b), stn);
            e.pos = model_rate(opt_alg);
            model_enc_update(&e, tail, small_o, tn);
        }
        if (!alias_out(b) && op == O_GENUINE) { g_class("no room for an output of this size (skipped)"); return; }
    } else if (op == O_ENC) {
        memcpy(k, LK, 16);
        tailout = small_o;
        memcpy(e.st, ck(opt_alg, CK_ENC, b), stn);
        e.pos = model_rate(opt_alg);
        model_enc_update(&e, tail, small_o, tn);
        memcpy(h.st, ck(opt_alg, CK_MACENC, b), stn);
        model_mac_update(&h, small_o, tn); model_mac_pad(&h); model_mac_final(&h, k, tag);
        realn = (size_t)n + 4096;
        real = mmap(NULL, realn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (real == MAP_FAILED) { g_class("no room for an output of this size (skipped)"); return; }
    }
    r_len = NO_LEN;
    memset(o, 0xee, sizeof o);
    int cut = 0;
    if (sigsetjmp(out, 1)) cut = 1;
    else {
        int ms = opt_slow ? 1500 : 700;
        if (!full) box(ms);
        else if (opt_until > 0) {
            double left = (opt_until - (double)time(NULL)) * 1000;
            box(left < ms ? ms : left > 1e9 ? 1000000000 : (int)left);
        }
        if (op == O_AD) r_ret = crypto_aead_encrypt(o, &r_len, oth, on, in, n, NULL, nn, k);
        else if (op == O_GENUINE || op == O_FORGED) r_ret = crypto_aead_decrypt(MAPS[b].o ? MAPS[b].o : T.m, &r_len, NULL, in, n + 16, oth, 0, nn, k);
        else if (op == O_ENC) r_ret = crypto_aead_encrypt(real, &r_len, in, n, oth, 0, NULL, nn, k);
#ifdef HAVE_HASH
        else r_ret = crypto_hash(o, in, n);
#endif
    }
    box(0);
    const char *bad = NULL;
    char msg[200];
    if (cut) lost_bits(op, n);
    if (cut) g_class(full ? "complete run given up, out of time" : "still at work when cut off");
    else {
        g_class("ran to the end");
        if (op == O_AD) {
            if (r_ret || r_len != on + 16) bad = "wrong length or return value";
            else if (memcmp(o, want, on + 16)) bad = "wrong ciphertext or tag";
        } else if (op == O_FORGED) {
            if (r_ret != -1) bad = "not rejected";
        } else if (op == O_GENUINE) {
            if (r_ret) bad = "rejected";
            else if (r_len != n) bad = "wrong length";
            else for (u64 i = 0; i < tn; i++) if (MAPS[b].o[l0 + i] != tailout[i]) { bad = "wrong plaintext near the end"; break; }
        } else if (op == O_ENC) {
            if (r_ret || r_len != n + 16) bad = "wrong length or return value";
            else if (memcmp(real + l0, tailout, (size_t)tn)) bad = "wrong ciphertext near the end";
            else if (memcmp(real + n, tag, 16)) bad = "wrong tag";
        } else {
            model_hash_t hh;
            u8 d[32];
            memset(&hh, 0, sizeof hh);
            memcpy(hh.st, ck(4, CK_HASH, b), 40);
            model_hash_update(&hh, tail, tn);
            model_hash_final(&hh, d);
            if (r_ret || memcmp(o, d, 32)) bad = "wrong digest";
        }
    }
    if (op == O_ENC) munmap(real, realn);
    if (bad) { snprintf(msg, sizeof msg, "%s of %llu bytes: %s", ON[op], (unsigned long long)n, bad); g_fail("%s (returned %d, length %llu)", msg, r_ret, r_len); }
}
