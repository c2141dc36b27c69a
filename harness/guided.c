/* Comparison-guided search over the inputs of a property.
 *
 * The code under test is built with callbacks at every block and comparison. A case is run and the
 * operands of its comparisons are looked up in its inputs (as bytes in either order, or as lengths and
 * simple functions of lengths); where one is found, the case is run again with that part of the input
 * replaced so that the comparison comes out equal, or one off. What reaches a new block or a new outcome
 * of a comparison is kept and combined with further changes. Comparisons with computed operands are
 * approached byte by byte. Every run is judged by the property's own oracle. */
#include "aead.h"
#include "sancov.h"
#include "guided.h"

typedef struct { u32 pc, sz; u64 a, b; } ce_t;
#define NCE 1536
#define PERPC 12
static ce_t CE[NCE];
static u32 nce;
static u32 seen_gen[8192], gen;
static u64 seen_key[8192];
static u32 pc_gen[4096]; static u8 pc_cnt[4096];
static u8 edge[1u << 16], outcome[1u << 16], hopeless[1u << 12], lifted[1u << 12];
static u32 eqs[48], neq;                       /* comparisons that came out equal */
static u8 pairs[1u << 20];
static int fresh;                              /* the running case reached something new */
static u32 watch_pc; static u32 watch_dist; static u64 watch_a, watch_b; static int watch_seen;
static struct { const u8 *p; size_t n; } IN[NIN];
static size_t LEN[NIN];
static u64 rs = 88172645463325252ULL;
static u32 rnd(u32 n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (u32)((rs >> 20) % n) : 0; }
static u32 mix(u64 x) { x *= 0x9E3779B97F4A7C15ULL; return (u32)(x >> 40); }

void gi_input(int what, const u8 *p, size_t n) { IN[what].p = p; IN[what].n = n; }
void gi_length(int what, size_t v) { LEN[what] = v; }

void guided_log(int type, uintptr_t pc, uintptr_t a, uintptr_t b, u64 size, void *frame)
{
    (void)b; (void)frame;
    if (type == EV_PC) {
        u32 h = mix((u64)pc + ((u64)a << 32)) & 0xffff;
        if (!edge[h]) { edge[h] = 1; fresh = 1; }
        return;
    }
    if (type != EV_CMP && type != EV_CMPLIB) return;
    u64 x = sc_cmp_a, y = sc_cmp_b;
    u32 site = (u32)pc + (u32)a * 2654435761u;  /* a: which label of a switch, which byte of a memcmp */
    u32 o = mix((u64)site * 4 + (x == y ? 0 : x < y ? 1 : 2)) & 0xffff;
    if (!outcome[o]) { outcome[o] = 1; fresh = 1; }
    if (x == y && neq < 48) {
        u32 j = 0;
        while (j < neq && eqs[j] != site) j++;
        if (j == neq) eqs[neq++] = site;
    }
    if (site == watch_pc) {
        u32 d = (u32)__builtin_popcountll(x ^ y);
        if (!watch_seen) { watch_a = x; watch_b = y; }
        if (!watch_seen || d < watch_dist) watch_dist = d;
        watch_seen = 1;
    }
    if (nce >= NCE) return;
    u32 ph = mix(site) & 4095;
    if (pc_gen[ph] != gen) { pc_gen[ph] = gen; pc_cnt[ph] = 0; }
    if (pc_cnt[ph] >= PERPC) return;
    u64 key = (u64)site * 0x100000001b3ULL ^ x * 0x9E3779B97F4A7C15ULL ^ (y << 1);
    u32 i = mix(key) & 8191;
    if (seen_gen[i] == gen && seen_key[i] == key) return;
    seen_gen[i] = gen; seen_key[i] = key;
    pc_cnt[ph]++;
    CE[nce++] = (ce_t){site, (u32)size, x, y};
}
/* the inputs of the base case: they change with every run */
static u8 SN[IN_ADLEN][2048];
static size_t SNn[IN_ADLEN], SNl[NIN];
static void snapshot(void)
{
    for (int w = 0; w < IN_ADLEN; w++) {
        SNn[w] = IN[w].n > 2048 ? 2048 : IN[w].n;
        if (SNn[w]) memcpy(SN[w], IN[w].p, SNn[w]);
    }
    memcpy(SNl, LEN, sizeof LEN);
}
static int known(u32 site, int o) { return outcome[mix((u64)site * 4 + (u64)o) & 0xffff]; }

/* ---------------------------------------------------------------- search */
#define NCORP 256
static pset_t corpus[NCORP];
static u32 ncorp;
static u64 cur_idx;
static u32 runs_left, runs_done;
static int run(const pset_t *p)
{
    if (!runs_left) return 0;
    runs_left--; runs_done++;
    gp_cur = *p;
    gen++; nce = 0; fresh = 0; watch_seen = 0;
    memset(IN, 0, sizeof IN);
    for (int i = 0; i < NIN; i++) LEN[i] = (size_t)-1;
    neq = 0;
    int ok = engine_case(cur_idx);
    for (u32 i = 0; i < neq; i++)
        for (u32 j = 0; j < neq; j++) {
            u32 h = mix((u64)eqs[i] << 32 ^ eqs[j]) & 0xfffff;
            if (eqs[i] < eqs[j] && !pairs[h]) { pairs[h] = 1; fresh = 1; }
        }
    if (!ok) runs_left = 0;
    return ok;
}
static pset_t Q[64];
static u32 qh, qt;
static void keep(const pset_t *p)
{
    if (ncorp < NCORP) corpus[ncorp++] = *p; else corpus[rnd(NCORP)] = *p;
    if (qt < 64) Q[qt++] = *p;
}
static int with(pset_t *out, const pset_t *base, int what, u32 off, u32 w, u64 v)
{
    *out = *base;
    for (u32 i = 0; i < out->n; i++)
        if (out->p[i].what == what && (what >= IN_ADLEN || (out->p[i].off == off && out->p[i].w <= w))) {
            out->p[i].off = off; out->p[i].w = (u8)w; out->p[i].v = v;
            return 1;
        }
    if (out->n == NPATCH) return 0;
    out->p[out->n++] = (patch_t){(u8)what, (u8)w, off, v};
    return 1;
}
static u32 tried_key[16384];
static int tried(u64 h)
{
    u32 i = mix(h) & 16383, k = (u32)(h >> 3) | 1;
    if (tried_key[i] == k) return 1;
    tried_key[i] = k;
    return 0;
}
static u64 pshash(const pset_t *p) { return h64(p->n, p->p, p->n * sizeof(patch_t)); }
static u32 budget_pc;
static void attempt(const pset_t *base, u64 bh, const ce_t *e, int what, u32 off, u32 w, u64 v)
{
    pset_t t;
    if (!budget_pc) return;
    if (what >= IN_ADLEN) {
        /* lengths hold in every seed, contents only where the bytes are */
        if (v > 300000) return;
        if (tried(bh * 31 + v * 977 + (u64)what * 7 + e->pc * 3)) return;
    } else if (tried(bh * 31 + v * 977 + (u64)what * 7 + off * 131 + e->pc * 3 + w)) return;
    if (!with(&t, base, what, off, w, v)) return;
    budget_pc--;
    if (run(&t) && fresh) keep(&t);
}
static int fits(u64 v, u32 w, u32 sz)
{
    if (w >= 8) return 1;
    if (!(v >> (8 * w))) return 1;
    u64 m = sz >= 8 ? ~0ull : (1ull << (8 * sz)) - 1;           /* sign extension */
    return w == 1 && (v & m) >> 7 == m >> 7;
}
static void solve_bytes(const pset_t *base, u64 bh, const ce_t *e, u64 from, u64 to)
{
    for (u32 w = e->sz > 8 ? 8 : e->sz; w; w >>= 1) {
        if (!fits(from, w, e->sz) || !fits(to, w, e->sz)) break;
        u8 le[8], be[8];
        u64 tole = 0, tobe = 0;
        for (u32 j = 0; j < w; j++) {
            le[j] = (u8)(from >> (8 * j)); be[w - 1 - j] = le[j];
            tole |= (u64)(u8)(to >> (8 * j)) << (8 * j);
            tobe |= (u64)(u8)(to >> (8 * (w - 1 - j))) << (8 * j);
        }
        for (int what = 0; what < IN_ADLEN; what++) {
            struct { u32 off; int big; } hit[8];
            u32 nh = 0;
            for (size_t o = 0; o + w <= SNn[what] && nh < 8; o++) {
                if (!memcmp(SN[what] + o, le, w)) { hit[nh].off = (u32)o; hit[nh++].big = 0; }
                else if (w > 1 && !memcmp(SN[what] + o, be, w)) { hit[nh].off = (u32)o; hit[nh++].big = 1; }
            }
            for (u32 i = 0; i < nh; i++) attempt(base, bh, e, what, hit[i].off, w, hit[i].big ? tobe : tole);
        }
    }
}
static void solve_length(const pset_t *base, u64 bh, const ce_t *e, u64 from, u64 to)
{
    size_t r = model_rate(opt_alg);
    for (int what = IN_ADLEN; what < NIN; what++) {
        u64 L = SNl[what];
        if (L == (u64)(size_t)-1) continue;
        for (int d = 0; d <= 16; d += 16) {
            u64 v = L + (u64)d;
            u64 sc[4] = {1, 8, r, 16};
            if (v == from) for (int k = -1; k <= 1; k++) attempt(base, bh, e, what, 0, 8, to - (u64)d + (u64)k);
            else {
                for (int i = 1; i < 4; i++)
                    if (v / sc[i] == from || (v + sc[i] - 1) / sc[i] == from || v / sc[i] + 1 == from)
                        for (int k = -1; k <= 1; k++) attempt(base, bh, e, what, 0, 8, to * sc[i] - (u64)d + (u64)(k * (int)(sc[i] / 2)));
                for (int b = 2; b <= 16; b++)
                    if ((v & ((1u << b) - 1)) == from && to < (1u << b)) attempt(base, bh, e, what, 0, 8, (v & ~((1ull << b) - 1)) + to - (u64)d);
                if (v % r == from && to < r) attempt(base, bh, e, what, 0, 8, v - from + to - (u64)d);
            }
        }
        /* a bound on something that grows with the length */
        if (to > from && to < 40000) {
            attempt(base, bh, e, what, 0, 8, to);
            attempt(base, bh, e, what, 0, 8, to * r);
            attempt(base, bh, e, what, 0, 8, to * r + r);
        }
    }
}
/* operands computed from a few input bytes: find which, then try all their values */
static void probe(const pset_t *base, u32 site)
{
    struct { int what; u32 off; } dep[12];
    u32 nd = 0, tries = 0;
    pset_t best = *base, t;
    watch_pc = site;
    if (!run(base) || !watch_seen) goto out;
    u64 a0 = watch_a, b0 = watch_b;
    u32 d0 = watch_dist;
    u8 copy[IN_ADLEN][16];
    size_t cn[IN_ADLEN];
    for (int w = 0; w < IN_ADLEN; w++) { cn[w] = IN[w].n < 16 ? IN[w].n : 16; if (cn[w]) memcpy(copy[w], IN[w].p, cn[w]); }
    for (int w = 0; w < IN_ADLEN; w++)
        for (u32 o = 0; o < cn[w]; o++) {
            if (!with(&t, base, w, o, 1, copy[w][o] ^ (1u + rnd(255)))) goto out;
            tries++;
            if (!run(&t)) goto out;
            if (fresh) keep(&t);
            if (watch_seen && watch_a == a0 && watch_b == b0) continue;
            if (nd == 12) { hopeless[mix(site) & 4095] = 1; goto out; }
            dep[nd].what = w; dep[nd++].off = o;
        }
    if (!nd) { hopeless[mix(site) & 4095] = 1; goto out; }
    for (int pass = 0; pass < 2 && d0; pass++)
        for (u32 i = 0; i < nd && d0; i++)
            for (u32 v = 0; v < 256 && d0; v++) {
                if (!with(&t, &best, dep[i].what, dep[i].off, 1, v)) goto out;
                if (!run(&t)) goto out;
                if (fresh) keep(&t);
                if (watch_seen && watch_dist < d0) { d0 = watch_dist; best = t; }
            }
    if (d0) hopeless[mix(site) & 4095] = 1;
out:
    watch_pc = 0;
}
/* Operands computed from whole words of an input by additions, multiplications by odd constants and
 * exclusive ors: the lowest differing bits are repaired one after the other, each by the bit of the word
 * at the same place. Works as long as a bit of the input does not reach below its own place. */
static int lift(const pset_t *base, u32 site, u32 sz)
{
    u32 w = sz > 8 ? 8 : sz, spent = runs_left;
    pset_t t, best;
    if (w < 2) return 0;
    for (int what = 0; what < IN_ADLEN; what++) {
        size_t n = SNn[what] < 48 ? SNn[what] : 48;
        for (size_t o = 0; o + w <= n; o += w)
            for (int big = 0; big < 2; big++) {
                u64 v = 0;
                for (u32 j = 0; j < w; j++) v |= (u64)SN[what][o + (big ? w - 1 - j : j)] << (8 * j);
                best = *base;
                watch_pc = site;
                if (!run(base) || !watch_seen) goto out;
                u64 diff = watch_a ^ watch_b;
                if (w < 8) diff &= (1ull << (8 * w)) - 1;
                while (diff) {
                    u64 low = diff & -diff, nv = v ^ low, iv = 0;
                    if (spent - runs_left > 700) goto out;
                    for (u32 j = 0; j < w; j++) iv |= (u64)(u8)(nv >> (8 * (big ? w - 1 - j : j))) << (8 * j);
                    if (!with(&t, &best, what, (u32)o, w, iv)) goto out;
                    if (!run(&t)) goto out;
                    if (fresh) keep(&t);
                    if (!watch_seen) break;
                    u64 nd = watch_a ^ watch_b;
                    if (w < 8) nd &= (1ull << (8 * w)) - 1;
                    if (nd & (low | (low - 1))) break;
                    diff = nd; v = nv; best = t;
                }
                watch_pc = 0;
                if (!diff) return 1;
            }
    }
out:
    watch_pc = 0;
    return 0;
}
/* Operands linear in the bits of the tag: one run for each bit, then a system of equations over GF(2). */
static int eliminate(const pset_t *base, u32 site)
{
    struct { u64 r, use[2]; } row[64] = {{0, {0, 0}}};      /* row[b]: highest bit of r is b */
    u64 d0, use[2] = {0, 0};
    u8 tag[16];
    pset_t t;
    int ok = 0, seen = 0;
    if (SNn[IN_TAG] < 16) return 0;
    memcpy(tag, SN[IN_TAG], 16);
    watch_pc = site;
    if (!run(base) || !watch_seen) goto out;
    d0 = watch_a ^ watch_b;
    for (u32 i = 0; i < 128; i++) {
        if (!with(&t, base, IN_TAG, i / 8, 1, tag[i / 8] ^ (1u << (i % 8))) || !run(&t)) goto out;
        if (fresh) keep(&t);
        if (!watch_seen) continue;
        seen |= (watch_a ^ watch_b) != d0;
        u64 r = watch_a ^ watch_b ^ d0, u[2] = {0, 0};
        u[i / 64] = 1ull << (i % 64);
        while (r) {
            int b = 63 - __builtin_clzll(r);
            if (!row[b].r) { row[b].r = r; row[b].use[0] = u[0]; row[b].use[1] = u[1]; break; }
            r ^= row[b].r; u[0] ^= row[b].use[0]; u[1] ^= row[b].use[1];
        }
        if (i == 31 && !seen) goto out;                     /* does not depend on the tag */
    }
    for (u64 r = d0; r; ) {
        int b = 63 - __builtin_clzll(r);
        if (!row[b].r) goto out;
        r ^= row[b].r; use[0] ^= row[b].use[0]; use[1] ^= row[b].use[1];
    }
    t = *base;
    for (u32 h = 0; h < 2; h++) {
        u64 v = 0;
        for (u32 j = 0; j < 8; j++) v |= (u64)tag[8 * h + j] << (8 * j);
        pset_t s = t;
        if (!with(&t, &s, IN_TAG, 8 * h, 8, v ^ use[h])) goto out;
    }
    ok = run(&t) && watch_seen && watch_a == watch_b;
    if (fresh) keep(&t);
out:
    watch_pc = 0;
    return ok;
}
static void expand(const pset_t *base)
{
    static ce_t L[NCE];
    u64 bh = pshash(base);
    if (!run(base)) return;
    if (fresh && base->n) keep(base);
    snapshot();
    u32 n = nce;
    memcpy(L, CE, n * sizeof *L);
    /* unsolved sites first, and not always from the beginning */
    u32 start = rnd(n ? n : 1);
    for (int pass = 0; pass < 2; pass++) {
        u32 last = 0;
        for (u32 j = 0; j < n && runs_left; j++) {
            ce_t *e = &L[(j + start) % n];
            if (e->a == e->b) continue;
            int solved = known(e->pc, 0) && (known(e->pc, 1) || known(e->pc, 2));
            if (solved != pass) continue;
            if (pass && !base->n && rnd(8)) continue;
            if (e->pc != last) { last = e->pc; budget_pc = pass ? 6 : 40; }
            solve_length(base, bh, e, e->a, e->b);
            solve_length(base, bh, e, e->b, e->a);
            solve_bytes(base, bh, e, e->a, e->b);
            solve_bytes(base, bh, e, e->b, e->a);
        }
    }
    /* one comparison with computed operands */
    for (u32 k = 0; k < 40 && n; k++) {
        ce_t *e = &L[rnd(n)];
        if (e->a == e->b || known(e->pc, 0) || hopeless[mix(e->pc) & 4095]) continue;
        if (!lifted[mix(e->pc) & 4095]++ && (lift(base, e->pc, e->sz) || eliminate(base, e->pc))) break;
        probe(base, e->pc);
        break;
    }
}
void guided_seed(u64 idx)
{
    static const pset_t none;
    sc_hook = guided_log;
    sc_chunks = 1;
    cur_idx = idx;
    rs ^= idx * 0x9E3779B97F4A7C15ULL; rs |= 1;
    runs_left = 1500;
    qh = qt = 0;
    Q[qt++] = ncorp && rnd(2) ? corpus[rnd(ncorp)] : none;
    while (qh < qt && runs_left) { pset_t b = Q[qh++]; expand(&b); }
    memset(&gp_cur, 0, sizeof gp_cur);
    g_metric("patch sets kept", ncorp);
}
