#include "aead.h"
#include "guided.h"
#include <alloca.h>

aead_t T;
forged_t X;

static u8 *base[5];
static u8 small_[4][128] __attribute__((aligned(64)));
void aead_init(void)
{
    if (base[0]) return;
    for (int i = 0; i < 5; i++) base[i] = h_map(MAXLEN + SPARE, 0);
    T.ad = base[0]; T.m = base[1]; T.c = base[2]; X.ad = base[3]; X.c = base[4];
    T.k = small_[0]; T.n = small_[1]; X.k = small_[2]; X.n = small_[3];
}
u32 gen_offset(G *g) { return g_draw(g, 4) ? g_draw(g, 8) : g_draw(g, 64); }
void gen_place(G *g)
{
    u32 o[10] = {0};
    if (g_draw(g, 4) == 3) {
        for (int i = 0; i < 6; i++) o[i] = gen_offset(g);
        /* a forgery lies where the genuine message does, or elsewhere */
        for (int i = 6; i < 10; i++) o[i] = g_draw(g, 2) ? gen_offset(g) : o[i - 6];
        g_class("buffers not aligned");
    }
    T.k = small_[0] + o[0]; T.n = small_[1] + o[1]; T.ad = base[0] + o[2]; T.c = base[2] + o[3]; T.m = base[1] + o[4]; T.oo = o[5];
    X.k = small_[2] + o[6]; X.n = small_[3] + o[7]; X.ad = base[3] + o[8]; X.c = base[4] + o[9];
}

__attribute__((noinline)) void dirty_stack(u8 v)
{
    volatile u8 *p = alloca(24 * 1024);
    for (int i = 0; i < 24 * 1024; i++) p[i] = v;
}

/* The first cases of every run walk through all lengths; the rest are random. */
void gen_lens(G *g, size_t maxlen)
{
    u32 walk = opt_slow ? 264 : opt_walk;
    int walking = g->mode == G_RANDOM && g->idx < 2ull * walk;
    u32 l = (u32)(g->idx >> 1);
    gp_begin(g);
    gen_place(g);
    if (g->mode == G_FUZZ || (walking ? g_put(g, 2, 0) : g_draw(g, 2))) {
        T.adlen = g_len(g, maxlen);
        T.mlen = g_len(g, maxlen);
        switch (g_draw(g, 12)) {
        case 0: T.adlen = 0; break;
        case 1: T.mlen = 0; break;
        case 2: T.adlen = T.mlen; break;
        case 3: T.adlen = T.mlen + 16; break;
        }
    } else if (walking) {
        T.adlen = g->idx & 1 ? g_put(g, 65536, l) : g_draw(g, 48);
        T.mlen = g->idx & 1 ? g_draw(g, 48) : g_put(g, 65536, l);
    } else {
        T.adlen = g_draw(g, g->mode == G_REPLAY ? 65536 : 100);
        T.mlen = g_draw(g, g->mode == G_REPLAY ? 65536 : 100);
    }
    /* any length of some blocks, all residues alike */
    if (!walking && maxlen >= 1000 && g_draw(g, 16) == 0) *(g_draw(g, 2) ? &T.adlen : &T.mlen) = g_draw(g, opt_slow ? 2500 : 9000);
    T.adlen = gp_len(IN_ADLEN, T.adlen, maxlen);
    T.mlen = gp_len(IN_MLEN, T.mlen, maxlen);
    if (T.adlen > maxlen) T.adlen = maxlen;
    if (T.mlen > maxlen) T.mlen = maxlen;
}

static void gen_key16(G *g, u8 *p, const u8 *other)
{
    switch (g_draw(g, 8)) {
    case 0: g_bytes(g, p, 16); break;
    case 1: if (other) memcpy(p, other, 16); else memset(p, 0, 16); break;
    case 2: for (int i = 0; i < 16; i++) p[i] = (u8)i; break;
    default: g_rand(g, p, 16);
    }
}

void gen_data(G *g)
{
    gen_key16(g, T.k, NULL);
    gen_key16(g, T.n, T.k);
    gp_apply(IN_KEY, T.k, 16);
    gp_apply(IN_NONCE, T.n, 16);
    g_bytes(g, T.ad, T.adlen);
    gp_apply(IN_AD, T.ad, T.adlen);
    switch (g->mode == G_FUZZ ? 0 : g_draw(g, 10)) {
    case 1: { /* choose the plaintext so that the ciphertext has the drawn pattern */
        model_enc_t e;
        g_bytes(g, T.m, T.mlen);
        model_enc_init(&e, opt_alg, T.k, T.n);
        model_enc_update(&e, T.m, T.m, T.mlen);
        break; }
    case 2: for (size_t i = 0; i < T.mlen; i++) T.m[i] = T.adlen ? T.ad[i % T.adlen] : 0; break;
    case 3: for (size_t i = 0; i < T.mlen; i++) T.m[i] = T.k[i & 15]; break;
    default: g_bytes(g, T.m, T.mlen);
    }
    gp_apply(IN_MSG, T.m, T.mlen);
    if (gp_has(IN_CT)) {                       /* the message whose ciphertext has these bytes */
        model_enc_t e;
        model_enc_init(&e, opt_alg, T.k, T.n);
        model_enc_update(&e, T.m, T.c, T.mlen);
        gp_apply(IN_CT, T.c, T.mlen);
        model_enc_init(&e, opt_alg, T.k, T.n);
        model_enc_update(&e, T.c, T.m, T.mlen);
    }
    gi_input(IN_KEY, T.k, 16);
    gi_input(IN_NONCE, T.n, 16);
    gi_input(IN_AD, T.ad, T.adlen);
    gi_input(IN_MSG, T.m, T.mlen);
    gi_input(IN_CT, T.c, T.mlen);
    gi_length(IN_ADLEN, T.adlen);
    gi_length(IN_MLEN, T.mlen);
    model_encrypt(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, T.mlen, T.c);
}

void note_case(G *g)
{
    g_note(g, "adlen=%zu mlen=%zu ", T.adlen, T.mlen);
    g_hex(g, "key", T.k, 16);
    g_hex(g, "nonce", T.n, 16);
    g_hex(g, "ad", T.ad, T.adlen);
    g_hex(g, "m", T.m, T.mlen);
}
u64 case_hash(void)
{
    u64 h = h64(T.adlen * 0x10001 + 7, T.k, 16);
    h = h64(h ^ T.mlen, T.n, 16);
    h = h64(h, T.ad, T.adlen < 64 ? T.adlen : 64);
    return h64(h, T.m, T.mlen < 64 ? T.mlen : 64);
}
void classify(void)
{
    size_t r = model_rate(opt_alg);
    g_class(T.mlen == 0 ? "msg:empty" : T.mlen < r ? "msg:below one block" : T.mlen % r ? "msg:partial last block" : "msg:whole blocks");
    g_class(T.adlen == 0 ? "ad:empty" : T.adlen < r ? "ad:below one block" : T.adlen % r ? "ad:partial last block" : "ad:whole blocks");
    if (T.mlen > 1024 || T.adlen > 1024) g_class("long (>1 KiB)");
    if (T.mlen > 60000 || T.adlen > 60000) g_class("very long (>60 KB)");
    if (!memcmp(T.k, T.n, 16)) g_class("key equals nonce");
}

void gen_case(G *g, size_t maxlen)
{
    gen_lens(g, maxlen);
    gen_data(g);
    if (g->verbose) note_case(g);
    classify();
    g_mark(case_hash(), T.adlen > 0 || T.mlen > 0);
}

/* ------------------------------------------------------------- forgeries */
#define HOW(...) snprintf(X.how, sizeof X.how, __VA_ARGS__)
static void model_tag_variant(int which, u8 *tag)
{
    u8 t2[16];
    model_mac_t h;
    const u8 *c = T.c;
    switch (which) {
    case 0: /* no domain separation */
        model_mac_init(&h, opt_alg, T.n); model_mac_update(&h, T.ad, T.adlen); model_mac_pad(&h);
        model_mac_update(&h, c, T.mlen); model_mac_pad(&h); model_mac_final(&h, T.k, tag); break;
    case 1: /* AD and ciphertext concatenated */
        model_mac_init(&h, opt_alg, T.n); model_mac_update(&h, T.ad, T.adlen);
        model_mac_update(&h, c, T.mlen); model_mac_pad(&h); model_mac_final(&h, T.k, tag); break;
    case 2: /* empty AD */
        model_mac(opt_alg, T.k, T.n, T.ad, 0, c, T.mlen, tag); break;
    case 3: /* empty ciphertext */
        model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, c, 0, tag); break;
    case 4: /* over the plaintext instead of the ciphertext */
        model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, T.m, T.mlen, tag); break;
    case 5: /* roles swapped */
        model_mac(opt_alg, T.k, T.n, c, T.mlen, T.ad, T.adlen, tag); break;
    case 6: /* key and nonce swapped */
        model_mac(opt_alg, T.n, T.k, T.ad, T.adlen, c, T.mlen, tag); break;
    case 7: /* no second permutation: the derived key itself */
        model_mac_init(&h, opt_alg, T.n); model_mac_update(&h, T.ad, T.adlen); model_mac_pad(&h); model_mac_domain(&h);
        model_mac_update(&h, c, T.mlen); model_mac_pad(&h); model_rk(opt_alg, 2, T.k, h.st, tag, 16); break;
    case 8: /* the value fed to re-keying */
        model_mac_init(&h, opt_alg, T.n); model_mac_update(&h, T.ad, T.adlen); model_mac_pad(&h); model_mac_domain(&h);
        model_mac_update(&h, c, T.mlen); model_mac_pad(&h); memcpy(tag, h.st, 16); break;
    case 9: { /* last whole block of the ciphertext not absorbed */
        size_t r = model_rate(opt_alg);
        model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, c, T.mlen >= r ? T.mlen - r : 0, tag); break; }
    case 10: { /* only a prefix of the ciphertext absorbed */
        model_mac(opt_alg, T.k, T.n, T.ad, T.adlen, c, T.mlen / 2, tag); break; }
    case 11: { /* the encryption key schedule value */
        model_rk(opt_alg, 3, T.k, T.n, tag, 16); break; }
    case 12: { /* first half of another tag */
        memcpy(t2, T.n, 16); t2[15] ^= 1;
        model_mac(opt_alg, T.k, t2, T.ad, T.adlen, c, T.mlen, tag);
        memcpy(tag, T.c + T.mlen, 8); break; }
    default: { /* zero key */
        memset(t2, 0, 16);
        model_mac(opt_alg, t2, T.n, T.ad, T.adlen, c, T.mlen, tag); }
    }
}

static void tamper_tag(G *g, u8 *t)
{
    u8 d, o[16];
    int i, j;
    memcpy(o, t, 16);
    int walking = g->mode == G_RANDOM && g->idx % 4 == 0;   /* every 4th case walks through the tag bits */
    switch (walking ? g_put(g, 16, 0) : g_draw(g, 16)) {
    case 0: case 1: case 2:
        i = (int)(walking ? g_put(g, 128, (u32)(g->idx / 4 % 128)) : g_draw(g, 128)); t[i / 8] ^= (u8)(1 << (i % 8)); HOW("tag bit %d flipped", i); break;
    case 3: i = (int)g_draw(g, 16); d = (u8)(1 + g_draw(g, 255)); t[i] ^= d; HOW("tag byte %d xored with %02x", i, d); break;
    case 4: i = (int)g_draw(g, 16); j = (i + 1 + (int)g_draw(g, 15)) % 16; d = (u8)(1 + g_draw(g, 255));
        t[i] ^= d; t[j] ^= d; HOW("tag bytes %d and %d xored with %02x", i, j, d); break;
    case 5: i = (int)g_draw(g, 16); j = (i + 1 + (int)g_draw(g, 15)) % 16; d = (u8)(1 + g_draw(g, 255));
        t[i] = (u8)(t[i] + d); t[j] = (u8)(t[j] - d); HOW("tag byte %d plus %d, byte %d minus %d", i, d, j, d); break;
    case 6: { /* exactly n bytes differ */
        int n = 1 + (int)g_draw(g, 16), s = (int)g_draw(g, 16);
        d = (u8)(1 + g_draw(g, 255));
        u8 step = g_draw(g, 2) ? 0 : 1;
        for (i = 0; i < n; i++) { t[(s + i) % 16] ^= d; d = (u8)(d + step); if (!d) d = 1; }
        HOW("%d tag bytes from %d changed", n, s); break; }
    case 7: i = 1 + (int)g_draw(g, 15); for (j = 0; j < 16; j++) t[j] = o[(j + i) % 16]; HOW("tag rotated by %d", i); break;
    case 8: for (j = 0; j < 16; j++) t[j] = o[15 - j]; HOW("tag reversed"); break;
    case 9: i = (int)g_draw(g, 16); j = (i + 1 + (int)g_draw(g, 15)) % 16; d = t[i]; t[i] = t[j]; t[j] = d; HOW("tag bytes %d,%d swapped", i, j); break;
    case 10: { /* keep only part right */
        u8 r[16]; g_rand(g, r, 16);
        i = (int)g_draw(g, 16);
        if (g_draw(g, 2)) { for (j = i; j < 16; j++) t[j] = r[j]; HOW("tag right only in the first %d bytes", i); }
        else { for (j = 0; j < 16 - i; j++) t[j] = r[j]; HOW("tag right only in the last %d bytes", i); }
        break; }
    case 11: g_bytes(g, t, 16); HOW("tag replaced"); break;
    case 12: i = (int)g_draw(g, 14); model_tag_variant(i, t); HOW("tag replaced by related value %d", i); break;
    case 13: { /* multi-byte words changed consistently */
        u32 w = 1 + g_draw(g, 0xfffffffe); int sz = g_draw(g, 2) ? 4 : 8;
        i = (int)g_draw(g, 16 / sz); j = (i + 1 + (int)g_draw(g, 16 / sz - 1)) % (16 / sz);
        for (int b = 0; b < 4; b++) { t[sz * i + b] ^= (u8)(w >> 8 * b); t[sz * j + b] ^= (u8)(w >> 8 * b); }
        HOW("tag words %d,%d of %d bytes xored with %08x", i, j, sz, w); break; }
    case 14: { /* bytes moved by amounts that add up to a multiple of 256 */
        int n = 2 << g_draw(g, 3), s = (int)g_draw(g, 16);
        for (i = 0; i < n; i++) t[(s + i) % 16] = (u8)(t[(s + i) % 16] + 256 / n);
        HOW("%d tag bytes from %d increased by %d", n, s, 256 / n); break; }
    default: i = (int)g_draw(g, 16); t[i] = (u8)~t[i]; HOW("tag byte %d inverted", i);
    }
}

int tamper(G *g)
{
    size_t l;
    u32 i;
    u8 *tag;
    memcpy(X.k, T.k, 16);
    memcpy(X.n, T.n, 16);
    memcpy(X.ad, T.ad, T.adlen);
    memcpy(X.c, T.c, T.mlen + 16);
    X.adlen = T.adlen;
    X.clen = T.mlen + 16;
    tag = X.c + T.mlen;
    X.how[0] = 0;
    switch (g->mode == G_RANDOM && g->idx % 4 == 0 ? g_put(g, 24, 0) : g_draw(g, 24)) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7:
        tamper_tag(g, tag); g_class("forged:tag"); break;
    case 8: case 9:
        if (!T.mlen) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        i = g_draw(g, 4) == 0 ? (u32)T.mlen * 8 - 1 - g_draw(g, 16) % ((u32)T.mlen * 8) : g_draw(g, (u32)T.mlen * 8);
        X.c[i / 8] ^= (u8)(1 << (i % 8)); HOW("ciphertext bit %u flipped", i); g_class("forged:ciphertext bit"); break;
    case 10: /* ciphertext shortened, tag kept */
        if (!T.mlen) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        l = 1 + g_draw(g, (u32)(T.mlen < 40 ? T.mlen : 40));
        memmove(X.c + T.mlen - l, T.c + T.mlen, 16); X.clen -= l; HOW("ciphertext shortened by %zu, tag kept", l); g_class("forged:shortened"); break;
    case 11: { /* ciphertext lengthened, tag kept */
        l = 1 + g_draw(g, 40);
        u32 p = g_draw(g, 3);
        for (i = 0; i < l; i++) X.c[T.mlen + i] = p == 0 ? 0 : p == 1 ? (i ? 0 : 0x80) : (u8)(T.mlen ? T.c[i % T.mlen] : 0xaa);
        memcpy(X.c + T.mlen + l, T.c + T.mlen, 16); X.clen += l; HOW("ciphertext lengthened by %zu (%u), tag kept", l, p); g_class("forged:lengthened"); break; }
    case 12: /* cut at the end: the tag field moves */
        l = 1 + g_draw(g, (u32)(T.mlen < 24 ? T.mlen : 24));
        if (l > T.mlen) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        X.clen -= l; HOW("last %zu bytes cut off", l); g_class("forged:cut"); break;
    case 13: /* cut at the front */
        l = 1 + g_draw(g, (u32)(T.mlen < 24 ? T.mlen : 24));
        if (l > T.mlen) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        memmove(X.c, T.c + l, T.mlen + 16 - l); X.clen -= l; HOW("first %zu bytes cut off", l); g_class("forged:cut"); break;
    case 14: /* bytes appended after the tag */
        l = 1 + g_draw(g, 20); g_bytes(g, X.c + X.clen, l); X.clen += l; HOW("%zu bytes appended", l); g_class("forged:appended"); break;
    case 15: case 16:
        if (!T.adlen) { X.ad[0] = g_draw(g, 2) ? 0x80 : 0; X.adlen = 1; HOW("one byte of associated data added"); g_class("forged:ad added"); break; }
        i = g_draw(g, (u32)T.adlen * 8); X.ad[i / 8] ^= (u8)(1 << (i % 8)); HOW("associated data bit %u flipped", i); g_class("forged:ad bit"); break;
    case 17:
        if (!T.adlen) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        l = 1 + g_draw(g, (u32)(T.adlen < 40 ? T.adlen : 40)); X.adlen -= l; HOW("associated data shortened by %zu", l); g_class("forged:ad cut"); break;
    case 18: {
        l = 1 + g_draw(g, 40);
        u32 p = g_draw(g, 3);
        for (i = 0; i < l; i++) X.ad[T.adlen + i] = p == 0 ? 0 : p == 1 ? (i ? 0 : 0x80) : 0x5a;
        X.adlen += l; HOW("associated data lengthened by %zu (%u)", l, p); g_class("forged:ad added"); break; }
    case 19: /* boundary between associated data and ciphertext moved */
        if (g_draw(g, 2) && T.adlen) {
            l = 1 + g_draw(g, (u32)(T.adlen < 40 ? T.adlen : 40));
            memmove(X.c + l, T.c, T.mlen + 16); memcpy(X.c, T.ad + T.adlen - l, l); X.adlen -= l; X.clen += l;
            HOW("%zu bytes moved from associated data to ciphertext", l);
        } else if (T.mlen) {
            l = 1 + g_draw(g, (u32)(T.mlen < 40 ? T.mlen : 40));
            memcpy(X.ad + T.adlen, T.c, l); memmove(X.c, T.c + l, T.mlen + 16 - l); X.adlen += l; X.clen -= l;
            HOW("%zu bytes moved from ciphertext to associated data", l);
        } else { tamper_tag(g, tag); }
        g_class("forged:boundary moved"); break;
    case 20: i = g_draw(g, 128); X.n[i / 8] ^= (u8)(1 << (i % 8)); HOW("nonce bit %u flipped", i); g_class("forged:nonce"); break;
    case 21: i = g_draw(g, 128); X.k[i / 8] ^= (u8)(1 << (i % 8)); HOW("key bit %u flipped", i); g_class("forged:key"); break;
    case 22: { /* blocks exchanged, or a block changed twice so that sums cancel */
        size_t r = model_rate(opt_alg);
        if (T.mlen < 2 * r) { tamper_tag(g, tag); g_class("forged:tag"); break; }
        size_t nb = T.mlen / r, a = g_draw(g, (u32)nb), b = (a + 1 + g_draw(g, (u32)nb - 1)) % nb;
        if (g_draw(g, 2)) { memcpy(X.c + a * r, T.c + b * r, r); memcpy(X.c + b * r, T.c + a * r, r); HOW("blocks %zu,%zu exchanged", a, b); }
        else { u8 d = (u8)(1 + g_draw(g, 255)); size_t o = g_draw(g, (u32)r); X.c[a * r + o] ^= d; X.c[b * r + o] ^= d; HOW("blocks %zu,%zu xored with %02x at %zu", a, b, d, o); }
        g_class("forged:blocks"); break; }
    default: /* two independent changes */
        tamper_tag(g, tag);
        switch (g_draw(g, 3)) {
        case 0: if (T.mlen) X.c[g_draw(g, (u32)T.mlen)] ^= 1; break;
        case 1: if (T.adlen) X.ad[g_draw(g, (u32)T.adlen)] ^= 0x80; break;
        default: X.n[g_draw(g, 16)] ^= 0x10;
        }
        g_class("forged:tag and data");
    }
    if (X.clen >= 16) {
        gp_apply(IN_TAG, X.c + X.clen - 16, 16);
        gi_input(IN_TAG, X.c + X.clen - 16, 16);
    }
    if (g->verbose) g_note(g, "forgery: %s (adlen %zu, clen %zu) ", X.how, X.adlen, X.clen);
    if (X.clen < 16) return 1;
    if (X.clen == T.mlen + 16 && X.adlen == T.adlen && !memcmp(X.c, T.c, X.clen) && !memcmp(X.ad, T.ad, T.adlen) && !memcmp(X.n, T.n, 16) && !memcmp(X.k, T.k, 16)) {
        g_class("forged:turned out unchanged (skipped)");
        return 0;
    }
    u8 right[16];
    model_mac(opt_alg, X.k, X.n, X.ad, X.adlen, X.c, X.clen - 16, right);
    if (!memcmp(right, X.c + X.clen - 16, 16)) { g_class("forged:turned out genuine (skipped)"); return 0; }
    return 1;
}
