#include "model.h"
#include <string.h>

const char *const model_alg_name[4] = {"isapa128av20", "isapa128v20", "isapk128av20", "isapk128v20"};

typedef struct { int keccak, rate, sH, sB, sE, sK, rbits; } par_t;
static const par_t PAR[4] = {
    {0, 8, 12, 1, 6, 12, 64},
    {0, 8, 12, 12, 12, 12, 64},
    {1, 18, 16, 1, 8, 8, 144},
    {1, 18, 20, 12, 12, 12, 144},
};

size_t model_rate(int alg) { return PAR[alg].rate; }
size_t model_state(int alg) { return PAR[alg].keccak ? 50 : 40; }

/* ---- Ascon-p, big-endian words ---- */
static uint64_t ror(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static uint64_t be(const uint8_t *b)
{
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) v = (v << 8) | b[i];
    return v;
}
static void eb(uint8_t *b, uint64_t v)
{
    for (int i = 7; i >= 0; i--) { b[i] = (uint8_t)v; v >>= 8; }
}
static void ascon(uint8_t *st, int rounds)
{
    uint64_t x[5], t[5];
    for (int i = 0; i < 5; i++) x[i] = be(st + 8 * i);
    for (int r = 12 - rounds; r < 12; r++) {
        x[2] ^= (uint64_t)(((15 - r) << 4) | r);
        x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];
        for (int i = 0; i < 5; i++) t[i] = ~x[i] & x[(i + 1) % 5];
        for (int i = 0; i < 5; i++) x[i] ^= t[(i + 1) % 5];
        x[1] ^= x[0]; x[0] ^= x[4]; x[3] ^= x[2]; x[2] = ~x[2];
        x[0] ^= ror(x[0], 19) ^ ror(x[0], 28);
        x[1] ^= ror(x[1], 61) ^ ror(x[1], 39);
        x[2] ^= ror(x[2], 1) ^ ror(x[2], 6);
        x[3] ^= ror(x[3], 10) ^ ror(x[3], 17);
        x[4] ^= ror(x[4], 7) ^ ror(x[4], 41);
    }
    for (int i = 0; i < 5; i++) eb(st + 8 * i, x[i]);
}

/* ---- Keccak-p[400], little-endian 16-bit lanes, lane (x,y) at index x+5y ---- */
static uint16_t RC[20];
static int ROT[25];
static int kinit;
static void keccak_tables(void)
{
    if (kinit) return;
    uint8_t lfsr = 1;
    for (int i = 0; i < 20; i++) {
        uint64_t rc = 0;
        for (int j = 0; j < 7; j++) {
            int bit = (1 << j) - 1;
            if (lfsr & 1) rc ^= 1ULL << bit;
            lfsr = (lfsr & 0x80) ? (uint8_t)((lfsr << 1) ^ 0x71) : (uint8_t)(lfsr << 1);
        }
        RC[i] = (uint16_t)rc;
    }
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
        ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 16;
        int ny = (2 * x + 3 * y) % 5;
        x = y; y = ny;
    }
    kinit = 1;
}
static uint16_t rol16(uint16_t v, int n) { n &= 15; return n ? (uint16_t)((v << n) | (v >> (16 - n))) : v; }
static void keccak(uint8_t *st, int rounds)
{
    uint16_t a[25], b[25], c[5], d[5];
    keccak_tables();
    for (int i = 0; i < 25; i++) a[i] = (uint16_t)(st[2 * i] | (st[2 * i + 1] << 8));
    for (int r = 20 - rounds; r < 20; r++) {
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rol16(c[(x + 1) % 5], 1);
        for (int i = 0; i < 25; i++) a[i] ^= d[i % 5];
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol16(a[x + 5 * y], ROT[x + 5 * y]);
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        a[0] ^= RC[r];
    }
    for (int i = 0; i < 25; i++) { st[2 * i] = (uint8_t)a[i]; st[2 * i + 1] = (uint8_t)(a[i] >> 8); }
}

void model_perm(int alg, uint8_t *st, int rounds)
{
    if (PAR[alg].keccak) keccak(st, rounds); else ascon(st, rounds);
}

static void iv8(int alg, int type, uint8_t *o)
{
    const par_t *p = &PAR[alg];
    const uint8_t v[8] = {(uint8_t)type, 128, (uint8_t)p->rbits, 1, (uint8_t)p->sH, (uint8_t)p->sB, (uint8_t)p->sE, (uint8_t)p->sK};
    memcpy(o, v, 8);
}

void model_rk(int alg, int ivtype, const uint8_t k[16], const uint8_t y[16], uint8_t *out, size_t outlen)
{
    const par_t *p = &PAR[alg];
    uint8_t st[50] = {0};
    memcpy(st, k, 16);
    iv8(alg, ivtype, st + 16);
    model_perm(alg, st, p->sK);
    for (int i = 0; i < 128; i++) {
        st[0] ^= (uint8_t)(((y[i / 8] >> (7 - i % 8)) & 1) << 7);
        model_perm(alg, st, i == 127 ? p->sK : p->sB);
    }
    memcpy(out, st, outlen);
}

void model_mac_init(model_mac_t *h, int alg, const uint8_t npub[16])
{
    memset(h, 0, sizeof *h);
    h->alg = alg;
    memcpy(h->st, npub, 16);
    iv8(alg, 1, h->st + 16);
    model_perm(alg, h->st, PAR[alg].sH);
}
void model_mac_update(model_mac_t *h, const uint8_t *p, uint64_t n)
{
    size_t r = PAR[h->alg].rate;
    while (n--) {
        h->st[h->pos++] ^= *p++;
        if (h->pos == r) { model_perm(h->alg, h->st, PAR[h->alg].sH); h->pos = 0; }
    }
}
void model_mac_pad(model_mac_t *h)
{
    h->st[h->pos] ^= 0x80;
    model_perm(h->alg, h->st, PAR[h->alg].sH);
    h->pos = 0;
}
void model_mac_domain(model_mac_t *h) { h->st[model_state(h->alg) - 1] ^= 1; }
void model_mac_final(model_mac_t *h, const uint8_t k[16], uint8_t tag[16])
{
    uint8_t ka[16];
    model_rk(h->alg, 2, k, h->st, ka, 16);
    memcpy(h->st, ka, 16);
    model_perm(h->alg, h->st, PAR[h->alg].sH);
    memcpy(tag, h->st, 16);
}
void model_mac(int alg, const uint8_t k[16], const uint8_t n[16], const uint8_t *ad, uint64_t adlen,
               const uint8_t *c, uint64_t clen, uint8_t tag[16])
{
    model_mac_t h;
    model_mac_init(&h, alg, n);
    model_mac_update(&h, ad, adlen);
    model_mac_pad(&h);
    model_mac_domain(&h);
    model_mac_update(&h, c, clen);
    model_mac_pad(&h);
    model_mac_final(&h, k, tag);
}

void model_enc_init(model_enc_t *e, int alg, const uint8_t k[16], const uint8_t npub[16])
{
    size_t sz = model_state(alg);
    memset(e, 0, sizeof *e);
    e->alg = alg;
    model_rk(alg, 3, k, npub, e->st, sz - 16);
    memcpy(e->st + sz - 16, npub, 16);
    e->pos = PAR[alg].rate;
}
void model_enc_update(model_enc_t *e, const uint8_t *in, uint8_t *out, uint64_t n)
{
    size_t r = PAR[e->alg].rate;
    while (n--) {
        if (e->pos == r) { model_perm(e->alg, e->st, PAR[e->alg].sE); e->pos = 0; }
        *out++ = *in++ ^ e->st[e->pos++];
    }
}
void model_encrypt(int alg, const uint8_t k[16], const uint8_t n[16], const uint8_t *ad, uint64_t adlen,
                   const uint8_t *m, uint64_t mlen, uint8_t *c)
{
    model_enc_t e;
    model_enc_init(&e, alg, k, n);
    model_enc_update(&e, m, c, mlen);
    model_mac(alg, k, n, ad, adlen, c, mlen, c + mlen);
}

void model_hash_init(model_hash_t *h)
{
    static const uint8_t iv[8] = {0x00, 0x40, 0x0c, 0x00, 0x00, 0x00, 0x01, 0x00};
    memset(h, 0, sizeof *h);
    memcpy(h->st, iv, 8);
    ascon(h->st, 12);
}
void model_hash_update(model_hash_t *h, const uint8_t *p, uint64_t n)
{
    while (n--) {
        h->st[h->pos++] ^= *p++;
        if (h->pos == 8) { ascon(h->st, 12); h->pos = 0; }
    }
}
void model_hash_final(model_hash_t *h, uint8_t out[32])
{
    h->st[h->pos] ^= 0x80;
    for (int i = 0; i < 4; i++) { ascon(h->st, 12); memcpy(out + 8 * i, h->st, 8); }
}
void model_hash(const uint8_t *in, uint64_t n, uint8_t out[32])
{
    model_hash_t h;
    model_hash_init(&h);
    model_hash_update(&h, in, n);
    model_hash_final(&h, out);
}
