/* Independent executable model of ISAP v2.0 (all four instances) and Ascon-Hash,
 * written from the specification, not from /repo. Byte-oriented and simple. */
#ifndef MODEL_H
#define MODEL_H
#include <stddef.h>
#include <stdint.h>

enum { ALG_A128A = 0, ALG_A128 = 1, ALG_K128A = 2, ALG_K128 = 3 };
extern const char *const model_alg_name[4];

typedef struct { uint8_t b[50]; } mstate;          /* 40 bytes used for Ascon */

size_t model_rate(int alg);                          /* bytes: 8 or 18 */
size_t model_state(int alg);                         /* bytes: 40 or 50 */
void model_perm(int alg, uint8_t *st, int rounds);
void model_rk(int alg, int ivtype, const uint8_t k[16], const uint8_t y[16], uint8_t *out, size_t outlen);

/* incremental MAC */
typedef struct { int alg; uint8_t st[50]; size_t pos; } model_mac_t;
void model_mac_init(model_mac_t *h, int alg, const uint8_t npub[16]);
void model_mac_update(model_mac_t *h, const uint8_t *p, uint64_t n);
void model_mac_pad(model_mac_t *h);
void model_mac_domain(model_mac_t *h);
void model_mac_final(model_mac_t *h, const uint8_t k[16], uint8_t tag[16]);

/* incremental keystream */
typedef struct { int alg; uint8_t st[50]; size_t pos; } model_enc_t;
void model_enc_init(model_enc_t *e, int alg, const uint8_t k[16], const uint8_t npub[16]);
void model_enc_update(model_enc_t *e, const uint8_t *in, uint8_t *out, uint64_t n);

void model_mac(int alg, const uint8_t k[16], const uint8_t n[16], const uint8_t *ad, uint64_t adlen,
               const uint8_t *c, uint64_t clen, uint8_t tag[16]);
void model_encrypt(int alg, const uint8_t k[16], const uint8_t n[16], const uint8_t *ad, uint64_t adlen,
                   const uint8_t *m, uint64_t mlen, uint8_t *c /* mlen+16 */);
/* incremental hash */
typedef struct { uint8_t st[40]; size_t pos; } model_hash_t;
void model_hash_init(model_hash_t *h);
void model_hash_update(model_hash_t *h, const uint8_t *p, uint64_t n);
void model_hash_final(model_hash_t *h, uint8_t out[32]);
void model_hash(const uint8_t *in, uint64_t n, uint8_t out[32]);
#endif
