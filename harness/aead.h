/* The interface under test (the NIST LWC API), declared here independently of /repo. */
#ifndef AEAD_H
#define AEAD_H
#include "engine.h"
#include "model.h"
int crypto_aead_encrypt(unsigned char *c, unsigned long long *clen, const unsigned char *m, unsigned long long mlen,
                        const unsigned char *ad, unsigned long long adlen, const unsigned char *nsec,
                        const unsigned char *npub, const unsigned char *k);
int crypto_aead_decrypt(unsigned char *m, unsigned long long *mlen, unsigned char *nsec, const unsigned char *c,
                        unsigned long long clen, const unsigned char *ad, unsigned long long adlen,
                        const unsigned char *npub, const unsigned char *k);
int crypto_hash(unsigned char *out, const unsigned char *in, unsigned long long inlen);

#define MAXLEN ((1u << 20) + 4096)
#define SPARE 4096                       /* room behind every buffer, for longer forgeries and offsets */
typedef struct {
    size_t adlen, mlen;
    u8 *k, *n, *ad, *m, *c;          /* c: genuine ciphertext, mlen + 16 bytes (from the model) */
    u32 oo;                          /* offset for the output */
} aead_t;
extern aead_t T;
void aead_init(void);
void gen_place(G *g);                /* where the buffers of T and X lie: mostly aligned, else at drawn offsets */
u32 gen_offset(G *g);
void gen_case(G *g, size_t maxlen);  /* fills T from choices */
void gen_lens(G *g, size_t maxlen);
void gen_data(G *g);
void dirty_stack(u8 v);
void note_case(G *g);
u64 case_hash(void);
void classify(void);
int tamper(G *g);                    /* fills X from T; returns 0 if the result happens to be genuine */
typedef struct {
    size_t adlen, clen;
    u8 *k, *n, *ad, *c;
    char how[96];
} forged_t;
extern forged_t X;
#endif
