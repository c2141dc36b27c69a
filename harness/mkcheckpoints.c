/* mkcheckpoints ALG: prints the model's state after L0(31) and L0(32) bytes of the long pattern, as C
 * initialisers for checkpoints.h. ALG 4 is the hash. Takes minutes; run once (see DESIGN.md). */
#include "model.h"
#include "longdata.h"
#include <stdio.h>
#include <stdlib.h>
static void out(int alg, int kind, int b, const uint8_t *st, int n)
{
    printf("{%d, %d, %d, {", alg, kind, b);
    for (int i = 0; i < n; i++) printf("%d,", st[i]);
    printf("}},\n");
    fflush(stdout);
}
int main(int argc, char **argv)
{
    int alg = atoi(argv[1]);
    static const uint8_t z[1];
    uint8_t *w = malloc(WIN), *c = malloc(WIN);
    long_pattern(w);
    model_mac_t a, m, x;
    model_enc_t e;
    model_hash_t h;
    if (alg == 4) model_hash_init(&h);
    else {
        model_mac_init(&a, alg, LN);
        model_mac_init(&m, alg, LN); model_mac_update(&m, z, 0); model_mac_pad(&m); model_mac_domain(&m);
        x = m;
        model_enc_init(&e, alg, LK, LN);
    }
    (void)argc;
    uint64_t at = 0;
    for (int b = 31; b <= 32; b++) {
        while (at < L0(b)) {
            uint64_t o = at % WIN, n = WIN - o;
            if (n > L0(b) - at) n = L0(b) - at;
            if (alg == 4) model_hash_update(&h, w + o, n);
            else {
                model_mac_update(&a, w + o, n);
                model_mac_update(&m, w + o, n);
                model_enc_update(&e, w + o, c, n);
                model_mac_update(&x, c, n);
            }
            at += n;
        }
        if (alg == 4) { out(4, CK_HASH, b, h.st, 40); continue; }
        int n = (int)model_state(alg);
        out(alg, CK_AD, b, a.st, n);
        out(alg, CK_C, b, m.st, n);
        out(alg, CK_ENC, b, e.st, n);       /* a whole number of blocks has been used: pos is the rate */
        out(alg, CK_MACENC, b, x.st, n);
    }
    return 0;
}
