/* Writes the LWC KAT files from the model; compared with the committed official vectors by setup. */
#include "model.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void hex(const char *l, const uint8_t *p, size_t n)
{
    printf("%s", l);
    for (size_t i = 0; i < n; i++) printf("%02X", p[i]);
    printf("\n");
}
int main(int argc, char **argv)
{
    uint8_t b[1100], c[100], d[32];
    for (int i = 0; i < 1100; i++) b[i] = (uint8_t)i;
    if (argc > 1 && !strcmp(argv[1], "hash")) {
        for (int n = 0; n <= 1024; n++) {
            model_hash(b, n, d);
            printf("Count = %d\n", n + 1); hex("Msg = ", b, n); hex("MD = ", d, 32); printf("\n");
        }
        return 0;
    }
    int alg = atoi(argv[1]), count = 1;
    for (int ml = 0; ml <= 32; ml++)
        for (int al = 0; al <= 32; al++) {
            model_encrypt(alg, b, b, b, al, b, ml, c);
            printf("Count = %d\n", count++);
            hex("Key = ", b, 16); hex("Nonce = ", b, 16); hex("PT = ", b, ml); hex("AD = ", b, al); hex("CT = ", c, ml + 16);
            printf("\n");
        }
    return 0;
}
