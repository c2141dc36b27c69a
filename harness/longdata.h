/* The fixed part of very long inputs: a 16 MiB pattern, repeated; and the key and nonce the
 * checkpoints belong to. Everything after L0(b) bytes of a 2^b-byte input is generated per case. */
#ifndef LONGDATA_H
#define LONGDATA_H
#include <stdint.h>
#define WIN (1u << 24)
#define L0(b) (((1ULL << (b)) - (1u << 20)) / 72 * 72)
static const uint8_t LK[16] = {0x10, 0x32, 0x54, 0x76, 0x98, 0xba, 0xdc, 0xfe, 1, 2, 3, 4, 5, 6, 7, 8};
static const uint8_t LN[16] = {0xf0, 0xe1, 0xd2, 0xc3, 0xb4, 0xa5, 0x96, 0x87, 8, 7, 6, 5, 4, 3, 2, 1};
static inline void long_pattern(uint8_t *w)
{
    uint64_t s = 0x1234567887654321ULL;
    for (uint32_t i = 0; i < WIN; i += 8) {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        z ^= z >> 31;
        for (int j = 0; j < 8; j++) w[i + j] = (uint8_t)(z >> 8 * j);
    }
}
enum { CK_AD, CK_C, CK_ENC, CK_MACENC, CK_HASH };
#endif
