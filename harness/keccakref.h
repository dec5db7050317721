// Keccak-f[1600] as in FIPS 202 (step mappings theta, rho, pi, chi, iota on the 5x5 array of lanes).
#pragma once
#include <stdint.h>
#include <string.h>
#include "fsym.h"
static inline uint64_t h_rotl(uint64_t v, unsigned n) { n &= 63; return n ? (v << n) | (v >> (64 - n)) : v; }
static inline int h_rcbit(unsigned t) {  // LFSR of the specification, x^8+x^6+x^5+x^4+1
  unsigned r = 1;
  for (unsigned i = 0; i < t % 255; i++) { r <<= 1; if (r & 0x100) r ^= 0x171; }
  return r & 1;
}
static inline void h_keccakf(uint64_t* a, unsigned rounds) {
  for (unsigned rnd = 24 - rounds; rnd < 24; rnd++) {
    uint64_t c[5], b[25];
    for (unsigned x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (unsigned x = 0; x < 5; x++) for (unsigned y = 0; y < 5; y++) a[x + 5 * y] ^= c[(x + 4) % 5] ^ h_rotl(c[(x + 1) % 5], 1);
    unsigned x = 1, y = 0, off[25]; off[0] = 0;
    for (unsigned t = 0; t < 24; t++) { off[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64; unsigned ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
    for (unsigned x2 = 0; x2 < 5; x2++) for (unsigned y2 = 0; y2 < 5; y2++) b[y2 + 5 * ((2 * x2 + 3 * y2) % 5)] = h_rotl(a[x2 + 5 * y2], off[x2 + 5 * y2]);
    for (unsigned y2 = 0; y2 < 5; y2++) for (unsigned x2 = 0; x2 < 5; x2++) a[x2 + 5 * y2] = b[x2 + 5 * y2] ^ (~b[(x2 + 1) % 5 + 5 * y2] & b[(x2 + 2) % 5 + 5 * y2]);
    for (unsigned j = 0; j <= 6; j++) if (h_rcbit(j + 7 * rnd)) a[0] ^= 1ull << ((1u << j) - 1);
  }
}
static inline void h_keccakf_bytes(uint8_t* s, unsigned rounds) { uint64_t a[25]; memcpy(a, s, 200); h_keccakf(a, rounds); memcpy(s, a, 200); }
