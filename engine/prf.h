// Pseudo-random stand-ins used for uninterpreted functions in simulation and replay (C and C++).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static inline uint64_t fsp_mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; h ^= h >> 31;
  return h;
}
static inline uint64_t fsp_seed(const char* name, uint64_t block, const uint8_t* in, size_t n) {
  uint64_t h = 0x1234567ull + block * 0x9E3779B97F4A7C15ull;
  for (; *name; name++) h = fsp_mix(h, (uint8_t)*name);
  h = fsp_mix(h, n);
  for (size_t i = 0; i < n; i++) h = fsp_mix(h, in[i]);
  return h;
}
static inline void fsp_out(uint64_t h, uint8_t* out, size_t n) {
  for (size_t i = 0; i < n; i++) out[i] = (uint8_t)(fsp_mix(h, i) >> 13);
}
// linear stand-in: xor over set bits j of x of prf(name,key,j)
static inline void fsp_lin(const char* name, const uint8_t* key, size_t kn, const uint8_t* x, size_t xn, uint8_t* out, size_t n) {
  uint64_t h = fsp_seed(name, 77, key, kn);
  memset(out, 0, n);
  for (size_t j = 0; j < xn * 8; j++) if (x[j / 8] >> (j % 8) & 1) {
    uint64_t g = fsp_mix(h, j);
    for (size_t i = 0; i < n; i++) out[i] ^= (uint8_t)(fsp_mix(g, i) >> 11);
  }
}
// GF(2^w), w = 64/128/192/256, little-endian words
static inline uint64_t fsp_gfpoly(unsigned w) { return w == 64 ? 0x1b : w == 128 ? 0x87 : w == 192 ? 0x87 : 0x425; }
static inline void fsp_gfmul(unsigned w, uint64_t* r, const uint64_t* a, const uint64_t* b) {
  unsigned n = w / 64; uint64_t t[4], acc[4] = {0, 0, 0, 0};
  for (unsigned i = 0; i < n; i++) t[i] = a[i];
  for (unsigned i = 0; i < w; i++) {
    if (b[i / 64] >> (i % 64) & 1) for (unsigned k = 0; k < n; k++) acc[k] ^= t[k];
    uint64_t top = t[n - 1] >> 63;
    for (unsigned k = n - 1; k > 0; k--) t[k] = t[k] << 1 | t[k - 1] >> 63;
    t[0] <<= 1;
    if (top) t[0] ^= fsp_gfpoly(w);
  }
  for (unsigned i = 0; i < n; i++) r[i] = acc[i];
}
