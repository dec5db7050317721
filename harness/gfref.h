// Reference GF(2^w) arithmetic on arrays of bits (one bit per byte), straight from the definition.
#pragma once
#include <stdint.h>
#include <string.h>
static const int h_gf_mod[5][5] = {{4, 3, 1, 0, -1}, {4, 3, 1, 0, -1}, {7, 2, 1, 0, -1}, {7, 2, 1, 0, -1}, {10, 5, 2, 0, -1}};
static inline int h_gf_idx(int w) { return w == 8 ? 0 : w == 64 ? 1 : w == 128 ? 2 : w == 192 ? 3 : 4; }
static inline void h_unpack(uint8_t* bits, const uint8_t* bytes, int n) { for (int i = 0; i < n; i++) bits[i] = (bytes[i / 8] >> (i % 8)) & 1; }
static inline void h_pack(uint8_t* bytes, const uint8_t* bits, int n) { memset(bytes, 0, n / 8); for (int i = 0; i < n; i++) bytes[i / 8] |= (uint8_t)(bits[i] << (i % 8)); }
// product of polynomials of degree < wa and < wb, reduced
static inline void h_gf_mul(int w, uint8_t* out, const uint8_t* a, int wa, const uint8_t* b, int wb) {
  uint8_t p[512]; memset(p, 0, sizeof p);
  for (int i = 0; i < wa; i++) for (int j = 0; j < wb; j++) p[i + j] ^= a[i] & b[j];
  const int* m = h_gf_mod[h_gf_idx(w)];
  for (int k = 2 * w - 2; k >= w; k--) for (int e = 0; m[e] >= 0; e++) p[k - w + m[e]] ^= p[k];
  memcpy(out, p, w);
}
// multiplication by X
static inline void h_gf_dbl(int w, uint8_t* a) {
  uint8_t t = a[w - 1]; memmove(a + 1, a, w - 1); a[0] = 0;
  const int* m = h_gf_mod[h_gf_idx(w)];
  for (int e = 0; m[e] >= 0; e++) a[m[e]] ^= t;
}
// generator of the subfield GF(2^8) in GF(2^w): image of X (FAEST specification)
static const uint8_t h_alpha128[16] = {0x0d, 0xce, 0x60, 0x55, 0xac, 0xe8, 0x3f, 0xa1, 0x1c, 0x9a, 0x97, 0xa9, 0x55, 0x85, 0x3d, 0x05};
static const uint8_t h_alpha192[24] = {0x63, 0x97, 0x38, 0x6f, 0xd5, 0xa3, 0xc8, 0xcc, 0xea, 0xbd, 0x6e, 0x96, 0x6c, 0xd7, 0x65, 0xe6, 0x62, 0x36, 0x6b, 0x0e, 0x14, 0xc8, 0x0b, 0x31};
static const uint8_t h_alpha256[32] = {0xe7, 0xfe, 0xde, 0x0b, 0x42, 0x88, 0x97, 0x96, 0x67, 0x4e, 0x47, 0xa0, 0x38, 0x8d, 0xd6, 0xbe, 0x6a, 0xe1, 0xf1, 0xf8, 0x45, 0x98, 0x22, 0xdf, 0x33, 0x58, 0xc9, 0x20, 0xcf, 0xa8, 0xc9, 0x04};
static inline const uint8_t* h_alpha(int w) { return w == 128 ? h_alpha128 : w == 192 ? h_alpha192 : h_alpha256; }
// alpha^i, i < 8, as bits
static inline void h_alpha_pow(int w, int i, uint8_t* out) {
  uint8_t a[256], r[256]; h_unpack(a, h_alpha(w), w); memset(r, 0, sizeof r); r[0] = 1;
  for (; i > 0; i--) { uint8_t t[256]; h_gf_mul(w, t, r, w, a, w); memcpy(r, t, w); }
  memcpy(out, r, w);
}
