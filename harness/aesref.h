// Reference AES / Rijndael (FIPS-197 and the Rijndael specification). The GF(2^8) inversion is one function shared
// with the code under test (stub fsr_bf8_inv below; C12 shows that the real bf8_inv is the inversion).
#pragma once
#include <stdint.h>
#include <string.h>
#include "fsym.h"
static inline uint8_t h_inv(uint8_t x) { uint8_t r; fs_uf("inv", &r, 1, &x, 1); return r; }
uint8_t fsr_bf8_inv(uint8_t x) { return h_inv(x); }
static inline uint8_t h_sbox(uint8_t x) {
  uint8_t b = h_inv(x), r = 0;
  for (int i = 0; i < 8; i++) r |= (uint8_t)((((b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ (b >> ((i + 7) % 8)) ^ (0x63 >> i)) & 1) << i);
  return r;
}
static inline uint8_t h_xtime(uint8_t x) { return (uint8_t)((x << 1) ^ (0x1b & (uint8_t)(0 - (x >> 7)))); }
// key schedule: words w[0 .. nb*(nr+1)), returns 1 iff some S-box input is zero
static inline int h_expand(uint8_t (*w)[4], const uint8_t* key, unsigned nk, unsigned nb, unsigned nr) {
  int z = 0; uint8_t rc = 1;
  for (unsigned i = 0; i < nk; i++) memcpy(w[i], key + 4 * i, 4);
  for (unsigned i = nk; i < nb * (nr + 1); i++) {
    uint8_t t[4]; memcpy(t, w[i - 1], 4);
    if (i % nk == 0) {
      uint8_t q = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = q;
      for (int k = 0; k < 4; k++) { z |= t[k] == 0; t[k] = h_sbox(t[k]); }
      t[0] ^= rc; rc = h_xtime(rc);
    } else if (nk > 6 && i % nk == 4) for (int k = 0; k < 4; k++) { z |= t[k] == 0; t[k] = h_sbox(t[k]); }
    for (int k = 0; k < 4; k++) w[i][k] = w[i - nk][k] ^ t[k];
  }
  return z;
}
typedef void (*h_roundcb)(unsigned round, const uint8_t* afterShiftRows, unsigned n);
// encryption; cb sees the state after ShiftRows of every round
static inline int h_encrypt(uint8_t (*w)[4], const uint8_t* in, uint8_t* out, unsigned nb, unsigned nr, h_roundcb cb) {
  uint8_t s[32], t[32]; int z = 0;
  static const unsigned sh[3][4] = {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 3, 4}};
  for (unsigned i = 0; i < 4 * nb; i++) s[i] = in[i] ^ w[i / 4][i % 4];
  for (unsigned r = 1; r <= nr; r++) {
    for (unsigned i = 0; i < 4 * nb; i++) { z |= s[i] == 0; s[i] = h_sbox(s[i]); }
    for (unsigned c = 0; c < nb; c++) for (unsigned q = 0; q < 4; q++) t[4 * c + q] = s[4 * ((c + sh[nb / 2 - 2][q]) % nb) + q];
    if (cb) cb(r, t, 4 * nb);
    for (unsigned c = 0; c < nb; c++) for (unsigned q = 0; q < 4; q++) {
      uint8_t v = t[4 * c + q];
      if (r < nr) v = h_xtime(t[4 * c + q]) ^ h_xtime(t[4 * c + (q + 1) % 4]) ^ t[4 * c + (q + 1) % 4] ^ t[4 * c + (q + 2) % 4] ^ t[4 * c + (q + 3) % 4];
      s[4 * c + q] = v ^ w[nb * r + c][q];
    }
  }
  memcpy(out, s, 4 * nb);
  return z;
}
