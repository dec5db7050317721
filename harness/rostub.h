// The PRG and the four random oracles as uninterpreted functions of everything they are given (C19, C20 decide what they are).
// One stream of output per input string: outputs of different lengths are prefixes of each other.
#pragma once
#include "fsym.h"
#include <string.h>
#include "random_oracle.h"
#include "aes.h"
#include "instances.h"
static int h_lev(unsigned bits) { return bits == 128 ? 0 : bits == 192 ? 1 : 2; }
static int h_new(int o, unsigned bits) {
  switch (o * 3 + h_lev(bits)) {
    case 0: return fs_sp_new("H0_128"); case 1: return fs_sp_new("H0_192"); case 2: return fs_sp_new("H0_256");
    case 3: return fs_sp_new("H1_128"); case 4: return fs_sp_new("H1_192"); case 5: return fs_sp_new("H1_256");
    case 6: return fs_sp_new("H2_128"); case 7: return fs_sp_new("H2_192"); case 8: return fs_sp_new("H2_256");
    case 9: return fs_sp_new("H3_128"); case 10: return fs_sp_new("H3_192"); case 11: return fs_sp_new("H3_256");
    case 12: return fs_sp_new("PRG_128"); case 13: return fs_sp_new("PRG_192"); default: return fs_sp_new("PRG_256");
  }
}
static void h_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned bits, size_t n) { int h = h_new(4, bits); fs_sp_add(h, key, bits / 8); fs_sp_add(h, iv, IV_SIZE); fs_sp_out(h, out, 0, n); }
#ifndef RO_NO_PRG
void fsr_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int bits, size_t n) {
  uint8_t k[32], v[16]; fs_assert(bits == 128 || bits == 192 || bits == 256, "generator security level"); memcpy(k, key, bits / 8); memcpy(v, iv, 16);
  h_prg(k, v, out, bits, n);
}
#endif
static void h_put(void* c, int i, int h) { memcpy((uint8_t*)c + 4 * i, &h, 4); }
static int h_get(const void* c, int i) { int h; memcpy(&h, (const uint8_t*)c + 4 * i, 4); return h; }
void fsr_H0_init(H0_context_t* c, unsigned s) { h_put(c, 0, h_new(0, s)); }
void fsr_H0_update(H0_context_t* c, const uint8_t* p, size_t n) { fs_sp_add(h_get(c, 0), p, n); }
void fsr_H0_final(H0_context_t* c, uint8_t* sd, size_t sn, uint8_t* com, size_t cn) { fs_sp_out(h_get(c, 0), sd, 0, sn); fs_sp_out(h_get(c, 0), com, sn, cn); }
void fsr_H0_x4_init(H0_context_x4_t* c, unsigned s) { for (int i = 0; i < 4; i++) h_put(c, i, h_new(0, s)); }
void fsr_H0_x4_update(H0_context_x4_t* c, const uint8_t* a, const uint8_t* b, const uint8_t* d, const uint8_t* e, size_t n) { fs_sp_add(h_get(c, 0), a, n); fs_sp_add(h_get(c, 1), b, n); fs_sp_add(h_get(c, 2), d, n); fs_sp_add(h_get(c, 3), e, n); }
void fsr_H0_x4_final(H0_context_x4_t* c, uint8_t* s0, uint8_t* s1, uint8_t* s2, uint8_t* s3, size_t sn, uint8_t* c0, uint8_t* c1, uint8_t* c2, uint8_t* c3, size_t cn) {
  uint8_t *s[4] = {s0, s1, s2, s3}, *m[4] = {c0, c1, c2, c3};
  for (int i = 0; i < 4; i++) { fs_sp_out(h_get(c, i), s[i], 0, sn); fs_sp_out(h_get(c, i), m[i], sn, cn); }
}
#ifndef RO_NO_H
void fsr_H1_init(H1_context_t* c, unsigned s) { h_put(c, 0, h_new(1, s)); }
void fsr_H1_update(H1_context_t* c, const uint8_t* p, size_t n) { fs_sp_add(h_get(c, 0), p, n); }
void fsr_H1_final(H1_context_t* c, uint8_t* d, size_t n) { fs_sp_out(h_get(c, 0), d, 0, n); }
void fsr_H2_init(H2_context_t* c, unsigned s) { h_put(c, 0, h_new(2, s)); }
void fsr_H2_update(H2_context_t* c, const uint8_t* p, size_t n) { fs_sp_add(h_get(c, 0), p, n); }
void fsr_H2_final(H2_context_t* c, uint8_t* d, size_t n) { fs_sp_out(h_get(c, 0), d, 0, n); }
void fsr_H3_init(H3_context_t* c, unsigned s) { h_put(c, 0, h_new(3, s)); }
void fsr_H3_update(H3_context_t* c, const uint8_t* p, size_t n) { fs_sp_add(h_get(c, 0), p, n); }
void fsr_H3_final(H3_context_t* c, uint8_t* d, size_t n, uint8_t* iv) { fs_sp_out(h_get(c, 0), d, 0, n); fs_sp_out(h_get(c, 0), iv, n, IV_SIZE); }
#endif
// reference: leaf and commitment hashes
static void h_leaf(unsigned bits, const uint8_t* node, const uint8_t* iv, uint8_t* sd, uint8_t* com) { unsigned n = bits / 8; int h = h_new(0, bits); fs_sp_add(h, node, n); fs_sp_add(h, iv, 16); fs_sp_out(h, sd, 0, n); fs_sp_out(h, com, n, 2 * n); }
