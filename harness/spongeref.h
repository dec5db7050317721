// SHAKE over an arbitrary permutation: stubs for the permutation of the code under test, and the reference sponge.
#pragma once
#include "fsym.h"
#include <string.h>
#include "hash_shake.h"
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"
static int h_big; static unsigned h_rate;
static void h_f(uint8_t* s) { uint8_t o[200]; fs_uf("keccakf", o, 200, s, 200); memcpy(s, o, 200); }
// the permutation is any function of the 200 state bytes (C18 decides which one it is)
void fsr_KeccakP1600_Permute_24rounds(void* st) {
  if (h_big) return;
  uint8_t s[200]; KeccakP1600_ExtractBytes(st, s, 0, 200); h_f(s); KeccakP1600_Initialize(st); KeccakP1600_AddBytes(st, s, 0, 200);
}
void fsr_KeccakP1600_AddBytes(void* st, const unsigned char* d, unsigned off, unsigned len) {
  if (!h_big) { KeccakP1600_AddBytes(st, d, off, len); return; }
  fs_assert(len > 0 && off < h_rate && len <= h_rate - off, "update writes outside the rate part of the state");
  fs_cover("big"); fs_assume(0);
}
void fsr_KeccakP1600_ExtractBytes(const void* st, unsigned char* d, unsigned off, unsigned len) {
  if (!h_big) { KeccakP1600_ExtractBytes(st, d, off, len); return; }
  fs_assert(len > 0 && off < h_rate && len <= h_rate - off, "read outside the rate part of the state");
  fs_cover("big"); fs_assume(0);
}
#ifdef KeccakF1600_FastLoop_supported
size_t fsr_KeccakF1600_FastLoop_Absorb(void* st, unsigned lanes, const unsigned char* d, size_t n) {
  size_t o = 0;
  if (h_big) { fs_cover("big"); fs_assume(0); return n; }
  for (; n - o >= lanes * 8; o += lanes * 8) { KeccakP1600_AddBytes(st, d + o, 0, lanes * 8); fsr_KeccakP1600_Permute_24rounds(st); }
  return o;
}
#endif
static void h_shake(unsigned rate, const uint8_t* m, size_t n, uint8_t* out, size_t outlen) {
  uint8_t s[200] = {0}; size_t i = 0;
  for (; n - i >= rate; i += rate) { for (unsigned k = 0; k < rate; k++) s[k] ^= m[i + k]; h_f(s); }
  for (unsigned k = 0; k < n - i; k++) s[k] ^= m[i + k];
  s[n - i] ^= 0x1f; s[rate - 1] ^= 0x80; h_f(s);
  for (i = 0; i < outlen; i++) { if (i && i % rate == 0) h_f(s); out[i] = s[i % rate]; }
}
