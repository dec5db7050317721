// C18: Keccak-f[1600] permutations and state access, against FIPS 202.
#include "keccakref.h"
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"
#include "sha3/align.h"
#ifndef FULL
#define FULL 0
#endif
// 32 spare bytes behind every state: whole-state access reads (and ignores) the word after the last lane; the library itself stays below byte 168
#define ST __attribute__((aligned(32)))
// an arbitrary state, and the 200 state bytes it stands for
static void h_state(void* st, uint8_t* ref) {
  fs_symbolic(ref, 200, "state");
  KeccakP1600_Initialize(st); KeccakP1600_AddBytes(st, ref, 0, 200);
}
static void h_same(const void* st, const uint8_t* ref, const char* m) {
  uint8_t o[200]; KeccakP1600_ExtractBytes(st, o, 0, 200); fs_assert_eq(o, ref, 200, m);
}
void harness_perm(void) {
  fs_anf(0); fs_cutchi(1);
  static ST uint8_t st[KeccakP1600_stateSizeInBytes + 32]; static uint8_t ref[200];
  h_state(st, ref);
  int v = fs_choose(3); unsigned nr = v == 0 ? 24 : v == 1 ? 12 : 1 + fs_choose(24);
  if (v == 0) KeccakP1600_Permute_24rounds(st); else if (v == 1) KeccakP1600_Permute_12rounds(st); else KeccakP1600_Permute_Nrounds(st, nr);
  h_keccakf_bytes(ref, nr);
  h_same(st, ref, "permutation differs from Keccak-f[1600]");
  fs_cover("perm");
}
void harness_perm4(void) {
  fs_anf(0); fs_cutchi(1);
  static ST uint8_t st[KeccakP1600times4_statesSizeInBytes + 32]; static uint8_t ref[4][200], o[200];
  KeccakP1600times4_InitializeAll(st);
  for (int i = 0; i < 4; i++) { fs_symbolic(ref[i], 200, "state"); KeccakP1600times4_AddBytes(st, i, ref[i], 0, 200); }
  KeccakP1600times4_PermuteAll_24rounds(st);
  for (int i = 0; i < 4; i++) { h_keccakf_bytes(ref[i], 24); KeccakP1600times4_ExtractBytes(st, i, o, 0, 200); fs_assert_eq(o, ref[i], 200, "four-way permutation differs from Keccak-f[1600]"); }
  fs_cover("perm4");
}
#ifdef KeccakF1600_FastLoop_supported
void harness_fast(void) {
  fs_anf(0); fs_cutchi(1);
  static ST uint8_t st[KeccakP1600_stateSizeInBytes + 32]; static uint8_t ref[200], d[2 * 168 + 8];
  h_state(st, ref);
  unsigned lanes = fs_choose(2) ? 17 : 21, blk = fs_choose(3), extra = fs_choose(2) ? 7 : 0;
  fs_symbolic(d, blk * lanes * 8 + extra, "data");
  size_t n = KeccakF1600_FastLoop_Absorb(st, lanes, d, blk * lanes * 8 + extra);
  fs_assert(n == blk * lanes * 8, "number of bytes absorbed");
  for (unsigned b = 0; b < blk; b++) { for (unsigned i = 0; i < lanes * 8; i++) ref[i] ^= d[b * lanes * 8 + i]; h_keccakf_bytes(ref, 24); }
  h_same(st, ref, "block absorption differs");
  fs_cover("fast");
}
#endif
// byte access at every offset and length; op 0 add, 1 overwrite, 2 extract, 3 extract and add, 4 add byte, 5 zeroes
void harness_bytes(void) {
  static ST uint8_t st[KeccakP1600_stateSizeInBytes + 32]; static uint8_t ref[200], d[202], o[202], x[202];
  int op = fs_choose(6); unsigned off = op == 5 ? 0 : fs_choose(200), len;
#if FULL
  len = op == 4 ? 0 : fs_choose(201 - off);
#else
  static const uint8_t ls[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 24, 31, 33, 64, 136, 168};
  if (op == 5) len = fs_choose(201);
  else if (op == 4) len = 0;
  else { int k = fs_choose(sizeof ls + 2); len = k == sizeof ls ? 200 - off : k == sizeof ls + 1 ? 199 - off : ls[k]; fs_assume(len <= 200 - off); }
#endif
  h_state(st, ref);
  memset(o, 0xA5, sizeof o); fs_symbolic(d, len, "data"); memcpy(x, d, len);
  switch (op) {
  case 0: KeccakP1600_AddBytes(st, d, off, len); for (unsigned i = 0; i < len; i++) ref[off + i] ^= d[i]; break;
  case 1: KeccakP1600_OverwriteBytes(st, d, off, len); for (unsigned i = 0; i < len; i++) ref[off + i] = d[i]; break;
  case 2: KeccakP1600_ExtractBytes(st, o + 1, off, len); fs_assert_eq(o + 1, ref + off, len, "extracted bytes");
    fs_assert(o[0] == 0xA5 && o[len + 1] == 0xA5, "write outside the extracted range"); break;
  case 3: KeccakP1600_ExtractAndAddBytes(st, d, o + 1, off, len); for (unsigned i = 0; i < len; i++) x[i] ^= ref[off + i];
    fs_assert_eq(o + 1, x, len, "extracted and added bytes"); fs_assert(o[0] == 0xA5 && o[len + 1] == 0xA5, "write outside the extracted range"); break;
  case 4: { uint8_t b; fs_symbolic(&b, 1, "byte"); KeccakP1600_AddByte(st, b, off); ref[off] ^= b; break; }
  case 5: KeccakP1600_OverwriteWithZeroes(st, len); memset(ref, 0, len); break;
  }
  h_same(st, ref, "state bytes after byte access");
  fs_cover("bytes");
}
// the four-way byte access touches the selected instance only
void harness_bytes4(void) {
  static ST uint8_t st[KeccakP1600times4_statesSizeInBytes + 32]; static uint8_t ref[4][200], d[200], o[202];
  static const uint8_t ls[] = {0, 1, 7, 8, 9, 17, 136};
  int op = fs_choose(3), q = fs_choose(4); unsigned off = fs_choose(200); int k = fs_choose(sizeof ls + 1); unsigned len = k == sizeof ls ? 200 - off : ls[k];
  fs_assume(len <= 200 - off);
  KeccakP1600times4_InitializeAll(st);
  for (int i = 0; i < 4; i++) { fs_symbolic(ref[i], 200, "state"); KeccakP1600times4_AddBytes(st, i, ref[i], 0, 200); }
  memset(o, 0xA5, sizeof o); fs_symbolic(d, len ? len : 1, "data");
  switch (op) {
  case 0: KeccakP1600times4_AddBytes(st, q, d, off, len); for (unsigned i = 0; i < len; i++) ref[q][off + i] ^= d[i]; break;
  case 1: KeccakP1600times4_AddByte(st, q, d[0], off); ref[q][off] ^= d[0]; break;
  case 2: KeccakP1600times4_ExtractBytes(st, q, o + 1, off, len); fs_assert_eq(o + 1, ref[q] + off, len, "extracted bytes (four-way)");
    fs_assert(o[0] == 0xA5 && o[len + 1] == 0xA5, "write outside the extracted range"); break;
  }
  for (int i = 0; i < 4; i++) { uint8_t a[200]; KeccakP1600times4_ExtractBytes(st, i, a, 0, 200); fs_assert_eq(a, ref[i], 200, "four-way state bytes"); }
  fs_cover("bytes4");
}
