// C12: field arithmetic against the definition.
#include "fsym.h"
#include "gfref.h"
#include "fields.h"
#ifndef W
#define W 128
#endif
#define CC_(a, b) a##b
#define CC(a, b) CC_(a, b)
#define F(op) CC(CC(bf, W), op)
typedef F(_t) el;
#define NB (W / 8)
static void in_el(uint8_t* b, const char* n) { fs_symbolic(b, NB, n); }
void harness_mul(void) {
  uint8_t a[NB], b[NB], r[NB], ab[W], bb[W], rb[W], ref[NB];
  fs_anf(1 << 20);
  in_el(a, "a"); in_el(b, "b");
  F(_store)(r, F(_mul)(F(_load)(a), F(_load)(b)));
  h_unpack(ab, a, W); h_unpack(bb, b, W); h_gf_mul(W, rb, ab, W, bb, W); h_pack(ref, rb, W);
  fs_assert_eq(r, ref, NB, "product differs from the definition");
  fs_cover("mul");
}
#if W >= 128
void harness_mul64(void) {
  uint8_t a[NB], b[8], r[NB], ab[W], bb[64], rb[W], ref[NB]; uint64_t b64 = 0;
  fs_anf(1 << 20);
  in_el(a, "a"); fs_symbolic(b, 8, "b");
  b64 = bf64_load(b);
  F(_store)(r, F(_mul_64)(F(_load)(a), b64));
  h_unpack(ab, a, W); h_unpack(bb, b, 64); h_gf_mul(W, rb, ab, W, bb, 64); h_pack(ref, rb, W);
  fs_assert_eq(r, ref, NB, "product with 64-bit element differs");
  uint8_t z[NB] = {0}; memcpy(z, b, 8);
  F(_store)(r, F(_from_bf64)(b64)); fs_assert_eq(r, z, NB, "embedding of a 64-bit element");
  memset(z, 0, NB); z[0] = b[0];
  F(_store)(r, F(_from_bf8)(b[0])); fs_assert_eq(r, z, NB, "from_bf8");
  z[0] = b[0] & 1; F(_store)(r, F(_from_bit)(b[0])); fs_assert_eq(r, z, NB, "from_bit");
  fs_cover("mul64");
}
void harness_lin(void) {
  uint8_t a[NB], b[NB], r[NB], ref[NB], c[1];
  in_el(a, "a"); in_el(b, "b"); fs_symbolic(c, 1, "c");
  F(_store)(r, F(_load)(a)); fs_assert_eq(r, a, NB, "load/store");
  F(_store)(r, F(_add)(F(_load)(a), F(_load)(b)));
  for (int i = 0; i < NB; i++) ref[i] = a[i] ^ b[i];
  fs_assert_eq(r, ref, NB, "addition");
  uint8_t bit = c[0] & 1;
  F(_store)(r, F(_mul_bit)(F(_load)(a), bit));
  for (int i = 0; i < NB; i++) ref[i] = a[i] & (uint8_t)(0 - bit);
  fs_assert_eq(r, ref, NB, "multiplication by a bit");
  memset(ref, 0, NB); F(_store)(r, F(_zero)()); fs_assert_eq(r, ref, NB, "zero");
  ref[0] = 1; F(_store)(r, F(_one)()); fs_assert_eq(r, ref, NB, "one");
  fs_cover("lin");
}
void harness_combine(void) {
  uint8_t xb[8][NB], r[NB], ref[NB], acc[W]; el x[8]; uint8_t y[1];
  fs_anf(1 << 20);
  // the constant satisfies the AES polynomial
  uint8_t p1[256], p3[256], p4[256], p8[256], t[256];
  h_alpha_pow(W, 1, p1); h_alpha_pow(W, 3, p3); h_alpha_pow(W, 4, p4); h_gf_mul(W, p8, p4, W, p4, W);
  for (int i = 0; i < W; i++) t[i] = p8[i] ^ p4[i] ^ p3[i] ^ p1[i] ^ (i == 0);
  for (int i = 0; i < W; i++) fs_assert(t[i] == 0, "subfield generator does not satisfy the AES polynomial");
  memset(acc, 0, sizeof acc);
  uint8_t bitacc[W]; memset(bitacc, 0, sizeof bitacc);
  fs_symbolic(y, 1, "y");
  for (int i = 0; i < 8; i++) {
    in_el(xb[i], "x"); x[i] = F(_load)(xb[i]);
    uint8_t al[256], xx[W], pr[W]; h_alpha_pow(W, i, al); h_unpack(xx, xb[i], W);
    h_gf_mul(W, pr, xx, W, al, W);
    for (int k = 0; k < W; k++) { acc[k] ^= pr[k]; bitacc[k] ^= al[k] & ((y[0] >> i) & 1); }
  }
  F(_store)(r, F(_byte_combine)(x)); h_pack(ref, acc, W);
  fs_assert_eq(r, ref, NB, "byte_combine");
  F(_store)(r, F(_byte_combine_bits)(y[0])); h_pack(ref, bitacc, W);
  fs_assert_eq(r, ref, NB, "byte_combine_bits");
  fs_cover("combine");
}
static el xs[W];
void harness_sumpoly(void) {
  uint8_t b[NB], r[NB], ref[NB], acc[W]; memset(acc, 0, sizeof acc);
  fs_anf(1 << 20);
  for (int i = 0; i < W; i++) {
    in_el(b, "x"); xs[i] = F(_load)(b);
    uint8_t t[W]; h_unpack(t, b, W);
    for (int k = 0; k < i; k++) h_gf_dbl(W, t);
    for (int k = 0; k < W; k++) acc[k] ^= t[k];
  }
  F(_store)(r, F(_sum_poly)(xs)); h_pack(ref, acc, W);
  fs_assert_eq(r, ref, NB, "sum_poly");
  fs_cover("sumpoly");
}
#elif W == 64
void harness_lin(void) {
  uint8_t a[8], b[8], r[8], ref[8];
  in_el(a, "a"); in_el(b, "b");
  bf64_store(r, bf64_add(bf64_load(a), bf64_load(b)));
  for (int i = 0; i < 8; i++) ref[i] = a[i] ^ b[i];
  fs_assert_eq(r, ref, 8, "addition");
  memset(ref, 0, 8); bf64_store(r, bf64_zero()); fs_assert_eq(r, ref, 8, "zero");
  ref[0] = 1; bf64_store(r, bf64_one()); fs_assert_eq(r, ref, 8, "one");
  ref[0] = a[0] & 1; bf64_store(r, bf64_from_bit(a[0])); fs_assert_eq(r, ref, 8, "from_bit");
  fs_cover("lin");
}
#else
void harness_inv(void) {
  uint8_t a[1], r[1], p[8], ab[8], rb[8], ref[1];
  fs_anf(1 << 20);
  in_el(a, "a"); r[0] = bf8_inv(a[0]);
  h_unpack(ab, a, 8); h_unpack(rb, r, 8); h_gf_mul(8, p, ab, 8, rb, 8); h_pack(ref, p, 8);
  uint8_t nz = a[0] != 0;
  fs_assert_eq(ref, &nz, 1, "x * inv(x)");
  fs_assert(nz | (r[0] == 0), "inv(0)");
  bf8_store(ref, bf8_add(bf8_load(a), bf8_one())); uint8_t e = a[0] ^ 1; fs_assert_eq(ref, &e, 1, "addition");
  e = a[0] & 1; ref[0] = bf8_from_bit(a[0]); fs_assert_eq(ref, &e, 1, "from_bit");
  fs_cover("inv");
}
#endif
