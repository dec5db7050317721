// C05: vector commitments over an arbitrary PRG and arbitrary hash functions.
#include "rostub.h"
#include <stdlib.h>
#include "vc.h"
#ifndef IDXMODE
#define IDXMODE 0
#endif
static uint8_t *h_lv, *h_sd, *h_com; static uint8_t h_root[32], h_iv[16], h_h[64]; static unsigned L, D;
static faest_paramset_t h_p;
// GGM tree, level by level; level d starts at node 2^d - 1
static uint8_t* h_node(unsigned d, unsigned i) { return h_lv + ((size_t)((1u << d) - 1) + i) * L; }
static void h_tree(void) {
  h_lv = malloc((((size_t)2 << D) - 1) * L); h_sd = malloc(((size_t)1 << D) * L); h_com = malloc(((size_t)2 << D) * L); memcpy(h_node(0, 0), h_root, L);
  for (unsigned d = 0; d < D; d++) for (unsigned i = 0; i < 1u << d; i++) { uint8_t o[64]; h_prg(h_node(d, i), h_iv, o, L * 8, 2 * L); memcpy(h_node(d + 1, 2 * i), o, L); memcpy(h_node(d + 1, 2 * i + 1), o + L, L); }
  for (unsigned i = 0; i < 1u << D; i++) h_leaf(L * 8, h_node(D, i), h_iv, h_sd + i * L, h_com + 2 * i * L);
  int h = h_new(1, L * 8); fs_sp_add(h, h_com, ((size_t)2 << D) * L); fs_sp_out(h, h_h, 0, 2 * L);
}
static unsigned h_index(void) {
  unsigned n = 1u << D;
  if (D <= ALLD) return fs_choose(n);
#if IDXMODE
  // boundary and sampled indices
  unsigned k = fs_choose(2 * D + 6);
  if (k < D) return 1u << k;
  if (k < 2 * D) return (n - 1) ^ (1u << (k - D));
  return (unsigned[]){0, n - 1, 3, n - 3, n / 3, 2 * n / 3}[k - 2 * D];
#else
  return (unsigned[]){0, 1, 2, n - 1, n / 3, n - 4, n / 2 + 3}[fs_choose(7)];
#endif
}
static void h_start(void) {
  unsigned lev = fs_choose(3); D = 1 + fs_choose(12); L = (unsigned[]){16, 24, 32}[lev];
  h_p = faest_get_paramset((faest_paramid_t[]){FAEST_128S, FAEST_192S, FAEST_256S}[lev]);
  fs_symbolic(h_root, 32, "root"); fs_symbolic(h_iv, 16, "iv");
}
void harness_commit(void) {
  h_start(); uint8_t r0[32], v0[16]; memcpy(r0, h_root, 32); memcpy(v0, h_iv, 16);
  h_tree(); vec_com_t vc; memset(&vc, 0, sizeof vc);
  vector_commitment(h_root, h_iv, &h_p, L * 8, &vc, D);
  fs_assert_eq(h_root, r0, 32, "root modified"); fs_assert_eq(h_iv, v0, 16, "iv modified");
  fs_assert_eq(vc.sd, h_sd, L << D, "leaf seeds"); fs_assert_eq(vc.com, h_com, 2 * L << D, "leaf commitments"); fs_assert_eq(vc.h, h_h, 2 * L, "commitment hash"); fs_cover("commit");
  for (unsigned q = 0; q < 8; q++) {
    unsigned n = 1u << D, j = (unsigned[]){0, 1, n - 1, n / 2, n / 3, n - 2, n / 5, 3}[q] % n; uint8_t b[12], cop[12 * 32 + 8], cj[72], g[12 * 32 + 8], gj[72];
    for (unsigned i = 0; i < D; i++) b[i] = j >> i & 1;
    fs_symbolic(cop, sizeof cop, "guard"); fs_symbolic(cj, sizeof cj, "guard"); memcpy(g, cop, sizeof g); memcpy(gj, cj, sizeof gj);
    vector_open(vc.k, vc.com, b, cop + 4, cj + 4, D, L);
    for (unsigned d = 1; d <= D; d++) fs_assert_eq(cop + 4 + (d - 1) * L, h_node(d, (j >> (D - d)) ^ 1), L, "opening is not the sibling seed");
    fs_assert_eq(cj + 4, h_com + 2 * j * L, 2 * L, "hidden commitment");
    fs_assert_eq(cop, g, 4, "write in front"); fs_assert_eq(cop + 4 + D * L, g + 4 + D * L, sizeof g - 4 - D * L, "write behind"); fs_assert_eq(cj, gj, 4, "write in front"); fs_assert_eq(cj + 4 + 2 * L, gj + 4 + 2 * L, 68 - 2 * L, "write behind");
  }
  vec_com_clear(&vc);
}
// commit, open at any index, reconstruct
void harness_open(void) {
  h_start(); unsigned j = h_index(), n = 1u << D; h_tree(); vec_com_t vc; memset(&vc, 0, sizeof vc); vector_commitment(h_root, h_iv, &h_p, L * 8, &vc, D);
  uint8_t b[12], *cop = malloc(D * L), *cj = malloc(2 * L); for (unsigned i = 0; i < D; i++) b[i] = j >> i & 1;
  vector_open(vc.k, vc.com, b, cop, cj, D, L);
  for (unsigned d = 1; d <= D; d++) fs_assert_eq(cop + (d - 1) * L, h_node(d, (j >> (D - d)) ^ 1), L, "opening is not the sibling seed");
  fs_assert_eq(cj, h_com + 2 * j * L, 2 * L, "hidden commitment");
  vec_com_rec_t r = {malloc(2 * L), malloc(getBinaryTreeNodeCount(D) * L), malloc(2 * L * n), malloc(L * n)};
  vector_reconstruction(h_iv, cop, cj, b, L * 8, D, &r);
  fs_assert_eq(r.s, h_sd, j * L, "reconstructed seeds below the hidden leaf"); fs_assert_eq(r.s + (j + 1) * L, h_sd + (j + 1) * L, (n - 1 - j) * L, "reconstructed seeds above the hidden leaf");
  fs_assert_eq(r.com, h_com, 2 * L * n, "reconstructed commitments"); fs_assert_eq(r.h, h_h, 2 * L, "reconstructed hash"); fs_cover("open");
  vec_com_clear(&vc); vec_com_rec_clear(&r); free(cop); free(cj);
}
// arbitrary openings: the result is the function of the opening that the specification gives
void harness_malformed(void) {
  h_start(); unsigned j = h_index(), n = 1u << D; uint8_t b[12], *cop = malloc(D * L), *cj = malloc(2 * L); for (unsigned i = 0; i < D; i++) b[i] = j >> i & 1;
  fs_symbolic(cop, D * L, "opening"); fs_symbolic(cj, 2 * L, "hidden commitment");
  uint8_t *nd = malloc(n * L), *sd = malloc(n * L), *com = malloc(2 * n * L);
  for (unsigned d = 1; d <= D; d++) {
    // subtree below the d-th sibling
    unsigned s = (j >> (D - d)) ^ 1, w = 1u << (D - d), base = s * w; memcpy(nd + base * L, cop + (d - 1) * L, L);
    for (unsigned st = w; st > 1; st /= 2) for (unsigned i = 0; i < w; i += st) { uint8_t o[64]; h_prg(nd + (base + i) * L, h_iv, o, L * 8, 2 * L); memcpy(nd + (base + i) * L, o, L); memcpy(nd + (base + i + st / 2) * L, o + L, L); }
  }
  for (unsigned i = 0; i < n; i++) if (i != j) h_leaf(L * 8, nd + i * L, h_iv, sd + i * L, com + 2 * i * L);
  memcpy(com + 2 * j * L, cj, 2 * L); int h = h_new(1, L * 8); fs_sp_add(h, com, 2 * n * L); fs_sp_out(h, h_h, 0, 2 * L);
  vec_com_rec_t r = {malloc(2 * L), malloc(getBinaryTreeNodeCount(D) * L), malloc(2 * L * n), malloc(L * n)};
  vector_reconstruction(h_iv, cop, cj, b, L * 8, D, &r);
  fs_assert_eq(r.s, sd, j * L, "seeds below the hidden leaf"); fs_assert_eq(r.s + (j + 1) * L, sd + (j + 1) * L, (n - 1 - j) * L, "seeds above the hidden leaf"); fs_assert_eq(r.com, com, 2 * L * n, "commitments"); fs_assert_eq(r.h, h_h, 2 * L, "hash"); fs_cover("malformed");
}
