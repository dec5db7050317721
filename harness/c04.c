// C04: VOLE commitment, opening and reconstruction over an arbitrary PRG and arbitrary hash functions.
#include "rostub.h"
#include <stdlib.h>
#include "vole.h"
static unsigned h_tau, h_lb, h_n; static faest_paramset_t h_p; static unsigned h_depth[32], h_idx[32];
static void h_run(unsigned ellhat) {
  uint8_t root[32], iv[16], root0[32], iv0[16], hcom[64], hcom2[64], chall[32] = {0}, chall0[32]; unsigned L = h_p.faest_param.lambda, cols = 0;
  h_lb = L / 8; h_tau = h_p.faest_param.tau; h_n = (ellhat + 7) / 8;
  fs_symbolic(root, 32, "root key"); fs_symbolic(iv, 16, "iv"); memcpy(root0, root, 32); memcpy(iv0, iv, 16); fs_undef(hcom, 64); fs_undef(hcom2, 64);
  for (unsigned i = 0, p = 0; i < h_tau; i++) { h_depth[i] = i < h_p.faest_param.t0 ? h_p.faest_param.k0 : h_p.faest_param.k1; for (unsigned j = 0; j < h_depth[i]; j++, p++) if (p < 256) chall[p / 8] |= (h_idx[i] >> j & 1) << (p % 8); cols += h_depth[i]; }
  memcpy(chall0, chall, 32);
  vec_com_t* vc = calloc(h_tau, sizeof *vc); uint8_t *u = malloc(h_n), *c = malloc((h_tau - 1) * h_n + 8), *v[256], *q[256]; uint8_t g[8];
  v[0] = malloc(cols * h_n); q[0] = malloc(cols * h_n); for (unsigned i = 1; i < cols; i++) { v[i] = v[0] + i * h_n; q[i] = q[0] + i * h_n; }
  fs_symbolic(c + (h_tau - 1) * h_n, 8, "guard"); memcpy(g, c + (h_tau - 1) * h_n, 8);
  vole_commit(root, iv, ellhat, &h_p, hcom, vc, c, u, v);
  fs_assert_eq(c + (h_tau - 1) * h_n, g, 8, "write behind the corrections");
  fs_assert_eq(root, root0, 32, "root key modified"); fs_assert_eq(iv, iv0, 16, "iv modified");
  // definition of the commitment: tree keys from the root key, column vectors from the leaf seeds
  uint8_t* keys = malloc(h_tau * h_lb); h_prg(root, iv, keys, L, h_tau * h_lb); int hh = h_new(1, L);
  uint8_t** us = malloc(h_tau * sizeof *us);
  for (unsigned i = 0, col = 0; i < h_tau; col += h_depth[i++]) {
    unsigned N = 1u << h_depth[i]; uint8_t *cu = calloc(h_n, 1), *cv = calloc(h_depth[i], h_n), *r = malloc(h_n); us[i] = cu;
    // independent leaf seeds
    uint8_t* nd = malloc(2 * N * h_lb); memcpy(nd + h_lb, keys + i * h_lb, h_lb);  // heap order, node 1 is the root
    for (unsigned k = 1; k < N; k++) h_prg(nd + k * h_lb, iv, nd + 2 * k * h_lb, L, 2 * h_lb);
    uint8_t *sd = malloc(h_lb), *com = malloc(2 * h_lb), *h = malloc(2 * h_lb); int hc = h_new(1, L);
    for (unsigned k = 0; k < N; k++) {
      h_leaf(L, nd + (N + k) * h_lb, iv, sd, com); fs_sp_add(hc, com, 2 * h_lb); h_prg(sd, iv, r, L, h_n);
      for (unsigned b = 0; b < h_n; b++) { cu[b] ^= r[b]; for (unsigned j = 0; j < h_depth[i]; j++) if (k >> j & 1) cv[j * h_n + b] ^= r[b]; }
    }
    fs_sp_out(hc, h, 0, 2 * h_lb); fs_sp_add(hh, h, 2 * h_lb);
    for (unsigned j = 0; j < h_depth[i]; j++) fs_assert_eq(v[col + j], cv + j * h_n, h_n, "column of V");
    if (i) { uint8_t* x = malloc(h_n); for (unsigned b = 0; b < h_n; b++) x[b] = u[b] ^ cu[b]; fs_assert_eq(c + (i - 1) * h_n, x, h_n, "correction"); free(x); }
    else fs_assert_eq(u, cu, h_n, "u");
    free(cv); free(r); free(nd); free(sd); free(com); free(h);
  }
  uint8_t href[64]; fs_sp_out(hh, href, 0, 2 * h_lb); fs_assert_eq(hcom, href, 2 * h_lb, "commitment hash"); fs_cover("commit");
  // open and reconstruct
  const uint8_t *pd[32], *cj[32];
  for (unsigned i = 0; i < h_tau; i++) {
    uint8_t b[16], *p = malloc(h_depth[i] * h_lb), *m = malloc(2 * h_lb); fs_assert(ChalDec(chall, i, h_p.faest_param.k0, h_p.faest_param.t0, h_p.faest_param.k1, h_p.faest_param.t1, b) == 1, "challenge decoding");
    for (unsigned j = 0; j < h_depth[i]; j++) fs_assert(b[j] == (h_idx[i] >> j & 1), "challenge bit");
    vector_open(vc[i].k, vc[i].com, b, p, m, h_depth[i], h_lb); pd[i] = p; cj[i] = m;
  }
  vole_reconstruct(iv, chall, pd, cj, hcom2, q, ellhat, &h_p);
  fs_assert_eq(hcom2, hcom, 2 * h_lb, "verifier's commitment hash"); fs_assert_eq(iv, iv0, 16, "iv modified"); fs_assert_eq(chall, chall0, 32, "challenge modified");
  for (unsigned i = 0, col = 0; i < h_tau; col += h_depth[i++]) for (unsigned j = 0; j < h_depth[i]; j++) {
    uint8_t* x = malloc(h_n); for (unsigned b = 0; b < h_n; b++) x[b] = v[col + j][b] ^ (h_idx[i] >> j & 1 ? u[b] ^ (i ? c[(i - 1) * h_n + b] : 0) : 0);
    fs_assert_eq(q[col + j], x, h_n, "Q = V + delta * u"); free(x);
  }
  fs_cover("correlation");
  for (unsigned i = 0; i < h_tau; i++) { vec_com_clear(&vc[i]); free((void*)pd[i]); free((void*)cj[i]); free(us[i]); }
  free(us); free(vc); free(u); free(c); free(v[0]); free(q[0]); free(keys);
  fs_check_leaks();
}
// the sets with trees of depth 8 at small output length; hidden leaves differ from tree to tree and run over every index
static const faest_paramid_t h_ids[] = {FAEST_128S, FAEST_128F, FAEST_192S, FAEST_192F, FAEST_256S, FAEST_256F, FAEST_EM_128S, FAEST_EM_128F, FAEST_EM_192S, FAEST_EM_192F, FAEST_EM_256S, FAEST_EM_256F};
void harness_sets(void) {
  h_p = faest_get_paramset(h_ids[fs_choose(12)]); unsigned l = (unsigned[]){8, 17, 24}[fs_choose(3)], x = fs_choose(4096);
  fs_assume(x < (h_p.faest_param.t0 ? 1u << h_p.faest_param.k0 : 1u << h_p.faest_param.k1));
  for (unsigned i = 0; i < h_p.faest_param.tau; i++) h_idx[i] = (x + 37 * i) & ((1u << (i < h_p.faest_param.t0 ? h_p.faest_param.k0 : h_p.faest_param.k1)) - 1);
  h_run(l);
}
// trees of the depths of the "s" sets: pairs of trees with the real depths, and the real number of trees with depths lowered by 8
void harness_deep(void) {
  static const struct { faest_paramid_t id; uint16_t k0, k1, t0, t1; } sh[] = {{FAEST_128S, 12, 11, 1, 1}, {FAEST_192S, 12, 12, 0, 2}, {FAEST_256S, 12, 11, 1, 1}, {FAEST_128S, 4, 3, 7, 4}, {FAEST_192S, 4, 4, 0, 16}, {FAEST_256S, 4, 3, 14, 8}, {FAEST_EM_128S, 4, 3, 7, 4}, {FAEST_EM_192S, 4, 4, 0, 16}, {FAEST_EM_256S, 4, 3, 14, 8}};
  unsigned s = fs_choose(9), x = fs_choose(4096); h_p = faest_get_paramset(sh[s].id);
  if (s >= 3) fs_assert(h_p.faest_param.tau == sh[s].t0 + sh[s].t1 && (!h_p.faest_param.t0 || (h_p.faest_param.t0 == sh[s].t0 && h_p.faest_param.k0 == sh[s].k0 + 8)) && h_p.faest_param.k1 == sh[s].k1 + 8 && h_p.faest_param.t1 == sh[s].t1, "shape of the set");
  h_p.faest_param.tau = sh[s].t0 + sh[s].t1; h_p.faest_param.k0 = sh[s].k0; h_p.faest_param.k1 = sh[s].k1; h_p.faest_param.t0 = sh[s].t0; h_p.faest_param.t1 = sh[s].t1;
  for (unsigned i = 0; i < h_p.faest_param.tau; i++) h_idx[i] = (x ^ (5 * i)) & ((1u << (i < sh[s].t0 ? sh[s].k0 : sh[s].k1)) - 1);
  h_run(s < 3 ? 8 : 17);
}
// small parameter sets with mixed depths, all hidden leaves of two trees
void harness_small(void) {
  static const uint16_t sh[][5] = {{2, 1, 2, 1, 2}, {3, 2, 3, 2, 1}, {3, 4, 3, 2, 1}, {4, 2, 1, 0, 4}, {5, 3, 4, 2, 3}, {2, 5, 4, 1, 1}, {1, 3, 3, 1, 0}};   // tau, k0, k1, t0, t1
  unsigned lev = fs_choose(3), s = fs_choose(7); h_p = faest_get_paramset((faest_paramid_t[]){FAEST_128S, FAEST_192S, FAEST_256S}[lev]);
  h_p.faest_param.tau = sh[s][0]; h_p.faest_param.k0 = sh[s][1]; h_p.faest_param.k1 = sh[s][2]; h_p.faest_param.t0 = sh[s][3]; h_p.faest_param.t1 = sh[s][4];
  unsigned a = fs_choose(32), b = fs_choose(32), l = (unsigned[]){8, 41, 136, 200}[fs_choose(4)], last = sh[s][0] - 1;
  for (unsigned i = 0; i <= last; i++) h_idx[i] = (5 * i + 1) & ((1u << (i < sh[s][3] ? sh[s][1] : sh[s][2])) - 1);
  fs_assume(a < (1u << (sh[s][3] ? sh[s][1] : sh[s][2]))); h_idx[0] = a;
  if (last) { fs_assume(b < (1u << (last < sh[s][3] ? sh[s][1] : sh[s][2]))); h_idx[last] = b; } else fs_assume(!b);
  h_run(l);
}
