// C13: universal hashes against their polynomial definition.
#include "fieldstub.h"
#include <stdlib.h>
#include "universal_hashing.h"
#include "instances.h"
#ifndef W
#define W 128
#endif
#define CC_(a, b) a##b
#define CC(a, b) CC_(a, b)
#define Z(op) CC(CC(zk_hash_, W), op)
#define F(op) CC(CC(bf, W), op)
#define LB (W / 8)
static void h_mul(unsigned w, uint8_t* r, const uint8_t* a, const uint8_t* b) { fs_gfmul(w, r, a, b); }
static void h_xor(uint8_t* a, const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; i++) a[i] ^= b[i]; }
// VOLE hash, definition: x0 of ell+lambda bits zero-padded to blocks y_0..y_{n-1}; h0 = sum s^{n-1-i} y_i; same string in 64-bit words for h1
static void h_vole(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell) {
  const uint8_t *s = sd + 4 * LB, *t = sd + 5 * LB; unsigned nb = (ell + W) / 8, n = (nb + LB - 1) / LB, m = n * LB / 8;
  uint8_t* y = calloc(n, LB); memcpy(y, x, nb);
  uint8_t h0[LB], p[LB], q[LB], g1[8], p1[8], q1[8], e[LB] = {0}, h2[LB], h3[LB];
  memset(h0, 0, LB); memset(p, 0, LB); p[0] = 1;
  for (unsigned i = 0; i < n; i++) { h_mul(W, q, p, y + (n - 1 - i) * LB); h_xor(h0, q, LB); if (i + 1 < n) { h_mul(W, q, p, s); memcpy(p, q, LB); } }
  memset(g1, 0, 8); memset(p1, 0, 8); p1[0] = 1;
  for (unsigned i = 0; i < m; i++) { h_mul(64, q1, p1, y + (m - 1 - i) * 8); h_xor(g1, q1, 8); if (i + 1 < m) { h_mul(64, q1, p1, t); memcpy(p1, q1, 8); } }
  memcpy(e, g1, 8);
  h_mul(W, h2, sd, h0); h_mul(W, q, sd + LB, e); h_xor(h2, q, LB);
  h_mul(W, h3, sd + 2 * LB, h0); h_mul(W, q, sd + 3 * LB, e); h_xor(h3, q, LB);
  memcpy(h, h2, LB); memcpy(h + LB, h3, UNIVERSAL_HASH_B); h_xor(h, x + nb, LB + UNIVERSAL_HASH_B); free(y);
}
static void h_seed(uint8_t* sd, unsigned k) { for (unsigned i = 0; i < k; i++) fs_gfvar(W, sd + i * LB, "key"); fs_gfvar(64, sd + k * LB, "t"); }
static void h_one(unsigned ell, int via) {
  unsigned nb = ell / 8 + 2 * LB + UNIVERSAL_HASH_B; uint8_t *x = malloc(nb), *x2 = malloc(nb), *sd = malloc(5 * LB + 8), *sd2 = malloc(5 * LB + 8), *h = malloc(LB + UNIVERSAL_HASH_B), r[LB + UNIVERSAL_HASH_B];
  h_seed(sd, 5); fs_symbolic(x, nb, "x"); memcpy(x2, x, nb); memcpy(sd2, sd, 5 * LB + 8); fs_undef(h, LB + UNIVERSAL_HASH_B);
  if (via) vole_hash(h, sd, x, ell, W); else CC(vole_hash_, W)(h, sd, x, ell);
  h_vole(r, sd, x, ell);
  fs_assert_eq(h, r, LB + UNIVERSAL_HASH_B, "VOLE hash differs from the polynomial definition");
  fs_assert_eq(x, x2, nb, "input modified"); fs_assert_eq(sd, sd2, 5 * LB + 8, "key modified");
  free(x); free(x2); free(sd); free(sd2); free(h); fs_check_leaks();
}
void harness_vole_sets(void) {
  int n = 0; unsigned ells[12]; for (int i = 1; i <= 12; i++) { faest_paramset_t p = faest_get_paramset(i); if (p.faest_param.lambda == W) ells[n++] = p.faest_param.l; }
  h_one(ells[fs_choose(n)], 1); fs_cover("sets");
}
// every byte length up to four blocks
#ifndef MAXB
#define MAXB (3 * LB)
#endif
void harness_vole_len(void) { unsigned k = fs_choose(MAXB + 1); h_one(8 * k, fs_choose(2)); fs_cover("len"); }
static void h_zkref(uint8_t* h, const uint8_t* sd, const uint8_t* v, unsigned n, const uint8_t* x1) {
  uint8_t h0[LB], h1[LB], q[LB], p[LB], pt[LB], t[LB]; memset(h0, 0, LB); memset(h1, 0, LB); memset(t, 0, LB); memcpy(t, sd + 3 * LB, 8);
  memset(p, 0, LB); p[0] = 1; memcpy(pt, p, LB);
  for (unsigned i = 0; i < n; i++) {
    const uint8_t* y = v + (n - 1 - i) * LB; h_mul(W, q, p, y); h_xor(h0, q, LB); h_mul(W, q, pt, y); h_xor(h1, q, LB);
    h_mul(W, q, p, sd + 2 * LB); memcpy(p, q, LB); h_mul(W, q, pt, t); memcpy(pt, q, LB);
  }
  h_mul(W, h, sd, h0); h_mul(W, q, sd + LB, h1); h_xor(h, q, LB); h_xor(h, x1, LB);
}
static void h_zk(unsigned n, int oneshot) {
  uint8_t *sd = malloc(3 * LB + 8), *sd2 = malloc(3 * LB + 8), *v = malloc((n + 1) * LB), *h = malloc(LB), r[LB];
  h_seed(sd, 3); memcpy(sd2, sd, 3 * LB + 8); for (unsigned i = 0; i <= n; i++) fs_gfvar(W, v + i * LB, "v"); fs_undef(h, LB);
  if (oneshot) { F(_t)* e = malloc((n + 1) * sizeof *e); for (unsigned i = 0; i <= n; i++) e[i] = F(_load)(v + i * LB); CC(zk_hash_, W)(h, sd, e, n); free(e); }
  else {
    // two contexts in lock step: no state outside the context
    Z(_ctx) c, d; uint8_t h2[LB]; Z(_init)(&c, sd); Z(_init)(&d, sd);
    for (unsigned i = 0; i < n; i++) { Z(_update)(&c, F(_load)(v + i * LB)); Z(_update)(&d, F(_load)(v + (n - 1 - i) * LB)); }
    Z(_finalize)(h, &c, F(_load)(v + n * LB)); Z(_finalize)(h2, &d, F(_load)(v + n * LB));
    uint8_t* w = malloc((n + 1) * LB); for (unsigned i = 0; i < n; i++) memcpy(w + i * LB, v + (n - 1 - i) * LB, LB);
    h_zkref(r, sd, w, n, v + n * LB); fs_gf_assert_eq(W, h2, r, "zero-knowledge hash of the second context"); free(w);
  }
  h_zkref(r, sd, v, n, v + n * LB);
  fs_gf_assert_eq(W, h, r, "zero-knowledge hash differs from the polynomial definition");
  fs_assert_eq(sd, sd2, 3 * LB + 8, "key modified"); free(sd); free(sd2); free(v); free(h); fs_check_leaks();
}
#ifndef MAXN
#define MAXN 12
#endif
void harness_zk_len(void) { unsigned k = fs_choose(MAXN + 1); h_zk(k, fs_choose(2)); fs_cover("zk"); }
void harness_zk_sets(void) {
#if W == 128
  static const unsigned c[] = {200, 160};
#elif W == 192
  static const unsigned c[] = {416, 288};
#else
  static const unsigned c[] = {500, 448};
#endif
  h_zk(c[fs_choose(2)], 0); fs_cover("zksets");
}
// linearity in the input for a fixed key
void harness_zk_linear(void) {
  enum { n = 5 }; uint8_t sd[3 * LB + 8], h[3][LB]; F(_t) x[n + 1], y[n + 1], z[n + 1]; h_seed(sd, 3);
  for (int i = 0; i <= n; i++) { uint8_t a[LB], b[LB]; fs_gfvar(W, a, "x"); fs_gfvar(W, b, "y"); x[i] = F(_load)(a); y[i] = F(_load)(b); z[i] = F(_add)(x[i], y[i]); }
  for (int k = 0; k < 3; k++) { Z(_ctx) c; Z(_init)(&c, sd); F(_t)* e = k == 0 ? x : k == 1 ? y : z; for (int i = 0; i < n; i++) Z(_update)(&c, e[i]); Z(_finalize)(h[k], &c, e[n]); }
  h_xor(h[0], h[1], LB); fs_gf_assert_eq(W, h[0], h[2], "not linear"); fs_cover("linear");
}
