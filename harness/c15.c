// C15/C16: aes_prove / aes_verify for all witnesses, VOLE rows and challenges. zk_hash is replaced by recording the
// hashed list (its linearity: C13), field multiplication by the field-polynomial layer (C12), the AES key expansion of
// the Even-Mansour variants by arbitrary round keys (C06).
// With q = v + w*Delta on every row, b_j + a0_j + a1_j*Delta == (s_j*s'_j + 1)*(Delta^2 + Delta) must hold for every
// constraint j, where s_j is the input and s'_j the inverse affine image of the output of the j-th S-box of the reference.
#include "fieldstub.h"
#include "aesref.h"
#include <stdlib.h>
#include "aes.h"
#include "faest_aes.h"
#include "gfref.h"
#include "instances.h"
#include "universal_hashing.h"
static const struct cset { faest_paramid_t id; uint16_t la, l, lke, nk, nb, nr, blocks, em; } cs[12] = {
  {FAEST_128S, 128, 1600, 448, 4, 4, 10, 1, 0}, {FAEST_128F, 128, 1600, 448, 4, 4, 10, 1, 0},
  {FAEST_192S, 192, 3264, 448, 6, 4, 12, 2, 0}, {FAEST_192F, 192, 3264, 448, 6, 4, 12, 2, 0},
  {FAEST_256S, 256, 4000, 672, 8, 4, 14, 2, 0}, {FAEST_256F, 256, 4000, 672, 8, 4, 14, 2, 0},
  {FAEST_EM_128S, 128, 1280, 0, 4, 4, 10, 1, 1}, {FAEST_EM_128F, 128, 1280, 0, 4, 4, 10, 1, 1},
  {FAEST_EM_192S, 192, 2304, 0, 6, 6, 12, 1, 1}, {FAEST_EM_192F, 192, 2304, 0, 6, 6, 12, 1, 1},
  {FAEST_EM_256S, 256, 3584, 0, 8, 8, 14, 1, 1}, {FAEST_EM_256F, 256, 3584, 0, 8, 8, 14, 1, 1}};
static const struct cset* C;
// ---- reference: pairs (S-box input, inverse affine image of the S-box output), linear in the witness
static uint8_t r_s[600], r_d[600]; static unsigned r_n;
static uint8_t h_r_aff(uint8_t y) { uint8_t r = 0; for (int i = 0; i < 8; i++) r |= (uint8_t)((((y >> ((i + 2) & 7)) ^ (y >> ((i + 5) & 7)) ^ (y >> ((i + 7) & 7)) ^ (5 >> i)) & 1) << i); return r; }
static void h_r_add(uint8_t in, uint8_t out) { r_s[r_n] = in; r_d[r_n] = h_r_aff(out); r_n++; }
static void h_r_pairs(const uint8_t* w, const uint8_t* in, const uint8_t* out, uint8_t (*x)[4]) {
  static uint8_t kw[60][4]; static const unsigned sh[3][4] = {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 3, 4}};
  r_n = 0;
  if (!C->em) {
    const uint8_t* p = w; uint8_t rc = 1;
    for (unsigned i = 0; i < 4 * (C->nr + 1u); i++) {
      int sb = i >= C->nk && (i % C->nk == 0 || (C->nk == 8 && i % 8 == 4));
      if (i < C->nk || sb) { memcpy(kw[i], p, 4); p += 4; } else for (int q = 0; q < 4; q++) kw[i][q] = kw[i - C->nk][q] ^ kw[i - 1][q];
      if (sb) for (int q = 0; q < 4; q++) {
        int rot = i % C->nk == 0;
        h_r_add(kw[i - 1][rot ? (q + 1) % 4 : q], kw[i][q] ^ kw[i - C->nk][q] ^ (rot && !q ? rc : 0));
      }
      if (sb && i % C->nk == 0) rc = h_xtime(rc);
    }
    x = kw;
  }
  unsigned nb = C->nb, bs = 4 * nb;
  for (unsigned b = 0; b < C->blocks; b++) {
    const uint8_t* z = C->em ? w + bs : w + C->lke / 8 + b * bs * (C->nr - 1);   // states after ShiftRows of rounds 1..nr-1
    uint8_t s[32], t[32];
    for (unsigned i = 0; i < bs; i++) s[i] = (C->em ? w[i] : in[16 * b + i]) ^ x[i / 4][i % 4];
    for (unsigned r = 1; r <= C->nr; r++) {
      if (r < C->nr) memcpy(t, z + bs * (r - 1), bs);
      else for (unsigned i = 0; i < bs; i++) t[i] = out[(C->em ? 0 : 16 * b) + i] ^ x[nb * r + i / 4][i % 4] ^ (C->em ? w[i] : 0);
      for (unsigned c = 0; c < nb; c++) for (unsigned q = 0; q < 4; q++) h_r_add(s[4 * c + q], t[4 * ((c + nb - sh[nb / 2 - 2][q]) % nb) + q]);
      if (r < C->nr) for (unsigned c = 0; c < nb; c++) for (unsigned q = 0; q < 4; q++) {
        uint8_t a = t[4 * c + q], e = t[4 * c + (q + 1) % 4];
        s[4 * c + q] = h_xtime(a) ^ h_xtime(e) ^ e ^ t[4 * c + (q + 2) % 4] ^ t[4 * c + (q + 3) % 4] ^ x[nb * r + c][q];
      }
    }
  }
}
static uint8_t alpha[8][32];
static void h_r_embed(uint8_t b, uint8_t* o) { memset(o, 0, 32); for (int i = 0; i < 8; i++) for (unsigned k = 0; k < C->la / 8u; k++) o[k] ^= alpha[i][k] & (uint8_t)(0 - ((b >> i) & 1)); }
// ---- recorded hash lists

static struct { const uint8_t* sdp; uint8_t sd[128], x1[32], fin[32]; uint8_t e[600][32]; unsigned n, done; } li[6]; static unsigned nli;
static void h_z_init(void* ctx, const uint8_t* sd, unsigned la) { fs_assert(nli < 6, "number of hashed lists"); memset(ctx, 0, la / 8); *(uint8_t*)ctx = nli; memcpy(li[nli].sd, sd, 3 * la / 8 + 8); nli++; }
static int h_z_id(void* ctx) { return *(uint8_t*)ctx; }
static void h_z_fin(uint8_t* h, int i, unsigned la) {
  fs_assert(!li[i].done, "finalised twice"); li[i].done = 1;
  fs_gfvar(la, li[i].fin, "hash"); memcpy(h, li[i].fin, la / 8);
}
#define Z(W) \
  void fsr_zk_hash_##W##_init(zk_hash_##W##_ctx* c, const uint8_t* sd) { h_z_init(c, sd, W); } \
  void fsr_zk_hash_##W##_update(zk_hash_##W##_ctx* c, bf##W##_t v) { int i = h_z_id(c); fs_assert(li[i].n < 600, "too many constraints"); bf##W##_store(li[i].e[li[i].n++], v); } \
  void fsr_zk_hash_##W##_finalize(uint8_t* h, zk_hash_##W##_ctx* c, bf##W##_t x1) { int i = h_z_id(c); bf##W##_store(li[i].x1, x1); h_z_fin(h, i, W); }
Z(128) Z(192) Z(256)
// sum_poly by its definition (C12)
#define SP(W) bf##W##_t fsr_bf##W##_sum_poly(const bf##W##_t* xs) { uint8_t r[32] = {0}, m[32]; for (unsigned i = 0; i < W; i++) { uint8_t p[32] = {0}, v[32]; p[i / 8] = (uint8_t)(1 << (i % 8)); bf##W##_store(v, xs[i]); fs_gfmul(W, m, v, p); for (unsigned k = 0; k < W / 8; k++) r[k] ^= m[k]; } return bf##W##_load(r); }
SP(128) SP(192) SP(256)
static uint8_t h_in[32]; static aes_round_keys_t h_rk; static int h_rkset;
static int h_z_rk(aes_round_keys_t* k, const uint8_t* key) {
  fs_assert(C->em, "round keys used by a non-Even-Mansour variant"); fs_assert_eq(key, h_in, C->la / 8, "key of the public permutation");
  memcpy(k, &h_rk, sizeof h_rk); return 0;
}
#define RK(F, B) int fsr_##F(aes_round_keys_t* k, const uint8_t* key) { if (!h_rkset) return F(k, key); fs_assert(C->nb == B, "permutation"); return h_z_rk(k, key); }
RK(aes128_init_round_keys, 4) RK(rijndael192_init_round_keys, 6) RK(rijndael256_init_round_keys, 8)
static uint8_t* V[256]; static uint8_t* Q[256];
static void h_xor(uint8_t* a, const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; i++) a[i] ^= b[i]; }
void harness_relation(void) {
  C = &cs[fs_choose(12)]; faest_paramset_t p = faest_get_paramset(C->id);
  unsigned la = C->la, LB = la / 8, l = C->l, rows = l + la, eh = (l + 2 * la + 16) / 8;
  static uint8_t w[512], u[600], d[512], in[32], out[32], chall2[128], chall3[32], at[32], bt[32], x[120][4], w0[512], u0[600];
  fs_symbolic(w, l / 8, "witness"); fs_symbolic(u, eh, "mask"); fs_symbolic(in, sizeof in, "public input"); fs_symbolic(out, sizeof out, "public output"); fs_symbolic(chall2, 3 * LB + 8, "chall_2");
  fs_gfvar(la, chall3, "Delta");
  memcpy(h_in, in, 32); memcpy(w0, w, l / 8); memcpy(u0, u, eh);
  h_rkset = 1;
  if (C->em) {
    fs_symbolic(x, 4 * C->nb * (C->nr + 1), "round keys");
    for (unsigned i = 0; i < C->nb * (C->nr + 1u); i++) memcpy(h_rk.round_keys[i / C->nb][i % C->nb], x[i], 4);
  }
  for (unsigned i = 0; i < l / 8; i++) d[i] = w[i] ^ u[i];
  for (unsigned j = 0; j < la; j++) { V[j] = calloc(1, eh); Q[j] = calloc(1, eh); }
  for (unsigned i = 0; i < rows; i++) {
    uint8_t v[32]; fs_gfvar(la, v, "row"); uint8_t ub = (u[i / 8] >> (i % 8)) & 1;
    for (unsigned j = 0; j < la; j++) {
      uint8_t vb = (v[j / 8] >> (j % 8)) & 1, db = (chall3[j / 8] >> (j % 8)) & 1;
      V[j][i / 8] |= (uint8_t)(vb << (i % 8)); Q[j][i / 8] |= (uint8_t)((vb ^ (ub & db)) << (i % 8));
    }
  }
  aes_prove(w, u, V, in, out, chall2, at, bt, &p);
  unsigned np = nli;
  fs_assert(np == 2, "the prover hashes two lists");
  fs_assert_eq(w, w0, l / 8, "witness modified"); fs_assert_eq(u, u0, eh, "mask modified");
  uint8_t* qt = aes_verify(d, Q, chall2, chall3, at, in, out, &p);
  fs_assert(nli == 3, "the verifier hashes one list");
  int a1 = fs_same(at, li[0].fin, LB) ? 0 : 1, a0 = 1 - a1, b = 2;
  fs_assert_eq(at, li[a1].fin, LB, "a_tilde is the hash of the first list"); fs_assert_eq(bt, li[a0].fin, LB, "b_tilde is the hash of the other list");
  for (unsigned i = 0; i < 3; i++) { fs_assert(li[i].done, "list not finalised"); fs_assert_eq(li[i].sd, chall2, 3 * LB + 8, "list hashed under the second challenge"); }
  // reference
  h_r_pairs(w, in, out, x);
  unsigned want = C->em ? C->nr * C->nb * 4 : (C->lke - la) / 8 + C->blocks * C->nr * 16u;
  fs_assert(r_n == want, "reference: number of S-boxes");
  for (unsigned i = 0; i < 3; i++) fs_assert(li[i].n == want, "number of constraints");
  for (int i = 0; i < 8; i++) { uint8_t t[256]; h_alpha_pow(la, i, t); h_pack(alpha[i], t, la); }
  uint8_t one[32] = {1}, D2[32]; fs_gfmul(la, D2, chall3, chall3); h_xor(D2, chall3, LB);
  for (unsigned j = 0; j < want; j++) {
    uint8_t s[32], t[32], r[32], lhs[32];
    h_r_embed(r_s[j], s); h_r_embed(r_d[j], t); fs_gfmul(la, r, s, t); h_xor(r, one, LB); fs_gfmul(la, r, r, D2);
    fs_gfmul(la, lhs, li[a1].e[j], chall3); h_xor(lhs, li[a0].e[j], LB); h_xor(lhs, li[b].e[j], LB);
    fs_gf_assert_eq(la, lhs, r, "constraint: verifier value + prover values at Delta == (S-box relation) * (Delta^2 + Delta)");
  }
  // masks of the two hashes, and the recombination
  uint8_t m[32]; fs_assert_eq(li[a1].x1, u + l / 8, LB, "mask of a_tilde");
  fs_gfmul(la, m, li[a1].x1, chall3); h_xor(m, li[a0].x1, LB); fs_gf_assert_eq(la, li[b].x1, m, "masks of the two sides");
  fs_gfmul(la, m, at, chall3); h_xor(m, li[b].fin, LB); fs_gf_assert_eq(la, qt, m, "recomputed proof value");
  free(qt); for (unsigned j = 0; j < la; j++) { free(V[j]); free(Q[j]); }
  fs_check_leaks();
  fs_cover("relation");
}

#include "owf.h"
// ---- the witness the signer computes satisfies every relation
static uint8_t* h_wit(uint8_t* key, uint8_t* in, uint8_t* out, uint8_t (*x)[4]) {
  static bool (*const f[2][3])(const uint8_t*, const uint8_t*, uint8_t*) = {{owf_128, owf_192, owf_256}, {owf_em_128, owf_em_192, owf_em_256}};
  faest_paramset_t p = faest_get_paramset(C->id);
  fs_symbolic(key, 32, "key"); fs_symbolic(in, 32, "public input"); memset(out, 0, 32);
  if (C->em) h_expand(x, in, C->nk, C->nb, C->nr);
  f[C->em][C->la / 64 - 2](key, in, out);
  return aes_extend_witness(key, in, &p);
}
void harness_honest(void) {
  C = &cs[fs_choose(12)]; static uint8_t key[32], in[32], out[32], x[120][4];
  uint8_t* w = h_wit(key, in, out, x);
  h_r_pairs(w, in, out, x);
  fs_assert_eq(w, key, C->la / 8, "the witness begins with the key");
  for (unsigned j = 0; j < r_n; j++) { uint8_t e = h_inv(r_s[j]); fs_assert_eq(&r_d[j], &e, 1, "relation of the computed witness"); }
  free(w); fs_cover("honest");
}
// ---- and is the only one that does, with the only output: going through the S-boxes in evaluation order, each
// relation's input is already determined and its output is a bijective affine image of one new byte
static int h_r_level(unsigned j, unsigned* pos, int* isout) {   // byte of the witness (or output) that the j-th S-box output determines
  static const unsigned sh[3][4] = {{0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 3, 4}};
  unsigned ke = C->em ? 0 : (C->lke - C->la) / 8u, bs = 4u * C->nb; *isout = 0;
  if (j < ke) { *pos = C->la / 8 + j; return j / 4; }
  unsigned e = j - ke, b = e / (bs * C->nr), r = e / bs % C->nr, c = e % bs / 4, q = e % 4, t = 4 * ((c + C->nb - sh[C->nb / 2 - 2][q]) % C->nb) + q;
  if (r + 1 == C->nr) { *isout = 1; *pos = b * bs + t; } else *pos = (C->em ? bs : C->lke / 8u + b * bs * (C->nr - 1u)) + r * bs + t;
  return ke / 4 + b * C->nr + r;
}
void harness_unique(void) {
  C = &cs[fs_choose(12)]; static uint8_t key[32], in[32], out[32], x[120][4], s0[600], d0[600], w1[512], out1[32], hit[512 + 32];
  uint8_t* w = h_wit(key, in, out, x);
  h_r_pairs(w, in, out, x); memcpy(s0, r_s, sizeof r_s); memcpy(d0, r_d, sizeof r_d);
  unsigned n = r_n, p; int o, last = h_r_level(n - 1, &p, &o);
  memset(hit, 0, sizeof hit);
  for (unsigned j = 0; j < n; j++) { h_r_level(j, &p, &o); fs_assert(!hit[o ? 512 + p : p], "byte determined twice"); hit[o ? 512 + p : p] = 1; }
  for (unsigned i = 0; i < C->l / 8u; i++) fs_assert(hit[i] == (i >= C->la / 8u), "witness byte not determined");
  for (unsigned i = 0; i < 4u * C->nb * C->blocks; i++) fs_assert(hit[512 + i] == 1, "output byte not determined");
  for (int k = 0; k <= last; k++) {
    memcpy(w1, w, C->l / 8); memcpy(out1, out, 32);
    for (unsigned j = 0; j < n; j++) if (h_r_level(j, &p, &o) >= k) fs_symbolic(o ? &out1[p] : &w1[p], 1, "other");
    h_r_pairs(w1, in, out1, x);
    for (unsigned j = 0; j < n; j++) if (h_r_level(j, &p, &o) == k) {
      fs_assert_eq(&r_s[j], &s0[j], 1, "S-box input determined by the preceding bytes");
      uint8_t e = h_r_aff((o ? out1[p] ^ out[p] : w1[p] ^ w[p])) ^ 5 ^ d0[j];
      fs_assert_eq(&r_d[j], &e, 1, "S-box output is an affine image of one byte");
    }
  }
  free(w); fs_cover("unique");
}
// ---- one S-box: the relation s*s' == 1 says exactly that the bytes are S-box input (nonzero) and output; the
// relation means the same in the large field
void harness_sbox(void) {
  uint8_t a, y, ab[8], yb[8], r[8], v; fs_symbolic(&a, 1, "S-box input"); fs_symbolic(&y, 1, "S-box output");
  uint8_t d = h_r_aff(y), i[8], id;
  h_unpack(ab, &a, 8); h_unpack(yb, &d, 8); h_gf_mul(8, r, ab, 8, yb, 8); h_pack(&v, r, 8);
  // inverse by definition: a * inv == 1 or both zero
  fs_symbolic(&id, 1, "inverse"); h_unpack(i, &id, 8); h_gf_mul(8, r, ab, 8, i, 8); uint8_t one; h_pack(&one, r, 8);
  fs_assume(one == (a != 0)); fs_assume(a != 0 || id == 0);
  uint8_t sb = 0; for (int k = 0; k < 8; k++) sb |= (uint8_t)((((id >> k) ^ (id >> ((k + 4) & 7)) ^ (id >> ((k + 5) & 7)) ^ (id >> ((k + 6) & 7)) ^ (id >> ((k + 7) & 7)) ^ (0x63 >> k)) & 1) << k);
  fs_assert((v == 1) == (a != 0 && y == sb), "relation of one S-box");
  fs_cover("sbox");
}
void harness_embed(void) {
  C = &cs[2 * fs_choose(3)]; unsigned la = C->la;
  for (int i = 0; i < 8; i++) { uint8_t t[256]; h_alpha_pow(la, i, t); h_pack(alpha[i], t, la); }
  uint8_t a, b, ab[8], bb[8], r[8], v, x[32], y[32], z[32], one[32] = {1}; fs_symbolic(&a, 1, "a"); fs_symbolic(&b, 1, "b");
  h_unpack(ab, &a, 8); h_unpack(bb, &b, 8); h_gf_mul(8, r, ab, 8, bb, 8); h_pack(&v, r, 8);
  h_r_embed(a, x); h_r_embed(b, y); h_r_embed(v, z); fs_gfmul(la, x, x, y); fs_gf_assert_eq(la, x, z, "the embedding of GF(256) is multiplicative");
  h_r_embed(1, x); fs_assert_eq(x, one, 32, "the embedding maps 1 to 1");
  h_r_embed(a, x); int nz = 0; for (unsigned i = 0; i < 32; i++) nz |= x[i]; fs_assert((nz == 0) == (a == 0), "the embedding is injective");
  fs_cover("embed");
}
