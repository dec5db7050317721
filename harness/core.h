// faest_sign / faest_verify over modelled components. Two models of the components:
//  M_UF     every component is an arbitrary function of everything it is given (transcript, verdict, purity, layout)
//  M_CORR   the components additionally satisfy the relations decided by C04, C05, C13, C15 (completeness)
// Hash functions are arbitrary functions of the concatenation of what they are given, one per oracle and level.
#pragma once
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#include "aes.h"
#include "faest.h"
#include "faest_aes.h"
#include "instances.h"
#include "random_oracle.h"
#include "universal_hashing.h"
#include "vc.h"
#include "vole.h"
static const struct h_set { faest_paramid_t id; uint16_t la, l, tau, k0, k1, t0, t1, sig, pk; } h_sets[12] = {
  {FAEST_128S, 128, 1600, 11, 12, 11, 7, 4, 5006, 32},     {FAEST_128F, 128, 1600, 16, 8, 8, 0, 16, 6336, 32},
  {FAEST_192S, 192, 3264, 16, 12, 12, 0, 16, 12744, 64},   {FAEST_192F, 192, 3264, 24, 8, 8, 0, 24, 16792, 64},
  {FAEST_256S, 256, 4000, 22, 12, 11, 14, 8, 22100, 64},   {FAEST_256F, 256, 4000, 32, 8, 8, 0, 32, 28400, 64},
  {FAEST_EM_128S, 128, 1280, 11, 12, 11, 7, 4, 4566, 32},  {FAEST_EM_128F, 128, 1280, 16, 8, 8, 0, 16, 5696, 32},
  {FAEST_EM_192S, 192, 2304, 16, 12, 12, 0, 16, 10824, 48}, {FAEST_EM_192F, 192, 2304, 24, 8, 8, 0, 24, 13912, 48},
  {FAEST_EM_256S, 256, 3584, 22, 12, 11, 14, 8, 20956, 64}, {FAEST_EM_256F, 256, 3584, 32, 8, 8, 0, 32, 26736, 64}};
enum { M_UF, M_CORR };
static int h_mode; static const struct h_set* S; static faest_paramset_t h_p; static unsigned LB, EH, L8, OW;   // lambda, ell_hat, ell in bytes; half of the public key
static void h_pick(int i) { S = &h_sets[i]; h_p = faest_get_paramset(S->id); LB = S->la / 8; L8 = S->l / 8; EH = L8 + 2 * LB + 2; OW = S->pk / 2; }
static unsigned h_depth(unsigned i) { return i < S->t0 ? S->k0 : S->k1; }
// positions in the signature, from the specification
static unsigned o_c(unsigned i) { return i * EH; }
static unsigned o_ut(void) { return (S->tau - 1) * EH; }
static unsigned o_d(void) { return o_ut() + LB + 2; }
static unsigned o_at(void) { return o_d() + L8; }
static unsigned o_pdec(unsigned i) { unsigned p = o_at() + LB; for (unsigned k = 0; k < i; k++) p += (h_depth(k) + 2) * LB; return p; }
static unsigned o_com(unsigned i) { return o_pdec(i) + h_depth(i) * LB; }
static unsigned o_ch3(void) { return o_pdec(S->tau); }
static unsigned o_iv(void) { return o_ch3() + LB; }
static unsigned o_end(void) { return o_iv() + 16; }
// what the code may treat as public must be public (C22): arguments on which a component may branch, and Fiat-Shamir outputs
#ifdef H_CT
#define H_PUB(p, n, m) fs_check_public(p, n, m)
#define H_DECL(p, n) fs_declassify(p, n)
#else
#define H_PUB(p, n, m)
#define H_DECL(p, n)
#endif
// ---- hash functions
static const uint8_t *h_bigp[2]; static int h_big;
static int h_lev(unsigned b) { return b == 128 ? 0 : b == 192 ? 1 : 2; }
static int h_new(int o, unsigned b) { static const char* const nm[4][3] = {{"H1_128", "H1_192", "H1_256"}, {"H2_128", "H2_192", "H2_256"}, {"H3_128", "H3_192", "H3_256"}, {"H0_128", "H0_192", "H0_256"}}; return fs_sp_new(nm[o][h_lev(b)]); }
static void h_add(int h, const uint8_t* p, size_t n) {
  if (h_big) for (uint32_t k = 0; k < 2; k++) if (p == h_bigp[k]) { if (n) { fs_sp_add(h, (const uint8_t*)"\xf0\xf1" + k, 1); fs_sp_add(h, (const uint8_t*)&n, 8); } return; }
  fs_sp_add(h, p, n);
}
static void h_put(void* c, int h) { memcpy(c, &h, 4); }
static int h_get(const void* c) { int h; memcpy(&h, c, 4); return h; }
void fsr_H1_init(H1_context_t* c, unsigned s) { h_put(c, h_new(0, s)); }
void fsr_H1_update(H1_context_t* c, const uint8_t* p, size_t n) { h_add(h_get(c), p, n); }
void fsr_H1_final(H1_context_t* c, uint8_t* d, size_t n) { fs_sp_out(h_get(c), d, 0, n); }
void fsr_H2_init(H2_context_t* c, unsigned s) { h_put(c, h_new(1, s)); }
void fsr_H2_update(H2_context_t* c, const uint8_t* p, size_t n) { h_add(h_get(c), p, n); }
static uint8_t h_ch3v[32], h_ch3d[32]; static int h_nch3;
// completeness: the final challenge is any value, the same for signer and verifier, whose transcripts must agree
void fsr_H2_final(H2_context_t* c, uint8_t* d, size_t n) {
  if (h_mode == M_UF || n != LB) { fs_sp_out(h_get(c), d, 0, n); H_DECL(d, n); return; }
  uint8_t x[32]; fs_sp_out(h_get(c), x, 0, n);
  if (!h_nch3++) { fs_symbolic(h_ch3v, 32, "final challenge"); memcpy(h_ch3d, x, n); } else fs_assert_eq(x, h_ch3d, n, "final challenge of signer and verifier");
  memcpy(d, h_ch3v, n);
}
void fsr_H3_init(H3_context_t* c, unsigned s) { h_put(c, h_new(2, s)); }
void fsr_H3_update(H3_context_t* c, const uint8_t* p, size_t n) { h_add(h_get(c), p, n); }
void fsr_H3_final(H3_context_t* c, uint8_t* d, size_t n, uint8_t* iv) { fs_sp_out(h_get(c), d, 0, n); fs_sp_out(h_get(c), iv, n, 16); H_DECL(iv, 16); }
// ---- components as functions
static void h_ad4(int h, uint32_t x) { fs_sp_add(h, (uint8_t*)&x, 4); }
static void h_setok(const faest_paramset_t* p) { fs_assert(p->faest_paramid == S->id && !memcmp(&p->faest_param, &h_p.faest_param, sizeof h_p.faest_param), "parameter set handed to a component"); }
static int h_volef(const uint8_t* root, const uint8_t* iv) { int h = fs_sp_new("vole_commit"); fs_sp_add(h, root, LB); fs_sp_add(h, iv, 16); h_ad4(h, S->id); return h; }
static size_t p_u(void) { return 64; }
static size_t p_c(void) { return 1024; }
static size_t p_v(void) { return 65536; }
static size_t p_k(unsigned i) { return 65536 * 8 + i * 128; }
void fsr_vole_commit(const uint8_t* root, const uint8_t* iv, unsigned ellhat, const faest_paramset_t* params, uint8_t* hcom, vec_com_t* vc, uint8_t* c, uint8_t* u, uint8_t** v) {
  h_setok(params); fs_assert(ellhat == EH * 8, "commitment length"); H_PUB(iv, 16, "iv of the commitment"); int h = h_volef(root, iv);
  fs_sp_out(h, hcom, 0, 2 * LB); fs_sp_out(h, u, p_u(), EH); fs_sp_out(h, c, p_c(), (S->tau - 1) * EH);
  for (unsigned i = 0; i < S->la; i++) fs_sp_out(h, v[i], p_v() + i * EH, EH);
  for (unsigned i = 0; i < S->tau; i++) { vc[i].h = vc[i].sd = NULL; vc[i].k = malloc(LB); vc[i].com = malloc(LB); fs_sp_out(h, vc[i].k, p_k(i), LB); fs_sp_out(h, vc[i].com, p_k(i) + 64, LB); }
}
void fsr_vec_com_clear(vec_com_t* v) { free(v->k); free(v->com); free(v->sd); free(v->h); v->k = v->com = v->sd = v->h = NULL; }
static void h_open(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* pdec, uint8_t* cj, unsigned depth) {
  int h = fs_sp_new("vector_open"); fs_sp_add(h, k, LB); fs_sp_add(h, com, LB); uint8_t x[16] = {0}; for (unsigned j = 0; j < depth; j++) x[j] = b[j]; fs_sp_add(h, x, 16); h_ad4(h, depth); fs_sp_out(h, pdec, 0, depth * LB); fs_sp_out(h, cj, 1024, 2 * LB);
}
void fsr_vector_open(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* pdec, uint8_t* cj, uint32_t depth, uint32_t lb) { fs_assert(lb == LB, "level handed to vector_open"); H_PUB(b, depth, "index bits of the opening"); h_open(k, com, b, pdec, cj, depth); }
static void h_wit(const uint8_t* key, const uint8_t* in, uint8_t* w) { int h = fs_sp_new("extend_witness"); fs_sp_add(h, key, LB); fs_sp_add(h, in, OW); h_ad4(h, S->id); fs_sp_out(h, w, 0, L8); }
uint8_t* fsr_aes_extend_witness(const uint8_t* key, const uint8_t* in, const faest_paramset_t* params) { h_setok(params); H_PUB(in, OW, "input of the witness"); uint8_t* w = malloc(L8); h_wit(key, in, w); return w; }
static void h_vhash(uint8_t* h, const uint8_t* sd, const uint8_t* x) { static const char* const nm[3] = {"vole_hash_128", "vole_hash_192", "vole_hash_256"}; if (h_mode == M_CORR) fs_luf(nm[h_lev(S->la)], h, LB + 2, sd, 5 * LB + 8, x, EH); else { int s = fs_sp_new(nm[h_lev(S->la)]); fs_sp_add(s, sd, 5 * LB + 8); fs_sp_add(s, x, EH); fs_sp_out(s, h, 0, LB + 2); } }
void fsr_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell, uint32_t lambda) { fs_assert(ell == S->l && lambda == S->la, "length or level handed to vole_hash"); H_PUB(sd, 5 * LB + 8, "key of the universal hash"); h_vhash(h, sd, x); }
// first ell + lambda rows of u and of the columns of V
static int h_pv(const uint8_t* w, const uint8_t* u, uint8_t** V, const uint8_t* in, const uint8_t* out, const uint8_t* chall) {
  int h = fs_sp_new("aes_prove"); fs_sp_add(h, w, L8); fs_sp_add(h, u, L8 + LB); for (unsigned i = 0; i < S->la; i++) fs_sp_add(h, V[i], L8 + LB); fs_sp_add(h, in, OW); fs_sp_add(h, out, OW); fs_sp_add(h, chall, 3 * LB + 8); h_ad4(h, S->id); return h;
}
static uint8_t h_pin[32], h_pout[32], h_pch[104], h_pat[32], h_pbt[32]; static int h_proved;
void fsr_aes_prove(const uint8_t* w, const uint8_t* u, uint8_t** V, const uint8_t* in, const uint8_t* out, const uint8_t* chall, uint8_t* at, uint8_t* bt, const faest_paramset_t* params) {
  h_setok(params); int h; H_PUB(chall, 3 * LB + 8, "challenge of the proof"); H_PUB(in, OW, "input of the proof"); H_PUB(out, OW, "output of the proof");
  h = h_pv(w, u, V, in, out, chall);
  fs_sp_out(h, at, 0, LB); fs_sp_out(h, bt, 64, LB);
  memcpy(h_pin, in, OW); memcpy(h_pout, out, OW); memcpy(h_pch, chall, 3 * LB + 8); memcpy(h_pat, at, LB); memcpy(h_pbt, bt, LB); h_proved++;
}
// what the signer committed to in M_CORR, set by the harness
static uint8_t h_croot[32], h_civ[16], h_cw[512];
static int h_recf(const uint8_t* iv, const uint8_t* chal, const uint8_t* const* pdec, const uint8_t* const* com) {
  int h = fs_sp_new("vole_reconstruct"); fs_sp_add(h, iv, 16); fs_sp_add(h, chal, LB); for (unsigned i = 0; i < S->tau; i++) { fs_sp_add(h, pdec[i], h_depth(i) * LB); fs_sp_add(h, com[i], 2 * LB); } h_ad4(h, S->id); return h;
}
void fsr_vole_reconstruct(const uint8_t* iv, const uint8_t* chal, const uint8_t* const* pdec, const uint8_t* const* com, uint8_t* hcom, uint8_t** q, unsigned ellhat, const faest_paramset_t* params) {
  h_setok(params); fs_assert(ellhat == EH * 8, "reconstruction length");
  if (h_mode == M_UF) { int h = h_recf(iv, chal, pdec, com); fs_sp_out(h, hcom, 0, 2 * LB); for (unsigned i = 0; i < S->la; i++) fs_sp_out(h, q[i], 64 + i * EH, EH); return; }
  // honest opening of the signer's commitment: C04 gives the hash and the correlation
  int h = h_volef(h_croot, h_civ); fs_assert_eq(iv, h_civ, 16, "iv handed to the reconstruction");
  uint8_t *u = malloc(EH), *c = malloc(EH), k[32], cm[32], pd[512], cj[64];
  fs_sp_out(h, u, p_u(), EH); fs_sp_out(h, hcom, 0, 2 * LB);
  for (unsigned i = 0, col = 0; i < S->tau; i++) {
    uint8_t b[16]; for (unsigned j = 0; j < h_depth(i); j++) b[j] = chal[(col + j) / 8] >> ((col + j) % 8) & 1;
    fs_sp_out(h, k, p_k(i), LB); fs_sp_out(h, cm, p_k(i) + 64, LB); h_open(k, cm, b, pd, cj, h_depth(i));
    fs_assert_eq(pdec[i], pd, h_depth(i) * LB, "opening handed to the reconstruction"); fs_assert_eq(com[i], cj, 2 * LB, "commitment handed to the reconstruction");
    if (i) fs_sp_out(h, c, p_c() + (i - 1) * EH, EH); else memset(c, 0, EH);
    for (unsigned j = 0; j < h_depth(i); j++, col++) { fs_sp_out(h, q[col], p_v() + col * EH, EH); uint8_t m = -b[j]; for (unsigned x = 0; x < EH; x++) q[col][x] ^= m & (u[x] ^ c[x]); }
  }
  free(u); free(c);
}
static int h_vf(const uint8_t* d, uint8_t** Q, const uint8_t* c2, const uint8_t* c3, const uint8_t* at, const uint8_t* in, const uint8_t* out) {
  int h = fs_sp_new("aes_verify"); fs_sp_add(h, d, L8); for (unsigned i = 0; i < S->la; i++) fs_sp_add(h, Q[i], L8 + LB); fs_sp_add(h, c2, 3 * LB + 8); fs_sp_add(h, c3, LB); fs_sp_add(h, at, LB); fs_sp_add(h, in, OW); fs_sp_add(h, out, OW); h_ad4(h, S->id); return h;
}
uint8_t* fsr_aes_verify(const uint8_t* d, uint8_t** Q, const uint8_t* c2, const uint8_t* c3, const uint8_t* at, const uint8_t* in, const uint8_t* out, const faest_paramset_t* params) {
  h_setok(params); uint8_t* bt = malloc(LB);
  if (h_mode == M_UF) { fs_sp_out(h_vf(d, Q, c2, c3, at, in, out), bt, 0, LB); return bt; }
  // C15: the verifier's value is the prover's for d = w + u, Q = V + delta u and equal remaining inputs
  int h = h_volef(h_croot, h_civ); unsigned n = L8 + LB; uint8_t *u = malloc(n), *v = malloc(n); fs_sp_out(h, u, p_u(), n);
  for (unsigned i = 0; i < L8; i++) v[i] = h_cw[i] ^ u[i];
  fs_assert_eq(d, v, L8, "masked witness handed to the proof verification");
  for (unsigned i = 0; i < S->la; i++) { fs_sp_out(h, v, p_v() + i * EH, n); uint8_t m = -(c3[i / 8] >> (i % 8) & 1); for (unsigned x = 0; x < n; x++) v[x] ^= m & u[x]; fs_assert_eq(Q[i], v, n, "column of Q handed to the proof verification"); }
  fs_assert(h_proved == 1, "number of proofs"); fs_assert_eq(c2, h_pch, 3 * LB + 8, "second challenge of signer and verifier"); fs_assert_eq(at, h_pat, LB, "proof value"); fs_assert_eq(in, h_pin, OW, "public input"); fs_assert_eq(out, h_pout, OW, "public output");
  memcpy(bt, h_pbt, LB); free(u); free(v); return bt;
}
// comparison functions of the C library that the code may use
int fsr_strncmp(const char* a, const char* b, size_t n) { uint8_t live = 1, diff = 0; for (size_t i = 0; i < n; i++) { diff |= live & ((uint8_t)a[i] != (uint8_t)b[i]); live &= !diff & (a[i] != 0); } return diff; }
int fsr_CRYPTO_memcmp(const void* a, const void* b, size_t n) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i]; return d; }
// ---- reference signer and verifier
static void h_xor(uint8_t* r, const uint8_t* a, const uint8_t* b, unsigned n) { for (unsigned i = 0; i < n; i++) r[i] = a[i] ^ b[i]; }
static uint8_t** h_cols(void) { uint8_t** v = malloc(S->la * sizeof *v); v[0] = malloc(S->la * EH); for (unsigned i = 1; i < S->la; i++) v[i] = v[0] + i * EH; return v; }
static void h_mu(uint8_t* mu, const uint8_t* in, const uint8_t* out, const uint8_t* msg, size_t n) { int h = h_new(0, S->la); fs_sp_add(h, in, OW); fs_sp_add(h, out, OW); h_add(h, msg, n); fs_sp_out(h, mu, 0, 2 * LB); }
static void h_ch1(uint8_t* c1, const uint8_t* mu, const uint8_t* hcom, const uint8_t* c, const uint8_t* iv) { int h = h_new(1, S->la); fs_sp_add(h, mu, 2 * LB); fs_sp_add(h, hcom, 2 * LB); fs_sp_add(h, c, (S->tau - 1) * EH); fs_sp_add(h, iv, 16); fs_sp_out(h, c1, 0, 5 * LB + 8); }
static void h_ch2(uint8_t* c2, const uint8_t* c1, const uint8_t* ut, const uint8_t* hv, const uint8_t* d) { int h = h_new(1, S->la); fs_sp_add(h, c1, 5 * LB + 8); fs_sp_add(h, ut, LB + 2); fs_sp_add(h, hv, 2 * LB); fs_sp_add(h, d, L8); fs_sp_out(h, c2, 0, 3 * LB + 8); }
static void h_ch3(uint8_t* c3, const uint8_t* c2, const uint8_t* at, const uint8_t* bt) { int h = h_new(1, S->la); fs_sp_add(h, c2, 3 * LB + 8); fs_sp_add(h, at, LB); fs_sp_add(h, bt, LB); fs_sp_out(h, c3, 0, LB); }
static void h_ref_sign(uint8_t* sig, const uint8_t* msg, size_t n, const uint8_t* key, const uint8_t* in, const uint8_t* out, const uint8_t* rho, size_t rn, uint8_t* root, uint8_t* w) {
  uint8_t mu[64], hcom[64], c1[168], c2[104], hv[64], vt[34], bt[32], k[32], cm[32], b[16], **V = h_cols(), *u = malloc(EH); int h;
  h_mu(mu, in, out, msg, n);
  h = h_new(2, S->la); fs_sp_add(h, key, LB); fs_sp_add(h, mu, 2 * LB); if (rho && rn) h_add(h, rho, rn); fs_sp_out(h, root, 0, LB); fs_sp_out(h, sig + o_iv(), LB, 16);
  int vh = h_volef(root, sig + o_iv()); fs_sp_out(vh, hcom, 0, 2 * LB); fs_sp_out(vh, u, p_u(), EH); fs_sp_out(vh, sig, p_c(), (S->tau - 1) * EH); for (unsigned i = 0; i < S->la; i++) fs_sp_out(vh, V[i], p_v() + i * EH, EH);
  h_ch1(c1, mu, hcom, sig, sig + o_iv());
  h_vhash(sig + o_ut(), c1, u);
  h = h_new(0, S->la); for (unsigned i = 0; i < S->la; i++) { h_vhash(vt, c1, V[i]); fs_sp_add(h, vt, LB + 2); } fs_sp_out(h, hv, 0, 2 * LB);
  h_wit(key, in, w); h_xor(sig + o_d(), w, u, L8);
  h_ch2(c2, c1, sig + o_ut(), hv, sig + o_d());
  h = h_pv(w, u, V, in, out, c2); fs_sp_out(h, sig + o_at(), 0, LB); fs_sp_out(h, bt, 64, LB);
  h_ch3(sig + o_ch3(), c2, sig + o_at(), bt);
  for (unsigned i = 0, col = 0; i < S->tau; col += h_depth(i++)) {
    for (unsigned j = 0; j < h_depth(i); j++) b[j] = sig[o_ch3() + (col + j) / 8] >> ((col + j) % 8) & 1;
    fs_sp_out(vh, k, p_k(i), LB); fs_sp_out(vh, cm, p_k(i) + 64, LB); h_open(k, cm, b, sig + o_pdec(i), sig + o_com(i), h_depth(i));
  }
  free(V[0]); free(V); free(u);
}
// the final challenge a verifier must recompute
static void h_ref_verify(uint8_t* c3, const uint8_t* sig, const uint8_t* msg, size_t n, const uint8_t* in, const uint8_t* out) {
  uint8_t mu[64], hcom[64], c1[168], c2[104], hv[64], qt[34], bt[32], **Q = h_cols(); const uint8_t *pd[32], *cm[32]; int h;
  h_mu(mu, in, out, msg, n);
  for (unsigned i = 0; i < S->tau; i++) { pd[i] = sig + o_pdec(i); cm[i] = sig + o_com(i); }
  h = h_recf(sig + o_iv(), sig + o_ch3(), pd, cm); fs_sp_out(h, hcom, 0, 2 * LB); for (unsigned i = 0; i < S->la; i++) fs_sp_out(h, Q[i], 64 + i * EH, EH);
  h_ch1(c1, mu, hcom, sig, sig + o_iv());
  for (unsigned i = 0, col = 0; i < S->tau; i++) for (unsigned j = 0; j < h_depth(i); j++, col++) if (i) { uint8_t m = -(sig[o_ch3() + col / 8] >> (col % 8) & 1); for (unsigned x = 0; x < EH; x++) Q[col][x] ^= m & sig[o_c(i - 1) + x]; }
  h = h_new(0, S->la); for (unsigned i = 0; i < S->la; i++) { h_vhash(qt, c1, Q[i]); uint8_t m = -(sig[o_ch3() + i / 8] >> (i % 8) & 1); for (unsigned x = 0; x < LB + 2; x++) qt[x] ^= m & sig[o_ut() + x]; fs_sp_add(h, qt, LB + 2); } fs_sp_out(h, hv, 0, 2 * LB);
  h_ch2(c2, c1, sig + o_ut(), hv, sig + o_d());
  fs_sp_out(h_vf(sig + o_d(), Q, c2, sig + o_ch3(), sig + o_at(), in, out), bt, 0, LB);
  h_ch3(c3, c2, sig + o_at(), bt);
  free(Q[0]); free(Q);
}
