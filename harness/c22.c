// C22: no branch condition, address, loop bound, allocation size or division operand depends on a secret (fsym -ct).
// Secrets are variables of their own; a dependence is a pair of secrets that gives different values. One part per layer,
// each with the layers below replaced by functions whose outputs are secret when their inputs are.
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#include "instances.h"
static void h_sec(void* p, size_t n) { fs_secret(p, n, "secret"); }
static void h_pub(void* p, size_t n) { fs_symbolic(p, n, "public"); }
#if P == 1   // fields
#include "fields.h"
#define F(W) \
void harness_f##W(void) { \
  fs_anf(0); static uint8_t a[W / 8], b[W / 8], c[W / 8], x[W * W / 8]; int op = fs_choose(W == 64 ? 5 : 9); uint8_t r[W / 8 + 8]; \
  h_sec(a, W / 8); h_sec(b, W / 8); h_sec(x, sizeof x); bf##W##_t p = bf##W##_load(a), q = bf##W##_load(b); \
  switch (op) { \
    case 0: p = bf##W##_mul(p, q); break; \
    case 1: p = bf##W##_add(p, q); break; \
    case 2: p = bf##W##_from_bit(a[0] & 1); break; \
    case 3: p = bf##W##_mul(p, p); break; \
    default: F##W; \
  } \
  bf##W##_store(r, p); fs_cover("field"); }
#define F64 break
#define FX(W) if (op == 4) p = bf##W##_mul_bit(p, b[0] & 1); else if (op == 5) p = bf##W##_mul_64(p, bf64_load(b)); else if (op == 6) p = bf##W##_byte_combine_bits(a[1]); \
  else { static bf##W##_t v[W]; for (int i = 0; i < W; i++) v[i] = bf##W##_load(x + W / 8 * i); p = op == 7 ? bf##W##_byte_combine(v) : bf##W##_sum_poly(v); }
#define F128 FX(128)
#define F192 FX(192)
#define F256 FX(256)
F(64) F(128) F(192) F(256)
void harness_f8(void) { fs_anf(0); uint8_t a, b; h_sec(&a, 1); h_sec(&b, 1); volatile uint8_t r = bf8_mul(a, b) ^ bf8_add(a, b) ^ bf8_inv(a) ^ bf8_one(); (void)r; fs_cover("field"); }
#include "compat.h"
void harness_compat(void) { fs_anf(0); unsigned n = fs_choose(70); static uint8_t a[80], b[80]; h_sec(a, 80); h_sec(b, 80); int r = faest_timingsafe_bcmp(a, b, n); volatile int x = r; (void)x; faest_explicit_bzero(a, n); fs_cover("compat"); }
#elif P == 2  // AES, one-way functions, witness, generator
#include "aes.h"
#include "owf.h"
#include "fields.h"
#ifndef OSSL
void harness_owf(void) {
  fs_anf(0); int k = fs_choose(6); uint8_t key[32], in[32], out[32]; h_sec(key, 32); h_pub(in, 32); static bool (*const f[6])(const uint8_t*, const uint8_t*, uint8_t*) = {owf_128, owf_192, owf_256, owf_em_128, owf_em_192, owf_em_256};
  bool r = f[k](key, in, out); volatile bool x = r; (void)x; fs_cover("owf");
}
void harness_witness(void) {
  fs_anf(0); faest_paramset_t p = faest_get_paramset(1 + fs_choose(12)); uint8_t key[32], in[32]; h_sec(key, 32); h_pub(in, 32);
  uint8_t* w = aes_extend_witness(key, in, &p); free(w); fs_cover("witness");
}
#else
#include <openssl/evp.h>
static int c128, c192, c256; static uint8_t h_key[32];
const EVP_CIPHER* fsr_EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)&c128; }
const EVP_CIPHER* fsr_EVP_aes_192_ctr(void) { return (const EVP_CIPHER*)&c192; }
const EVP_CIPHER* fsr_EVP_aes_256_ctr(void) { return (const EVP_CIPHER*)&c256; }
EVP_CIPHER_CTX* fsr_EVP_CIPHER_CTX_new(void) { return calloc(1, 64); }
void fsr_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { free(c); }
int fsr_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* ci, ENGINE* e, const unsigned char* key, const unsigned char* iv) { memcpy(h_key, key, ci == (void*)&c128 ? 16 : ci == (void*)&c192 ? 24 : 32); return 1; }
int fsr_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) { for (int i = 0; i < inl; i++) { uint8_t x[33]; memcpy(x, h_key, 32); x[32] = in[i]; fs_uf("ks", out + i, 1, x, 33); } *outl = inl; return 1; }
int fsr_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { *outl = 0; return 1; }
#endif
void harness_prg(void) {
  fs_anf(0); unsigned s = 128 + 64 * fs_choose(3), n = (unsigned[]){0, 1, 15, 16, 17, 31, 32, 48, 64, 65, 96}[fs_choose(11)]; static uint8_t key[32], iv[16], out[128]; h_sec(key, 32); h_pub(iv, 16);
  prg(key, iv, out, s, n); fs_cover("prg");
}
#elif P == 3  // hashing
#include "random_oracle.h"
static uint8_t m[4][800], o[4][200], o2[4][200], iv[16];
// the permutation, at every use in the sponge: branches of its own are looked at in harness_perm
#ifdef STUBPERM
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"
static void h_scr(void* s, unsigned n) { uint8_t* p = s; for (unsigned i = 0; i < n; i++) { uint8_t x[2] = {p[i], p[(i + 1) % n]}; fs_uf("perm", p + i, 1, x, 2); } }
void fsr_KeccakP1600_Permute_24rounds(void* s) { h_scr(s, 200); }
void fsr_KeccakP1600times4_PermuteAll_24rounds(void* s) { h_scr(s, 800); }
#ifdef KeccakF1600_FastLoop_supported
size_t fsr_KeccakF1600_FastLoop_Absorb(void* st, unsigned lanes, const unsigned char* d, size_t n) { size_t o = 0; for (; n - o >= lanes * 8; o += lanes * 8) { KeccakP1600_AddBytes(st, d + o, 0, lanes * 8); h_scr(st, 200); } return o; }
#endif
#endif
static unsigned h_len(void) { return (unsigned[]){0, 1, 16, 32, 48, 64, 135, 136, 137, 167, 168, 169, 200, 273, 337, 506}[fs_choose(16)]; }
void harness_hash(void) {
  unsigned s = 128 + 64 * fs_choose(3), n = h_len(), k = fs_choose(5), L = s / 8; for (int i = 0; i < 4; i++) h_sec(m[i], n);
  if (k == 0) { H0_context_t c; H0_init(&c, s); H0_update(&c, m[0], n); H0_update(&c, m[1], n / 3); H0_final(&c, o[0], L, o2[0], 2 * L); }
  if (k == 1) { H0_context_x4_t c; H0_x4_init(&c, s); H0_x4_update(&c, m[0], m[1], m[2], m[3], n); H0_x4_update(&c, m[0], m[1], m[2], m[3], n / 3); H0_x4_final(&c, o[0], o[1], o[2], o[3], L, o2[0], o2[1], o2[2], o2[3], 2 * L); }
  if (k == 2) { H1_context_t c; H1_init(&c, s); H1_update(&c, m[0], n); H1_update(&c, m[1], n / 3); H1_final(&c, o[0], 2 * L); }
  if (k == 3) { H2_context_t c; H2_init(&c, s); H2_update(&c, m[0], n); H2_update(&c, m[1], n / 3); H2_final(&c, o[0], 5 * L + 8); }
  if (k == 4) { H3_context_t c; H3_init(&c, s); H3_update(&c, m[0], n); H3_update(&c, m[1], n / 3); H3_final(&c, o[0], L, iv); }
  fs_cover("hash");
}
#ifndef STUBPERM
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"
void harness_perm(void) {
  fs_anf(0); fs_cutchi(1); static __attribute__((aligned(32))) uint8_t st[KeccakP1600times4_statesSizeInBytes + 32], b[200];
  int k = fs_choose(3); h_sec(b, 200);
  if (k == 0) { KeccakP1600_Initialize(st); KeccakP1600_AddBytes(st, b, 0, 200); KeccakP1600_Permute_24rounds(st); KeccakP1600_ExtractBytes(st, b, 0, 168); }
  else if (k == 1) {
#ifdef KeccakF1600_FastLoop_supported
    KeccakP1600_Initialize(st); size_t r = KeccakF1600_FastLoop_Absorb(st, 17, b, 200); fs_assert(r == 136, "bytes absorbed"); KeccakP1600_ExtractBytes(st, b, 0, 168);
#endif
  } else { KeccakP1600times4_InitializeAll(st); for (int i = 0; i < 4; i++) KeccakP1600times4_AddBytes(st, i, b, 0, 200); KeccakP1600times4_PermuteAll_24rounds(st); for (int i = 0; i < 4; i++) KeccakP1600times4_ExtractBytes(st, i, b, 0, 168); }
  fs_cover("perm");
}
#endif
#elif P == 8  // generated API, with TIMECOP's annotations in the source active
#include "capi.c"
int faest_timingsafe_bcmp(const void*, const void*, size_t);
// the verdict is the return value
int fsr_faest_timingsafe_bcmp(const void* a, const void* b, size_t n) { int r = faest_timingsafe_bcmp(a, b, n); fs_declassify(&r, sizeof r); return r; }
static void h_secrets(void) { h_buffers(); h_sec(h_ent, 512); h_sec(h_skb + 8 + h_pk2, h_kl); memcpy(h_osk, h_skb, 96); h_sec(h_rho, 64); memcpy(h_orho, h_rho, 64); h_pub(h_msg, 48); h_pub(h_sv, h_sig); }
void harness_ctkeygen(void) { h_set(); h_secrets(); int bad = fs_choose(2); for (int k = 0; k < 8; k++) h_plan[k] = k >= bad; fs_assert(h_tab[h_i].keygen(h_pkb + 8, h_skb + 8) == 0, "key generation"); fs_check_public(h_pkb + 8, h_pk, "public key"); fs_cover("keygen"); }
void harness_ctvalidate(void) { h_set(); h_secrets(); h_plan[0] = fs_choose(2); volatile int r = h_tab[h_i].validate(h_pkb + 8, h_skb + 8); (void)r; fs_cover("validate"); }
void harness_ctsign(void) {
  h_set(); h_secrets(); size_t sl = h_sig; h_plan[0] = fs_choose(2); int k = fs_choose(2); h_emlen = 32;
  if (k) { h_fresh_rho = 1; h_tab[h_i].sign(h_skb + 8, h_msg, 32, h_sigb + 16, &sl); } else { h_erlen = 64; h_tab[h_i].signr(h_skb + 8, h_msg, 32, h_rho, 64, h_sigb + 16, &sl); }
  fs_cover("sign");
}
#else
// field multiplication and inversion are looked at in part 1: here any function of the operands
#include "fields.h"
#define FS(W) \
  bf##W##_t fsr_bf##W##_mul(bf##W##_t a, bf##W##_t b) { uint8_t x[2 * W / 8], r[W / 8]; bf##W##_store(x, a); bf##W##_store(x + W / 8, b); fs_uf("mul", r, W / 8, x, 2 * W / 8); return bf##W##_load(r); }
#define FS64(W) \
  bf##W##_t fsr_bf##W##_mul_64(bf##W##_t a, bf64_t b) { uint8_t x[W / 8 + 8], r[W / 8]; bf##W##_store(x, a); bf64_store(x + W / 8, b); fs_uf("mul64", r, W / 8, x, W / 8 + 8); return bf##W##_load(r); }
FS(64) FS(128) FS(192) FS(256) FS64(128) FS64(192) FS64(256)
#if P == 4  // universal hashes
#include "universal_hashing.h"
static const uint16_t ls[3][2] = {{1600, 1280}, {3264, 2304}, {4000, 3584}};
void harness_vole(void) {
  int v = fs_choose(3); unsigned la = 128 + 64 * v, l = ls[v][fs_choose(2)]; static uint8_t sd[168], x[600], h[40]; h_pub(sd, 5 * la / 8 + 8); h_sec(x, sizeof x);
  vole_hash(h, sd, x, l, la); fs_cover("vole");
}
#define ZK(W) void harness_zk##W(void) { static uint8_t sd[168], x[100][W / 8], h[W / 8]; h_pub(sd, 3 * W / 8 + 8); h_sec(x, sizeof x); zk_hash_##W##_ctx c; zk_hash_##W##_init(&c, sd); for (int i = 0; i < 99; i++) zk_hash_##W##_update(&c, bf##W##_load(x[i])); zk_hash_##W##_finalize(h, &c, bf##W##_load(x[99])); fs_cover("zk"); }
ZK(128) ZK(192) ZK(256)
#elif P == 5  // vector commitments and VOLE
#define RO_NO_PRG
#include "rostub.h"
#include "vole.h"
#include "vc.h"
void fsr_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int bits, size_t n) { uint8_t* x = malloc(n + 1); (void)key; fs_check_public(iv, 16, "iv of the generator"); h_sec(x, n); memcpy(out, x, n); free(x); }
void harness_vc(void) {
  unsigned D = 1 + fs_choose(12), lev = fs_choose(3), L = 16 + 8 * lev; faest_paramset_t p = faest_get_paramset((faest_paramid_t[]){FAEST_128S, FAEST_192S, FAEST_256S}[lev]);
  uint8_t root[32], iv[16], b[12]; h_sec(root, 32); h_pub(iv, 16); vec_com_t vc; memset(&vc, 0, sizeof vc); vector_commitment(root, iv, &p, 8 * L, &vc, D);
  static uint8_t cop[12 * 32], cj[64];
  for (unsigned j = 0; j < 4; j++) { unsigned x = (unsigned[]){0, (1u << D) - 1, 0x555, 0x3a9}[j]; for (unsigned i = 0; i < D; i++) b[i] = x >> i & 1; vector_open(vc.k, vc.com, b, cop, cj, D, L); }
  vec_com_clear(&vc); fs_cover("vc");
}
void harness_commit(void) {
  faest_paramset_t p = faest_get_paramset(1 + fs_choose(12)); unsigned n = (unsigned[]){1, 25}[fs_choose(2)], la = p.faest_param.lambda, t = p.faest_param.tau;
  if (p.faest_param.k0 > 8) { p.faest_param.k0 = p.faest_param.k0 - 8; p.faest_param.k1 = p.faest_param.k1 - 8; }
  uint8_t root[32], iv[16], hcom[64]; h_sec(root, 32); h_pub(iv, 16); vec_com_t* vc = calloc(t, sizeof *vc); uint8_t *u = malloc(n), *c = malloc(t * n), *v[256]; v[0] = calloc(la, n); for (unsigned i = 1; i < la; i++) v[i] = v[0] + i * n;
  vole_commit(root, iv, 8 * n, &p, hcom, vc, c, u, v); fs_cover("commit");
}
#elif P == 6  // proof
#include "faest_aes.h"
#include "aes.h"
#include "universal_hashing.h"
uint8_t fsr_bf8_inv(uint8_t x) { uint8_t r; fs_uf("inv", &r, 1, &x, 1); return r; }
#define Z(W) \
  void fsr_zk_hash_##W##_init(zk_hash_##W##_ctx* c, const uint8_t* sd) { memset(c, 0, W / 8); fs_check_public(sd, 3 * W / 8 + 8, "key of the universal hash"); } \
  void fsr_zk_hash_##W##_update(zk_hash_##W##_ctx* c, bf##W##_t v) { uint8_t* p = (uint8_t*)c; uint8_t x[W / 8]; bf##W##_store(x, v); for (int i = 0; i < W / 8; i++) p[i] ^= x[i]; } \
  void fsr_zk_hash_##W##_finalize(uint8_t* h, zk_hash_##W##_ctx* c, bf##W##_t x1) { uint8_t x[2 * W / 8]; memcpy(x, c, W / 8); bf##W##_store(x + W / 8, x1); fs_uf("zk", h, W / 8, x, 2 * W / 8); }
Z(128) Z(192) Z(256)
void harness_prove(void) {
  static const uint16_t L[2][3] = {{1600, 3264, 4000}, {1280, 2304, 3584}}; static uint8_t w[512], u[600], in[32], out[32], ch[128], at[32], bt[32], *V[256];
  fs_anf(0); int id = 1 + fs_choose(12); faest_paramset_t p = faest_get_paramset(id); unsigned la = p.faest_param.lambda, l = L[id >= FAEST_EM_128S][la / 64 - 2], eh = (l + 2 * la + 16) / 8;
  h_sec(w, l / 8); h_sec(u, eh); h_pub(in, 32); h_pub(out, 32); h_pub(ch, 3 * la / 8 + 8); V[0] = malloc(la * eh); h_sec(V[0], la * eh); for (unsigned i = 1; i < la; i++) V[i] = V[0] + i * eh;
  aes_prove(w, u, V, in, out, ch, at, bt, &p); fs_cover("prove");
}
#elif P == 7  // signing
#define H_CT
#include "core.h"
void harness_sign(void) {
  h_pick(fs_choose(12)); h_mode = M_UF; static uint8_t sig[28400], msg[64], key[32], in[32], out[32], rho[64]; unsigned ml = (unsigned[]){0, 5, 64}[fs_choose(3)], rn = (unsigned[]){0, 32, 64}[fs_choose(3)];
  h_sec(key, 32); h_sec(rho, 64); h_pub(msg, 64); h_pub(in, 32); h_pub(out, 32);
  faest_sign(sig, ml ? msg : NULL, ml, key, in, out, rn ? rho : NULL, rn, &h_p); fs_cover("sign");
}
#endif
#endif
