// C21: memory accesses inside live objects, no use of uninitialised memory, no leak, no double free (fsym -init, -align).
// Every argument is a heap object of exactly the size the function may use; outputs start uninitialised and must be initialised at the end.
// Layers below the one looked at are functions that read and write exactly what their interface says. Parts as in c22.c.
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#include "instances.h"
static uint8_t* h_in(size_t n) { uint8_t* p = malloc(n); fs_symbolic(p, n, "argument"); return p; }
static uint8_t* h_out(size_t n) { return malloc(n); }
static void h_chk(uint8_t* p, size_t n) { fs_check_init(p, n, "output"); free(p); }
static void h_end(const char* c) { fs_check_leaks(); fs_cover(c); }
__attribute__((unused)) static const uint16_t h_L[2][3] = {{1600, 3264, 4000}, {1280, 2304, 3584}};
#if P == 1
#include "fields.h"
#include "compat.h"
#define F(W) void harness_f##W(void) { \
  fs_anf(0); uint8_t *a = h_in(W / 8), *b = h_in(W / 8), *r = h_out(W / 8); bf##W##_t p = bf##W##_load(a), q = bf##W##_load(b); int op = fs_choose(W == 64 ? 4 : 8); \
  switch (op) { case 0: p = bf##W##_mul(p, q); break; case 1: p = bf##W##_add(p, q); break; case 2: p = bf##W##_zero(); break; case 3: p = bf##W##_from_bit(a[0] & 1); break; default: F##W; } \
  bf##W##_store(r, p); free(a); free(b); h_chk(r, W / 8); h_end("field"); }
#define F64 break
#define FX(W) { if (op == 4) p = bf##W##_mul_bit(p, b[0] & 1); if (op == 5) { uint8_t* c = h_in(8); p = bf##W##_mul_64(p, bf64_load(c)); free(c); } if (op == 6) p = bf##W##_byte_combine_bits(a[1]); \
  if (op == 7) { bf##W##_t* v = aligned_alloc(32, W * 32); bf##W##_t w[8]; for (int i = 0; i < W; i++) v[i] = bf##W##_load(i & 1 ? a : b); for (int i = 0; i < 8; i++) w[i] = v[i]; p = bf##W##_add(bf##W##_sum_poly(v), bf##W##_byte_combine(w)); free(v); } }
#define F128 FX(128)
#define F192 FX(192)
#define F256 FX(256)
F(64) F(128) F(192) F(256)
void harness_compat(void) { unsigned n = fs_choose(70); uint8_t *a = h_in(n), *b = h_in(n); int r = faest_timingsafe_bcmp(a, b, n); fs_check_init(&r, sizeof r, "result"); faest_explicit_bzero(a, n); free(b); h_chk(a, n); h_end("compat"); }
#elif P == 2
#include "aes.h"
#include "owf.h"
#include "fields.h"
#ifndef OSSL
uint8_t fsr_bf8_inv(uint8_t x) { uint8_t r; fs_uf("inv", &r, 1, &x, 1); return r; }
void harness_owf(void) {
  int k = fs_choose(6); static const uint8_t kl[6] = {16, 24, 32, 16, 24, 32}, n[6] = {16, 32, 32, 16, 24, 32}; static bool (*const f[6])(const uint8_t*, const uint8_t*, uint8_t*) = {owf_128, owf_192, owf_256, owf_em_128, owf_em_192, owf_em_256};
  uint8_t *key = h_in(kl[k]), *in = h_in(n[k]), *out = h_out(n[k]); bool r = f[k](key, in, out); fs_check_init(&r, sizeof r, "result"); free(key); free(in); h_chk(out, n[k]); h_end("owf");
}
void harness_witness(void) {
  int id = 1 + fs_choose(12), em = id >= FAEST_EM_128S; faest_paramset_t p = faest_get_paramset(id); unsigned la = p.faest_param.lambda; uint8_t *key = h_in(la / 8), *in = h_in(em ? la / 8 : la == 128 ? 16 : 32);
  uint8_t* w = aes_extend_witness(key, in, &p); free(key); free(in); h_chk(w, h_L[em][la / 64 - 2] / 8); h_end("witness");
}
void harness_block(void) {
  int k = fs_choose(5); static const uint8_t kl[5] = {16, 24, 32, 24, 32}, n[5] = {16, 16, 16, 24, 32}; uint8_t *key = h_in(kl[k]), *in = h_in(n[k]), *out = h_out(n[k]); aes_round_keys_t rk;
  switch (k) {
    case 0: aes128_init_round_keys(&rk, key); aes128_encrypt_block(&rk, in, out); break;
    case 1: aes192_init_round_keys(&rk, key); aes192_encrypt_block(&rk, in, out); break;
    case 2: aes256_init_round_keys(&rk, key); aes256_encrypt_block(&rk, in, out); break;
    case 3: rijndael192_init_round_keys(&rk, key); rijndael192_encrypt_block(&rk, in, out); break;
    default: rijndael256_init_round_keys(&rk, key); rijndael256_encrypt_block(&rk, in, out); break;
  }
  free(key); free(in); h_chk(out, n[k]); h_end("block");
}
#else
#include <openssl/evp.h>
static int c128, c192, c256; static uint8_t h_key[32];
const EVP_CIPHER* fsr_EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)&c128; }
const EVP_CIPHER* fsr_EVP_aes_192_ctr(void) { return (const EVP_CIPHER*)&c192; }
const EVP_CIPHER* fsr_EVP_aes_256_ctr(void) { return (const EVP_CIPHER*)&c256; }
EVP_CIPHER_CTX* fsr_EVP_CIPHER_CTX_new(void) { return malloc(64); }
void fsr_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { free(c); }
static unsigned h_left;
int fsr_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* ci, ENGINE* e, const unsigned char* key, const unsigned char* iv) { memcpy(h_key, key, ci == (void*)&c128 ? 16 : ci == (void*)&c192 ? 24 : 32); memcpy(c, iv, 16); return 1; }
int fsr_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) { for (int i = 0; i < inl; i++) { uint8_t x[33]; memcpy(x, c, 16); memcpy(x + 16, h_key, 16); x[32] = in[i]; fs_uf("ks", out + i, 1, x, 33); } *outl = inl; return 1; }
int fsr_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { memcpy(h_key, c, 16); *outl = 0; return 1; }
#endif
void harness_prg(void) {
  unsigned s = 128 + 64 * fs_choose(3), n = fs_choose(82); uint8_t *key = h_in(s / 8), *iv = h_in(16), *out = h_out(n); prg(key, iv, out, s, n); free(key); free(iv); h_chk(out, n); h_end("prg");
}
#elif P == 3
#include "random_oracle.h"
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"
static void h_scr(void* s, unsigned n) { uint8_t* p = s; for (unsigned i = 0; i < n; i++) { uint8_t x[2] = {p[i], p[(i + 1) % n]}; fs_uf("perm", p + i, 1, x, 2); } }
void fsr_KeccakP1600_Permute_24rounds(void* s) { h_scr(s, 200); }
void fsr_KeccakP1600times4_PermuteAll_24rounds(void* s) { h_scr(s, 800); }
#ifdef KeccakF1600_FastLoop_supported
size_t fsr_KeccakF1600_FastLoop_Absorb(void* st, unsigned lanes, const unsigned char* d, size_t n) { size_t o = 0; for (; n - o >= lanes * 8; o += lanes * 8) { KeccakP1600_AddBytes(st, d + o, 0, lanes * 8); h_scr(st, 200); } return o; }
#endif
static unsigned h_len(void) { return (unsigned[]){0, 1, 7, 8, 9, 16, 32, 48, 64, 129, 135, 136, 137, 167, 168, 169, 200, 273, 337, 506}[fs_choose(20)]; }
void harness_hash(void) {
  unsigned s = 128 + 64 * fs_choose(3), n = h_len(), k = fs_choose(5), L = s / 8; uint8_t *m[4], *t[4], *o[8]; for (int i = 0; i < 4; i++) m[i] = h_in(n), t[i] = h_in(n / 3), o[i] = h_out(L), o[4 + i] = h_out(2 * L);
  int x4 = k == 1; uint8_t* q = h_out(5 * L + 8); unsigned qn = 5 * L + 8;
  if (k == 0) { H0_context_t c; H0_init(&c, s); H0_update(&c, m[0], n); H0_update(&c, t[0], n / 3); H0_final(&c, o[0], L, o[4], 2 * L); }
  if (k == 1) { H0_context_x4_t c; H0_x4_init(&c, s); H0_x4_update(&c, m[0], m[1], m[2], m[3], n); H0_x4_update(&c, t[0], t[1], t[2], t[3], n / 3); H0_x4_final(&c, o[0], o[1], o[2], o[3], L, o[4], o[5], o[6], o[7], 2 * L); }
  if (k == 2) { H1_context_t c; H1_init(&c, s); H1_update(&c, m[0], n); H1_update(&c, t[0], n / 3); H1_final(&c, q, qn = 2 * L); }
  if (k == 3) { H2_context_t c; H2_init(&c, s); H2_update(&c, m[0], n); H2_update(&c, t[0], n / 3); H2_final(&c, q, 5 * L + 8); }
  if (k == 4) { H3_context_t c; H3_init(&c, s); H3_update(&c, m[0], n); H3_update(&c, t[0], n / 3); uint8_t* iv = h_out(16); H3_final(&c, q, qn = L, iv); h_chk(iv, 16); }
  for (int i = 0; i < 4; i++) { free(m[i]); free(t[i]); if (x4 || (!k && !i)) h_chk(o[i], L), h_chk(o[4 + i], 2 * L); else free(o[i]), free(o[4 + i]); }
  if (k >= 2) h_chk(q, qn); else free(q); h_end("hash");
}
#elif P == 8
#define H_TABLE
static int h_plan;
#include "capi.c"
static bool h_owf(const uint8_t* k, const uint8_t* i, uint8_t* o) { uint8_t x[64]; memcpy(x, k, h_kl); memcpy(x + h_kl, i, h_pk2); fs_uf("owf", o, h_pk2, x, h_kl + h_pk2); return h_plan; }
bool fsr_owf_128(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
bool fsr_owf_192(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
bool fsr_owf_256(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
bool fsr_owf_em_128(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
bool fsr_owf_em_192(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
bool fsr_owf_em_256(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf(k, i, o); }
static int h_rfail;
int fsr_rand_bytes(uint8_t* d, size_t n) { if (h_rfail) return -1; uint8_t* p = h_in(n); memcpy(d, p, n); free(p); return 0; }
static void h_mix(uint8_t* o, unsigned n, const uint8_t* m, size_t ml, const uint8_t* a, size_t al, const uint8_t* in, const uint8_t* out) { int s = fs_sp_new("sig"); fs_sp_add(s, m, ml); fs_sp_add(s, a, al); fs_sp_add(s, in, h_pk2); fs_sp_add(s, out, h_pk2); fs_sp_out(s, o, 0, n); }
void fsr_faest_sign(uint8_t* sig, const uint8_t* msg, size_t msglen, const uint8_t* key, const uint8_t* in, const uint8_t* out, const uint8_t* rho, size_t rholen, const faest_paramset_t* params) { uint8_t x[96]; memcpy(x, key, h_kl); if (rholen) memcpy(x + h_kl, rho, rholen); h_mix(sig, h_sig, msg, msglen, x, h_kl + rholen, in, out); }
int fsr_faest_verify(const uint8_t* msg, size_t msglen, const uint8_t* sig, const uint8_t* in, const uint8_t* out, const faest_paramset_t* params) { uint8_t r; h_mix(&r, 1, msg, msglen, sig, h_sig, in, out); return -(int)(r & 1); }
void harness_api(void) {
  h_set(); int op = fs_choose(4), k = fs_choose(2), n = (int[]){0, 33}[fs_choose(2)]; uint8_t* m = h_in(n); int r;
  if (op == 0) { uint8_t *pk = h_out(h_pk), *sk = h_out(h_sk); h_rfail = k; h_plan = 1; r = h_tab[h_i].keygen(pk, sk); fs_check_init(&r, sizeof r, "result"); if (k) free(pk), free(sk); else h_chk(pk, h_pk), h_chk(sk, h_sk); }
  if (op == 1) { uint8_t *pk = h_in(h_pk), *sk = h_in(h_sk); h_plan = k; r = h_tab[h_i].validate(pk, sk); fs_check_init(&r, sizeof r, "result"); free(pk); free(sk); }
  if (op == 2) {
    uint8_t *sk = h_in(h_sk), *sig = h_out(h_sig), *rho = h_in(n); int w = fs_choose(2); h_plan = k; h_rfail = w && k && fs_choose(2); size_t sl = h_sig; r = w ? h_tab[h_i].sign(sk, n ? m : NULL, n, sig, &sl) : h_tab[h_i].signr(sk, n ? m : NULL, n, n ? rho : NULL, n, sig, &sl);
    fs_check_init(&r, sizeof r, "result"); fs_check_init(&sl, sizeof sl, "length"); free(sk); free(rho); if (r == 0) h_chk(sig, h_sig); else free(sig);
  }
  if (op == 3) { uint8_t *pk = h_in(h_pk), *sig = h_in(h_sig - k); r = h_tab[h_i].verify(pk, n ? m : NULL, n, sig, h_sig - k); fs_check_init(&r, sizeof r, "result"); free(pk); free(sig); }
  free(m); h_end("api");
}
#elif P == 9
extern int crypto_sign_keypair(unsigned char*, unsigned char*);
extern int crypto_sign(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
extern int crypto_sign_open(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
static int h_plan;
static void h_mix(uint8_t* o, unsigned n, const uint8_t* m, size_t ml, const uint8_t* a, size_t al) { int s = fs_sp_new("sig"); fs_sp_add(s, m, ml); fs_sp_add(s, a, al); fs_sp_out(s, o, 0, n); }
int fsr_SIGNF(const uint8_t* sk, const uint8_t* msg, size_t mlen, uint8_t* sig, size_t* slen) { h_mix(sig, SIG, msg, mlen, sk, SK); *slen = SIG; return h_plan ? -1 : 0; }
int fsr_VERIFYF(const uint8_t* pk, const uint8_t* msg, size_t mlen, const uint8_t* sig, size_t slen) { uint8_t r; h_mix(&r, 1, msg, mlen, pk, PK); h_mix(&r, 1, sig, slen, &r, 1); fs_check_init(&r, 1, "verified data"); return h_plan ? -1 : 0; }
int fsr_KEYGENF(uint8_t* pk, uint8_t* sk) { h_mix(pk, PK, (uint8_t*)"pk", 2, NULL, 0); h_mix(sk, SK, (uint8_t*)"sk", 2, NULL, 0); return 0; }
void harness_cs(void) {
  int op = fs_choose(4), n = (int[]){0, 1, 33, 300}[fs_choose(4)]; unsigned long long l; int r; h_plan = fs_choose(2);
  if (op == 0) { uint8_t *pk = h_out(PK), *sk = h_out(SK); r = crypto_sign_keypair(pk, sk); h_chk(pk, PK); h_chk(sk, SK); }
  if (op == 1) { uint8_t *m = h_in(n), *sm = h_out(n + SIG), *sk = h_in(SK); r = crypto_sign(sm, &l, m, n, sk); fs_check_init(&l, sizeof l, "length"); free(m); free(sk); h_chk(sm, n + SIG); }
  if (op == 2) { uint8_t *m = h_out(n), *sm = h_in(n + SIG), *pk = h_in(PK); r = crypto_sign_open(m, &l, sm, n + SIG, pk); free(sm); free(pk); if (!r) fs_check_init(&l, sizeof l, "length"), h_chk(m, n); else free(m); }
  if (op == 3) { n = SIG - 1 - n; uint8_t *m = h_out(n), *sm = h_in(n), *pk = h_in(PK); r = crypto_sign_open(m, &l, sm, n, pk); fs_assert(r != 0, "too short"); free(sm); free(pk); free(m); }
  fs_check_init(&r, sizeof r, "result"); h_end("cs");
}
#else
#include "fields.h"
#define FS(W) \
  bf##W##_t fsr_bf##W##_mul(bf##W##_t a, bf##W##_t b) { uint8_t x[2 * W / 8], r[W / 8]; bf##W##_store(x, a); bf##W##_store(x + W / 8, b); fs_uf("mul", r, W / 8, x, 2 * W / 8); return bf##W##_load(r); }
#define FS64(W) \
  bf##W##_t fsr_bf##W##_mul_64(bf##W##_t a, bf64_t b) { uint8_t x[W / 8 + 8], r[W / 8]; bf##W##_store(x, a); bf64_store(x + W / 8, b); fs_uf("mul64", r, W / 8, x, W / 8 + 8); return bf##W##_load(r); }
FS(64) FS(128) FS(192) FS(256) FS64(128) FS64(192) FS64(256)
#if P == 4
#include "universal_hashing.h"
void harness_vole(void) {
  int v = fs_choose(3); unsigned la = 128 + 64 * v, l = h_L[fs_choose(2)][v], B = la / 8; uint8_t *sd = h_in(5 * B + 8), *x = h_in(l / 8 + 2 * B + 2), *h = h_out(B + 2);
  vole_hash(h, sd, x, l, la); free(sd); free(x); h_chk(h, B + 2); h_end("vole");
}
#define ZK(W) void harness_zk##W(void) { uint8_t *sd = h_in(3 * W / 8 + 8), *h = h_out(W / 8); zk_hash_##W##_ctx c; zk_hash_##W##_init(&c, sd); for (int i = 0; i < 20; i++) { uint8_t* x = h_in(W / 8); zk_hash_##W##_update(&c, bf##W##_load(x)); free(x); } \
  uint8_t* x = h_in(W / 8); zk_hash_##W##_finalize(h, &c, bf##W##_load(x)); free(x); free(sd); h_chk(h, W / 8); h_end("zk"); }
ZK(128) ZK(192) ZK(256)
#elif P == 5
#ifndef RED
#define RED 8
#endif
#ifdef WIDE
// full-size trees with functions that only read and write what they are given
#include "random_oracle.h"
#include "aes.h"
static uint8_t h_c = 3; static void h_rd(const uint8_t* p, size_t n) { fs_check_init(p, n, "input of a hash function or the generator"); } static void h_wr(uint8_t* p, size_t n) { if (n) memset(p, h_c += 7, n); }
void fsr_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int bits, size_t n) { h_rd(key, bits / 8); h_rd(iv, 16); h_wr(out, n); }
void fsr_H0_init(H0_context_t* c, unsigned s) { h_wr((uint8_t*)c, sizeof *c); }
void fsr_H0_update(H0_context_t* c, const uint8_t* p, size_t n) { h_rd((uint8_t*)c, 8); h_rd(p, n); }
void fsr_H0_final(H0_context_t* c, uint8_t* sd, size_t sn, uint8_t* com, size_t cn) { h_rd((uint8_t*)c, 8); h_wr(sd, sn); h_wr(com, cn); }
void fsr_H0_x4_init(H0_context_x4_t* c, unsigned s) { h_wr((uint8_t*)c, sizeof *c); }
void fsr_H0_x4_update(H0_context_x4_t* c, const uint8_t* a, const uint8_t* b, const uint8_t* d, const uint8_t* e, size_t n) { h_rd((uint8_t*)c, 8); h_rd(a, n); h_rd(b, n); h_rd(d, n); h_rd(e, n); }
void fsr_H0_x4_final(H0_context_x4_t* c, uint8_t* s0, uint8_t* s1, uint8_t* s2, uint8_t* s3, size_t sn, uint8_t* c0, uint8_t* c1, uint8_t* c2, uint8_t* c3, size_t cn) {
  h_rd((uint8_t*)c, 8); h_wr(s0, sn); h_wr(s1, sn); h_wr(s2, sn); h_wr(s3, sn); h_wr(c0, cn); h_wr(c1, cn); h_wr(c2, cn); h_wr(c3, cn);
}
void fsr_H1_init(H1_context_t* c, unsigned s) { h_wr((uint8_t*)c, sizeof *c); }
void fsr_H1_update(H1_context_t* c, const uint8_t* p, size_t n) { h_rd((uint8_t*)c, 8); h_rd(p, n); }
void fsr_H1_final(H1_context_t* c, uint8_t* d, size_t n) { h_rd((uint8_t*)c, 8); h_wr(d, n); }
#undef RED
#define RED 0
#else
#include "rostub.h"
#endif
#include "vole.h"
#include "vc.h"
static unsigned h_idx(unsigned D) { unsigned n = 1u << D; if (D <= 3) return fs_choose(n); return (unsigned[]){0, 1, n - 1, n / 3, n - 4, n / 2}[fs_choose(6)]; }
void harness_vc(void) {
  unsigned D = 1 + fs_choose(12), lev = fs_choose(3), L = 16 + 8 * lev, n = 1u << D; faest_paramset_t p = faest_get_paramset((faest_paramid_t[]){FAEST_128S, FAEST_192S, FAEST_256S}[lev]); unsigned j = h_idx(D);
  uint8_t *root = h_in(L), *iv = h_in(16), *b = malloc(D), *cop = h_out(D * L), *cj = h_out(2 * L); for (unsigned i = 0; i < D; i++) b[i] = j >> i & 1;
  vec_com_t vc; vector_commitment(root, iv, &p, 8 * L, &vc, D); fs_check_init(vc.sd, n * L, "seeds"); fs_check_init(vc.com, 2 * n * L, "commitments"); fs_check_init(vc.h, 2 * L, "hash"); fs_check_init(vc.k, (2 * n - 1) * L, "tree");
  vector_open(vc.k, vc.com, b, cop, cj, D, L); vec_com_clear(&vc); free(root); h_chk(cop, D * L); h_chk(cj, 2 * L);
  // an arbitrary opening
  cop = h_in(D * L); cj = h_in(2 * L); vec_com_rec_t r = {malloc(2 * L), malloc(getBinaryTreeNodeCount(D) * L), malloc(2 * L * n), malloc(L * n)};
  vector_reconstruction(iv, cop, cj, b, 8 * L, D, &r); fs_check_init(r.s, j * L, "seeds"); fs_check_init(r.s + (j + 1) * L, (n - 1 - j) * L, "seeds"); fs_check_init(r.com, 2 * n * L, "commitments"); fs_check_init(r.h, 2 * L, "hash"); vec_com_rec_clear(&r);
  free(cop); free(cj); free(b); free(iv); h_end("vc");
}
static uint8_t** h_cols(unsigned la, size_t n) { uint8_t** v = malloc(la * sizeof *v); v[0] = malloc(la * n); for (unsigned i = 1; i < la; i++) v[i] = v[0] + i * n; return v; }
void harness_vole(void) {
  faest_paramset_t p = faest_get_paramset(1 + fs_choose(12)); unsigned n = (unsigned[]){1, 26}[fs_choose(2)], k = fs_choose(3), la = p.faest_param.lambda, L = la / 8, t = p.faest_param.tau, t0 = p.faest_param.t0; uint8_t* ch = malloc(L);
  // smaller trees of the same mixture; the challenge is chosen, everything else symbolic
  unsigned d = RED == 0 ? 0 : p.faest_param.k0 > 8 ? RED : RED > 5 ? 4 : 2; p.faest_param.k0 -= d; p.faest_param.k1 -= d; unsigned k0 = p.faest_param.k0, k1 = p.faest_param.k1;
  for (unsigned i = 0; i < L; i++) ch[i] = k == 0 ? 0 : k == 1 ? 255 : 37 * i + 11;
  uint8_t *root = h_in(L), *iv = h_in(16), *hcom = h_out(2 * L), *u = h_out(n), *c = h_out((t - 1) * n), **v = h_cols(la, n); vec_com_t* vc = calloc(t, sizeof *vc);
  vole_commit(root, iv, 8 * n, &p, hcom, vc, c, u, v); free(root); h_chk(hcom, 2 * L); h_chk(u, n); h_chk(c, (t - 1) * n);
  fs_check_init(v[0], (t0 * k0 + (t - t0) * k1) * n, "columns"); free(v[0]); free(v); for (unsigned i = 0; i < t; i++) vec_com_clear(&vc[i]); free(vc);
  const uint8_t** pd = malloc(t * sizeof *pd); const uint8_t** cm = malloc(t * sizeof *cm); for (unsigned i = 0; i < t; i++) pd[i] = h_in((i < t0 ? k0 : k1) * L), cm[i] = h_in(2 * L);
  hcom = h_out(2 * L); v = h_cols(la, n); vole_reconstruct(iv, ch, pd, cm, hcom, v, 8 * n, &p); fs_check_init(v[0], (t0 * k0 + (t - t0) * k1) * n, "columns"); h_chk(hcom, 2 * L);
  for (unsigned i = 0; i < t; i++) free((void*)pd[i]), free((void*)cm[i]); free(pd); free(cm); free(v[0]); free(v); free(iv); free(ch); h_end("vole");
}
#elif P == 6
#include "faest_aes.h"
#include "aes.h"
#include "universal_hashing.h"
uint8_t fsr_bf8_inv(uint8_t x) { uint8_t r; fs_uf("inv", &r, 1, &x, 1); return r; }
// the universal hash: a running combination of everything it is given
#define Z(W) \
  void fsr_zk_hash_##W##_init(zk_hash_##W##_ctx* c, const uint8_t* sd) { memset(c, 0, W / 8); uint8_t* p = (uint8_t*)c; for (int i = 0; i < 3 * W / 8 + 8; i++) p[i % 8] ^= sd[i]; } \
  void fsr_zk_hash_##W##_update(zk_hash_##W##_ctx* c, bf##W##_t v) { uint8_t* p = (uint8_t*)c; uint8_t x[W / 8]; bf##W##_store(x, v); for (int i = 0; i < W / 8; i++) p[i] ^= x[i]; } \
  void fsr_zk_hash_##W##_finalize(uint8_t* h, zk_hash_##W##_ctx* c, bf##W##_t x1) { uint8_t x[2 * W / 8]; memcpy(x, c, W / 8); bf##W##_store(x + W / 8, x1); fs_uf("zk", h, W / 8, x, 2 * W / 8); }
Z(128) Z(192) Z(256)
void harness_proof(void) {
  int id = 1 + fs_choose(12), em = id >= FAEST_EM_128S, vf = fs_choose(2); faest_paramset_t p = faest_get_paramset(id); unsigned la = p.faest_param.lambda, B = la / 8, l = h_L[em][la / 64 - 2], n = l / 8 + 2 * B + 2, o = em ? B : la == 128 ? 16 : 32;
  uint8_t *w = h_in(l / 8), *in = h_in(o), *out = h_in(o), *ch = h_in(3 * B + 8), **V = malloc(la * sizeof *V); V[0] = h_in(la * n); for (unsigned i = 1; i < la; i++) V[i] = V[0] + i * n;
  if (!vf) { uint8_t *u = h_in(n), *at = h_out(B), *bt = h_out(B); aes_prove(w, u, V, in, out, ch, at, bt, &p); free(u); h_chk(at, B); h_chk(bt, B); }
  else { uint8_t *c3 = h_in(B), *at = h_in(B), *r = aes_verify(w, V, ch, c3, at, in, out, &p); free(c3); free(at); h_chk(r, B); }
  free(w); free(in); free(out); free(ch); free(V[0]); free(V); h_end("proof");
}
#elif P == 7
#include "core.h"
void harness_sign(void) {
  h_pick(fs_choose(12)); h_mode = M_UF; unsigned ml = (unsigned[]){0, 5, 64}[fs_choose(3)], rn = (unsigned[]){0, 32, 64}[fs_choose(3)]; uint8_t *msg = h_in(ml), *rho = h_in(rn), *key = h_in(LB), *in = h_in(OW), *out = h_in(OW), *sig = h_out(S->sig);
  faest_sign(sig, ml ? msg : NULL, ml, key, in, out, rn ? rho : NULL, rn, &h_p); free(msg); free(rho); free(key); free(in); free(out); h_chk(sig, S->sig); h_end("sign");
}
// any bytes of the right length
void harness_verify(void) {
  h_pick(fs_choose(12)); h_mode = M_UF; unsigned ml = (unsigned[]){0, 5, 64}[fs_choose(3)]; uint8_t *msg = h_in(ml), *in = h_in(OW), *out = h_in(OW), *sig = h_in(S->sig);
  int r = faest_verify(ml ? msg : NULL, ml, sig, in, out, &h_p); fs_check_init(&r, sizeof r, "verdict"); free(msg); free(in); free(out); free(sig); h_end("verify");
}
#endif
#endif
