// C08, C09, C10: the twelve generated API files over modelled randomness, one-way function and signature core.
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#include "instances.h"
#include "owf.h"
#include "randomness.h"
#include "faest.h"
#define SETS(X) X(128s, 128S, "owf_128", 128, 32, 32, 5006) X(128f, 128F, "owf_128", 128, 32, 32, 6336) X(192s, 192S, "owf_192", 192, 64, 56, 12744) X(192f, 192F, "owf_192", 192, 64, 56, 16792) \
  X(256s, 256S, "owf_256", 256, 64, 64, 22100) X(256f, 256F, "owf_256", 256, 64, 64, 28400) X(em_128s, EM_128S, "owf_em_128", 128, 32, 32, 4566) X(em_128f, EM_128F, "owf_em_128", 128, 32, 32, 5696) \
  X(em_192s, EM_192S, "owf_em_192", 192, 48, 48, 10824) X(em_192f, EM_192F, "owf_em_192", 192, 48, 48, 13912) X(em_256s, EM_256S, "owf_em_256", 256, 64, 64, 20956) X(em_256f, EM_256F, "owf_em_256", 256, 64, 64, 26736)
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
static const struct {
  int (*keygen)(uint8_t*, uint8_t*); int (*validate)(const uint8_t*, const uint8_t*);
  int (*signr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  const char* owf; unsigned lambda, pk, sk, sig; faest_paramid_t id;
} h_tab[12] = {
#define X(l, u, o, la, p, s, g) {faest_##l##_keygen, faest_##l##_validate_keypair, faest_##l##_sign_with_randomness, faest_##l##_sign, faest_##l##_verify, o, la, p, s, g, FAEST_##u},
  SETS(X)
#undef X
};
static int h_i, h_many; static unsigned h_pk2, h_kl, h_pk, h_sk, h_sig;
static void h_set(void) { h_i = fs_choose(12); h_pk = h_tab[h_i].pk; h_pk2 = h_pk / 2; h_sk = h_tab[h_i].sk; h_kl = h_sk - h_pk2; h_sig = h_tab[h_i].sig; fs_assert(h_kl == h_tab[h_i].lambda / 8, "table"); }
#ifndef H_TABLE
// ---- one-way function: uninterpreted output, usability fixed per (key, input)
static uint8_t h_seen[8][64]; static int h_flag[8], h_nseen, h_plan[8]; static int h_owfs;
static int h_isprefix(const char* a, const char* b) { for (; *a && *a == *b; a++, b++); return *a == *b; }
static void h_owfout(const char* n, const uint8_t* key, const uint8_t* in, uint8_t* out) { uint8_t x[64]; memcpy(x, key, h_kl); memcpy(x + h_kl, in, h_pk2); fs_uf(n, out, h_pk2, x, h_kl + h_pk2); }
static int h_owf_many(const uint8_t* key, const uint8_t* in, uint8_t* out);
static int h_rand_many(uint8_t* d, size_t n);
static int h_owf(const char* n, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  if (h_many) return h_owf_many(key, in, out);
  uint8_t x[64]; fs_assert(h_isprefix(n, h_tab[h_i].owf), "wrong one-way function"); h_owfs++;
  memcpy(x, key, h_kl); memcpy(x + h_kl, in, h_pk2);
  h_owfout(n, key, in, out);
  for (int k = 0; k < h_nseen; k++) if (fs_same(x, h_seen[k], h_kl + h_pk2)) return h_flag[k];
  fs_assume(h_nseen < 8); memcpy(h_seen[h_nseen], x, h_kl + h_pk2); h_flag[h_nseen] = h_plan[h_nseen]; return h_flag[h_nseen++];
}
bool fsr_owf_128(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_128", k, i, o); }
bool fsr_owf_192(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_192", k, i, o); }
bool fsr_owf_256(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_256", k, i, o); }
bool fsr_owf_em_128(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_em_128", k, i, o); }
bool fsr_owf_em_192(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_em_192", k, i, o); }
bool fsr_owf_em_256(const uint8_t* k, const uint8_t* i, uint8_t* o) { return h_owf("owf_em_256", k, i, o); }
// ---- randomness: fresh bytes per call, call number h_failat fails
static uint8_t h_ent[512]; static unsigned h_entn; static int h_draws, h_failat = -1, h_failed;
int fsr_rand_bytes(uint8_t* d, size_t n) {
  if (h_many) return h_rand_many(d, n);
  fs_assume(h_draws < 8);
  if (h_draws++ == h_failat) { h_failed++; uint8_t* g = h_ent + 448; size_t m = n < 64 ? n : 64; memcpy(d, g, m / 2); return -1; }
  fs_assert(h_entn + n <= 448, "more randomness than any caller needs"); memcpy(d, h_ent + h_entn, n); h_entn += n; return 0;
}
// every byte at p is a drawn byte, and no drawn byte is used twice
static void h_fresh(const uint8_t* p, unsigned n, const char* msg) {
  uint8_t used[448] = {0};
  for (unsigned i = 0; i < n; i++) { int ok = 0; for (unsigned k = 0; k < h_entn && !ok; k++) if (!used[k] && fs_same(p + i, h_ent + k, 1)) used[k] = 1, ok = 1; fs_assert(ok, msg); }
}
static uint8_t h_pkb[96], h_skb[96], h_opk[96], h_osk[96];
static void h_buffers(void) { fs_symbolic(h_pkb, 96, "pk memory"); fs_symbolic(h_skb, 96, "sk memory"); memcpy(h_opk, h_pkb, 96); memcpy(h_osk, h_skb, 96); }
static void h_guards(void) {
  fs_assert_eq(h_pkb, h_opk, 8, "write in front of the public key"); fs_assert_eq(h_pkb + 8 + h_pk, h_opk + 8 + h_pk, 88 - h_pk, "write behind the public key");
  fs_assert_eq(h_skb, h_osk, 8, "write in front of the secret key"); fs_assert_eq(h_skb + 8 + h_sk, h_osk + 8 + h_sk, 88 - h_sk, "write behind the secret key");
}
void harness_keygen(void) {
  h_set(); h_buffers(); fs_symbolic(h_ent, 512, "entropy"); uint8_t *pk = h_pkb + 8, *sk = h_skb + 8, y[32];
  int bad = fs_choose(4); h_failat = fs_choose(6) - 1; for (int k = 0; k < 8; k++) h_plan[k] = k >= bad;
  int r = h_tab[h_i].keygen(pk, sk);
  h_guards();
  if (h_failed) { fs_assert(r != 0, "key generation succeeded although the random generator failed"); fs_cover("rng failed"); return; }
  fs_assert(r == 0, "key generation failed without a reason");
  h_fresh(sk, h_sk, "secret key byte is not fresh randomness");
  h_owfout(h_tab[h_i].owf, sk + h_pk2, sk, y);
  int usable = 0; for (int k = 0; k < h_nseen; k++) if (fs_same(h_seen[k], sk + h_pk2, h_kl) && fs_same(h_seen[k] + h_kl, sk, h_pk2)) usable = h_flag[k];
  fs_assert(usable, "unusable key returned");
  fs_assert_eq(pk, sk, h_pk2, "public key input"); fs_assert_eq(pk + h_pk2, y, h_pk2, "public key output");
  fs_assert(h_tab[h_i].validate(pk, sk) == 0, "generated pair does not validate"); fs_cover("generated");
}
void harness_keygen_null(void) {
  h_set(); h_buffers(); int m = fs_choose(3); h_plan[0] = 1;
  fs_assert(h_tab[h_i].keygen(m & 1 ? h_pkb + 8 : NULL, m & 2 ? h_skb + 8 : NULL) == -1, "null pointer accepted");
  fs_assert_eq(h_pkb, h_opk, 96, "output written"); fs_assert_eq(h_skb, h_osk, 96, "output written"); fs_cover("null");
}
// many unusable draws in a row: whatever happens, an unusable key never leaves as a success
static unsigned h_bad; static uint32_t h_nfill; static uint8_t h_last[64]; static int h_lastok, h_haslast;
static int h_rand_many(uint8_t* d, size_t n) { h_nfill++; for (size_t i = 0; i < n; i++) d[i] = h_nfill >> 8 * (i & 3); return 0; }
static int h_owf_many(const uint8_t* key, const uint8_t* in, uint8_t* out) {
  uint8_t x[64]; memcpy(x, key, h_kl); memcpy(x + h_kl, in, h_pk2); for (unsigned i = 0; i < h_pk2; i++) out[i] = key[i % h_kl];
  if (!h_haslast || memcmp(x, h_last, h_kl + h_pk2)) { memcpy(h_last, x, sizeof x); h_haslast = 1; h_lastok = h_bad == 0; if (h_bad) h_bad--; }
  return h_lastok;
}
void harness_keygen_many(void) {
  h_set(); h_many = 1; h_bad = (unsigned[]){17, 101, 257, 1025, 4097}[fs_choose(5)]; memset(h_pkb, 1, 96); memset(h_skb, 1, 96); uint8_t *pk = h_pkb + 8, *sk = h_skb + 8, x[64];
  if (h_tab[h_i].keygen(pk, sk) == 0) {
    memcpy(x, sk + h_pk2, h_kl); memcpy(x + h_kl, sk, h_pk2);
    fs_assert(h_haslast && !memcmp(x, h_last, h_kl + h_pk2) && h_lastok, "unusable key returned");
    fs_assert(!memcmp(pk, sk, h_pk2) && !memcmp(pk + h_pk2, x, h_pk2 < h_kl ? h_pk2 : h_kl), "public key");
  }
  fs_cover("many");
}
// ---- C09
void harness_validate(void) {
  h_set(); h_buffers(); uint8_t x[64], *pk = h_pkb + 8, *sk = h_skb + 8; int np = fs_choose(2), ns = fs_choose(2); h_plan[0] = fs_choose(2);
  int r = h_tab[h_i].validate(np ? NULL : pk, ns ? NULL : sk);
  fs_assert_eq(h_pkb, h_opk, 96, "public key modified"); fs_assert_eq(h_skb, h_osk, 96, "secret key modified");
  if (np || ns) { fs_assert(r == -1, "null pointer accepted"); fs_cover("null"); return; }
  if (!h_plan[0]) { fs_assert(r == 1, "unusable key not reported"); fs_cover("unusable"); return; }
  fs_assert(r == 0 || r == 2, "unexpected return code");
  memcpy(x, sk, h_pk2); h_owfout(h_tab[h_i].owf, sk + h_pk2, sk, x + h_pk2);
  uint8_t d = 0; for (unsigned i = 0; i < h_pk; i++) d |= x[i] ^ pk[i];
  fs_assert((r == 0) == (d == 0), "wrong verdict"); fs_cover("verdict");
}
// a pair that differs in exactly one byte from a matching one
void harness_validate1(void) {
  h_set(); h_buffers(); uint8_t *pk = h_pkb + 8, *sk = h_skb + 8, d; h_plan[0] = 1; unsigned i = fs_choose(64); fs_assume(i < h_pk);
  memcpy(pk, sk, h_pk2); h_owfout(h_tab[h_i].owf, sk + h_pk2, sk, pk + h_pk2); fs_symbolic(&d, 1, "difference"); pk[i] ^= d;
  fs_assert(h_tab[h_i].validate(pk, sk) == (d ? 2 : 0), "wrong verdict"); fs_cover("single");
}
// ---- C10
static const uint8_t *h_esk, *h_emsg, *h_epk, *h_esig; static size_t h_emlen, h_erlen, h_slen; static uint8_t h_erho[64], h_y[32], h_sigb[28464], h_osig[28464], h_sv[28400]; static int h_signs, h_verifies, h_fresh_rho, h_vret;
static uint8_t h_msg[48], h_omsg[48], h_rho[64], h_orho[64];
static void h_params(const faest_paramset_t* p) { faest_paramset_t q = faest_get_paramset(h_tab[h_i].id); fs_assert(p->faest_paramid == q.faest_paramid && p->faest_paramid == h_tab[h_i].id, "wrong parameter set"); fs_assert(!memcmp(&p->faest_param, &q.faest_param, sizeof q.faest_param), "wrong parameters"); }
void fsr_faest_sign(uint8_t* sig, const uint8_t* msg, size_t msglen, const uint8_t* key, const uint8_t* in, const uint8_t* out, const uint8_t* rho, size_t rholen, const faest_paramset_t* params) {
  fs_assert(++h_signs == 1, "signed twice"); fs_assert(sig == h_sigb + 16, "signature written somewhere else");
  fs_assert(msglen == h_emlen, "message length"); if (h_emlen) fs_assert_eq(msg, h_msg, h_emlen, "message"); 
  fs_assert_eq(key, h_osk + 8 + h_pk2, h_kl, "one-way function key"); fs_assert_eq(in, h_osk + 8, h_pk2, "one-way function input");
  h_owfout(h_tab[h_i].owf, h_osk + 8 + h_pk2, h_osk + 8, h_y); fs_assert_eq(out, h_y, h_pk2, "one-way function output");
  if (h_fresh_rho) { fs_assert(rholen == h_tab[h_i].lambda / 8, "length of the drawn randomness"); h_fresh(rho, rholen, "randomness is not freshly drawn"); }
  else { fs_assert(rholen == h_erlen, "randomness length"); if (h_erlen) fs_assert_eq(rho, h_orho, h_erlen, "randomness"); }
  fs_check_public(in, h_pk2, "input handed to the signature core"); fs_check_public(out, h_pk2, "output handed to the signature core");
  h_params(params); memcpy(sig, h_sv, h_sig); fs_cover("signed");
}
int fsr_faest_verify(const uint8_t* msg, size_t msglen, const uint8_t* sig, const uint8_t* in, const uint8_t* out, const faest_paramset_t* params) {
  h_verifies++; fs_assert(msglen == h_emlen, "message length"); if (h_emlen) fs_assert_eq(msg, h_msg, h_emlen, "message");
  fs_assert_eq(sig, h_osig + 16, h_sig, "signature"); fs_assert_eq(in, h_opk + 8, h_pk2, "public input"); fs_assert_eq(out, h_opk + 8 + h_pk2, h_pk2, "public output"); h_params(params);
  fs_cover("verified"); return h_vret;
}
static void h_inputs(void) {
  h_buffers(); fs_symbolic(h_msg, 48, "message"); memcpy(h_omsg, h_msg, 48); fs_symbolic(h_rho, 64, "rho"); memcpy(h_orho, h_rho, 64); fs_symbolic(h_ent, 512, "entropy");
  fs_symbolic(h_sigb, h_sig + 32, "signature memory"); memcpy(h_osig, h_sigb, h_sig + 32); fs_symbolic(h_sv, h_sig, "signature");
  h_emlen = (size_t[]){0, 1, 32, 48}[fs_choose(4)];
}
static void h_unmodified(void) {
  fs_assert_eq(h_pkb, h_opk, 96, "public key modified"); fs_assert_eq(h_skb, h_osk, 96, "secret key modified"); fs_assert_eq(h_msg, h_omsg, 48, "message modified"); fs_assert_eq(h_rho, h_orho, 64, "randomness modified");
}
void harness_sign(void) {
  h_set(); int which = fs_choose(2), mask = fs_choose(8); int usable = h_plan[0] = fs_choose(2); size_t sl, ol; int rnull = 0;
  h_inputs(); fs_symbolic(&sl, sizeof sl, "signature_len"); ol = sl;
  const uint8_t* msg = h_emlen || !fs_choose(2) ? h_msg : NULL;
  uint8_t* sig = mask & 2 ? NULL : h_sigb + 16; size_t* slp = mask & 4 ? NULL : &sl; const uint8_t* sk = mask & 1 ? NULL : h_skb + 8;
  int big = fs_choose(2); if (!mask) { if (big) fs_assume(sl >= h_sig); else fs_assume(sl < h_sig); } else fs_assume(!big);
  int r;
  if (which) {
    int k = fs_choose(6); h_erlen = (size_t[]){0, 0, 1, 32, 64, 1}[k]; rnull = k == 0 || k == 5;
    r = h_tab[h_i].signr(sk, msg, h_emlen, rnull ? NULL : h_rho, h_erlen, sig, slp);
  } else { h_fresh_rho = 1; h_failat = fs_choose(2) - 1; r = h_tab[h_i].sign(sk, msg, h_emlen, sig, slp); }
  h_unmodified();
  int bad = mask || !big || !usable || (which && rnull && h_erlen) || h_failed;
  if (bad) {
    fs_assert(r == -1, "invalid call not rejected"); fs_assert(!h_signs, "signed although the call is rejected"); fs_assert(sl == ol, "length changed although the call is rejected"); fs_assert_eq(h_sigb, h_osig, h_sig + 32, "signature buffer changed although the call is rejected"); fs_cover("rejected");
  } else {
    fs_assert(r == 0 && h_signs == 1, "valid call rejected"); fs_assert(sl == h_sig, "signature length");
    fs_assert_eq(h_sigb + 16, h_sv, h_sig, "signature altered"); fs_assert_eq(h_sigb, h_osig, 16, "write in front of the signature"); fs_assert_eq(h_sigb + 16 + h_sig, h_osig + 16 + h_sig, 16, "write behind the signature"); fs_cover("success");
  }
}
void harness_verify(void) {
  h_set(); int mask = fs_choose(4), ok = fs_choose(2); size_t sl = h_sig; h_vret = (int[]){0, -1}[fs_choose(2)];
  h_inputs();
  if (!ok) { fs_symbolic(&sl, sizeof sl, "signature_len"); fs_assume(sl != h_sig); }
  int r = h_tab[h_i].verify(mask & 1 ? NULL : h_pkb + 8, h_emlen || !fs_choose(2) ? h_msg : NULL, h_emlen, mask & 2 ? NULL : h_sigb + 16, sl);
  h_unmodified(); fs_assert_eq(h_sigb, h_osig, h_sig + 32, "signature modified");
  if (mask || !ok) { fs_assert(r == -1, "invalid call not rejected"); fs_cover("rejected"); }
  else { fs_assert(r == h_vret && h_verifies == 1, "verdict not passed on"); fs_cover("verdict"); }
}
#endif
