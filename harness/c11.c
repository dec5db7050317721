// C11: crypto_sign / crypto_sign_open of one parameter set (-DSIG -DPK -DSK, -DSIGNF -DVERIFYF -DKEYGENF).
#include "fsym.h"
#include <string.h>
#include "api.h"
extern int crypto_sign_keypair(unsigned char*, unsigned char*);
extern int crypto_sign(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
extern int crypto_sign_open(unsigned char*, unsigned long long*, const unsigned char*, unsigned long long, const unsigned char*);
#define N 64
static uint8_t h_buf[SIG + 4 * N], h_obuf[SIG + 4 * N], h_m[N], h_key[80], h_okey[80], h_s[SIG]; static unsigned h_mlen; static int h_plan, h_calls; static unsigned long long h_len, h_olen;
int fsr_SIGNF(const uint8_t* sk, const uint8_t* msg, size_t mlen, uint8_t* sig, size_t* slen) {
  h_calls++; fs_assert_eq(sk, h_okey, SK, "secret key"); fs_assert(sk == h_key, "secret key pointer");
  fs_assert(mlen == h_mlen, "message length"); fs_assert_eq(msg, h_m, h_mlen, "message that is signed");
  fs_assert(*slen >= SIG, "signature buffer too short");
  if (h_plan) return -1;
  memcpy(sig, h_s, SIG); *slen = SIG; fs_cover("sign"); return 0;
}
int fsr_VERIFYF(const uint8_t* pk, const uint8_t* msg, size_t mlen, const uint8_t* sig, size_t slen) {
  h_calls++; fs_assert_eq(pk, h_okey, PK, "public key");
  fs_assert(mlen == h_mlen, "message length"); fs_assert_eq(msg, h_m, h_mlen, "message that is verified"); fs_assert(slen == SIG, "signature length"); fs_assert_eq(sig, h_s, SIG, "signature that is verified");
  fs_cover("verify"); return h_plan;
}
int fsr_KEYGENF(uint8_t* pk, uint8_t* sk) { h_calls++; fs_assert(pk == h_key && sk == h_buf, "key pointers"); return h_plan; }
static void h_init(void) { fs_symbolic(h_buf, sizeof h_buf, "memory"); fs_symbolic(h_key, 80, "key"); memcpy(h_okey, h_key, 80); fs_symbolic(&h_len, sizeof h_len, "length memory"); h_olen = h_len; }
static unsigned h_pick(void) { return (unsigned[]){0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64}[fs_choose(14)]; }
// messages at any of the listed distances from the output, so that they overlap it from below, from above, coincide or are disjoint
static int h_off(void) { return (int[]){0, 1, -1, 5, -5, 16, -16, 63, -63, 64, -64, SIG - 1, SIG, SIG + 1, SIG + 64, 30}[fs_choose(16)]; }
void harness_sign(void) {
  h_init(); fs_symbolic(h_s, SIG, "signature"); h_mlen = h_pick(); int off = h_off(); h_plan = fs_choose(2); uint8_t *sm = h_buf + N, *m = sm + off;
  memcpy(h_m, m, h_mlen); memcpy(h_obuf, h_buf, sizeof h_buf);
  int r = crypto_sign(sm, &h_len, m, h_mlen, h_key);
  fs_assert_eq(h_key, h_okey, 80, "key modified"); fs_assert(h_calls == 1, "number of signature calls");
  fs_assert_eq(h_buf, h_obuf, N, "write in front of the output"); fs_assert_eq(sm + h_mlen + SIG, h_obuf + N + h_mlen + SIG, 3 * N - h_mlen, "write behind the output");
  if (h_plan) { fs_assert(r != 0, "failure not reported"); fs_cover("failed"); return; }
  fs_assert(r == 0, "success not reported"); fs_assert(h_len == h_mlen + (unsigned long long)SIG, "length"); fs_assert_eq(sm, h_m, h_mlen, "message part"); fs_assert_eq(sm + h_mlen, h_s, SIG, "signature part"); fs_cover("signed");
}
void harness_open(void) {
  h_init(); h_mlen = h_pick(); int off = h_off(); h_plan = (int[]){0, -1, 1}[fs_choose(3)]; uint8_t *sm = h_buf + N, *m = sm + off;
  memcpy(h_m, sm, h_mlen); memcpy(h_s, sm + h_mlen, SIG); memcpy(h_obuf, h_buf, sizeof h_buf);
  int r = crypto_sign_open(m, &h_len, sm, h_mlen + SIG, h_key);
  fs_assert_eq(h_key, h_okey, 80, "key modified"); fs_assert(h_calls >= 1, "not verified");
  if (h_plan) { fs_assert(r == -1, "invalid signature not rejected"); fs_assert(h_len == h_olen, "length written for an invalid signature"); fs_assert_eq(h_buf, h_obuf, sizeof h_buf, "message written for an invalid signature"); fs_cover("rejected"); return; }
  fs_assert(r == 0, "valid signature rejected"); fs_assert(h_len == h_mlen, "length"); fs_assert_eq(m, h_m, h_mlen, "message");
  size_t o = N + off; fs_assert_eq(h_buf, h_obuf, o, "write in front of the message"); fs_assert_eq(m + h_mlen, h_obuf + o + h_mlen, sizeof h_buf - o - h_mlen, "write behind the message"); fs_cover("opened");
}
// everything shorter than a signature
void harness_short(void) {
  h_init(); unsigned long long sl; fs_symbolic(&sl, sizeof sl, "smlen"); fs_assume(sl < SIG); memcpy(h_obuf, h_buf, sizeof h_buf); h_plan = fs_choose(2);
  int r = crypto_sign_open(h_buf, &h_len, h_buf + N, sl, h_key);
  fs_assert(r == -1, "short input not rejected"); fs_assert(!h_calls, "short input verified"); fs_assert(h_len == h_olen, "length written for short input"); fs_assert_eq(h_buf, h_obuf, sizeof h_buf, "message written for short input"); fs_cover("short");
}
void harness_meta(void) {
  fs_assert(CRYPTO_SECRETKEYBYTES == SK && CRYPTO_PUBLICKEYBYTES == PK && CRYPTO_BYTES == SIG, "published sizes");
  h_init(); h_plan = (int[]){0, -1}[fs_choose(2)]; fs_assert(crypto_sign_keypair(h_key, h_buf) == h_plan && h_calls == 1, "key generation result"); fs_cover("meta");
}
