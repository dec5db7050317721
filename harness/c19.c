// C19: the random oracles H0..H3 against SHAKE(input || separator), over an arbitrary permutation.
#include "spongeref.h"
#include "random_oracle.h"
#ifndef FULL
#define FULL 0
#endif
#define MAXM 1100
static uint8_t m[4][MAXM], ref[MAXM];
static uint8_t a[4][MAXM], b[4][MAXM];
// input lengths: short ones, and around the block boundaries (the separator may open a new block)
static unsigned h_inlen(unsigned rate) {
  int k = fs_choose(17); static const uint8_t s[] = {0, 1, 2, 16, 32, 33, 48, 64};
  return k < 8 ? s[k] : k < 12 ? rate - 3 + (k - 8) : k < 16 ? 2 * rate - 3 + (k - 12) : 3 * rate + 5;
}
static unsigned h_split(unsigned n) { int k = fs_choose(4); return k == 0 ? 0 : k == 1 ? n : k == 2 ? n / 2 : n ? n - 1 : 0; }
#define SEC unsigned q = fs_choose(3), sec = 128 + 64 * q, rate = sec == 128 ? 168 : 136, lb = sec / 8
static void h_ref(unsigned rate, const uint8_t* in, unsigned n, uint8_t sep, unsigned outlen) {
  uint8_t t[MAXM]; memcpy(t, in, n); t[n] = sep; h_shake(rate, t, n + 1, ref, outlen);
}
static void h_guard(const uint8_t* p, unsigned n) { fs_assert(p[n] == 0xA5 && p[n + 1] == 0xA5, "write past the requested digest length"); }
void harness_h0(void) {
  SEC; unsigned n = h_inlen(rate), s = h_split(n), sl = fs_choose(2) ? lb : 2 * lb, cl = fs_choose(2) ? 2 * lb : 3;
  fs_symbolic(m[0], n, "m"); memset(a, 0xA5, sizeof a); memset(b, 0xA5, sizeof b);
  H0_context_t c; H0_init(&c, sec); H0_update(&c, m[0], s); H0_update(&c, m[0] + s, n - s); H0_final(&c, a[0], sl, b[0], cl);
  h_ref(rate, m[0], n, 0, sl + cl);
  fs_assert_eq(a[0], ref, sl, "H0 seed output"); fs_assert_eq(b[0], ref + sl, cl, "H0 commitment output"); h_guard(a[0], sl); h_guard(b[0], cl);
  fs_cover("h0");
}
void harness_h0x4(void) {
  SEC; unsigned n = h_inlen(rate), s = h_split(n), sl = lb, cl = 2 * lb;
  for (int i = 0; i < 4; i++) fs_symbolic(m[i], n, "m"); memset(a, 0xA5, sizeof a); memset(b, 0xA5, sizeof b);
  H0_context_x4_t c; H0_x4_init(&c, sec); H0_x4_update(&c, m[0], m[1], m[2], m[3], s); H0_x4_update(&c, m[0] + s, m[1] + s, m[2] + s, m[3] + s, n - s);
  H0_x4_final(&c, a[0], a[1], a[2], a[3], sl, b[0], b[1], b[2], b[3], cl);
  for (int i = 0; i < 4; i++) {
    h_ref(rate, m[i], n, 0, sl + cl); fs_assert_eq(a[i], ref, sl, "four-way H0 seed output"); fs_assert_eq(b[i], ref + sl, cl, "four-way H0 commitment output");
    h_guard(a[i], sl); h_guard(b[i], cl);
  }
  fs_cover("h0x4");
}
void harness_h1(void) {
  SEC; unsigned n = h_inlen(rate), s = h_split(n), o = (unsigned[]){2 * lb, 7, 1, 2 * rate + 9}[fs_choose(4)];
  fs_symbolic(m[0], n, "m"); memset(a, 0xA5, sizeof a);
  H1_context_t c; H1_init(&c, sec); H1_update(&c, m[0], s); H1_update(&c, m[0] + s, n - s); H1_final(&c, a[0], o);
  h_ref(rate, m[0], n, 1, o); fs_assert_eq(a[0], ref, o, "H1 digest"); h_guard(a[0], o); fs_cover("h1");
}
void harness_h2(void) {
  SEC; unsigned n = h_inlen(rate), s = h_split(n), o = (unsigned[]){lb, 3 * lb + 8, 5 * lb + 8, 200, 1, 2 * rate + 9}[fs_choose(6)];
  fs_symbolic(m[0], n, "m"); memset(a, 0xA5, sizeof a);
  H2_context_t c; H2_init(&c, sec); H2_update(&c, m[0], s); H2_update(&c, m[0] + s, n - s); H2_final(&c, a[0], o);
  h_ref(rate, m[0], n, 2, o); fs_assert_eq(a[0], ref, o, "H2 digest"); h_guard(a[0], o); fs_cover("h2");
}
void harness_h3(void) {
  SEC; unsigned n = h_inlen(rate), s = h_split(n), o = (unsigned[]){lb, 160, 1, 2 * rate + 9}[fs_choose(4)];
  fs_symbolic(m[0], n, "m"); memset(a, 0xA5, sizeof a); memset(b, 0xA5, sizeof b);
  H3_context_t c; H3_init(&c, sec); H3_update(&c, m[0], s); H3_update(&c, m[0] + s, n - s); H3_final(&c, a[0], o, b[0]);
  h_ref(rate, m[0], n, 3, o + 16); fs_assert_eq(a[0], ref, o, "H3 key"); fs_assert_eq(b[0], ref + o, 16, "H3 IV"); h_guard(a[0], o); h_guard(b[0], 16); fs_cover("h3");
}
