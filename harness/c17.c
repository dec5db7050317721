// C17: the SHAKE wrappers (single and four-way) against the sponge construction with an arbitrary permutation.
#include "spongeref.h"
#ifndef FULL
#define FULL 0
#endif
#define MAXM (4 * 168 + 16)
static const uint8_t h_ls[] = {0, 1, 2, 7, 8, 9, 16, 17};
// second length, relative to a position p in the block
static unsigned h_len(unsigned rate, unsigned p) {
#if FULL
  return fs_choose(2 * rate + 10);
#else
  int k = fs_choose(sizeof h_ls + 9);
  if (k < (int)sizeof h_ls) return h_ls[k];
  k -= sizeof h_ls;
  if (k < 3) return rate + k > p + 1 ? rate - p - 1 + k : 0;
  if (k < 6) return 2 * rate - p - 1 + k - 3;
  return rate - 1 + k - 6;
#endif
}
static uint8_t m[4][MAXM], out[4][MAXM], ref[MAXM];
static void h_absorb(int x4) {
  unsigned sec = fs_choose(2) ? 256 : 128, rate = sec == 128 ? 168 : 136, p = fs_choose(rate), l = h_len(rate, p), t = fs_choose(2) ? 3 : 0, n = p + l + t;
  for (int i = 0; i < (x4 ? 4 : 1); i++) fs_symbolic(m[i], n, "m");
  if (!x4) {
    hash_context c; hash_init(&c, sec);
    hash_update(&c, m[0], p); hash_update(&c, m[0] + p, l); hash_update(&c, m[0] + p + l, t); hash_final(&c); hash_squeeze(&c, out[0], 33);
    hash_clear(&c);
  } else {
    hash_context_x4 c; hash_init_x4(&c, sec);
    hash_update_x4_4(&c, m[0], m[1], m[2], m[3], p);
    const uint8_t* q[4] = {m[0] + p, m[1] + p, m[2] + p, m[3] + p}; hash_update_x4(&c, q, l);
    hash_update_x4_4(&c, m[0] + p + l, m[1] + p + l, m[2] + p + l, m[3] + p + l, t);
    hash_final_x4(&c); hash_squeeze_x4_4(&c, out[0], out[1], out[2], out[3], 33);
    hash_clear_x4(&c);
  }
  for (int i = 0; i < (x4 ? 4 : 1); i++) { h_shake(rate, m[i], n, ref, 33); fs_assert_eq(out[i], ref, 33, x4 ? "four-way output differs from SHAKE (absorbing)" : "output differs from SHAKE (absorbing)"); }
  fs_cover("absorb");
}
void harness_absorb1(void) { h_absorb(0); }
void harness_absorb4(void) { h_absorb(1); }
static void h_squeeze(int x4) {
  unsigned sec = fs_choose(2) ? 256 : 128, rate = sec == 128 ? 168 : 136, q = 1 + fs_choose(rate), l = h_len(rate, q), t = fs_choose(2) ? 9 : 0, n = 21;
  for (int i = 0; i < (x4 ? 4 : 1); i++) { fs_symbolic(m[i], n, "m"); memset(out[i], 0xA5, MAXM); }
  if (!x4) {
    hash_context c; hash_init_prefix(&c, sec, 0x42); hash_update_uint16_le(&c, 0x1234);
    hash_update(&c, m[0], n); hash_final(&c); hash_squeeze(&c, out[0], q); hash_squeeze(&c, out[0] + q, l); hash_squeeze(&c, out[0] + q + l, t);
  } else {
    hash_context_x4 c; hash_init_prefix_x4(&c, sec, 0x42); hash_update_x4_uint16_le(&c, 0x1234);
    hash_update_x4_4(&c, m[0], m[1], m[2], m[3], n);
    hash_final_x4(&c); hash_squeeze_x4_4(&c, out[0], out[1], out[2], out[3], q);
    uint8_t* o[4] = {out[0] + q, out[1] + q, out[2] + q, out[3] + q}; hash_squeeze_x4(&c, o, l);
    hash_squeeze_x4_4(&c, out[0] + q + l, out[1] + q + l, out[2] + q + l, out[3] + q + l, t);
  }
  for (int i = 0; i < (x4 ? 4 : 1); i++) {
    uint8_t mm[40] = {0x42, 0x34, 0x12}; memcpy(mm + 3, m[i], n); h_shake(rate, mm, n + 3, ref, q + l + t);
    fs_assert_eq(out[i], ref, q + l + t, x4 ? "four-way output differs from SHAKE (squeezing)" : "output differs from SHAKE (squeezing)");
    fs_assert(out[i][q + l + t] == 0xA5, "squeeze writes past the requested length");
  }
  fs_cover("squeeze");
}
void harness_squeeze1(void) { h_squeeze(0); }
void harness_squeeze4(void) { h_squeeze(1); }
// one further update or squeeze of any length up to 2^61 - 1 bytes from every queue position: the state is accessed inside the rate
// part only and every step makes progress (the loop ends)
void harness_big(void) {
  unsigned x4 = fs_choose(2), sq = fs_choose(2), sec = fs_choose(2) ? 256 : 128, rate = sec == 128 ? 168 : 136, p; uint64_t n;
#if FULL
  p = fs_choose(rate) + sq;
#else
  p = (const unsigned[]){0, 1, 9, 64, rate - 2, rate - 1}[fs_choose(6)] + sq;
#endif
  fs_symbolic(m[0], rate, "m"); fs_symbolic(&n, 8, "n"); fs_assume(n >> 61 == 0 && n > 0); h_rate = rate;
  hash_context c; hash_context_x4 c4;
  if (!x4) {
    hash_init(&c, sec); if (!sq) hash_update(&c, m[0], p); else { hash_final(&c); hash_squeeze(&c, out[0], p); }
    h_big = 1; if (!sq) hash_update(&c, m[0], n); else hash_squeeze(&c, out[0], n);
  } else {
    hash_init_x4(&c4, sec); if (!sq) hash_update_x4_1(&c4, m[0], p); else { hash_final_x4(&c4); hash_squeeze_x4_4(&c4, out[0], out[1], out[2], out[3], p); }
    h_big = 1; if (!sq) hash_update_x4_1(&c4, m[0], n); else hash_squeeze_x4_4(&c4, out[0], out[1], out[2], out[3], n);
  }
  fs_assert(0, "update or squeeze of a positive length does not access the state");
}
