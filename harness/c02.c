// C02, C03, C23 (layout): signer against the reference transcript, verifier's verdict against the recomputed final challenge.
#include "core.h"
static uint8_t k_msg[16], k_rho[80], k_in[32], k_out[32], k_key[32], o_buf[192];
static void h_inputs(void) { fs_symbolic(k_msg, 16, "message"); fs_symbolic(k_rho, 80, "rho"); fs_symbolic(k_in, 32, "owf input"); fs_symbolic(k_out, 32, "owf output"); fs_symbolic(k_key, 32, "owf key"); memcpy(o_buf, k_msg, 16); memcpy(o_buf + 16, k_rho, 80); memcpy(o_buf + 96, k_in, 32); memcpy(o_buf + 128, k_out, 32); memcpy(o_buf + 160, k_key, 32); }
static void h_unchanged(void) { fs_assert_eq(k_msg, o_buf, 16, "message modified"); fs_assert_eq(k_rho, o_buf + 16, 80, "randomness modified"); fs_assert_eq(k_in, o_buf + 96, 32, "owf input modified"); fs_assert_eq(k_out, o_buf + 128, 32, "owf output modified"); fs_assert_eq(k_key, o_buf + 160, 32, "owf key modified"); }
static void h_dosign(size_t n, const uint8_t* rho, size_t rn) {
  uint8_t *sig = malloc(S->sig + 16), *ref = malloc(S->sig + 16), g[16], root[32], w[512]; fs_assert(o_end() == S->sig, "reference layout");
  fs_undef(sig, S->sig + 16); fs_symbolic(g, 16, "guard"); memcpy(sig, g, 8); memcpy(sig + 8 + S->sig, g + 8, 8);
  faest_sign(sig + 8, k_msg, n, k_key, k_in, k_out, rho, rn, &h_p);
  fs_assert_eq(sig, g, 8, "write in front of the signature"); fs_assert_eq(sig + 8 + S->sig, g + 8, 8, "write behind the signature");
  h_ref_sign(ref, k_msg, n, k_key, k_in, k_out, rho, rn, root, w); uint8_t* s = sig + 8;
  fs_assert_eq(s + o_iv(), ref + o_iv(), 16, "iv"); fs_assert_eq(s, ref, o_ut(), "corrections"); fs_assert_eq(s + o_ut(), ref + o_ut(), LB + 2, "u tilde"); fs_assert_eq(s + o_d(), ref + o_d(), L8, "masked witness");
  fs_assert_eq(s + o_at(), ref + o_at(), LB, "a tilde"); fs_assert_eq(s + o_ch3(), ref + o_ch3(), LB, "final challenge");
  for (unsigned i = 0; i < S->tau; i++) { fs_assert_eq(s + o_pdec(i), ref + o_pdec(i), h_depth(i) * LB, "opening"); fs_assert_eq(s + o_com(i), ref + o_com(i), 2 * LB, "commitment of the hidden leaf"); }
  h_unchanged(); free(sig); free(ref); fs_check_leaks(); fs_cover("signed");
}
void harness_sign(void) {   // short messages and randomness
  h_pick(fs_choose(12)); h_inputs(); unsigned a = fs_choose(5); static const uint8_t ml[] = {0, 1, 5, 16, 16}, rl[] = {80, 0, 7, 32, 0};
  h_dosign(ml[a], a == 4 ? NULL : k_rho, rl[a]);
}
void harness_sign_long(void) {   // every length of message and randomness
  h_pick(fs_choose(12)); h_inputs(); size_t n, rn; fs_symbolic(&n, 8, "message length"); fs_symbolic(&rn, 8, "randomness length"); h_big = 1; h_bigp[0] = k_msg; h_bigp[1] = k_rho;
  h_dosign(n, k_rho, rn);
}
static void h_doverify(size_t n) {
  uint8_t *sig = malloc(S->sig), *os = malloc(S->sig), c3[32]; fs_symbolic(sig, S->sig, "vec signature"); memcpy(os, sig, S->sig);
  int r = faest_verify(k_msg, n, sig, k_in, k_out, &h_p);
  h_ref_verify(c3, os, k_msg, n, k_in, k_out);
  uint8_t d = 0; for (unsigned i = 0; i < LB; i++) d |= c3[i] ^ os[o_ch3() + i];
  fs_assert(d ? r == -1 : r == 0, "verdict"); fs_assert_eq(sig, os, S->sig, "signature modified"); h_unchanged(); free(sig); free(os); fs_check_leaks(); fs_cover("verdict");
}
void harness_verify(void) { h_pick(fs_choose(12)); h_inputs(); h_doverify(fs_choose(2) * 13); }
void harness_verify_long(void) { h_pick(fs_choose(12)); h_inputs(); size_t n; fs_symbolic(&n, 8, "message length"); h_big = 1; h_bigp[0] = k_msg; h_doverify(n); }
