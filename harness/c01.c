// C01: signing followed by verification, over components that satisfy the relations of C04, C05, C13, C15.
#include "core.h"
static uint8_t k_msg[16], k_rho[80], k_in[32], k_out[32], k_key[32];
static void h_run(size_t n, const uint8_t* rho, size_t rn) {
  uint8_t *sig = malloc(S->sig), mu[64]; fs_undef(sig, S->sig); h_mode = M_CORR;
  faest_sign(sig, k_msg, n, k_key, k_in, k_out, rho, rn, &h_p);
  // what the signer committed to
  h_mu(mu, k_in, k_out, k_msg, n); int h = h_new(2, S->la); fs_sp_add(h, k_key, LB); fs_sp_add(h, mu, 2 * LB); if (rho && rn) h_add(h, rho, rn); fs_sp_out(h, h_croot, 0, LB); fs_sp_out(h, h_civ, LB, 16); h_wit(k_key, k_in, h_cw);
  fs_assert(faest_verify(k_msg, n, sig, k_in, k_out, &h_p) == 0, "verification of an honest signature"); fs_cover("accepted");
  free(sig); fs_check_leaks();
}
static void h_inputs(void) { fs_symbolic(k_msg, 16, "message"); fs_symbolic(k_rho, 80, "rho"); fs_symbolic(k_in, 32, "owf input"); fs_symbolic(k_out, 32, "owf output"); fs_symbolic(k_key, 32, "owf key"); }
void harness(void) { h_pick(fs_choose(12)); h_inputs(); unsigned a = fs_choose(3); h_run((unsigned[]){0, 16, 3}[a], a == 2 ? NULL : k_rho, (unsigned[]){16, 80, 0}[a]); }
void harness_long(void) { h_pick(fs_choose(12)); h_inputs(); size_t n, rn; fs_symbolic(&n, 8, "message length"); fs_symbolic(&rn, 8, "randomness length"); h_big = 1; h_bigp[0] = k_msg; h_bigp[1] = k_rho; h_run(n, k_rho, rn); }
