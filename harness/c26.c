// C26: repeated and interleaved calls of the signer and the verifier.
#include "core.h"
typedef struct { uint8_t msg[24], rho[40], in[32], out[32], key[32]; } in_t;
static void h_in(in_t* x, const char* n) { fs_symbolic(x, sizeof *x, n); }

void harness_sign(void) {
  int s = fs_choose(12), v = fs_choose(3); in_t *x = malloc(sizeof *x), *y = malloc(sizeof *y), *z = malloc(sizeof *z + 3), *xc = (in_t*)((uint8_t*)z + 3); h_in(x, "inputs"); h_in(y, "other inputs"); if (v == 2) memcpy(y->key, x->key, 32);
  h_pick(s); unsigned n = S->sig; uint8_t *s1 = malloc(n), *s2 = malloc(n + 5), *s3; fs_undef(s1, n); fs_symbolic(s2, n + 5, "earlier contents");
  size_t ml = v ? 24 : 0, rl = v == 1 ? 0 : 40;
  faest_sign(s1, x->msg, ml, x->key, x->in, x->out, v == 1 ? NULL : x->rho, rl, &h_p);
  // something else in between
  h_pick(v == 2 ? s : (s + 5) % 12); s3 = malloc(S->sig); faest_sign(s3, y->msg, 7, y->key, y->in, y->out, y->rho, 9, &h_p); (void)faest_verify(y->msg, 7, s3, y->in, y->out, &h_p);
  // the same inputs elsewhere in memory, over a buffer with other contents
  h_pick(s); memcpy(xc, x, sizeof *x); faest_paramset_t pc = h_p;
  faest_sign(s2 + 5, xc->msg, ml, xc->key, xc->in, xc->out, xc->rho, rl, &pc);
  fs_assert_eq(s2 + 5, s1, n, "the same call gives another signature"); fs_cover("sign");
  free(x); free(y); free(z); free(s1); free(s2); free(s3); fs_check_leaks();
}
void harness_verify(void) {
  int s = fs_choose(12), v = fs_choose(2); in_t *x = malloc(sizeof *x), *y = malloc(sizeof *y); h_in(x, "inputs"); h_in(y, "other inputs"); h_pick(s); unsigned n = S->sig;
  uint8_t *g = malloc(n), *g2 = malloc(n + 1), *o; fs_symbolic(g, n, "vec signature"); memcpy(g2 + 1, g, n);
  int r1 = faest_verify(x->msg, 24, g, x->in, x->out, &h_p);
  h_pick(v ? s : (s + 7) % 12); o = malloc(S->sig); if (v) { fs_symbolic(o, S->sig, "vec other signature"); (void)faest_verify(y->msg, 24, o, y->in, y->out, &h_p); } faest_sign(o, y->msg, 3, y->key, y->in, y->out, NULL, 0, &h_p);
  h_pick(s); int r2 = faest_verify(x->msg, 24, g2 + 1, x->in, x->out, &h_p);
  fs_assert(r1 == r2, "the same call gives another verdict"); fs_cover("verify");
  free(x); free(y); free(g); free(g2); free(o); fs_check_leaks();
}
