// C07: one-way functions: output, bounds, validity flag. C14: extended witness.
#include "aesref.h"
#include "owf.h"
#include "aes.h"
struct V { unsigned nk, nb, nr, blocks; int em; bool (*f)(const uint8_t*, const uint8_t*, uint8_t*); };
static const struct V vs[6] = {{4, 4, 10, 1, 0, owf_128}, {6, 4, 12, 2, 0, owf_192}, {8, 4, 14, 2, 0, owf_256}, {4, 4, 10, 1, 1, owf_em_128}, {6, 6, 12, 1, 1, owf_em_192}, {8, 8, 14, 1, 1, owf_em_256}};
void harness_owf(void) {
  const struct V* v = &vs[fs_choose(6)];
  unsigned kn = 4 * v->nk, in = v->em ? kn : 16 * v->blocks; uint8_t key[32], key0[32], inp[32], inp0[32], out[34], ref[32], w[120][4];
  memset(key, 0, 32); memset(inp, 0, 32); fs_symbolic(key, kn, "key"); fs_symbolic(inp, in, "input"); memcpy(key0, key, 32); memcpy(inp0, inp, 32);
  memset(out, 0xA5, sizeof out);
  bool ok = v->f(key, inp, out + 1);
  int z;
  if (!v->em) {
    z = h_expand(w, key, v->nk, v->nb, v->nr);
    for (unsigned b = 0; b < v->blocks; b++) z |= h_encrypt(w, inp + 16 * b, ref + 16 * b, v->nb, v->nr, 0);
  } else {
    h_expand(w, inp, v->nk, v->nb, v->nr); z = h_encrypt(w, key, ref, v->nb, v->nr, 0);
    for (unsigned i = 0; i < in; i++) ref[i] ^= key[i];
  }
  fs_assert_eq(out + 1, ref, in, "one-way function output");
  fs_assert(out[0] == 0xA5 && out[1 + in] == 0xA5, "write outside the output");
  fs_assert(ok == (z == 0), "validity flag");
  fs_assert_eq(key, key0, 32, "key modified"); fs_assert_eq(inp, inp0, 32, "input modified");
  fs_cover("owf");
}
// expected witness, assembled from the reference computation
static uint8_t exp_[1024]; static unsigned pos_, nr_;
static void h_put(unsigned round, const uint8_t* s, unsigned n) { if (round < nr_) { memcpy(exp_ + pos_, s, n); pos_ += n; } }
void harness_witness(void) {
  int id = 1 + fs_choose(12); faest_paramset_t p = faest_get_paramset(id);
  int em = id >= FAEST_EM_128S; int lv = ((id - 1) % 6) / 2;
  static const unsigned L[2][3] = {{1600, 3264, 4000}, {1280, 2304, 3584}};
  const struct V* v = &vs[3 * em + lv];
  unsigned kn = 4 * v->nk, in = em ? kn : 16 * v->blocks; uint8_t key[32], inp[32], w[120][4], o[32];
  fs_symbolic(key, kn, "key"); fs_symbolic(inp, in, "input");
  nr_ = v->nr; pos_ = 0;
  if (!em) {
    int z = h_expand(w, key, v->nk, 4, v->nr); (void)z;
    memcpy(exp_, key, kn); pos_ = kn;
    // every key-schedule word produced with an S-box
    for (unsigned i = v->nk; i < 4 * (v->nr + 1); i++) if (i % v->nk == 0 || (v->nk == 8 && i % 8 == 4)) { memcpy(exp_ + pos_, w[i], 4); pos_ += 4; }
    for (unsigned b = 0; b < v->blocks; b++) h_encrypt(w, inp + 16 * b, o, 4, v->nr, h_put);
  } else {
    h_expand(w, inp, v->nk, v->nb, v->nr); memcpy(exp_, key, kn); pos_ = kn;
    h_encrypt(w, key, o, v->nb, v->nr, h_put);
  }
  fs_assert(pos_ == L[em][lv] / 8, "reference witness has the specified length");
  fs_assert(p.faest_param.l == L[em][lv], "witness length parameter");
  uint8_t* wit = aes_extend_witness(key, inp, &p);
  fs_assert_eq(wit, exp_, L[em][lv] / 8, "extended witness differs from the specification");
  free(wit); fs_check_leaks();
  fs_cover("witness");
}
