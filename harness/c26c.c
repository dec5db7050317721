// C26: repeated and interleaved calls of the components.
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#if P == 1
#include "aesref.h"
#elif P == 2
#include "spongeref.h"
#elif P == 3
#include "fieldstub.h"
#elif P == 4
#include "rostub.h"
#endif
#include "aes.h"
#include "fields.h"
#include "instances.h"
#include "owf.h"
#include "random_oracle.h"
#include "universal_hashing.h"
#include "vole.h"
#define NIN 3400
#define NOUT 9000
static faest_paramset_t h_p;
#if P == 1
#define NC 24
static unsigned h_run(int c, const uint8_t* x, uint8_t* o) {
  if (c < 6) { static bool (*const f[6])(const uint8_t*, const uint8_t*, uint8_t*) = {owf_128, owf_192, owf_256, owf_em_128, owf_em_192, owf_em_256}; o[32] = f[c](x, x + 32, o); unsigned n = (unsigned[]){16, 32, 32, 16, 24, 32}[c]; memset(o + n, 0, 32 - n); return 33; }
  if (c < 9) { prg(x, x + 32, o, 128 + 64 * (c - 6), 40); return 40; }
  if (c < 21) { h_p = faest_get_paramset(1 + c - 9); uint8_t* w = aes_extend_witness(x, x + 32, &h_p); unsigned n = h_p.faest_param.l / 8; memcpy(o, w, n); free(w); return n; }
  aes_round_keys_t k; c -= 21; (c == 0 ? aes128_init_round_keys : c == 1 ? aes192_init_round_keys : aes256_init_round_keys)(&k, x); (c == 0 ? aes128_encrypt_block : c == 1 ? aes192_encrypt_block : aes256_encrypt_block)(&k, x + 32, o); return 16;
}
#elif P == 2
#define NC 15
static unsigned h_run(int c, const uint8_t* x, uint8_t* o) {
  unsigned l = 128 + 64 * (c % 3);
  switch (c / 3) {
    case 0: { H0_context_t k; H0_init(&k, l); H0_update(&k, x, 48); H0_final(&k, o, 32, o + 32, 64); return 96; }
    case 1: { H1_context_t k; H1_init(&k, l); H1_update(&k, x, 200); H1_final(&k, o, 64); return 64; }
    case 2: { H2_context_t k; H2_init(&k, l); H2_update(&k, x, 13); H2_update(&k, x + 13, 187); H2_final(&k, o, 168); return 168; }
    case 3: { H3_context_t k; H3_init(&k, l); H3_update(&k, x, 96); H3_final(&k, o, 32, o + 32); return 48; }
    default: { H0_context_x4_t k; H0_x4_init(&k, l); H0_x4_update(&k, x, x + 48, x + 96, x + 144, 48); H0_x4_final(&k, o, o + 32, o + 64, o + 96, 32, o + 128, o + 192, o + 256, o + 320, 64); return 384; }
  }
}
// two contexts used alternately
void harness_alt(void) {
  unsigned l = 128 + 64 * fs_choose(3), m = 128 + 64 * fs_choose(3); uint8_t x[200], y[200], o1[2][64], o2[2][64]; fs_symbolic(x, 200, "x"); fs_symbolic(y, 200, "y");
  { H1_context_t a, b; H1_init(&a, l); H1_init(&b, m); H1_update(&a, x, 150); H1_update(&b, y, 170); H1_update(&a, x + 150, 50); H1_update(&b, y + 170, 30); H1_final(&a, o1[0], 64); H1_final(&b, o1[1], 64); }
  { H1_context_t a; H1_init(&a, l); H1_update(&a, x, 200); H1_final(&a, o2[0], 64); H1_init(&a, m); H1_update(&a, y, 200); H1_final(&a, o2[1], 64); }
  fs_assert_eq(o1, o2, 128, "alternating contexts influence each other"); fs_cover("alt");
}
#elif P == 3
#define NC 9
static unsigned h_run(int c, const uint8_t* x, uint8_t* o) {
  unsigned l = 128 + 64 * (c % 3), lb = l / 8;
  switch (c / 3) {
    case 0: vole_hash(o, x, x + 168, 8 * 40, l); return lb + 2;
    case 1: if (l == 128) { zk_hash_128_ctx k; zk_hash_128_init(&k, x); for (int i = 0; i < 3; i++) zk_hash_128_update(&k, bf128_load(x + 200 + 16 * i)); zk_hash_128_finalize(o, &k, bf128_load(x + 300)); }
      else if (l == 192) { zk_hash_192_ctx k; zk_hash_192_init(&k, x); for (int i = 0; i < 3; i++) zk_hash_192_update(&k, bf192_load(x + 200 + 24 * i)); zk_hash_192_finalize(o, &k, bf192_load(x + 300)); }
      else { zk_hash_256_ctx k; zk_hash_256_init(&k, x); for (int i = 0; i < 3; i++) zk_hash_256_update(&k, bf256_load(x + 200 + 32 * i)); zk_hash_256_finalize(o, &k, bf256_load(x + 300)); }
      return lb;
    default: if (l == 128) { bf128_t v[8]; for (int i = 0; i < 8; i++) v[i] = bf128_load(x + 16 * i); bf128_store(o, bf128_byte_combine(v)); bf128_store(o + 16, bf128_byte_combine_bits(x[299])); }
      else if (l == 192) { bf192_t v[8]; for (int i = 0; i < 8; i++) v[i] = bf192_load(x + 24 * i); bf192_store(o, bf192_byte_combine(v)); bf192_store(o + 24, bf192_byte_combine_bits(x[299])); }
      else { bf256_t v[8]; for (int i = 0; i < 8; i++) v[i] = bf256_load(x + 32 * i); bf256_store(o, bf256_byte_combine(v)); bf256_store(o + 32, bf256_byte_combine_bits(x[299])); }
      return 2 * lb;
  }
}
#elif P == 4
#define NC 9
static unsigned h_run(int c, const uint8_t* x, uint8_t* o) {
  unsigned l = 128 + 64 * (c % 3), lb = l / 8; h_p = faest_get_paramset((faest_paramid_t[]){FAEST_128S, FAEST_192S, FAEST_256S}[c % 3]);
  if (c < 3) { vec_com_t v; uint8_t b[4] = {1, 0, 1, 1}; vector_commitment(x, x + 32, &h_p, l, &v, 4); memcpy(o, v.h, 2 * lb); memcpy(o + 64, v.sd, 16 * lb); vector_open(v.k, v.com, b, o + 1000, o + 1200, 4, lb); vec_com_clear(&v); return 1200 + 2 * lb; }
  if (c < 6) { vec_com_rec_t v; uint8_t b[4] = {1, 0, 1, 1}; v.h = malloc(2 * lb); v.k = calloc(32, lb); v.com = calloc(16, 2 * lb); v.s = calloc(16, lb); vector_reconstruction(x, x + 16, x + 160, b, l, 4, &v); memcpy(o, v.h, 2 * lb); memcpy(o + 64, v.s, 13 * lb); memcpy(o + 64 + 13 * lb, v.s + 14 * lb, 2 * lb); vec_com_rec_clear(&v); return 64 + 15 * lb; }
  h_p.faest_param.tau = 3; h_p.faest_param.k0 = 3; h_p.faest_param.k1 = 2; h_p.faest_param.t0 = 2; h_p.faest_param.t1 = 1; vec_com_t v[3]; uint8_t* V[8]; memset(v, 0, sizeof v); for (int i = 0; i < 8; i++) V[i] = o + 200 + 20 * i;
  vole_commit(x, x + 32, 160, &h_p, o, v, o + 64, o + 150, V); for (int i = 0; i < 3; i++) vec_com_clear(&v[i]); return 360;
}
#endif
void harness(void) {
  int c = fs_choose(NC); uint8_t *a = malloc(NIN), *b = malloc(NIN), *d = malloc(NIN + 7), *o1 = malloc(NOUT), *ob = malloc(NOUT), *o2 = malloc(NOUT + 3);
  fs_symbolic(a, NIN, "a"); fs_symbolic(b, NIN, "b"); memcpy(d + 7, a, NIN); memset(o1, 0, NOUT); fs_undef(ob, NOUT); memset(o2, 0, NOUT + 3);
#if P == 3
  uint8_t* e = malloc(NIN); memcpy(e, b, NIN);
  for (int k = 0; k < 3; k++) { uint8_t* x = k == 2 ? e : k ? b : a; unsigned W = 128 + 64 * ((c + (k == 2)) % 3); for (int i = 0; i < 5; i++) fs_gfvar(W, x + i * W / 8, "g"); fs_gfvar(64, x + 5 * W / 8, "t"); } memcpy(d + 7, a, NIN);
#else
  uint8_t* e = b;
#endif
  unsigned n = h_run(c, a, o1); (void)h_run(c, b, ob); (void)h_run((c + 1) % NC, e, ob); unsigned n2 = h_run(c, d + 7, o2 + 3);
  fs_assert(n == n2, "length"); fs_assert_eq(o2 + 3, o1, n, "the same call gives another result"); fs_cover("twice");
  free(a); if (e != b) free(e); free(b); free(d); free(o1); free(ob); free(o2); fs_check_leaks();
}
