// C25: wiping of private keys and complete comparison.
#include "fsym.h"
#include <stdlib.h>
#include <string.h>
#include "compat.h"
#define SETS(X) X(128s, 128S) X(128f, 128F) X(192s, 192S) X(192f, 192F) X(256s, 256S) X(256f, 256F) X(em_128s, EM_128S) X(em_128f, EM_128F) X(em_192s, EM_192S) X(em_192f, EM_192F) X(em_256s, EM_256S) X(em_256f, EM_256F)
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
static const struct { void (*clear)(uint8_t*); unsigned n; } h_s[] = {
#define X(l, u) {faest_##l##_clear_private_key, FAEST_##u##_PRIVATE_KEY_SIZE},
  SETS(X)
#undef X
};
static const unsigned h_sk[12] = {32, 32, 56, 56, 64, 64, 32, 32, 48, 48, 64, 64};
void harness_clear(void) {
  int s = fs_choose(12); unsigned n = h_s[s].n; uint8_t k[80], o[80];
  fs_symbolic(k, 80, "memory"); memcpy(o, k, 80);
  fs_assert(n == h_sk[s], "private key size");
  h_s[s].clear(k + 5);
  for (unsigned i = 0; i < n; i++) fs_assert(k[5 + i] == 0, "private key byte not cleared");
  fs_assert_eq(k, o, 5, "memory before the key changed"); fs_assert_eq(k + 5 + n, o + 5 + n, 75 - n, "memory behind the key changed");
  fs_cover("clear");
}
#ifdef FALLBACK
void harness_bzero(void) {
  unsigned n = fs_choose(70); uint8_t k[80], o[80]; fs_symbolic(k, 80, "memory"); memcpy(o, k, 80);
  faest_explicit_bzero(k + 3, n);
  for (unsigned i = 0; i < n; i++) fs_assert(k[3 + i] == 0, "byte not cleared");
  fs_assert_eq(k, o, 3, "memory before changed"); fs_assert_eq(k + 3 + n, o + 3 + n, 77 - n, "memory behind changed");
  fs_cover("bzero");
}
#endif
#ifdef DSE
// with whole-program optimisation the wiped bytes are still zero when the memory is given back
void fsr_free(void* p) { for (unsigned i = 0; i < 32; i++) fs_assert(((uint8_t*)p)[i] == 0, "the optimiser removed the wiping of memory that is about to be freed"); fs_cover("freed"); }
void harness_dse(void) {
  uint8_t* k = malloc(32); if (!k) return;
  fs_symbolic(k, 32, "key"); if (fs_choose(2)) faest_128s_clear_private_key(k); else faest_em_128f_clear_private_key(k);
  free(k);
}
#endif
void harness_cmp(void) {
  static const unsigned ls[] = {80, 127, 128, 129, 255, 256, 257, 300, 512};
  unsigned q = fs_choose(73), n = q < 64 ? q : ls[q - 64]; static uint8_t a[520], b[520], a0[520], b0[520]; uint8_t acc = 0;
  fs_symbolic(a, n, "a"); fs_symbolic(b, n, "b"); memcpy(a0, a, n); memcpy(b0, b, n);
  int r = faest_timingsafe_bcmp(a, b, n);
  for (unsigned i = 0; i < n; i++) acc |= a0[i] ^ b0[i];
  fs_assert((r == 0) == (acc == 0), "comparison result"); fs_assert_eq(a, a0, n, "first operand modified"); fs_assert_eq(b, b0, n, "second operand modified");
  fs_cover("cmp");
}
// single-byte difference anywhere, in the last byte in particular, at concrete background values
void harness_cmp1(void) {
  unsigned n = 1 + fs_choose(64), i = fs_choose(64); fs_assume(i < n); static uint8_t a[64], b[64]; uint8_t d; memset(a, 0x5c, 64); memcpy(b, a, 64);
  fs_symbolic(&d, 1, "difference"); b[i] ^= d;
  int r = faest_timingsafe_bcmp(a, b, n); fs_assert((r == 0) == (d == 0), "single-byte difference"); fs_cover("cmp1");
}
