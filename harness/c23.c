// C23: run-time table, names, published constants and derived quantities.
#include "core.h"
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
// specification: lambda, tau and the block cipher determine everything else
static const struct { const char* name; unsigned la, tau, em; unsigned pk, sk, sig; } sp[12] = {
#define X(u, la, tau, em) {"FAEST_" #u, la, tau, em, FAEST_##u##_PUBLIC_KEY_SIZE, FAEST_##u##_PRIVATE_KEY_SIZE, FAEST_##u##_SIGNATURE_SIZE},
  X(128S, 128, 11, 0) X(128F, 128, 16, 0) X(192S, 192, 16, 0) X(192F, 192, 24, 0) X(256S, 256, 22, 0) X(256F, 256, 32, 0) X(EM_128S, 128, 11, 1) X(EM_128F, 128, 16, 1) X(EM_192S, 192, 16, 1) X(EM_192F, 192, 24, 1) X(EM_256S, 256, 22, 1) X(EM_256F, 256, 32, 1)
#undef X
};
static int str_eq(const char* a, const char* b) { for (; *a && *a == *b; a++, b++); return *a == *b; }
static void h_check(unsigned i, const faest_paramset_t* p) {
  const faest_param_t* q = &p->faest_param; unsigned la = sp[i].la, nk = la / 32, R = nk + 6, nst = sp[i].em ? nk : 4, beta = !sp[i].em && la > 128 ? 2 : 1;
  unsigned lke = 0, ske = 0, lenc = 32 * nst * (R - 1);
  if (!sp[i].em) { unsigned words = 4 * (R + 1), k = words - nk, n = k / nk + (k % nk ? 1 : 0); ske = 4 * n; if (nk == 8) { ske = 0; for (unsigned w = nk; w < words; w++) if (w % 4 == 0) ske += 4; } lke = la + 8 * ske; }
  unsigned l = sp[i].em ? la + lenc : lke + beta * lenc, tau = sp[i].tau, k1 = la / tau, k0 = (la + tau - 1) / tau, t0 = la % tau, t1 = tau - t0, lb = la / 8, eh = l / 8 + 2 * lb + 2;
  unsigned pk2 = sp[i].em ? lb : 16 * beta, sig = (tau - 1) * eh + (lb + 2) + l / 8 + lb + t0 * (k0 + 2) * lb + t1 * (k1 + 2) * lb + lb + 16;
  fs_assert(p->faest_paramid == (int)i + 1, "identifier");
  fs_assert(q->lambda == la, "lambda"); fs_assert(q->Nwd == nk, "Nwd"); fs_assert(q->R == R, "R"); fs_assert(q->Ske == ske, "Ske"); fs_assert(q->l == l, "l"); fs_assert(q->Lke == lke, "Lke");
  fs_assert(q->Lenc == (sp[i].em ? l : lenc), "Lenc"); fs_assert(q->tau == tau, "tau"); fs_assert(q->k0 == k0 && q->k1 == k1 && q->t0 == t0 && q->t1 == t1, "tree depths"); fs_assert(q->Senc == 4 * nst * R, "Senc");
  fs_assert(q->k0 * q->t0 + q->k1 * q->t1 == q->lambda, "tree depths add up to the security level"); fs_assert(q->t0 + q->t1 == q->tau, "number of trees");
  fs_assert(q->sigSize == sig, "signature size in the table"); fs_assert(q->pkSize == 2 * pk2, "public key size in the table");
  fs_assert(sp[i].sig == sig && sp[i].pk == 2 * pk2 && sp[i].sk == pk2 + lb, "published sizes");
  fs_assert(MAX_LAMBDA_BYTES >= lb && MAX_TAU >= tau && MAX_DEPTH >= k0 && MAX_DEPTH >= k1 && AES_MAX_ROUNDS >= R && IV_SIZE == 16 && UNIVERSAL_HASH_B == 2, "limits");
  fs_assert(h_sets[i].la == la && h_sets[i].l == l && h_sets[i].sig == sig && h_sets[i].k0 == k0 && h_sets[i].k1 == k1 && h_sets[i].t0 == t0 && h_sets[i].t1 == t1 && h_sets[i].pk == 2 * pk2, "table of the other harnesses");
}
void harness_table(void) {
  unsigned i = fs_choose(14); uint32_t id = i + 1; if (i >= 12) id = 0; if (i == 13) { fs_symbolic(&id, 4, "identifier"); fs_assume(id > 12); }
  faest_paramset_t p = faest_get_paramset((faest_paramid_t)id);
  if (i < 12) { h_check(i, &p); fs_assert(str_eq(faest_get_param_name((faest_paramid_t)id), sp[i].name), "name"); fs_cover("set"); return; }
  const uint8_t* b = (const uint8_t*)&p.faest_param; uint8_t d = 0; for (unsigned k = 0; k < sizeof p.faest_param; k++) d |= b[k];
  fs_assert(!d && p.faest_paramid == PARAMETER_SET_INVALID, "identifier that names no set"); fs_cover("none");
}
static int low_eq(const char* a, const char* b) { for (; *a && *b && *a == (*b >= 'A' && *b <= 'Z' ? *b + 32 : *b); a++, b++); return !*a && !*b; }
#ifdef API
#undef CRYPTO_BYTES
#include API
void harness_api(void) {
  for (unsigned i = 0; i < 12; i++) if (low_eq(CRYPTO_ALGNAME, sp[i].name)) { fs_assert(CRYPTO_PUBLICKEYBYTES == sp[i].pk && CRYPTO_SECRETKEYBYTES == sp[i].sk && CRYPTO_BYTES == sp[i].sig, "constants of crypto_sign.h"); fs_cover("api"); return; }
  fs_assert(0, "algorithm name");
}
#endif
