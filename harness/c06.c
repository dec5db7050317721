// C06: block ciphers against the specification.
#include "aesref.h"
#include "aes.h"
struct V { unsigned nk, nb, nr; int (*init)(aes_round_keys_t*, const uint8_t*); int (*enc)(const aes_round_keys_t*, const uint8_t*, uint8_t*); };
static const struct V vs[5] = {{4, 4, 10, aes128_init_round_keys, aes128_encrypt_block}, {6, 4, 12, aes192_init_round_keys, aes192_encrypt_block}, {8, 4, 14, aes256_init_round_keys, aes256_encrypt_block}, {6, 6, 12, rijndael192_init_round_keys, rijndael192_encrypt_block}, {8, 8, 14, rijndael256_init_round_keys, rijndael256_encrypt_block}};
void harness(void) {
  const struct V* v = &vs[fs_choose(5)];
  int dep = fs_choose(2);  // 0: round keys from the key schedule, 1: arbitrary round keys
  uint8_t key[32], pt[32], pt0[32], ct[34], ref[32], w[120][4]; aes_round_keys_t rk;
  fs_symbolic(key, 4 * v->nk, "key"); fs_symbolic(pt, 4 * v->nb, "pt"); memcpy(pt0, pt, 32 < 4 * v->nb ? 32 : 4 * v->nb);
  memset(ct, 0xA5, sizeof ct);
  if (dep == 0) {
    int zk = v->init(&rk, key), rz = h_expand(w, key, v->nk, v->nb, v->nr);
    fs_assert((zk != 0) == (rz != 0), "zero flag of the key expansion");
    // the key schedule itself, through encryptions of the same block under all round keys
  } else {
    for (unsigned r = 0; r <= v->nr; r++) for (unsigned c = 0; c < v->nb; c++) { fs_symbolic(rk.round_keys[r][c], 4, "rk"); memcpy(w[r * v->nb + c], rk.round_keys[r][c], 4); }
  }
  int z = v->enc(&rk, pt, ct + 1), zr = h_encrypt(w, pt, ref, v->nb, v->nr, 0);
  fs_assert_eq(ct + 1, ref, 4 * v->nb, "ciphertext differs from the specification");
  fs_assert((z != 0) == (zr != 0), "zero flag of the encryption");
  fs_assert(ct[0] == 0xA5 && ct[1 + 4 * v->nb] == 0xA5, "write outside the output block");
  fs_assert_eq(pt, pt0, 4 * v->nb, "input block modified");
  // in-place encryption
  v->enc(&rk, pt, pt); fs_assert_eq(pt, ref, 4 * v->nb, "in-place encryption differs");
  fs_cover("done");
}
