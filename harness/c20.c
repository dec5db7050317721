// C20: PRG = AES-CTR.
#include "aesref.h"
#include "aes.h"
#include <stdlib.h>
#ifndef MAXLEN
#define MAXLEN 66
#endif
static void h_ks(uint8_t* out, const uint8_t* key, const uint8_t* iv, unsigned sec, unsigned n) {
  uint8_t w[120][4], ctr[16], b[16]; unsigned nk = sec / 32;
  h_expand(w, key, nk, 4, nk + 6); memcpy(ctr, iv, 16);
  for (unsigned i = 0; i < n; i += 16) { h_encrypt(w, ctr, b, 4, nk + 6, 0); memcpy(out + i, b, n - i < 16 ? n - i : 16); aes_increment_iv(ctr); }
}
void harness_inc(void) {
  uint8_t iv[18], o[18]; memset(iv, 0xA5, 18); fs_symbolic(iv + 1, 16, "iv"); memcpy(o, iv, 18);
  aes_increment_iv(iv + 1);
  unsigned c = 1; for (int i = 16; i >= 1; i--) { unsigned s = o[i] + c; o[i] = (uint8_t)s; c = s >> 8; }
  fs_assert_eq(iv, o, 18, "counter increment is not +1 on the 128-bit big-endian counter");
  fs_cover("inc");
}
#ifdef OSSL
// OpenSSL's CTR mode as documented
#include <openssl/evp.h>
struct h_ctx { uint8_t key[32], iv[16], ks[256]; unsigned sec, pos, live; };
static int c128, c192, c256;
const EVP_CIPHER* fsr_EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)&c128; }
const EVP_CIPHER* fsr_EVP_aes_192_ctr(void) { return (const EVP_CIPHER*)&c192; }
const EVP_CIPHER* fsr_EVP_aes_256_ctr(void) { return (const EVP_CIPHER*)&c256; }
EVP_CIPHER_CTX* fsr_EVP_CIPHER_CTX_new(void) { return calloc(1, sizeof(struct h_ctx)); }
void fsr_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { free(c); }
int fsr_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* ci, ENGINE* e, const unsigned char* key, const unsigned char* iv) {
  struct h_ctx* x = (struct h_ctx*)c; x->sec = ci == (void*)&c128 ? 128 : ci == (void*)&c192 ? 192 : 256; x->pos = 0;
  h_ks(x->ks, key, iv, x->sec, 256); return 1;
}
int fsr_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) {
  struct h_ctx* x = (struct h_ctx*)c; fs_assert(x->pos + inl <= 256, "keystream model bound");
  for (int i = 0; i < inl; i++) out[i] = in[i] ^ x->ks[x->pos + i];
  x->pos += inl; *outl = inl; return 1;
}
int fsr_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { *outl = 0; return 1; }
#endif
void harness_prg(void) {
  unsigned sec = 128 + 64 * fs_choose(3), n = fs_choose(MAXLEN + 1);
  uint8_t key[32], key0[32], iv[16], iv0[16], out[MAXLEN + 2], ref[MAXLEN + 16];
  fs_symbolic(key, sec / 8, "key"); fs_symbolic(iv, 16, "iv"); memcpy(key0, key, sec / 8); memcpy(iv0, iv, 16);
  memset(out, 0xA5, sizeof out);
  prg(key, iv, out + 1, sec, n);
  h_ks(ref, key0, iv0, sec, n);
  fs_assert_eq(out + 1, ref, n, "output is not the AES-CTR keystream");
  fs_assert(out[0] == 0xA5, "write before the output");
  for (unsigned i = n + 1; i < MAXLEN + 2; i++) fs_assert(out[i] == 0xA5, "write past the requested length");
  fs_assert_eq(key, key0, sec / 8, "key modified"); fs_assert_eq(iv, iv0, 16, "IV modified");
  fs_check_leaks();
  fs_cover("prg");
}
