// Interface between harnesses and fsym (symbolic) / the replay runtime (native).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void fs_symbolic(void* p, size_t n, const char* name);
void fs_secret(void* p, size_t n, const char* name);
void fs_declassify(void* p, size_t n);
void fs_undef(void* p, size_t n);
void fs_assume(int c);
void fs_assert(int c, const char* msg);
void fs_assert_eq(const void* a, const void* b, size_t n, const char* msg);
int fs_choose(int n);
void fs_cover(const char* name);
void fs_uf(const char* name, void* out, size_t outlen, const void* in, size_t inlen);
void fs_uf_public(const char* name, void* out, size_t outlen, const void* in, size_t inlen);
int fs_sp_new(const char* name);
void fs_sp_add(int h, const void* p, size_t n);
void fs_sp_public(int h);
void fs_sp_out(int h, void* out, size_t off, size_t n);
void fs_luf(const char* name, void* out, size_t outlen, const void* key, size_t keylen, const void* x, size_t xlen);
void fs_gfvar(unsigned w, void* out, const char* name);
void fs_gfmul(unsigned w, void* out, const void* a, const void* b);
void fs_gf_assert_eq(unsigned w, const void* a, const void* b, const char* msg);
void fs_check_init(const void* p, size_t n, const char* msg);
void fs_check_public(const void* p, size_t n, const char* msg);
void fs_check_leaks(void);
void fs_anf(size_t cap);
void fs_cutchi(int on);
int fs_native(void);
int fs_isconc(const void* p, size_t n);
int fs_same(const void* a, const void* b, size_t n);
void fs_print(const char* s, uint64_t v);
void fs_dump(const void* p, size_t n);
#ifdef __cplusplus
}
#endif
