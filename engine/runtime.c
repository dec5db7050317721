// Native implementation of the fs_* interface: replays a counterexample against the compiled code.
#define _GNU_SOURCE
#include "fsym.h"
#include "prf.h"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
static char** lines; static size_t nlines; static size_t posC, posS; static int runB; static uint64_t traceHash = 1; static FILE* traceF;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void unhex(const char* s, uint8_t* o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = s[2 * i] && s[2 * i] != '\n' && s[2 * i] != ' ' ? hv(s[2 * i]) * 16 + hv(s[2 * i + 1]) : 0; }
static void load(const char* f) {
  FILE* h = fopen(f, "r"); if (!h) { perror(f); exit(3); }
  char* l = NULL; size_t cap = 0; size_t mx = 0;
  while (getline(&l, &cap, h) > 0) { if (nlines == mx) { mx = mx ? 2 * mx : 256; lines = realloc(lines, mx * sizeof *lines); } lines[nlines++] = strdup(l); }
  free(l); fclose(h);
}
static void fail(const char* m) { printf("REPLAY-FAIL %s\n", m); fflush(stdout); _Exit(1); }
static void unpoison(void* p, size_t n) {
#ifdef MSAN
  __msan_unpoison(p, n);
#else
  (void)p; (void)n;
#endif
}
static void nextInput(void* p, size_t n) {
  while (posS < nlines && lines[posS][0] != 'S') posS++;
  uint8_t* tmp = calloc(1, n + 1); 
  if (posS < nlines) {
    const char* l = lines[posS];
    if (runB && posS + 1 < nlines && lines[posS + 1][0] == 'T') l = lines[posS + 1];
    const char* h = strrchr(l, ' ') + 1; unhex(h, tmp, n); posS++;
  }
  if (getenv("FS_FILL")) { int z = 1; for (size_t i = 0; i < n; i++) if (tmp[i]) z = 0; if (z) for (size_t i = 0; i < n; i++) tmp[i] = rnd() >> 33; }
  // FS_SPECIAL=k:v: input number k is the small value v (or all ones)
  static unsigned seq = 0; const char* sp = getenv("FS_SPECIAL");
  if (sp && n && strtoul(sp, NULL, 10) == seq) { unsigned v = strtoul(strchr(sp, ':') + 1, NULL, 10); memset(tmp, v == 255 ? 255 : 0, n); tmp[0] = v; }
  seq++;
  memcpy(p, tmp, n); unpoison(p, n); free(tmp);
}
void fs_symbolic(void* p, size_t n, const char* name) { (void)name; nextInput(p, n); }
void fs_secret(void* p, size_t n, const char* name) { (void)name; nextInput(p, n); }
void fs_gfvar(unsigned w, void* out, const char* name) { (void)name; nextInput(out, w / 8); }
void fs_declassify(void* p, size_t n) { (void)p; (void)n; }
void fs_undef(void* p, size_t n) {
#ifdef MSAN
  __msan_poison(p, n);
#else
  (void)p; (void)n;
#endif
}
void fs_assume(int c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(5); } }
void fs_assert(int c, const char* m) { if (!c) fail(m); }
void fs_assert_eq(const void* a, const void* b, size_t n, const char* m) { if (memcmp(a, b, n)) fail(m); }
int fs_choose(int n) { while (posC < nlines && lines[posC][0] != 'C') posC++; if (posC >= nlines) return 0; int v = atoi(lines[posC++] + 2); return v < n ? v : 0; }
void fs_cover(const char* n) { (void)n; }
static void ufBlock(const char* name, unsigned block, const uint8_t* in, size_t n, uint8_t out[64]) {
  size_t ln = strlen(name); char b[32]; snprintf(b, sizeof b, " %u x", block);
  for (size_t i = 0; i < nlines; i++) if (lines[i][0] == 'U' && !strncmp(lines[i] + 2, name, ln) && !strncmp(lines[i] + 2 + ln, b, strlen(b))) {
    const char* h = lines[i] + 2 + ln + strlen(b); const char* sp = strchr(h, ' '); if (!sp || (size_t)(sp - h) != 2 * n) continue;
    int eq = 1; for (size_t k = 0; k < n && eq; k++) if (hv(h[2 * k]) * 16 + hv(h[2 * k + 1]) != in[k]) eq = 0;
    if (eq) { unhex(sp + 1, out, 64); return; }
  }
  fsp_out(fsp_seed(name, block, in, n), out, 64);
}
static void ufOut(const char* name, const uint8_t* in, size_t n, uint8_t* out, size_t off, size_t on) {
  uint8_t blk[64]; size_t cur = (size_t)-1;
  for (size_t i = off; i < off + on; i++) { if (i / 64 != cur) { cur = i / 64; ufBlock(name, (unsigned)cur, in, n, blk); } out[i - off] = blk[i % 64]; }
}
void fs_uf(const char* name, void* out, size_t on, const void* in, size_t n) { uint8_t* t = malloc(on + 1); ufOut(name, in, n, t, 0, on); memcpy(out, t, on); unpoison(out, on); free(t); }
void fs_uf_public(const char* name, void* out, size_t on, const void* in, size_t n) { fs_uf(name, out, on, in, n); }
static struct { const char* name; uint8_t* d; size_t n, cap; } sp[100000]; static int nsp;
int fs_sp_new(const char* name) { if (nsp >= 100000) exit(3); sp[nsp].name = name; return nsp++; }
void fs_sp_add(int h, const void* p, size_t n) { if (sp[h].n + n > sp[h].cap) { sp[h].cap = 2 * (sp[h].n + n) + 64; sp[h].d = realloc(sp[h].d, sp[h].cap); } memcpy(sp[h].d + sp[h].n, p, n); sp[h].n += n; }
void fs_sp_public(int h) { (void)h; }
void fs_sp_out(int h, void* out, size_t off, size_t n) { uint8_t* t = malloc(n + 1); ufOut(sp[h].name, sp[h].d, sp[h].n, t, off, n); memcpy(out, t, n); unpoison(out, n); free(t); }
void fs_luf(const char* name, void* out, size_t on, const void* key, size_t kn, const void* x, size_t xn) { uint8_t* t = malloc(on + 1); fsp_lin(name, key, kn, x, xn, t, on); memcpy(out, t, on); unpoison(out, on); free(t); }
void fs_gfmul(unsigned w, void* out, const void* a, const void* b) { uint64_t x[4] = {0}, y[4] = {0}, r[4] = {0}; memcpy(x, a, w / 8); memcpy(y, b, w / 8); fsp_gfmul(w, r, x, y); memcpy(out, r, w / 8); }
void fs_gf_assert_eq(unsigned w, const void* a, const void* b, const char* m) { if (memcmp(a, b, w / 8)) fail(m); }
void fs_check_init(const void* p, size_t n, const char* m) {
#ifdef MSAN
  if (__msan_test_shadow(p, n) >= 0) fail(m);
#else
  (void)p; (void)n; (void)m;
#endif
}
void fs_anf(size_t c) { (void)c; }
void fs_cutchi(int on) { (void)on; }
int fs_native(void) { return 1; }
int fs_isconc(const void* p, size_t n) { (void)p; (void)n; return 1; }
int fs_same(const void* a, const void* b, size_t n) { return !memcmp(a, b, n); }
void fs_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", s, (unsigned long long)v); }
void fs_dump(const void* p, size_t n) { for (size_t i = 0; i < n; i++) fprintf(stderr, "%02x", ((const uint8_t*)p)[i]); fprintf(stderr, "\n"); }
// allocation accounting; deterministic addresses when tracing
static long live; static uint8_t* arena; static size_t arenaPos; static int arenaOn;
static void* arenaGet(size_t al, size_t n) { if (al < 16) al = 16; arenaPos = (arenaPos + al - 1) / al * al; void* r = arena + arenaPos; arenaPos += n + 1; memset(r, 0xA5, n); if (arenaPos > (1ull << 31)) exit(3); return r; }
// FS_ALIGN: heap objects are aligned to 16 bytes and not more
static int alignOn(void) { static int v = -1; if (v < 0) v = getenv("FS_ALIGN") != NULL; return v; }
static void* odd(size_t n) { uint8_t* p = aligned_alloc(32, (n + 16 + 31) / 32 * 32); return p ? p + 16 : p; }
void fsn_align(const void* p, uint64_t a) { if (alignOn() && ((uintptr_t)p & (a - 1))) fail("misaligned access"); }
void* fsn_malloc(size_t n) { live++; if (alignOn()) return odd(n); return arenaOn ? arenaGet(16, n) : malloc(n); }
void* fsn_calloc(size_t a, size_t b) { live++; if (alignOn()) { void* r = odd(a * b); memset(r, 0, a * b); return r; } if (arenaOn) { void* r = arenaGet(16, a * b); memset(r, 0, a * b); return r; } return calloc(a, b); }
void* fsn_aligned_alloc(size_t al, size_t n) { live++; if (!al || (al & (al - 1)) || n % al) fail("aligned_alloc with invalid alignment or size"); return arenaOn ? arenaGet(al, n) : aligned_alloc(al, n); }
void* fsn_memalign(size_t al, size_t n) { live++; return arenaOn ? arenaGet(al, n) : aligned_alloc(al, n); }
int fsn_posix_memalign(void** p, size_t al, size_t n) { if (al % 8 || (al & (al - 1))) return EINVAL; live++; if (arenaOn) { *p = arenaGet(al, n); return 0; } return posix_memalign(p, al, n); }
void* fsn_realloc(void* p, size_t n) { if (!p) live++; if (arenaOn) { void* r = arenaGet(16, n); if (p) memcpy(r, p, n); return r; } return realloc(p, n); }
void fsn_free(void* p) { if (p) live--; if (!arenaOn && !alignOn()) free(p); }
void fsn___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)f; (void)l; (void)fn; char b[512]; snprintf(b, sizeof b, "assertion failed: %s", e); fail(b); }
void fs_check_leaks(void) { if (live) fail("leak"); }
void fsn_trace(uint64_t id, uint64_t v) { if (traceF) { uint64_t b[2] = {id, v}; fwrite(b, 16, 1, traceF); } }
void fsn_trace_cmp(uint64_t id, const void* a, const void* b, uint64_t n) { const uint8_t *p = a, *q = b; uint64_t i = 0; while (i < n && p[i] == q[i]) i++; fsn_trace(id, i); }
void fs_check_public(const void* p, size_t n, const char* m) { (void)m; for (size_t i = 0; i < n; i++) fsn_trace(~0ull, ((const uint8_t*)p)[i]); }
extern void fsn_entry(void);
int main(int argc, char** argv) {
  if (argc < 2) return 3;
  load(argv[1]); rs = 88172645463325252ull; if (getenv("FS_FILL")) rs ^= strtoull(getenv("FS_FILL"), NULL, 10) * 0x9E3779B97F4A7C15ull;
  for (int i = 0; i < 8; i++) rnd();
  if (argc > 2) { traceF = fopen(argv[2], "w"); arenaOn = 1; arena = mmap((void*)0x300000000000ull, 1ull << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (argc > 3) runB = 1; }
  fsn_entry();
  if (traceF) fclose(traceF);
  printf("REPLAY-PASS\n");
  return 0;
}
