// C28: fallback aligned allocator over modelled libc allocators.
#include "fsym.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "compat.h"
static size_t h_al, h_sz, h_msz; static int h_plan, h_allocs, h_frees; static uint8_t h_arena[1024] __attribute__((aligned(1024))); static uint8_t* h_buf; static int h_err;
static int h_pow2(size_t a) { return a && !(a & (a - 1)); }
#ifndef MANUAL
int fsr_posix_memalign(void** p, size_t al, size_t sz) {
  h_allocs++;
  fs_assert(h_pow2(al) && al % sizeof(void*) == 0, "posix_memalign called with an invalid alignment");
  fs_assert(al >= h_al, "requested alignment lost"); fs_assert(sz >= h_sz, "fewer bytes requested than asked for");
  h_err = h_plan;
  if (!h_err) *p = h_buf = h_arena + 64;
  return h_err;
}
void* fsr_memalign(size_t al, size_t sz) {
  h_allocs++;
  fs_assert(h_pow2(al) && al >= h_al, "memalign called with an invalid alignment"); fs_assert(sz >= h_sz, "fewer bytes requested than asked for");
  h_err = h_plan ? ENOMEM : 0;
  if (!h_err) return h_buf = h_arena + 64;
  errno = h_err; return NULL;
}
#endif
void* fsr_malloc(size_t sz) {
  h_allocs++; h_msz = sz;
  fs_assert(sz >= h_sz, "fewer bytes requested than asked for");
  h_err = h_plan ? ENOMEM : 0;
  if (h_err) { errno = h_err; return NULL; }
  return h_buf;
}
void fsr_free(void* p) { h_frees++; fs_assert(p == h_buf || (!p && !h_allocs), "free called with a pointer that was not allocated"); }
static void* h_call(void) {
  errno = 0; void* p = faest_aligned_alloc(h_al, h_sz);
  if (!p && h_sz) fs_assert(errno != 0, "failure without an error code");
  return p;
}
// invalid alignments: lowest and highest set bit chosen, everything in between symbolic
void harness_reject_alignment(void) {
  h_plan = ENOMEM;
  int i = fs_choose(63), j = fs_choose(64); fs_assume(j > i); size_t x; fs_symbolic(&x, sizeof x, "bits in between"); fs_symbolic(&h_sz, sizeof h_sz, "size"); h_buf = h_arena + 256;
  size_t lo = (size_t)1 << i, hi = (size_t)1 << j; h_al = lo | hi | (x & (hi - 1) & ~((lo << 1) - 1));
  void* p = h_call();
  fs_assert(!p && !h_allocs && errno == EINVAL, "invalid alignment accepted"); fs_cover("rejected");
}
void harness_reject_size(void) { fs_anf(1); h_plan = ENOMEM;
  h_al = (size_t)1 << (1 + fs_choose(63)); fs_symbolic(&h_sz, sizeof h_sz, "size"); h_buf = h_arena + 256;
  fs_assume((h_sz & (h_al - 1)) != 0);
  void* p = h_call();
  fs_assert(!p && !h_allocs && errno == EINVAL, "invalid size accepted"); fs_cover("rejected");
}
#ifndef MANUAL
void harness_any(void) { fs_anf(1);
  h_plan = (int[]){0, ENOMEM, EINVAL}[fs_choose(3)];
  h_al = (size_t)1 << fs_choose(64); fs_symbolic(&h_sz, sizeof h_sz, "size"); fs_assume(!(h_sz & (h_al - 1)));
  void* p = h_call();
  if (!h_allocs) { fs_assert(!p && (h_sz > SIZE_MAX / 2 || !h_sz), "valid request refused"); return; }
  if (h_err) { fs_assert(!p && errno == h_err, "allocation failure not reported"); fs_cover("failed"); return; }
  fs_assert(p == h_buf, "wrong pointer returned"); faest_aligned_free(p); fs_assert(h_frees == 1, "memory leaked"); fs_cover("allocated");
}
#else
// power-of-two alignments, any size, any address of the underlying block modulo 256
void harness_any(void) { fs_anf(1);
  h_plan = (int[]){0, ENOMEM, EINVAL}[fs_choose(3)];
  h_al = (size_t)1 << fs_choose(64); fs_symbolic(&h_sz, sizeof h_sz, "size"); fs_assume(!(h_sz & (h_al - 1)));
  if (h_plan) { fs_assume(h_plan == ENOMEM); h_buf = h_arena + 256; }
  else h_buf = h_arena + 256 + (h_al <= ALLRES ? (unsigned)fs_choose(h_al) : (unsigned[]){0, 1, 16, 127, 255}[fs_choose(5)]);
  uint8_t o[1024]; memcpy(o, h_arena, 1024);
  void* p = h_call();
  if (!p) {
    fs_assert(h_frees == (h_allocs && !h_err), "memory leaked on failure");
    fs_assert(!h_sz || h_err || h_al > 128 || h_sz > SIZE_MAX / 2, "valid request refused"); fs_cover("failed"); return;
  }
  fs_assert(h_allocs == 1 && !h_err, "pointer returned although the allocation failed"); fs_assert(((uintptr_t)p & (h_al - 1)) == 0, "misaligned"); size_t off = (uint8_t*)p - h_buf;
  fs_assert(off >= 1 && off <= 255, "no room for the book-keeping byte"); fs_assert(h_sz <= h_msz && off <= h_msz - h_sz, "returned block exceeds the allocation");
  for (unsigned i = 0; i < 1024; i++) if (h_arena + i < h_buf || h_arena + i >= h_buf + off) fs_assert(h_arena[i] == o[i], "memory outside of the header written");
  faest_aligned_free(p); fs_assert(h_frees == 1, "memory leaked"); fs_cover("allocated");
}
#endif
void harness_null(void) { h_buf = h_arena; void* p = NULL; faest_aligned_free(p);
#ifdef MANUAL
  fs_assert(!h_frees, "NULL was released");
#endif
  fs_cover("null"); }
