// C27: rand_bytes over modelled operating-system interfaces; every outcome of every call is a choice.
#include "fsym.h"
#include <errno.h>
#include <string.h>
#include <sys/types.h>
#include "randomness.h"
static uint8_t h_src[64], h_dst[64]; static uint64_t h_mark; static unsigned h_faults, h_open, h_calls, h_opens, h_closes; static size_t h_len;
#ifndef H_MAXCALLS
#define H_MAXCALLS 5
#endif
// n bytes of fresh entropy delivered to p
static void h_deliver(uint8_t* p, size_t n) {
  fs_assert(p >= h_dst + 8 && p + n <= h_dst + 8 + h_len, "entropy requested outside of the destination");
  size_t o = p - h_dst;
  for (size_t i = 0; i < n; i++) { p[i] = h_src[o + i]; h_mark |= 1ull << (o + i); }
}
static int h_streq(const char* a, const char* b) { for (; *a && *a == *b; a++, b++); return *a == *b; }
static void h_step(void) { fs_assume(++h_calls <= H_MAXCALLS); }
ssize_t fsr_getrandom(void* p, size_t n, unsigned flags) {
  h_step();
  int k = fs_choose(5);
  if (k == 0) { h_deliver(p, n); return n; }
  if (k == 1) { h_faults++; errno = EAGAIN; return -1; }
  if (k == 2) { h_faults++; errno = EINTR; return -1; }
  if (k == 3) { h_faults++; errno = ENOSYS; return -1; }
  // short count
  fs_assume(n > 0); size_t m = n <= 6 ? (size_t)fs_choose(n) : (size_t[]){0, 1, n / 2, n - 1}[fs_choose(4)];
  h_faults++; h_deliver(p, m); return m;
}
void fsr_arc4random_buf(void* p, size_t n) { h_deliver(p, n); }
int fsr_open(const char* path, int fl, ...) {
  h_step(); h_opens++;
  fs_assert(h_streq(path, "/dev/urandom"), "opens something else than the random device");
  int k = fs_choose(3);
  if (k == 1) { errno = EINTR; return -1; }
  if (k == 2) { h_faults++; errno = (int[]){EACCES, EMFILE, ENOENT}[fs_choose(3)]; return -1; }
  fs_assert(!h_open, "device opened twice"); h_open = 1;
  return 0;   // 0 is a valid descriptor, too
}
int fsr_open64(const char* path, int fl, ...) { return fsr_open(path, fl); }
int fsr_ioctl(int fd, unsigned long rq, ...) { fs_assert(h_open, "ioctl on a closed descriptor"); if (fs_choose(2)) { h_faults++; errno = EINVAL; return -1; } return 0; }
ssize_t fsr_read(int fd, void* p, size_t n) {
  h_step(); fs_assert(h_open, "read from a closed descriptor"); fs_assert(n <= h_len, "read beyond the destination");
  int k = fs_choose(5);
  if (k == 0) { h_deliver(p, n); return n; }
  if (k == 1) { errno = EAGAIN; return -1; }
  if (k == 2) { errno = EINTR; return -1; }
  if (k == 3) { h_faults++; errno = EIO; return -1; }
  fs_assume(n > 0); size_t m = n <= 6 ? (size_t)fs_choose(n) : (size_t[]){0, 1, n / 2, n - 1}[fs_choose(4)];
  h_deliver(p, m); return m;
}
int fsr_close(int fd) { fs_assert(h_open, "descriptor closed twice"); h_open = 0; h_closes++; return 0; }
static void h_run(size_t n) {
  uint8_t o[64]; h_len = n;
  fs_symbolic(h_src, 64, "entropy"); fs_symbolic(h_dst, 64, "destination"); memcpy(o, h_dst, 64);
  int r = rand_bytes(h_dst + 8, n);
  if (r == 0) {
    fs_assert(h_mark == ((n ? (~0ull >> (64 - n)) : 0) << 8), "success although some bytes are not random"); fs_assert_eq(h_dst + 8, h_src + 8, n, "delivered bytes altered");
    fs_cover("success");
  } else { fs_assert(h_faults, "failure although every system call succeeded"); fs_cover("failure"); }
  fs_assert_eq(h_dst, o, 8, "write in front of the destination"); fs_assert_eq(h_dst + 8 + n, o + 8 + n, 56 - n, "write behind the destination");
  fs_assert(!h_open, "descriptor leaked");
}
void harness(void) { h_run(fs_choose(7)); }
void harness_long(void) { h_run((size_t[]){16, 24, 32, 48}[fs_choose(4)]); }
