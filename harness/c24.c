// C24: challenge decoding, bit decomposition, node numbering.
#include "fsym.h"
#include <string.h>
#include "vole.h"
#include "vc.h"
#include "instances.h"
static unsigned h_bit(const uint8_t* p, unsigned j) { return (p[j / 8] >> (j % 8)) & 1; }
static void h_tree(const uint8_t* chal, unsigned nbytes, unsigned i, unsigned k0, unsigned t0, unsigned k1, unsigned t1) {
  uint8_t out[18], c2[32]; memset(out, 0xA5, sizeof out); memcpy(c2, chal, nbytes);
  unsigned lo = 0; for (unsigned q = 0; q < i; q++) lo += q < t0 ? k0 : k1;
  unsigned k = i < t0 ? k0 : k1;
  fs_assert(ChalDec(chal, i, k0, t0, k1, t1, out + 1) != 0, "valid tree index rejected");
  for (unsigned j = 0; j < k; j++) fs_assert(out[1 + j] == h_bit(chal, lo + j), "decoded bit differs from the challenge bit of this tree");
  fs_assert(out[0] == 0xA5 && out[1 + k] == 0xA5, "write outside the decoded bits");
  fs_assert_eq(chal, c2, nbytes, "challenge modified");
}
static void h_range(const uint8_t* chal, unsigned k0, unsigned t0, unsigned k1, unsigned t1) {
  uint8_t out[16]; unsigned i;
  static const unsigned off[] = {0, 1, 2, 3, 7, 8, 1000};
  for (unsigned k = 0; k < 8; k++) {
    i = k < 7 ? t0 + t1 + off[k] : ~0u; memset(out, 0xA5, sizeof out);
    fs_assert(ChalDec(chal, i, k0, t0, k1, t1, out) == 0, "tree index just outside the range accepted");
    for (unsigned j = 0; j < 16; j++) fs_assert(out[j] == 0xA5, "write for an out-of-range tree index");
  }
  memset(out, 0xA5, sizeof out); fs_symbolic(&i, 4, "i"); fs_assume(i >= t0 + t1);
  fs_assert(ChalDec(chal, i, k0, t0, k1, t1, out) == 0, "out-of-range tree index accepted");
  for (unsigned j = 0; j < 16; j++) fs_assert(out[j] == 0xA5, "write for an out-of-range tree index");
}
void harness_sets(void) {
  faest_paramset_t p = faest_get_paramset(1 + fs_choose(12)); unsigned n = p.faest_param.lambda / 8;
  uint8_t chal[32]; fs_symbolic(chal, n, "chal");
  unsigned k0 = p.faest_param.k0, k1 = p.faest_param.k1, t0 = p.faest_param.t0, t1 = p.faest_param.t1;
  fs_assert(k0 * t0 + k1 * t1 == 8 * n, "the trees' bit ranges do not partition the challenge");
  for (unsigned i = 0; i < t0 + t1; i++) h_tree(chal, n, i, k0, t0, k1, t1);
  h_range(chal, k0, t0, k1, t1); fs_cover("sets");
}
void harness_generic(void) {
  static const uint8_t ks[] = {1, 2, 7, 8, 9, 11, 12}, ts[] = {0, 1, 2, 3, 10};
  unsigned k0 = ks[fs_choose(7)], k1 = ks[fs_choose(7)], t0 = ts[fs_choose(5)], t1 = ts[fs_choose(5)];
  uint8_t chal[32]; fs_symbolic(chal, 32, "chal");
  for (unsigned i = 0; i < t0 + t1; i++) h_tree(chal, 32, i, k0, t0, k1, t1);
  h_range(chal, k0, t0, k1, t1); fs_cover("generic");
}
void harness_bits(void) {
  unsigned depth = fs_choose(MAX_DEPTH + 1); uint32_t leaf; uint8_t out[16]; memset(out, 0xA5, sizeof out);
  fs_symbolic(&leaf, 4, "leaf");
  if (fs_choose(2)) {
    fs_assume(leaf >= (1u << depth));
    fs_assert(BitDec(leaf, depth, out) == -1, "out-of-range leaf index accepted");
    for (unsigned j = 0; j < 16; j++) fs_assert(out[j] == 0xA5, "write for an out-of-range leaf index");
    fs_cover("range");
  } else {
    fs_assume(leaf < (1u << depth));
    fs_assert(BitDec(leaf, depth, out + 1) == 1, "valid leaf index rejected");
    for (unsigned j = 0; j < depth; j++) fs_assert(out[1 + j] == ((leaf >> j) & 1), "bit of the decomposition");
    fs_assert(out[0] == 0xA5 && out[1 + depth] == 0xA5, "write outside the decomposition");
    fs_assert(NumRec(depth, out + 1) == leaf, "NumRec(BitDec(i)) != i"); fs_cover("bitdec");
  }
}
void harness_numrec(void) {
  unsigned depth = fs_choose(MAX_DEPTH + 1); uint8_t b[MAX_DEPTH], o[MAX_DEPTH]; unsigned ref = 0;
  fs_symbolic(b, MAX_DEPTH, "b"); for (unsigned i = 0; i < MAX_DEPTH; i++) { b[i] &= 1; if (i < depth) ref |= (unsigned)b[i] << i; }
  unsigned r = NumRec(depth, b); fs_assert(r == ref, "recomposed index"); fs_assert(r < (1u << depth), "recomposed index out of range");
  fs_assert(BitDec(r, depth, o) == 1, "recomposed index rejected"); fs_assert_eq(o, b, depth, "BitDec(NumRec(b)) != b"); fs_cover("numrec");
}
void harness_node(void) {
  unsigned d = fs_choose(MAX_DEPTH + 1); uint64_t l; fs_symbolic(&l, 8, "level index"); fs_assume(l < (1ull << d));
  uint64_t n = getNodeIndex(d, l);
  fs_assert(n == (1ull << d) - 1 + l, "node index is not the breadth-first number");
  fs_assert(n < getBinaryTreeNodeCount(d), "node index beyond the tree"); fs_assert(getBinaryTreeNodeCount(d) == (2ull << d) - 1, "node count");
  if (d < MAX_DEPTH) { fs_assert(getNodeIndex(d + 1, 2 * l) == 2 * n + 1 && getNodeIndex(d + 1, 2 * l + 1) == 2 * n + 2, "children are not adjacent to the flat layout"); }
  fs_cover("node");
}
