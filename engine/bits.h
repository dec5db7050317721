// Canonical XOR/AND bit graph: the term layer of fsym.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <array>
#include <unistd.h>

typedef uint32_t Bit;  // (node << 1) | complement ; node 0 = constant false
static const Bit BF = 0, BT = 1;
static inline bool isConst(Bit b) { return b < 2; }

enum NK : uint8_t { NK_CONST, NK_VAR, NK_MONO, NK_XOR, NK_OPQ };
enum { TAINT_UNDEF = 1, TAINT_SECRET = 2 };

struct Node {
  uint32_t off;  // offset into pool (MONO, XOR, OPQ) or index into vars (VAR)
  uint32_t n;
  uint8_t kind;
  uint8_t taint;
  uint16_t pad;
};

enum GK : uint8_t { GK_INPUT, GK_UNDEF, GK_UF, GK_GF, GK_ALIAS, GK_LUF };
struct Group {
  std::string name;
  GK kind;
  uint32_t first;  // first node
  uint32_t nbits;
  std::vector<Bit> def;  // ALIAS: definitions; UF: argument bits; LUF: key bits, then input bits
  uint32_t aux = 0;      // UF: output block number; LUF: number of key bits; GF: polynomial index + 1
  uint32_t seq = 0;      // INPUT: order of creation
  bool pub = false;      // UF: result is public
};
struct VarInfo { uint32_t group, idx; };

struct BitGraph {
  std::vector<Node> nodes;
  std::vector<uint32_t> pool;
  std::vector<VarInfo> vars;
  std::vector<Group> groups;
  std::vector<uint32_t> table;  // open addressing, node ids (0 = empty)
  size_t tableCount = 0;
  uint32_t anfCap = 64, flatCap = getenv("FLATCAP") ? atoi(getenv("FLATCAP")) : 1;
  std::vector<uint32_t> fac, facPool;  // per node: 0, or 1 + offset of the factor list (length << 1 | polarity, factors)
  uint64_t nAnd = 0, nXor = 0;

  BitGraph() { reset(); }
  void reset() {
    nodes.clear(); pool.clear(); vars.clear(); groups.clear(); fac.clear(); facPool.clear();
    nodes.push_back(Node{0, 0, NK_CONST, 0, 0});
    table.assign(1 << 16, 0);
    tableCount = 0;
  }
  static uint64_t hashList(uint8_t kind, const uint32_t* p, uint32_t n) {
    uint64_t h = 0x9E3779B97F4A7C15ull * (kind + 1) + n;
    for (uint32_t i = 0; i < n; i++) { h ^= p[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
    h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    return h;
  }
  void grow() {
    std::vector<uint32_t> old; old.swap(table);
    table.assign(old.size() * 2, 0);
    size_t mask = table.size() - 1;
    for (uint32_t id : old) if (id) {
      const Node& nd = nodes[id];
      size_t h = hashList(nd.kind, &pool[nd.off], nd.n) & mask;
      while (table[h]) h = (h + 1) & mask;
      table[h] = id;
    }
  }
  uint32_t intern(uint8_t kind, const uint32_t* p, uint32_t n) {
    size_t mask = table.size() - 1;
    size_t h = hashList(kind, p, n) & mask;
    while (uint32_t id = table[h]) {
      const Node& nd = nodes[id];
      if (nd.kind == kind && nd.n == n && !memcmp(&pool[nd.off], p, n * 4)) return id;
      h = (h + 1) & mask;
    }
    uint8_t t = 0;
    if (kind == NK_OPQ) for (uint32_t i = 0; i < n; i++) t |= nodes[p[i] >> 1].taint;
    else for (uint32_t i = 0; i < n; i++) t |= nodes[p[i]].taint;
    uint32_t off = pool.size();
    if (pool.size() + n > 0xfffffff0ull) { fprintf(stderr, "fsym: term pool exhausted\n"); _exit(3); }
    pool.insert(pool.end(), p, p + n);
    uint32_t id = nodes.size();
    nodes.push_back(Node{off, n, kind, t, 0});
    table[h] = id;
    if (++tableCount * 2 > table.size()) grow();
    return id;
  }
  // new group of n fresh variables
  uint32_t newGroup(const std::string& name, GK kind, uint32_t n, uint8_t taint) {
    uint32_t g = groups.size();
    { Group G; G.name = name; G.kind = kind; G.first = nodes.size(); G.nbits = n; groups.push_back(G); }
    for (uint32_t i = 0; i < n; i++) {
      vars.push_back(VarInfo{g, i});
      nodes.push_back(Node{(uint32_t)vars.size() - 1, 0, NK_VAR, taint, 0});
    }
    return g;
  }
  Bit groupBit(uint32_t g, uint32_t i) const { return (groups[g].first + i) << 1; }
  uint8_t taint(Bit b) const { return nodes[b >> 1].taint; }

  // xor-terms of a node
  inline void terms(const uint32_t& node, const uint32_t*& p, uint32_t& n) const {
    const Node& nd = nodes[node];
    if (nd.kind == NK_XOR) { p = &pool[nd.off]; n = nd.n; }
    else if (nd.kind == NK_CONST) { p = nullptr; n = 0; }
    else { p = &node; n = 1; }
  }
  std::vector<uint32_t> tmp;
  Bit fromTerms(std::vector<uint32_t>& v, Bit neg) {
    if (v.empty()) return neg;
    if (v.size() == 1) return (v[0] << 1) | neg;
    return (intern(NK_XOR, v.data(), v.size()) << 1) | neg;
  }
  Bit bxor(Bit a, Bit b) {
    if (a < 2) return b ^ a;
    if (b < 2) return a ^ b;
    Bit neg = (a ^ b) & 1;
    uint32_t x = a >> 1, y = b >> 1;
    if (x == y) return neg;
    nXor++;
    const uint32_t *p, *q; uint32_t n, m;
    terms(x, p, n); terms(y, q, m);
    tmp.clear();
    tmp.resize(n + m);
    uint32_t* o = tmp.data();
    uint32_t i = 0, j = 0;
    while (i < n && j < m) {
      if (p[i] < q[j]) *o++ = p[i++];
      else if (p[i] > q[j]) *o++ = q[j++];
      else { i++; j++; }
    }
    while (i < n) *o++ = p[i++];
    while (j < m) *o++ = q[j++];
    tmp.resize(o - tmp.data());
    return fromTerms(tmp, neg);
  }
  Bit bnot(Bit a) { return a ^ 1; }
  // product of two xor-terms (VAR, MONO, OPQ nodes); 0 stands for the constant one
  std::vector<uint32_t> tmp2;
  uint32_t termProd(uint32_t a, uint32_t b) {
    if (!a) return b;
    if (!b) return a;
    if (a == b) return a;
    const uint32_t *p = &a, *q = &b; uint32_t n = 1, m = 1;
    if (nodes[a].kind == NK_MONO) { p = &pool[nodes[a].off]; n = nodes[a].n; }
    if (nodes[b].kind == NK_MONO) { q = &pool[nodes[b].off]; m = nodes[b].n; }
    tmp2.resize(n + m);
    uint32_t* o = tmp2.data();
    uint32_t i = 0, j = 0;
    while (i < n && j < m) {
      if (p[i] < q[j]) *o++ = p[i++];
      else if (p[i] > q[j]) *o++ = q[j++];
      else { *o++ = p[i]; i++; j++; }
    }
    while (i < n) *o++ = p[i++];
    while (j < m) *o++ = q[j++];
    uint32_t k = o - tmp2.data();
    if (k == 1) return tmp2[0];
    return intern(NK_MONO, tmp2.data(), k);
  }
  uint32_t termCount(Bit a) const {
    const Node& nd = nodes[a >> 1];
    uint32_t n = nd.kind == NK_XOR ? nd.n : (nd.kind == NK_CONST ? 0 : 1);
    return n + (a & 1);
  }
  Bit band(Bit a, Bit b) {
    if (a == BF || b == BF) return BF;
    if (a == BT) return b;
    if (b == BT) return a;
    if (a == b) return a;
    if (a == (b ^ 1)) return BF;
    nAnd++;
    // conjunctions of named conjunctions are kept as one flat list
    if (nodes[a >> 1].kind == NK_OPQ && nodes[b >> 1].kind == NK_OPQ) return opqAnd(a, b);
    uint64_t na = termCount(a), nb = termCount(b);
    // a named conjunction is not distributed over a longer sum
    bool flat = (nodes[a >> 1].kind == NK_OPQ && nb > flatCap) || (nodes[b >> 1].kind == NK_OPQ && na > flatCap);
    if (na * nb <= anfCap && (!flat || anfCap > 64)) {
      std::vector<uint32_t> pa, pb, acc;
      getTerms(a, pa); getTerms(b, pb);
      acc.reserve(pa.size() * pb.size());
      for (uint32_t x : pa) for (uint32_t y : pb) acc.push_back(termProd(x, y));
      size_t n0 = nodes.size(); Bit r = fromUnsorted(acc);
      if ((r >> 1) >= n0 && nodes[r >> 1].kind == NK_XOR) {  // a new sum: remember the factors it is the product of
        tmp3.clear(); addFactors(a); addFactors(b); std::sort(tmp3.begin(), tmp3.end()); tmp3.erase(std::unique(tmp3.begin(), tmp3.end()), tmp3.end());
        if (tmp3.size() <= 64) {
          if (fac.size() <= (r >> 1)) fac.resize(std::max<size_t>(nodes.size(), fac.size() * 3 / 2), 0);
          size_t off = facPool.size(); facPool.push_back(tmp3.size() << 1 | (r & 1)); facPool.insert(facPool.end(), tmp3.begin(), tmp3.end()); fac[r >> 1] = off + 1;
        }
      }
      return r;
    }
    return opqAnd(a, b);
  }
  std::vector<uint32_t> tmp3;
  void addFactors(Bit q) {
    const Node& nd = nodes[q >> 1]; uint32_t f = (q >> 1) < fac.size() ? fac[q >> 1] : 0;
    if (nd.kind == NK_OPQ && !(q & 1) && nd.n < 1024) tmp3.insert(tmp3.end(), &pool[nd.off], &pool[nd.off] + nd.n);
    else if (nd.kind == NK_MONO && !(q & 1)) for (uint32_t i = 0; i < nd.n; i++) {
      uint32_t c = pool[nd.off + i]; const Node& cn = nodes[c];
      if (cn.kind == NK_OPQ && cn.n < 1024) tmp3.insert(tmp3.end(), &pool[cn.off], &pool[cn.off] + cn.n); else tmp3.push_back(c << 1);
    }
    else if (f && (facPool[f - 1] & 1) == (q & 1)) tmp3.insert(tmp3.end(), &facPool[f], &facPool[f] + (facPool[f - 1] >> 1));
    else tmp3.push_back(q);
  }
  Bit opqAnd(Bit a, Bit b) {
    tmp3.clear(); addFactors(a); addFactors(b);
    std::sort(tmp3.begin(), tmp3.end());
    tmp3.erase(std::unique(tmp3.begin(), tmp3.end()), tmp3.end());
    for (size_t i = 0; i + 1 < tmp3.size(); i++) if (tmp3[i + 1] == (tmp3[i] ^ 1)) return BF;
    if (tmp3.size() == 1) return tmp3[0];
    std::vector<uint32_t> e = tmp3;  // intern may grow the pool
    return intern(NK_OPQ, e.data(), e.size()) << 1;
  }
  // terms incl. 0 for the constant one
  void getTerms(Bit a, std::vector<uint32_t>& v) const {
    uint32_t node = a >> 1; const uint32_t* p; uint32_t n;
    const uint32_t nn = node;
    terms(nn, p, n);
    v.assign(p, p + n);
    if (a & 1) v.push_back(0);
  }
  // xor of an arbitrary list of terms (0 = constant one)
  Bit fromUnsorted(std::vector<uint32_t>& acc) {
    std::sort(acc.begin(), acc.end());
    size_t o = 0; Bit neg = 0;
    for (size_t i = 0; i < acc.size();) {
      size_t j = i; while (j < acc.size() && acc[j] == acc[i]) j++;
      if ((j - i) & 1) { if (acc[i] == 0) neg = 1; else acc[o++] = acc[i]; }
      i = j;
    }
    acc.resize(o);
    return fromTerms(acc, neg);
  }
  Bit bor(Bit a, Bit b) { return band(a ^ 1, b ^ 1) ^ 1; }
  Bit ite(Bit c, Bit a, Bit b) {
    if (c == BT) return a;
    if (c == BF) return b;
    if (a == b) return a;
    if (a == BT && b == BF) return c;
    if (a == BF && b == BT) return c ^ 1;
    if (a == BF) return band(c ^ 1, b);
    if (b == BF) return band(c, a);
    if (a == BT) return bor(c, b);
    if (b == BT) return bor(c ^ 1, a);
    return bxor(b, band(c, bxor(a, b)));
  }
  // balanced or
  Bit borAll(std::vector<Bit> v) {
    if (v.empty()) return BF;
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    while (v.size() > 1) {
      std::vector<Bit> w;
      for (size_t i = 0; i + 1 < v.size(); i += 2) w.push_back(bor(v[i], v[i + 1]));
      if (v.size() & 1) w.push_back(v.back());
      v.swap(w);
    }
    return v[0];
  }
};
