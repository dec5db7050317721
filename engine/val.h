// Values: concrete integers (<= 64 bits), symbolic bit vectors, aggregates.
#pragma once
#include "bits.h"
#include <new>
struct Val;
struct BitsRep { uint32_t rc, n; Bit b[1]; };
struct AggRep;
enum VK : uint8_t { V_NONE, V_CONC, V_BITS, V_AGG };
struct Val {
  uint8_t k; uint32_t w;
  union { uint64_t c; BitsRep* br; AggRep* ar; };
  Val() : k(V_NONE), w(0), c(0) {}
  Val(const Val& o) : k(o.k), w(o.w), c(o.c) { inc(); }
  Val(Val&& o) noexcept : k(o.k), w(o.w), c(o.c) { o.k = V_NONE; }
  Val& operator=(const Val& o) { if (this != &o) { if (o.k >= V_BITS) const_cast<Val&>(o).inc(); dec(); k = o.k; w = o.w; c = o.c; } return *this; }
  Val& operator=(Val&& o) noexcept { if (this != &o) { dec(); k = o.k; w = o.w; c = o.c; o.k = V_NONE; } return *this; }
  ~Val() { dec(); }
  inline void inc();
  inline void dec();
  static Val conc(uint64_t x, uint32_t w) { Val v; v.k = V_CONC; v.w = w; v.c = w >= 64 ? x : x & ((1ull << w) - 1); return v; }
  static Val bits(const Bit* b, uint32_t n) {
    if (n <= 64) {
      uint64_t x = 0; bool ok = true;
      for (uint32_t i = 0; i < n; i++) { if (b[i] > 1) { ok = false; break; } x |= (uint64_t)b[i] << i; }
      if (ok) return conc(x, n);
    }
    Val v; v.k = V_BITS; v.w = n;
    v.br = (BitsRep*)malloc(sizeof(BitsRep) + n * sizeof(Bit));
    v.br->rc = 1; v.br->n = n; memcpy(v.br->b, b, n * sizeof(Bit));
    return v;
  }
  static Val bits(const std::vector<Bit>& b) { return bits(b.data(), b.size()); }
  static inline Val agg(std::vector<Val>&& e);
  inline const std::vector<Val>& elems() const;
  inline std::vector<Val>& elemsMut();
  bool isConc() const { return k == V_CONC; }
  bool isAgg() const { return k == V_AGG; }
  Bit bit(uint32_t i) const { return k == V_CONC ? (Bit)(i < 64 ? (c >> i) & 1 : 0) : br->b[i]; }
  void get(std::vector<Bit>& o) const { o.resize(w); for (uint32_t i = 0; i < w; i++) o[i] = bit(i); }
};
struct AggRep { uint32_t rc; std::vector<Val> e; };
inline void Val::inc() { if (k == V_BITS) br->rc++; else if (k == V_AGG) ar->rc++; }
inline void Val::dec() {
  if (k == V_BITS) { if (!--br->rc) free(br); }
  else if (k == V_AGG) { if (!--ar->rc) delete ar; }
}
inline Val Val::agg(std::vector<Val>&& e) { Val v; v.k = V_AGG; v.w = 0; v.ar = new AggRep{1, std::move(e)}; return v; }
inline const std::vector<Val>& Val::elems() const { return ar->e; }
inline std::vector<Val>& Val::elemsMut() {
  if (ar->rc > 1) { AggRep* n = new AggRep{1, ar->e}; ar->rc--; ar = n; }
  return ar->e;
}
