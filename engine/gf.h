// GF(2^w) polynomial layer: 128-bit (etc.) bit vectors recognised as polynomials over field variables.
#pragma once
#include "solve.h"

struct GfConst { uint64_t w[4]; bool operator==(const GfConst& o) const { return !memcmp(w, o.w, 32); } bool zero() const { return !(w[0] | w[1] | w[2] | w[3]); } };
struct GfMono {  // plain bits (var nodes, sorted) times field atoms (group, exponent)
  std::vector<uint32_t> plain; std::vector<std::pair<uint32_t, uint32_t>> gf;
  bool operator<(const GfMono& o) const { if (plain != o.plain) return plain < o.plain; return gf < o.gf; }
  bool operator==(const GfMono& o) const { return plain == o.plain && gf == o.gf; }
};
typedef std::map<GfMono, GfConst> GfPoly;
struct GfDef { unsigned w; GfPoly p; };
static std::vector<GfDef> gfDefs;
static std::map<std::string, uint32_t> gfIntern;  // serialised polynomial -> group

struct GfCanonKey; struct GfCanonVal;
static void gfCanonReset();
static void gfReset() { gfCanonReset(); gfDefs.clear(); gfIntern.clear(); }
static GfConst gfC(uint64_t a) { GfConst c{{a, 0, 0, 0}}; return c; }
static GfConst gfMulC(unsigned w, const GfConst& a, const GfConst& b) { GfConst r{{0, 0, 0, 0}}; fsp_gfmul(w, r.w, a.w, b.w); return r; }
static void gfAddTo(GfPoly& p, const GfMono& m, const GfConst& c) {
  auto it = p.find(m);
  if (it == p.end()) { if (!c.zero()) p.emplace(m, c); return; }
  for (int i = 0; i < 4; i++) it->second.w[i] ^= c.w[i];
  if (it->second.zero()) p.erase(it);
}
static void gfAddPoly(GfPoly& p, const GfPoly& q) { for (auto& e : q) gfAddTo(p, e.first, e.second); }
static GfMono gfMonoMul(const GfMono& a, const GfMono& b) {
  GfMono r;
  std::set_union(a.plain.begin(), a.plain.end(), b.plain.begin(), b.plain.end(), std::back_inserter(r.plain));
  size_t i = 0, j = 0;
  while (i < a.gf.size() || j < b.gf.size()) {
    if (j == b.gf.size() || (i < a.gf.size() && a.gf[i].first < b.gf[j].first)) r.gf.push_back(a.gf[i++]);
    else if (i == a.gf.size() || b.gf[j].first < a.gf[i].first) r.gf.push_back(b.gf[j++]);
    else { r.gf.push_back({a.gf[i].first, a.gf[i].second + b.gf[j].second}); i++; j++; }
  }
  return r;
}
static GfPoly gfMul(unsigned w, const GfPoly& a, const GfPoly& b) {
  GfPoly r;
  for (auto& x : a) for (auto& y : b) gfAddTo(r, gfMonoMul(x.first, y.first), gfMulC(w, x.second, y.second));
  return r;
}
static std::string gfKey(unsigned w, const GfPoly& p) {
  std::string s; auto put = [&](uint64_t x) { s.append((char*)&x, 8); };
  put(w);
  for (auto& e : p) { put(e.first.plain.size()); for (auto x : e.first.plain) put(x); put(e.first.gf.size()); for (auto& x : e.first.gf) { put(x.first); put(x.second); } for (int i = 0; i < 4; i++) put(e.second.w[i]); }
  return s;
}
static uint32_t gfNewVar(const std::string& name, unsigned w) { return G.newGroup(name, GK_GF, w, 0); }
// an opaque element standing for an arbitrary bit vector: ALIAS-like GF atom whose bits are bits
static std::map<std::vector<Bit>, uint32_t> gfOpaque;
// atom for a polynomial
static uint32_t gfAtom(unsigned w, const GfPoly& p) {
  std::string k = gfKey(w, p);
  auto it = gfIntern.find(k);
  if (it != gfIntern.end()) return it->second;
  uint8_t t = 0;
  for (auto& e : p) { for (auto x : e.first.plain) t |= G.nodes[x].taint; for (auto& x : e.first.gf) t |= G.nodes[G.groups[x.first].first].taint; }
  uint32_t g = G.newGroup("gfexpr", GK_GF, w, t);
  gfDefs.push_back({w, p});
  G.groups[g].aux = gfDefs.size();
  gfIntern[k] = g;
  return g;
}
// recognise a bit vector; returns false if it is not a polynomial in field variables with bit coefficients
static bool gfRecognise(unsigned w, const std::vector<Bit>& bits, GfPoly& out) {
  struct Acc { GfConst c; };
  std::map<std::pair<std::vector<uint32_t>, uint32_t>, GfConst> acc;  // (plain, gf group + 1 or 0) -> position mask
  for (unsigned i = 0; i < w; i++) {
    Bit b = bits[i];
    std::vector<uint32_t> ts; G.getTerms(b, ts);
    for (uint32_t t : ts) {
      std::vector<uint32_t> plain; uint32_t gf = 0;
      auto addVar = [&](uint32_t v) -> bool {
        if (G.nodes[v].kind == NK_VAR) {
          const VarInfo vi = G.vars[G.nodes[v].off]; const Group& g = G.groups[vi.group];
          if (g.kind == GK_GF && g.nbits == w) { if (gf || vi.idx != i) return false; gf = vi.group + 1; return true; }
          if (g.kind == GK_GF) return false;
        }
        plain.push_back(v); return true;
      };
      if (t) {
        const Node& nd = G.nodes[t];
        if (nd.kind == NK_MONO) { for (uint32_t k = 0; k < nd.n; k++) if (!addVar(G.pool[nd.off + k])) return false; }
        else if (!addVar(t)) return false;
      }
      std::sort(plain.begin(), plain.end());
      auto& c = acc.emplace(std::make_pair(plain, gf), GfConst{{0, 0, 0, 0}}).first->second;
      c.w[i / 64] ^= 1ull << (i % 64);
    }
  }
  for (auto& e : acc) {
    if (e.second.zero()) continue;
    GfMono m; m.plain = e.first.first;
    if (e.first.second) {
      uint32_t g = e.first.second - 1;
      for (unsigned i = 0; i < w; i++) if (!(e.second.w[i / 64] >> (i % 64) & 1)) return false;
      if (G.groups[g].aux) {
        GfPoly f; f[m] = gfC(1);
        gfAddPoly(out, gfMul(w, f, gfDefs[G.groups[g].aux - 1].p));
      } else { m.gf.push_back({g, 1}); gfAddTo(out, m, gfC(1)); }
    } else gfAddTo(out, m, e.second);
  }
  return true;
}
// Canonical form of the field atoms of a bit: all derived atoms of one width and position are summed as polynomials, single variables are
// split off, the rest becomes one atom. Two equal sums of atoms have the same canonical form.
struct GfCanonKey { unsigned w; std::vector<std::pair<std::vector<uint32_t>, uint32_t>> t; bool operator<(const GfCanonKey& o) const { return w != o.w ? w < o.w : t < o.t; } };
struct GfCanonVal { std::vector<std::pair<std::vector<uint32_t>, GfConst>> plain; std::vector<std::pair<std::vector<uint32_t>, uint32_t>> single; uint32_t rest; };
static std::map<GfCanonKey, GfCanonVal> gfCanonTab;
static inline const Group* gfDerived(uint32_t v, uint32_t& g, uint32_t& idx) {
  if (G.nodes[v].kind != NK_VAR) return nullptr;
  const VarInfo& vi = G.vars[G.nodes[v].off]; const Group& gr = G.groups[vi.group];
  if (gr.kind != GK_GF || !gr.aux) return nullptr;
  g = vi.group; idx = vi.idx; return &gr;
}
static bool gfHasAtom(Bit b) {
  if (b < 2) return false;
  const uint32_t nn = b >> 1; const uint32_t* p; uint32_t n, g, i; G.terms(nn, p, n);
  for (uint32_t k = 0; k < n; k++) {
    if (G.nodes[p[k]].kind == NK_MONO) { const Node& nd = G.nodes[p[k]]; for (uint32_t j = 0; j < nd.n; j++) if (gfDerived(G.pool[nd.off + j], g, i)) return true; }
    else if (gfDerived(p[k], g, i)) return true;
  }
  return false;
}
static Bit gfCanon(Bit b) {
  if (!gfHasAtom(b)) return b;
  std::vector<uint32_t> ts, acc; G.getTerms(b, ts);
  std::map<std::pair<unsigned, uint32_t>, GfCanonKey> parts;
  for (uint32_t t : ts) {
    uint32_t g, idx; const Group* gr = nullptr; std::vector<uint32_t> plain; bool ok = t != 0;
    if (ok && G.nodes[t].kind == NK_MONO) {
      const Node nd = G.nodes[t];
      for (uint32_t j = 0; j < nd.n && ok; j++) { uint32_t v = G.pool[nd.off + j], g2, i2; const Group* h = gfDerived(v, g2, i2); if (h) { if (gr) ok = false; gr = h; g = g2; idx = i2; } else plain.push_back(v); }
    } else if (ok) gr = gfDerived(t, g, idx);
    if (!ok || !gr) { acc.push_back(t); continue; }
    auto& k = parts[{gr->nbits, idx}]; k.w = gr->nbits; k.t.push_back({plain, g});
  }
  Bit extra = BF;
  for (auto& e : parts) {
    unsigned w = e.first.first; uint32_t idx = e.first.second;
    std::sort(e.second.t.begin(), e.second.t.end());
    auto it = gfCanonTab.find(e.second);
    if (it == gfCanonTab.end()) {
      GfPoly p;
      for (auto& x : e.second.t) {
        const GfPoly& d = gfDefs[G.groups[x.second].aux - 1].p;
        if (x.first.empty()) gfAddPoly(p, d);
        else { GfPoly f; GfMono m; m.plain = x.first; f[m] = gfC(1); gfAddPoly(p, gfMul(w, f, d)); }
      }
      GfCanonVal v; GfPoly rest;
      for (auto& m : p) {
        if (m.first.gf.empty()) v.plain.push_back({m.first.plain, m.second});
        else if (m.first.gf.size() == 1 && m.first.gf[0].second == 1 && m.second == gfC(1)) v.single.push_back({m.first.plain, m.first.gf[0].first});
        else rest.insert(m);
      }
      v.rest = rest.empty() ? 0 : gfAtom(w, rest) + 1;
      it = gfCanonTab.emplace(e.second, v).first;
    }
    const GfCanonVal v = it->second;
    auto prod = [&](const std::vector<uint32_t>& pl, Bit x) { for (uint32_t q : pl) x = G.band(x, q << 1); return x; };
    for (auto& x : v.plain) if (x.second.w[idx / 64] >> (idx % 64) & 1) extra = G.bxor(extra, prod(x.first, BT));
    for (auto& x : v.single) extra = G.bxor(extra, prod(x.first, G.groups[x.second].kind == GK_ALIAS ? G.groups[x.second].def[idx] : G.groupBit(x.second, idx)));
    if (v.rest) acc.push_back(G.groups[v.rest - 1].first + idx);
  }
  return G.bxor(G.fromUnsorted(acc), extra);
}
static void gfCanonReset() { gfCanonTab.clear(); }
static void gfCanonAll(std::vector<Bit>& v) { if (!gfDefs.empty()) for (Bit& b : v) b = gfCanon(b); }
// always succeeds: falls back to an opaque element
static GfPoly gfOf(unsigned w, const std::vector<Bit>& bits0, uint64_t* nOpaque) {
  GfPoly p;
  if (gfRecognise(w, bits0, p)) return p;
  p.clear();
  std::vector<Bit> bits = bits0; gfCanonAll(bits);
  auto it = gfOpaque.find(bits);
  uint32_t g;
  if (it != gfOpaque.end()) g = it->second;
  else {
    g = G.newGroup("gfopaque", GK_ALIAS, w, 0); G.groups[g].def = bits; gfOpaque[bits] = g;
    uint8_t t = 0; for (Bit b : bits) t |= G.taint(b);
    for (unsigned i = 0; i < w; i++) G.nodes[G.groups[g].first + i].taint = t;
    (*nOpaque)++;
  }
  GfMono m; m.gf.push_back({g, 1}); gfAddTo(p, m, gfC(1));
  return p;
}
// bits of a polynomial, in recognisable form
static void gfBits(unsigned w, const GfPoly& p, std::vector<Bit>& bits) {
  bits.assign(w, BF);
  if (p.empty()) return;
  bool simple = true;
  for (auto& e : p) {
    if (e.first.gf.empty()) { if (e.first.plain.size() > 1) simple = false; continue; }
    if (e.first.gf.size() != 1 || e.first.gf[0].second != 1 || !(e.second == gfC(1)) || !e.first.plain.empty() || G.groups[e.first.gf[0].first].kind != GK_GF) simple = false;
  }
  if (simple) {
    for (unsigned i = 0; i < w; i++) {
      std::vector<uint32_t> acc;
      for (auto& e : p) {
        if (e.first.gf.empty()) { if (e.second.w[i / 64] >> (i % 64) & 1) acc.push_back(e.first.plain.empty() ? 0 : e.first.plain[0]); }
        else acc.push_back(G.groups[e.first.gf[0].first].first + i);
      }
      // plain nodes may themselves be opaque terms; all are xor terms
      bits[i] = G.fromUnsorted(acc);
    }
    return;
  }
  uint32_t g = gfAtom(w, p);
  for (unsigned i = 0; i < w; i++) bits[i] = G.groupBit(g, i);
}
bool gfEval(uint32_t group, std::function<bool(uint32_t)> val, uint64_t out[4]) {
  const GfDef& d = gfDefs[G.groups[group].aux - 1];
  std::map<uint32_t, GfConst> atoms;
  memset(out, 0, 32);
  for (auto& e : d.p) {
    bool on = true; for (uint32_t x : e.first.plain) if (!val(x)) { on = false; break; }
    if (!on) continue;
    GfConst c = e.second;
    for (auto& f : e.first.gf) {
      auto it = atoms.find(f.first);
      if (it == atoms.end()) {
        GfConst v{{0, 0, 0, 0}};
        for (unsigned i = 0; i < d.w; i++) if (val(G.groups[f.first].first + i)) v.w[i / 64] |= 1ull << (i % 64);
        it = atoms.emplace(f.first, v).first;
      }
      for (uint32_t k = 0; k < f.second; k++) c = gfMulC(d.w, c, it->second);
    }
    for (int i = 0; i < 4; i++) out[i] ^= c.w[i];
  }
  return true;
}
void gfDeps(uint32_t group, std::vector<uint32_t>& nodes) {
  const GfDef& d = gfDefs[G.groups[group].aux - 1];
  std::set<uint32_t> s;
  for (auto& e : d.p) { for (auto x : e.first.plain) nodes.push_back(x); for (auto& f : e.first.gf) s.insert(f.first); }
  for (uint32_t g : s) for (unsigned i = 0; i < d.w; i++) nodes.push_back(G.groups[g].first + i);
}
