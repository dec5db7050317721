// Calls: LLVM intrinsics, library models, fs_* interface.
#pragma once
struct UfKey { std::string name; std::vector<Bit> args; bool operator==(const UfKey& o) const { return name == o.name && args == o.args; } };
struct UfHash { size_t operator()(const UfKey& k) const { return std::hash<std::string>()(k.name) ^ BitGraph::hashList(7, k.args.data(), k.args.size()); } };
static std::unordered_map<UfKey, uint32_t, UfHash> ufTab;
struct Sponge { std::string name; std::vector<Bit> args; bool pub; };
static std::vector<Sponge> sponges;
static std::vector<std::pair<int, int>> choices;  // value, range
static size_t choiceIdx = 0; static std::vector<int> preChoices;
static std::vector<Bit> tmpBits;

static uint32_t ufGroup(const std::string& name, uint32_t block, const std::vector<Bit>& args0, uint32_t nbits, bool pub, uint32_t lufKey = 0, bool luf = false) {
  std::vector<Bit> argsC; if (!gfDefs.empty()) { argsC = args0; gfCanonAll(argsC); }
  const std::vector<Bit>& args = gfDefs.empty() ? args0 : argsC;
  UfKey k{name + "#" + std::to_string(block) + "#" + std::to_string(nbits) + (luf ? "L" + std::to_string(lufKey) : "") + (pub ? "P" : ""), args};
  auto it = ufTab.find(k);
  if (it != ufTab.end()) return it->second;
  uint8_t t = 0; if (!pub) for (Bit b : args) t |= G.taint(b);
  uint32_t g = G.newGroup(name, luf ? GK_LUF : GK_UF, nbits, t);
  G.groups[g].def = args; G.groups[g].aux = luf ? lufKey : block; G.groups[g].pub = pub;
  ufTab.emplace(std::move(k), g);
  return g;
}
// bytes [off, off+n) of an extendable output
static void ufBytes(const std::string& name, const std::vector<Bit>& args, bool pub, uint64_t off, uint64_t n, std::vector<Bit>& out) {
  out.clear(); out.reserve(n * 8);
  uint32_t curB = ~0u, g = 0;
  for (uint64_t i = off; i < off + n; i++) {
    if (i / 64 != curB) { curB = i / 64; g = ufGroup(name, curB, args, 512, pub); }
    for (int k = 0; k < 8; k++) out.push_back(G.groupBit(g, (i % 64) * 8 + k));
  }
}
static void doAssume(Bit c) {
  AS = G.band(AS, G.band(PC, c ^ 1) ^ 1);
  if (simp(c) == BF) throw PathDead();
  addFact(c);
}
static void lufApply(const std::string& name, const std::vector<Bit>& key, const std::vector<Bit>& x, uint64_t on, std::vector<Bit>& out) {
  // x = xor of plain * (aligned piece of a variable group): linearity; pieces are identified by (group, offset)
  std::map<std::pair<std::vector<uint32_t>, std::pair<uint32_t, int64_t>>, std::vector<uint32_t>> acc;  // -> positions
  bool ok = true; std::vector<uint32_t> konst;
  for (uint32_t i = 0; i < x.size() && ok; i++) {
    std::vector<uint32_t> ts; G.getTerms(x[i], ts);
    for (uint32_t t : ts) {
      if (!t) { konst.push_back(i); continue; }
      std::vector<uint32_t> plain; uint32_t vec = 0; int64_t off = 0;
      std::vector<uint32_t> fs; const Node nd = G.nodes[t];
      if (nd.kind == NK_MONO) fs.assign(&G.pool[nd.off], &G.pool[nd.off] + nd.n); else fs.push_back(t);
      for (uint32_t v : fs) {
        bool isVec = false;
        if (G.nodes[v].kind == NK_VAR) { const VarInfo vi = G.vars[G.nodes[v].off]; const Group& g = G.groups[vi.group]; if (g.name.rfind("vec", 0) == 0 || (g.kind == GK_UF && g.nbits == 512)) { if (vec) { ok = false; break; } vec = vi.group + 1; off = (int64_t)i - vi.idx; isVec = true; } }
        if (!isVec) plain.push_back(v);
      }
      if (!ok) break;
      if (!vec) { ok = false; break; }
      acc[{plain, {vec, off}}].push_back(i);
    }
  }
  out.assign(on * 8, BF);
  auto one = [&](const std::vector<Bit>& xx, Bit coef) {
    std::vector<Bit> a = key; a.insert(a.end(), xx.begin(), xx.end());
    uint32_t g = ufGroup(name, 0, a, on * 8, false, key.size(), true);
    for (uint64_t i = 0; i < on * 8; i++) out[i] = G.bxor(out[i], G.band(coef, G.groupBit(g, i)));
  };
  if (!ok) { one(x, BT); nOpaque++; return; }
  for (auto& e : acc) {
    std::vector<Bit> xx(x.size(), BF); uint32_t grp = e.first.second.first - 1; int64_t off = e.first.second.second;
    for (uint32_t i : e.second) xx[i] = G.groupBit(grp, (uint32_t)(i - off));
    Bit coef = BT; for (uint32_t v : e.first.first) coef = G.band(coef, v << 1);
    one(xx, coef);
  }
  if (!konst.empty()) { std::vector<Bit> xx(x.size(), BF); for (uint32_t i : konst) xx[i] = BT; one(xx, BT); }
}
static uint64_t argc_(const SVal& v, const char* w) { if (!v.isConc()) die(std::string("symbolic argument: ") + w); return v.c; }
static SVal cv(uint64_t x, uint32_t w = 64) { return SVal::conc(x, w); }

static SVal doFs(Frame& fr, PInst& p, std::vector<SVal>& a) {
  auto A = [&](int i) { return argc_(a[i], p.cname.c_str()); };
  switch (p.intr) {
    case FS_SYMBOLIC: case FS_SECRET: {
      uint64_t n = A(1); std::string nm = loadStr(A(2));
      uint32_t g = G.newGroup(nm, GK_INPUT, n * 8, p.intr == FS_SECRET ? TAINT_SECRET : 0); G.groups[g].seq = ++inputSeq;
      std::vector<Bit> b(n * 8); for (uint64_t i = 0; i < n * 8; i++) b[i] = G.groupBit(g, i);
      storeBits(A(0), b.data(), n); return SVal();
    }
    case FS_GFVAR: {
      uint64_t w = A(0); std::string nm = loadStr(A(2));
      uint32_t g = gfNewVar(nm, w); G.groups[g].seq = ++inputSeq;
      std::vector<Bit> b(w); for (uint64_t i = 0; i < w; i++) b[i] = G.groupBit(g, i);
      storeBits(A(1), b.data(), w / 8); return SVal();
    }
    case FS_GFMUL: {
      uint64_t w = A(0); std::vector<Bit> x, y, r; loadBits(A(2), w / 8, x); loadBits(A(3), w / 8, y);
      GfPoly px = gfOf(w, x, &nOpaque), py = gfOf(w, y, &nOpaque), pr = gfMul(w, px, py);
      gfBits(w, pr, r); storeBits(A(1), r.data(), w / 8); stat["gf_mul"]++; return SVal();
    }
    case FS_GF_EQ: {
      uint64_t w = A(0); std::vector<Bit> x, y; loadBits(A(1), w / 8, x); loadBits(A(2), w / 8, y);
      GfPoly px = gfOf(w, x, &nOpaque), py = gfOf(w, y, &nOpaque); gfAddPoly(px, py); nObl++; stat["gf_eq"]++;
      if (px.empty()) { nOblTriv++; for (unsigned i = 0; i < w; i += 64) absPairs.push_back({x[i], x[i]}); }
      else {
        std::string msg = loadStr(A(3));
        // every opaque or plain atom takes part in the evaluation
        uint32_t g = gfAtom(w, px); std::vector<Bit> d; for (unsigned i = 0; i < w; i++) d.push_back(G.groupBit(g, i));
        violate("assert", msg, G.borAll(d));
      }
      return SVal();
    }
    case FS_DECLASSIFY: {
      uint64_t n = A(1); std::vector<Bit> b; if (!n) return SVal(); loadBits(A(0), n, b); bool any = false;
      for (Bit x : b) if (G.taint(x) & TAINT_SECRET) any = true;
      if (!any) return SVal();
      std::vector<Bit> def; std::vector<uint32_t> pos;
      for (uint32_t i = 0; i < b.size(); i++) if (b[i] > 1 && (G.taint(b[i]) & TAINT_SECRET)) { def.push_back(b[i]); pos.push_back(i); }
      uint32_t g = G.newGroup("declass", GK_ALIAS, def.size(), 0); G.groups[g].def = def;
      for (uint32_t i = 0; i < def.size(); i++) { G.nodes[G.groups[g].first + i].taint = G.taint(def[i]) & ~TAINT_SECRET; b[pos[i]] = G.groupBit(g, i); }
      storeBits(A(0), b.data(), n); return SVal();
    }
    case FS_UNDEF: { uint64_t off; uint64_t n = A(1); uint32_t id = resolve(A(0), n, true, off); Data& d = wr(id); for (uint64_t i = 0; i < n; i++) d.st[off + i] = 2; return SVal(); }
    case FS_ASSUME: {
      std::vector<Bit> t; a[0].get(t); Bit c = G.borAll(t); doAssume(c); return SVal();
    }
    case FS_ASSERT: {
      std::vector<Bit> t; a[0].get(t); Bit c = simp(G.borAll(t)); nObl++;
      if (c == BT) { nOblTriv++; return SVal(); }
      violate("assert", loadStr(A(1)), c ^ 1); return SVal();
    }
    case FS_ASSERT_EQ: {
      uint64_t n = A(2); if (!n) return SVal(); std::vector<Bit> x, y, d; loadBits(A(0), n, x); loadBits(A(1), n, y);
      uint8_t ut = 0;
      for (uint64_t i = 0; i < n * 8; i++) { Bit e = G.bxor(x[i], y[i]); if (e > 1 && !gfDefs.empty()) e = gfCanon(e); if (e != BF) d.push_back(e); else if (absPairs.size() < 4000000) absPairs.push_back({x[i], y[i]}); ut |= G.taint(x[i]); }
      nObl += n; if (d.empty()) { nOblTriv += n; return SVal(); }
      if (PC < 2) {}
      Bit c = G.borAll(d); violate("assert", loadStr(A(3)), simp(c)); return SVal();
    }
    case FS_CHOOSE: {
      int n = A(0); int v;
      if (choiceIdx < choices.size()) { v = choices[choiceIdx].first; choices[choiceIdx].second = n; if (v >= n) die("choice out of range"); }
      else { v = 0; choices.push_back({0, n}); }
      choiceIdx++; if (PC > 1) die("fs_choose under a symbolic branch"); return cv(v, 32);
    }
    case FS_COVER: { std::string s = loadStr(A(0)); Bit c = G.band(PC, AS); if (c == BT) coverSeen.insert(s); else if (c != BF && !coverSeen.count(s)) coverPend.push_back({s, c}); return SVal(); }
    case FS_UF: case FS_UFP: {
      std::string nm = loadStr(A(0)); uint64_t on = A(2), n = A(4); std::vector<Bit> in, out; if (n) loadBits(A(3), n, in);
      ufBytes(nm, in, p.intr == FS_UFP, 0, on, out); if (on) storeBits(A(1), out.data(), on); return SVal();
    }
    case FS_SP_NEW: { sponges.push_back({loadStr(A(0)), {}, false}); return cv(sponges.size() - 1, 32); }
    case FS_SP_ADD: { uint64_t n = A(2); std::vector<Bit> in; if (n) loadBits(A(1), n, in); auto& s = sponges.at(A(0)); s.args.insert(s.args.end(), in.begin(), in.end()); return SVal(); }
    case FS_SP_PUB: sponges.at(A(0)).pub = true; return SVal();
    case FS_SP_OUT: { auto& s = sponges.at(A(0)); std::vector<Bit> out; uint64_t n = A(3); if (!n) return SVal(); ufBytes(s.name, s.args, s.pub, A(2), n, out); storeBits(A(1), out.data(), n); return SVal(); }
    case FS_LUF: {  // name, out, outlen, key, keylen, x, xlen
      std::string nm = loadStr(A(0)); std::vector<Bit> k, x, out; loadBits(A(3), A(4), k); loadBits(A(5), A(6), x);
      lufApply(nm, k, x, A(2), out); storeBits(A(1), out.data(), A(2)); return SVal();
    }
    case FS_CHECK_INIT: {
      uint64_t n = A(1), off; if (!n) return SVal(); std::string msg = loadStr(A(2)); uint32_t id = resolve(A(0), n, false, off); nObl += n;
      std::vector<Bit> bad; bool un = false; const Data& d = *M[id].d;
      for (uint64_t i = 0; i < n; i++) { if (d.st[off + i] == 2) un = true; else if (d.st[off + i] == 1) for (int k = 0; k < 8; k++) if (G.taint(d.s[off + i][k]) & TAINT_UNDEF) bad.push_back(d.s[off + i][k]); }
      if (un) violate("uninit", msg + ": output byte never written"); else if (!bad.empty()) relViolate("uninit", msg + ": output depends on uninitialised memory", bad); else nOblTriv += n;
      return SVal();
    }
    case FS_CHECK_PUB: {
      uint64_t n = A(1); if (!n) return SVal(); std::vector<Bit> b, bad; loadBits(A(0), n, b); nObl += n;
      if (!optCT) return SVal();
      for (Bit x : b) if (G.taint(x) & TAINT_SECRET) bad.push_back(x);
      if (bad.empty()) nOblTriv += n; else relViolate("ct", loadStr(A(2)) + ": depends on a secret", bad);
      return SVal();
    }
    case FS_CHECK_LEAKS: { nObl++; bool any = false; for (auto& o : M) if (o.kind == O_HEAP) { Bit l = G.band(o.alloc, o.freed ^ 1); if (l != BF) { any = true; violate("memory", std::string("leak of heap object allocated in ") + o.name, l); } } if (!any) nOblTriv++; return SVal(); }
    case FS_ANF: G.anfCap = A(0); return SVal();
    case FS_CUTCHI: optCutChi = A(0); return SVal();
    case FS_NATIVE: return cv(0, 32);
    case FS_PRINT: { std::string s = loadStr(A(0)); std::string t; if (a[1].isConc()) t = std::to_string(a[1].c); else t = "<symbolic>"; fprintf(stderr, "[print] %s %s\n", s.c_str(), t.c_str()); return SVal(); }
    case FS_ISCONC: { uint64_t n = A(1), off; uint32_t id = resolve(A(0), n, false, off); for (uint64_t i = 0; i < n; i++) if (M[id].d->st[off + i]) return cv(0, 32); return cv(1, 32); }
    case FS_CONCEQ: { uint64_t n = A(2); std::vector<Bit> x, y; if (!n) return cv(1, 32); loadBits(A(0), n, x); loadBits(A(1), n, y); return cv(x == y, 32); }
    case FS_DUMP: {
      std::vector<Bit> b; loadBits(A(0), A(1), b); std::string s;
      for (size_t i = 0; i < b.size() && i < 16; i++) { std::vector<uint32_t> ts; G.getTerms(b[i], ts); s += " [" + std::to_string(ts.size()); if (ts.size() < 6) for (uint32_t t : ts) { s += t ? " n" + std::to_string(t) : " 1"; if (t && G.nodes[t].kind == NK_VAR) { auto vi = G.vars[G.nodes[t].off]; s += "=" + G.groups[vi.group].name + "." + std::to_string(vi.idx); } } s += "]"; }
      fprintf(stderr, "[dump] %s\n", s.c_str()); return SVal();
    }
    case FS_MARK: return SVal();
  }
  die("fs intrinsic");
}
static SVal memcmpV(uint64_t x, uint64_t y, uint64_t n) {
  SVal r = cv(0, 32); std::vector<Bit> a, b; if (!n) return r; loadBits(x, n, a); loadBits(y, n, b);
  if (optCT || optInit) { SVal t; std::vector<Bit> all = a; all.insert(all.end(), b.begin(), b.end()); t = SVal::bits(all); uint8_t tt = 0; for (Bit q : all) tt |= G.taint(q); if (optCT && (tt & TAINT_SECRET)) { std::vector<Bit> d; for (size_t i = 0; i < a.size(); i++) d.push_back(G.bxor(a[i], b[i])); relViolate("ct", "memcmp on secret data", d); } }
  for (int64_t i = n - 1; i >= 0; i--) {
    SVal p = SVal::bits(&a[i * 8], 8), q = SVal::bits(&b[i * 8], 8); Bit e = eqv(p, q); if (e == BT) continue;
    r = iteV(e, r, iteV(ult(p, q), cv(0xffffffffu, 32), cv(1, 32)));
  }
  return r;
}
static uint64_t heapAlloc(uint64_t n, uint32_t al, const char* who) { uint32_t id = newObj(O_HEAP, n, al, who); return addrOf(id); }
static void doFree(uint64_t a) {
  if (!a) return;
  uint64_t id1 = a >> 40;
  if (!id1 || id1 > M.size() || M[id1 - 1].kind != O_HEAP || M[id1 - 1].gen != ((a >> 32) & 0xff) || (a & 0xffffffffull) != baseOff(id1 - 1)) { violate("memory", "free of an invalid pointer"); throw PathDead(); }
  Obj& o = M[id1 - 1];
  if (o.freed != BF) { Bit f = simp(o.freed); if (f != BF) { violate("memory", std::string("double free of object allocated in ") + o.name, f); if (f == BT) throw PathDead(); } }
  o.freed = G.bor(o.freed, PC);
}
static void guardedBytes(const SVal& len, std::function<void(uint64_t)> full, std::function<void(uint64_t, Bit)> each) {
  if (len.isConc()) { full(len.c); return; }
  uint64_t mx = 0; enumVals(len, "length", [&](uint64_t v, Bit) { mx = std::max(mx, v); });
  if (mx > 1 << 20) die("symbolic length too large");
  Bit spc = PC;
  for (uint64_t i = 0; i < mx; i++) {
    Bit c = ult(SVal::conc(i, len.w), len); PC = G.band(spc, c); if (PC == BF) continue;
    try { each(i, c); } catch (PathDead&) {}
  }
  PC = spc;
}
static void cpy(const SVal& d, const SVal& s, const SVal& n) {
  checkControl(n, "copy length"); checkControl(d, "copy address"); checkControl(s, "copy address");
  if (!n.isConc() || (s.isConc() && d.isConc())) {
    uint64_t da = argc_(d, "copy destination"), sa = argc_(s, "copy source");
    guardedBytes(n, [&](uint64_t k) { copyBytes(da, sa, k); }, [&](uint64_t i, Bit c) { SVal v = loadInt(sa + i, 8, 1), o = loadInt(da + i, 8, 1); storeInt(da + i, iteV(c, v, o), 1); });
    return;
  }
  // symbolic addresses: byte by byte through all candidates
  Bit spc = PC;
  std::vector<SVal> buf(n.c); 
  for (uint64_t i = 0; i < n.c; i++) {
    SVal acc; bool any = false;
    enumVals(s, "copy source", [&](uint64_t x, Bit c) { PC = G.band(spc, c); if (PC != BF) { try { SVal v = loadInt(x + i, 8, 1); acc = any ? iteV(c, v, acc) : v; any = true; } catch (PathDead&) {} } PC = spc; });
    if (!any) throw PathDead();
    buf[i] = acc;
  }
  for (uint64_t i = 0; i < n.c; i++)
    enumVals(d, "copy destination", [&](uint64_t x, Bit c) { PC = G.band(spc, c); if (PC != BF) { try { SVal o = loadInt(x + i, 8, 1); storeInt(x + i, iteV(c, buf[i], o), 1); } catch (PathDead&) {} } PC = spc; });
  PC = spc;
}
static void setm(const SVal& d, const SVal& v, const SVal& n) {
  checkControl(n, "fill length"); checkControl(d, "fill address");
  uint64_t da = argc_(d, "fill address"); SVal b = castV(Instruction::Trunc, v, 8);
  guardedBytes(n, [&](uint64_t k) { setBytes(da, b, k); }, [&](uint64_t i, Bit c) { SVal o = loadInt(da + i, 8, 1); storeInt(da + i, iteV(c, b, o), 1); });
}
static SVal doLib(Frame& fr, PInst& p, std::vector<SVal>& a) {
  const std::string& n = p.cname; const char* who = fr.tag;
  auto A = [&](int i) { return argc_(a[i], n.c_str()); };
  auto allocSize = [&](SVal v) -> uint64_t {
    if (v.isConc()) return v.c;
    checkControl(v, "allocation size"); uint64_t mx = 0; enumVals(v, "allocation size", [&](uint64_t x, Bit) { mx = std::max(mx, x); }); die("symbolic allocation size");
  };
  if (n == "malloc") return cv(heapAlloc(allocSize(a[0]), 16, who));
  if (n == "calloc") { uint64_t s = allocSize(a[0]) * allocSize(a[1]); uint64_t r = heapAlloc(s, 16, who); setBytes(r, cv(0, 8), s); return cv(r); }
  if (n == "aligned_alloc" || n == "memalign") { uint64_t al = A(0), s = allocSize(a[1]); if (!al || (al & (al - 1)) || (n == "aligned_alloc" && s % al)) { violate("memory", "aligned_alloc with invalid alignment or size"); } return cv(heapAlloc(s, al < 1 ? 1 : al, who)); }
  if (n == "posix_memalign") { uint64_t al = A(1); if (al % 8 || (al & (al - 1))) return cv(22, 32); storeInt(A(0), cv(heapAlloc(allocSize(a[2]), al, who)), 8); return cv(0, 32); }
  if (n == "realloc") { uint64_t o = A(0), s = allocSize(a[1]); uint64_t r = heapAlloc(s, 16, who); if (o) { uint32_t id = (o >> 40) - 1; if (id < M.size()) copyBytes(r, o, std::min(s, M[id].size)); doFree(o); } return cv(r); }
  if (n == "free") { checkControl(a[0], "freed pointer"); if (!a[0].isConc()) { Bit spc = PC; enumVals(a[0], "pointer", [&](uint64_t x, Bit c) { PC = G.band(spc, c); if (PC != BF) try { doFree(x); } catch (PathDead&) {} PC = spc; }); PC = spc; } else doFree(a[0].c); return SVal(); }
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk") { cpy(a[0], a[1], a[2]); if (n != "memmove" && a[0].isConc() && a[1].isConc() && a[2].isConc() && a[2].c && a[0].c != a[1].c && a[0].c < a[1].c + a[2].c && a[1].c < a[0].c + a[2].c) violate("memory", "memcpy with overlapping ranges"); return a[0]; }
  if (n == "memset" || n == "__memset_chk") { setm(a[0], a[1], a[2]); return a[0]; }
  if (n == "explicit_bzero" || n == "bzero" || n == "__explicit_bzero_chk") { setm(a[0], cv(0, 32), a[1]); return SVal(); }
  if (n == "memcmp" || n == "bcmp") {
    if (!a[2].isConc()) {
      SVal acc; bool any = false; Bit spc = PC;
      enumVals(a[2], "length", [&](uint64_t v, Bit c) { PC = G.band(spc, c); if (PC != BF) try { SVal r = memcmpV(A(0), A(1), v); acc = any ? iteV(c, r, acc) : r; any = true; } catch (PathDead&) {} PC = spc; });
      PC = spc; if (!any) throw PathDead(); return acc;
    }
    return memcmpV(A(0), A(1), A(2));
  }
  if (n == "strlen") return cv(loadStr(A(0)).size());
  if (n == "__assert_fail") { violate("assert", "assertion failed: " + (a[0].isConc() ? loadStr(a[0].c) : std::string("?"))); throw PathDead(); }
  if (n == "abort" || n == "exit") { violate("memory", n + " called"); throw PathDead(); }
  if (n == "__errno_location") { static uint32_t id = 0; static uint64_t ad = 0; if (!ad || id >= M.size() || addrOf(id) != ad) { id = newObj(O_GLOBAL, 4, 4, "errno"); ad = addrOf(id); } return cv(ad); }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf") return cv(0, 32);
  die("library function " + n);
}
static SVal perElem(const SVal& v, std::function<SVal(const SVal&)> f) {
  if (!v.isAgg()) return f(v);
  std::vector<SVal> e; for (auto& x : v.elems()) e.push_back(f(x)); return SVal::agg(std::move(e));
}
static SVal perElem2(const SVal& v, const SVal& u, std::function<SVal(const SVal&, const SVal&)> f) {
  if (!v.isAgg()) return f(v, u);
  std::vector<SVal> e; for (size_t i = 0; i < v.elems().size(); i++) e.push_back(f(v.elems()[i], u.elems()[i])); return SVal::agg(std::move(e));
}
static SVal concatShift(const SVal& hi, const SVal& lo, const SVal& s, bool left) {
  uint32_t w = hi.w;
  SVal sm = (w & (w - 1)) == 0 ? binop(Instruction::And, s, SVal::conc(w - 1, s.w)) : binop(Instruction::URem, s, SVal::conc(w, s.w));
  std::vector<Bit> c(2 * w); for (uint32_t i = 0; i < w; i++) { c[i] = lo.bit(i); c[i + w] = hi.bit(i); }
  auto rot = [&](uint64_t k) { std::vector<Bit> r(w); for (uint32_t i = 0; i < w; i++) r[i] = left ? (i + w >= k ? c[i + w - k] : BF) : c[i + k]; return mk(r); };
  if (sm.isConc()) return rot(sm.c);
  SVal acc = rot(0); for (uint32_t k = 1; k < w; k++) acc = iteV(eqv(sm, SVal::conc(k, sm.w)), rot(k), acc);
  return acc;
}
static SVal doIntr(Frame& fr, PInst& p, std::vector<SVal>& a) {
  switch (p.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: cpy(a[0], a[1], a[2]); return SVal();
    case Intrinsic::memset: setm(a[0], a[1], a[2]); return SVal();
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return p.dst >= 0 ? cv(0) : SVal();
    case Intrinsic::stacksave: return cv(0);
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::is_constant: return cv(0, 1);
    case Intrinsic::objectsize: return SVal::conc(~0ull, bitsOf(p.ty));
    case Intrinsic::bswap: return perElem(a[0], [](const SVal& v) { std::vector<Bit> r(v.w); for (uint32_t i = 0; i < v.w; i++) r[i] = v.bit((v.w / 8 - 1 - i / 8) * 8 + i % 8); return mk(r); });
    case Intrinsic::bitreverse: return perElem(a[0], [](const SVal& v) { std::vector<Bit> r(v.w); for (uint32_t i = 0; i < v.w; i++) r[i] = v.bit(v.w - 1 - i); return mk(r); });
    case Intrinsic::ctpop: return perElem(a[0], [](const SVal& v) { SVal s = SVal::conc(0, v.w); for (uint32_t i = 0; i < v.w; i++) { std::vector<Bit> t(v.w, BF); t[0] = v.bit(i); s = addc(s, mk(t), BF, false); } return s; });
    case Intrinsic::ctlz: return perElem(a[0], [](const SVal& v) { SVal s = SVal::conc(v.w, v.w); for (uint32_t i = 0; i < v.w; i++) s = iteV(v.bit(i), SVal::conc(v.w - 1 - i, v.w), s); return s; });
    case Intrinsic::cttz: return perElem(a[0], [](const SVal& v) { SVal s = SVal::conc(v.w, v.w); for (int i = v.w - 1; i >= 0; i--) s = iteV(v.bit(i), SVal::conc(i, v.w), s); return s; });
    case Intrinsic::fshl: return a[0].isAgg() ? SVal() : concatShift(a[0], a[1], a[2], true);
    case Intrinsic::fshr: return concatShift(a[0], a[1], a[2], false);
    case Intrinsic::umin: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { return iteV(icmp(CmpInst::ICMP_ULT, x, y).bit(0), x, y); });
    case Intrinsic::umax: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { return iteV(icmp(CmpInst::ICMP_ULT, x, y).bit(0), y, x); });
    case Intrinsic::smin: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { return iteV(icmp(CmpInst::ICMP_SLT, x, y).bit(0), x, y); });
    case Intrinsic::smax: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { return iteV(icmp(CmpInst::ICMP_SLT, x, y).bit(0), y, x); });
    case Intrinsic::abs: return perElem(a[0], [](const SVal& v) { return iteV(v.bit(v.w - 1), addc(SVal::conc(0, v.w), v, BT, true), v); });
    case Intrinsic::usub_sat: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { return iteV(icmp(CmpInst::ICMP_ULT, x, y).bit(0), SVal::conc(0, x.w), binop(Instruction::Sub, x, y)); });
    case Intrinsic::uadd_sat: return perElem2(a[0], a[1], [](const SVal& x, const SVal& y) { SVal s = binop(Instruction::Add, x, y); return iteV(icmp(CmpInst::ICMP_ULT, s, x).bit(0), SVal::conc(~0ull, x.w), s); });
    case Intrinsic::uadd_with_overflow: { SVal s = binop(Instruction::Add, a[0], a[1]); return SVal::agg({s, icmp(CmpInst::ICMP_ULT, s, a[0])}); }
    case Intrinsic::usub_with_overflow: { SVal s = binop(Instruction::Sub, a[0], a[1]); return SVal::agg({s, icmp(CmpInst::ICMP_ULT, a[0], a[1])}); }
    case Intrinsic::umul_with_overflow: {
      uint32_t w = a[0].w; SVal x = castV(Instruction::ZExt, a[0], 2 * w), y = castV(Instruction::ZExt, a[1], 2 * w), m = (x.isConc() && y.isConc() && 2 * w <= 64) ? binop(Instruction::Mul, x, y) : mulv(x, y);
      std::vector<Bit> hi; for (uint32_t i = w; i < 2 * w; i++) hi.push_back(m.bit(i)); Bit o = G.borAll(hi); return SVal::agg({castV(Instruction::Trunc, m, w), SVal::bits(&o, 1)});
    }
    case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
      unsigned op = p.intr == Intrinsic::vector_reduce_xor ? Instruction::Xor : p.intr == Intrinsic::vector_reduce_or ? Instruction::Or : p.intr == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Add;
      SVal r = a[0].elems()[0]; for (size_t i = 1; i < a[0].elems().size(); i++) r = binop(op, r, a[0].elems()[i]); return r;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: violate("memory", "trap reached"); throw PathDead();
  }
  die("unsupported intrinsic " + p.cname);
}
static SVal callFn(Function* F, std::vector<SVal>& args, CallBase* cb);
static SVal doCall(Frame& fr, PInst& p) {
  std::vector<SVal> args; auto* cb = cast<CallInst>(p.I);
  size_t n = p.ops.size() - (p.ck == C_IND ? 1 : 0);
  args.reserve(n);
  for (size_t i = 0; i < n; i++) {
    Type* t = cb->getArgOperand(i)->getType();
    if (t->isMetadataTy()) { args.push_back(SVal()); continue; }
    args.push_back(opv(fr, p.ops[i], t));
  }
  switch (p.ck) {
    case C_FS: return doFs(fr, p, args);
    case C_INTR: return doIntr(fr, p, args);
    case C_LIB: return doLib(fr, p, args);
    case C_DEF: return callFn(p.callee, args, cb);
    case C_IND: {
      SVal f = opv(fr, p.ops.back());
      checkControl(f, "call target");
      if (!f.isConc()) die("symbolic call target");
      uint64_t id = f.c >> 40;
      if (!id || id > M.size() || M[id - 1].kind != O_FUNC) { violate("memory", "call through an invalid function pointer"); throw PathDead(); }
      Function* fn = M[id - 1].fn; std::string bn = baseName(fn->getName()); auto it = fnByName.find("fsr_" + bn);
      if (it != fnByName.end() && fr.P->name != "fsr_" + bn) { fnIntercepted.insert(bn); fn = it->second; }
      if (fn->isDeclaration()) {
        PInst q = p; q.cname = fn->getName().str(); q.ck = libNames.count(q.cname) ? C_LIB : C_NONE;
        if (q.ck == C_LIB) return doLib(fr, q, args);
        die("call of undefined function " + q.cname);
      }
      return callFn(fn, args, cb);
    }
    case C_ASM: {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      if (!StringRef(ia->getAsmString()).trim().empty()) die("inline assembly: " + ia->getAsmString());
      if (p.ty->isVoidTy()) return SVal();
      if (args.size() == 1) return args[0];
      die("inline assembly with outputs");
    }
    default: die("call of undefined function " + p.cname);
  }
}
