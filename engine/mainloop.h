// Path driver, relational queries, replay files, results, native emission.
#pragma once
static std::string jstr(const std::string& s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
struct Found { std::string kind, msg, loc, replay; };
static std::vector<Found> found; static std::vector<std::string> inconclusive;
static void writeResult(const std::string& status, const std::string& msg) {
  FILE* f = optOut.empty() ? stdout : fopen(optOut.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"status\": %s, \"message\": %s, \"paths\": %lu, \"instructions\": %lu, \"forks\": %lu, \"nodes\": %zu, \"obligations\": %lu, \"normalised\": %lu,\n", jstr(status).c_str(), jstr(msg).c_str(), nPaths, nInst, nFork, G.nodes.size(), nObl, nOblTriv);
  fprintf(f, " \"queries\": %lu, \"unsat\": %lu, \"sat\": %lu, \"unknown\": %lu, \"simulations\": %lu, \"abstracted_equalities\": %lu, \"solver_s\": %.3f, \"opaque\": %lu, \"wall_s\": %.2f,\n \"solvers\": {", SS.queries, SS.unsat, SS.sat, SS.unknown, SS.sims, SS.abstracted, SS.time, nOpaque, now() - tStart);
  bool first = true; for (auto& e : SS.by) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jstr(e.first).c_str(), e.second); first = false; }
  fprintf(f, "},\n \"functions\": ["); first = true; for (auto& s : fnExec) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"intercepted\": ["); first = true; for (auto& s : fnIntercepted) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"covers\": ["); first = true; for (auto& s : coverSeen) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"mutable_globals_written\": ["); first = true; for (auto& s : mutGlobals) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"inconclusive\": ["); first = true; for (auto& s : inconclusive) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"violations\": ["); first = true;
  for (auto& v : found) { fprintf(f, "%s\n  {\"kind\": %s, \"msg\": %s, \"loc\": %s, \"replay\": %s}", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.replay).c_str()); first = false; }
  fprintf(f, "]}\n"); fflush(f); if (f != stdout) fclose(f);
}
static void hexOut(FILE* f, const std::vector<uint8_t>& b) { for (uint8_t x : b) fprintf(f, "%02x", x); }
// copies of input groups made for two-run queries: original group -> copy
static std::unordered_map<uint32_t, uint32_t> copyOf;
static void writeReplay(const std::string& path, const Viol& v, const Model& m) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) die("cannot write " + path);
  fprintf(f, "ENTRY %s\nKIND %s\nMSG %s\nLOC %s\n", optEntry.c_str(), v.kind.c_str(), v.msg.c_str(), v.loc.c_str());
  for (auto& c : choices) fprintf(f, "C %d\n", c.first);
  std::vector<std::pair<uint32_t, uint32_t>> ins;
  for (uint32_t g = 0; g < G.groups.size(); g++) if (G.groups[g].seq) ins.push_back({G.groups[g].seq, g});
  std::sort(ins.begin(), ins.end());
  auto bytes = [&](uint32_t g) {
    const Group& gr = G.groups[g]; std::vector<uint8_t> b(gr.nbits / 8, 0);
    for (uint32_t i = 0; i < gr.nbits; i++) { auto it = m.v.find(gr.first + i); if (it != m.v.end() && it->second) b[i / 8] |= 1 << (i % 8); }
    return b;
  };
  for (auto& e : ins) {
    fprintf(f, "S %s ", G.groups[e.second].name.c_str()); hexOut(f, bytes(e.second)); fprintf(f, "\n");
    auto it = copyOf.find(e.second);
    if (it != copyOf.end()) { fprintf(f, "T %s ", G.groups[e.second].name.c_str()); hexOut(f, bytes(it->second)); fprintf(f, "\n"); }
  }
  // function values chosen by the solver
  std::vector<uint32_t> ufs;
  for (uint32_t g = 0; g < G.groups.size(); g++) { const Group& gr = G.groups[g]; if (gr.kind != GK_UF && gr.kind != GK_LUF) continue; for (uint32_t i = 0; i < gr.nbits; i++) if (m.v.count(gr.first + i)) { ufs.push_back(g); break; } }
  if (!ufs.empty()) {
    std::vector<Bit> roots; for (uint32_t g : ufs) for (Bit b : G.groups[g].def) roots.push_back(b);
    std::vector<uint32_t> cone; coneOf(roots, cone, true);
    Sim s; s.run(cone, [](uint32_t) { return false; }, &m);
    for (uint32_t g : ufs) {
      const Group& gr = G.groups[g]; if (gr.kind == GK_LUF) continue;
      std::vector<bool> ab; for (Bit b : gr.def) ab.push_back(s.bit(b));
      std::vector<uint8_t> in; Sim::pack(ab, in);
      fprintf(f, "U %s %u x", gr.name.c_str(), gr.aux); hexOut(f, in); fprintf(f, " "); hexOut(f, bytes(g)); fprintf(f, "\n");
    }
  }
  fclose(f);
}
// second copy of a set of bits in which everything tainted by mask is renamed
static void renameBits(std::vector<Bit>& io, uint8_t mask, std::vector<Bit>& side) {
  std::unordered_map<uint32_t, Bit> map; std::unordered_map<uint32_t, uint32_t> gmap; std::set<uint32_t> declDone;
  std::function<void(std::vector<Bit>&)> go = [&](std::vector<Bit>& bs) {
    std::vector<uint32_t> cone; coneOf(bs, cone, true);
    for (uint32_t x : cone) {
      if (map.count(x)) continue;
      const Node nd = G.nodes[x];
      Bit r = x << 1;
      auto sub = [&](Bit b) -> Bit { if (b < 2) return b; return map[b >> 1] ^ (b & 1); };
      if (nd.kind == NK_VAR) {
        const VarInfo vi = G.vars[nd.off];
        if (nd.taint & mask) {
          const Group gr = G.groups[vi.group];
          if (gr.kind == GK_ALIAS) { r = sub(gr.def[vi.idx]); }
          else {
            auto it = gmap.find(vi.group); uint32_t ng;
            if (it != gmap.end()) ng = it->second;
            else if (gr.kind == GK_UF || gr.kind == GK_LUF) {
              std::vector<Bit> args; for (Bit b : gr.def) args.push_back(sub(b));
              ng = gr.kind == GK_UF ? ufGroup(gr.name, gr.aux, args, gr.nbits, gr.pub) : ufGroup(gr.name, 0, args, gr.nbits, gr.pub, gr.aux, true);
              gmap[vi.group] = ng;
            } else { ng = G.newGroup(gr.name + "'", gr.kind == GK_UNDEF ? GK_UNDEF : GK_INPUT, gr.nbits, 0); gmap[vi.group] = ng; copyOf[vi.group] = ng; }
            r = G.groupBit(ng, vi.idx);
          }
        }
      } else if (nd.taint & mask) {
        std::vector<Bit> ch; for (uint32_t i = 0; i < nd.n; i++) ch.push_back(nd.kind == NK_OPQ ? sub(G.pool[nd.off + i]) : map[G.pool[nd.off + i]]);
        if (nd.kind == NK_XOR) { r = BF; for (Bit b : ch) r = G.bxor(r, b); }
        else { r = BT; for (Bit b : ch) r = G.band(r, b); }
      }
      map[x] = r;
    }
    // declassified values reached: equal in both runs
    for (uint32_t x : cone) if (G.nodes[x].kind == NK_VAR) {
      const VarInfo vi = G.vars[G.nodes[x].off]; const Group& gr = G.groups[vi.group];
      if (gr.kind == GK_ALIAS && gr.name == "declass" && !(G.nodes[x].taint & mask) && declDone.insert(x).second) {
        Bit d = gr.def[vi.idx]; Bit d2 = d < 2 ? d : map[d >> 1] ^ (d & 1);
        side.push_back(G.bxor(d2, x << 1) ^ 1);
      }
    }
  };
  go(io);
  for (Bit& b : io) if (b > 1) b = map[b >> 1] ^ (b & 1);
}
static int replaySerial = 0; static double firstFound = 0;
static void reportV(const Viol& v, const Model& m) {
  std::string path = optReplay + "." + std::to_string(replaySerial++) + ".replay";
  if (!optReplay.empty()) writeReplay(path, v, m);
  found.push_back({v.kind, v.msg, v.loc, optReplay.empty() ? "" : path});
}
// full ANF expansion of a bit, within a budget; false if too large
static bool expandAnf(Bit b, Bit& out, size_t budget) {
  std::vector<uint32_t> cone; coneOf({b}, cone, false);
  if (cone.size() > 200000) return false;
  std::unordered_map<uint32_t, Bit> map; uint32_t saved = G.anfCap; G.anfCap = 4096; size_t n0 = G.nodes.size(); bool ok = true;
  for (uint32_t x : cone) {
    const Node nd = G.nodes[x]; Bit r = x << 1;
    auto sub = [&](Bit q) -> Bit { return q < 2 ? q : map[q >> 1] ^ (q & 1); };
    if (nd.kind == NK_VAR) { const VarInfo vi = G.vars[nd.off]; const Group& g = G.groups[vi.group]; if (g.kind == GK_ALIAS) r = sub(g.def[vi.idx]); }
    else if (nd.kind == NK_XOR) { r = BF; std::vector<Bit> ch; for (uint32_t i = 0; i < nd.n; i++) ch.push_back(map[G.pool[nd.off + i]]); for (Bit q : ch) r = G.bxor(r, q); }
    else { std::vector<Bit> ch; for (uint32_t i = 0; i < nd.n; i++) ch.push_back(nd.kind == NK_OPQ ? sub(G.pool[nd.off + i]) : map[G.pool[nd.off + i]]); r = BT; for (Bit q : ch) r = G.band(r, q); }
    map[x] = r;
    if (G.nodes.size() - n0 > budget) { ok = false; break; }
  }
  G.anfCap = saved;
  if (ok) out = b < 2 ? b : map[b >> 1] ^ (b & 1);
  return ok;
}
// SAT sweeping: nodes of the cone with equal simulation signatures are proved equal by small queries and merged, so that
// differently structured computations of the same bit meet. Returns the rebuilt bit (always equivalent to b).
static Bit sweepBit(Bit b, double budget) {
  double t0 = now(); const int W = 128;
  std::vector<uint32_t> cone; coneOf({b}, cone, false);
  if (cone.size() > 150000) return b;
  std::unordered_map<uint32_t, std::array<uint64_t, W>> sig; std::unordered_map<uint32_t, Bit> map;
  auto bitSig = [&](Bit q, int w) -> uint64_t { uint64_t v = q < 2 ? 0 : sig[q >> 1][w]; return q & 1 ? ~v : v; };
  std::unordered_map<uint64_t, std::vector<Bit>> cls;  // signature (complement-normalised) -> rebuilt representatives
  size_t nq = 0, nm = 0;
  for (uint32_t x : cone) {
    const Node nd = G.nodes[x]; auto& sg = sig[x]; Bit r = x << 1;
    auto sub = [&](Bit q) -> Bit { return q < 2 ? q : map[q >> 1] ^ (q & 1); };
    bool cand = false;
    if (nd.kind == NK_VAR) {
      const VarInfo vi = G.vars[nd.off]; const Group& g = G.groups[vi.group];
      if (g.kind == GK_ALIAS) { r = sub(g.def[vi.idx]); for (int w = 0; w < W; w++) sg[w] = bitSig(g.def[vi.idx], w); }
      else for (int w = 0; w < W; w++) sg[w] = rng();
    } else if (nd.kind == NK_XOR) {
      r = BF; sg.fill(0);
      for (uint32_t i = 0; i < nd.n; i++) { uint32_t c = G.pool[nd.off + i]; const auto& cs = sig[c]; for (int w = 0; w < W; w++) sg[w] ^= cs[w]; if (G.nodes[c].kind != NK_VAR) cand = true; r = G.bxor(r, map[c]); }
    } else {
      sg.fill(~0ull); cand = true; r = BT; std::vector<Bit> ch;
      for (uint32_t i = 0; i < nd.n; i++) { Bit c = nd.kind == NK_OPQ ? G.pool[nd.off + i] : G.pool[nd.off + i] << 1; ch.push_back(c); for (int w = 0; w < W; w++) sg[w] &= bitSig(c, w); }
      for (Bit c : ch) r = G.band(r, sub(c));
    }
    if (cand && r > 1) {
      uint64_t pop = 0, h = 0; Bit inv = sg[0] & 1; for (int w = 0; w < W; w++) { pop += __builtin_popcountll(sg[w]); h = fsp_mix(h, inv ? ~sg[w] : sg[w]); }
      if (pop && pop < 64ull * W) {
        auto& reps = cls[h]; bool hit = false;
        for (Bit q : reps) if ((q ^ inv) == r) hit = true;
        for (size_t i = 0; !hit && i < reps.size() && i < 4 && now() - t0 < budget; i++) {
          Bit d = G.bxor(r, reps[i] ^ inv); nq++;
          SR rr = d == BF ? SR_UNSAT : d == BT ? SR_SAT : rawQuery({d}, nullptr, 5);
          if (rr == SR_UNSAT) { r = reps[i] ^ inv; hit = true; nm++; }
        }
        if (!hit) reps.push_back(r ^ inv);
      }
    }
    map[x] = r;
  }
  if (optVerbose) fprintf(stderr, "fsym: sweep: cone %zu, %zu queries, %zu merged, %.1f s\n", cone.size(), nq, nm, now() - t0);
  return b < 2 ? b : map[b >> 1] ^ (b & 1);
}
static std::set<std::string> reportedKey;
static std::string absDecl, absOr; static size_t absCount = 0, absTotal = 0;
static void flushAbs() {
  if (!absCount) return;
  std::string file = gTmp + "/a" + std::to_string(getpid()) + ".smt2"; FILE* f = fopen(file.c_str(), "w"); if (!f) die("cannot write query");
  fprintf(f, "(set-logic QF_BV)\n%s(assert (or false\n%s))\n(check-sat)\n", absDecl.c_str(), absOr.c_str()); fclose(f);
  double t0 = now(); SR r = runPortfolio(file, gSolverTimeout, nullptr, 1); SS.time += now() - t0; SS.queries++; SS.abstracted += absCount;
  if (r == SR_UNSAT) SS.unsat++; else { SS.unknown++; inconclusive.push_back("abstract equality query not discharged"); }
  unlink(file.c_str()); absDecl.clear(); absOr.clear(); absCount = 0;
}
static void endPath() {
  nPaths++;
  checkBudget();
  // assumptions satisfiable?
  for (auto& c : coverPend) if (!coverSeen.count(c.first)) { Model m; if (querySat({c.second}, m) == SR_SAT) coverSeen.insert(c.first); }
  coverPend.clear();
  // equalities that the normal form already made syntactically identical: collected, discharged in batches
  if (!absPairs.empty()) {
    std::set<std::pair<Bit, Bit>> uniq; for (auto& p : absPairs) if (absTotal + uniq.size() < 200000) uniq.insert({p.a, p.b});
    std::set<uint32_t> nodes; for (auto& p : uniq) { if (p.first > 1) nodes.insert(p.first >> 1); if (p.second > 1) nodes.insert(p.second >> 1); }
    std::string pre = "p" + std::to_string(nPaths);
    auto al = [&](Bit b) { return b < 2 ? std::string(b ? "true" : "false") : b & 1 ? "(not " + pre + "n" + std::to_string(b >> 1) + ")" : pre + "n" + std::to_string(b >> 1); };
    for (uint32_t n : nodes) absDecl += "(declare-const " + pre + "n" + std::to_string(n) + " Bool)\n";
    for (auto& p : uniq) absOr += " (xor " + al(p.first) + " " + al(p.second) + ")\n";
    absTotal += uniq.size(); absCount += uniq.size(); absPairs.clear();
    if (absCount > 40000) flushAbs();
  }
  std::vector<Viol> vs; vs.swap(viols);
  // plain violations: one query for all, then individually if satisfiable
  std::vector<Viol*> plain; for (auto& v : vs) if (v.vals.empty()) plain.push_back(&v);
  size_t reported = 0;
  for (Viol* v : plain) {
    std::string key = v->kind + v->loc + v->msg; if (reportedKey.count(key)) continue;
    if (reported >= 4) break;
    Model m; double lim = gSolverTimeout; gSolverTimeout = std::min(lim, 20.0);
    SR r = querySat({v->cond, v->as}, m);
    if (r == SR_UNKNOWN) {
      static double spent = 0; double s0 = now();
      Bit e = sweepBit(G.band(v->cond, v->as), std::min(2 * lim, 240 - spent)); spent += now() - s0;
      if (e == BF) { SS.queries++; SS.unsat++; SS.by["sweep"]++; r = SR_UNSAT; } else { m = Model(); r = querySat({e}, m); }
    }
    gSolverTimeout = lim;
    if (r == SR_UNKNOWN) { m = Model(); r = querySat({v->cond, v->as}, m); }
    if (r == SR_UNKNOWN) {
      Bit e;
      if (expandAnf(G.band(v->cond, v->as), e, 3000000)) r = querySat({e}, m);
    }
    if (r == SR_SAT) {
      // inputs outside the query get arbitrary values
      reportedKey.insert(key); reported++; reportV(*v, m);
    } else if (r == SR_UNKNOWN) inconclusive.push_back(v->kind + ": " + v->msg + " at " + v->loc);
  }
  for (auto& v : vs) if (!v.vals.empty()) {
    std::string key = v.kind + v.loc; if (reportedKey.count(key)) continue;
    uint8_t mask = v.kind == "ct" ? TAINT_SECRET : TAINT_UNDEF;
    copyOf.clear();
    std::vector<Bit> two = v.vals; two.push_back(v.pc); two.push_back(v.as); std::vector<Bit> side; renameBits(two, mask, side);
    std::vector<Bit> diff; for (size_t i = 0; i < v.vals.size(); i++) diff.push_back(G.bxor(v.vals[i], two[i]));
    std::vector<Bit> q = {G.borAll(diff), v.pc, v.as, two[v.vals.size()], two[v.vals.size() + 1]}; q.insert(q.end(), side.begin(), side.end());
    nObl++;
    Model m; SR r = querySat(q, m);
    if (r == SR_SAT) { reportedKey.insert(key); reportV(v, m); } else if (r == SR_UNKNOWN) inconclusive.push_back(v.kind + ": " + v.msg + " at " + v.loc);
    copyOf.clear();
  }
}
static bool dieWithFindings() {
  if (viols.empty()) return !found.empty();
  if (gSolverTimeout > 60) gSolverTimeout = 60;
  absPairs.clear(); coverPend.clear();
  endPath();
  return !found.empty();
}
static void emitNative(const std::string& out, bool trace, bool san) {
  LLVMContext& C = Mod->getContext();
  std::vector<std::pair<CallBase*, Function*>> re;
  for (auto& F : *Mod) for (auto& B : F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) {
    Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!cf || cf->isIntrinsic()) continue;
    std::string bn = baseName(cf->getName()); auto it = fnByName.find("fsr_" + bn);
    if (it != fnByName.end() && F.getName() != "fsr_" + bn) { re.push_back({cb, it->second}); continue; }
    static const std::set<std::string> al = {"malloc", "calloc", "free", "aligned_alloc", "posix_memalign", "memalign", "realloc", "__assert_fail"};
    if (al.count(cf->getName().str()) && cf->isDeclaration()) {
      Function* nf = Mod->getFunction("fsn_" + cf->getName().str());
      if (!nf) nf = Function::Create(cf->getFunctionType(), GlobalValue::ExternalLinkage, "fsn_" + cf->getName().str(), Mod);
      re.push_back({cb, nf});
    }
  }
  for (auto& p : re) p.first->setCalledFunction(p.second->getFunctionType(), p.second);
  if (trace) {
    Type* i64 = Type::getInt64Ty(C); auto tf = Mod->getOrInsertFunction("fsn_trace", Type::getVoidTy(C), i64, i64);
    uint64_t id = 0;
    for (auto& F : *Mod) {
      if (F.isDeclaration() || F.getName().starts_with("fsr_") || F.getName().starts_with("h_") || F.getName() == optEntry) continue;
      for (auto& B : F) {
        std::vector<Instruction*> is; for (auto& I : B) is.push_back(&I);
        for (auto* I : is) {
          id++; IRBuilder<> bld(I); bld.SetCurrentDebugLocation(DebugLoc(DILocation::get(C, 0, 0, F.getSubprogram() ? (Metadata*)F.getSubprogram() : nullptr)));
          if (!F.getSubprogram()) bld.SetCurrentDebugLocation(DebugLoc());
          Value* x = nullptr;
          if (auto* br = dyn_cast<BranchInst>(I)) { if (br->isConditional()) x = bld.CreateZExt(br->getCondition(), i64); }
          else if (auto* sw = dyn_cast<SwitchInst>(I)) x = bld.CreateZExtOrTrunc(sw->getCondition(), i64);
          else if (auto* l = dyn_cast<LoadInst>(I)) { if (isa<AllocaInst>(l->getPointerOperand())) continue; x = bld.CreatePtrToInt(l->getPointerOperand(), i64); }
          else if (auto* s = dyn_cast<StoreInst>(I)) { if (isa<AllocaInst>(s->getPointerOperand())) continue; x = bld.CreatePtrToInt(s->getPointerOperand(), i64); }
          else if (I->getOpcode() == Instruction::UDiv || I->getOpcode() == Instruction::URem || I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem) { if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64) { Value* y = bld.CreateZExt(I->getOperand(1), i64); x = bld.CreateXor(bld.CreateZExt(I->getOperand(0), i64), bld.CreateMul(y, bld.getInt64(0x9E3779B97F4A7C15ull))); } }
          else if (auto* cb = dyn_cast<CallInst>(I)) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Function* cf = cb->getCalledFunction(); if (!cf) continue; StringRef n = cf->getName();
            if (n == "memcmp" || n == "bcmp") { auto mf = Mod->getOrInsertFunction("fsn_trace_cmp", Type::getVoidTy(C), i64, PointerType::getUnqual(C), PointerType::getUnqual(C), i64); bld.CreateCall(mf, {bld.getInt64(id), cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)}); continue; }
            if (auto* mi = dyn_cast<MemIntrinsic>(I)) x = bld.CreateXor(bld.CreatePtrToInt(mi->getDest(), i64), bld.CreateMul(bld.CreateZExtOrTrunc(mi->getLength(), i64), bld.getInt64(0x9E3779B97F4A7C15ull)));
            else continue;
          }
          if (x) bld.CreateCall(tf, {bld.getInt64(id), x});
        }
      }
    }
  }
  // alignment: every access checked, stack objects placed at addresses aligned to exactly what they ask for
  if (optAlign) {
    Type *i64 = Type::getInt64Ty(C), *pt = PointerType::getUnqual(C); auto af = Mod->getOrInsertFunction("fsn_align", Type::getVoidTy(C), pt, i64);
    for (auto& F : *Mod) {
      if (F.isDeclaration() || F.getName().starts_with("fsr_") || F.getName().starts_with("h_") || F.getName() == optEntry) continue;
      std::vector<Instruction*> is; for (auto& B : F) for (auto& I : B) is.push_back(&I);
      for (auto* I : is) {
        Value* ad = nullptr; uint64_t al = 1;
        if (auto* l = dyn_cast<LoadInst>(I)) ad = l->getPointerOperand(), al = l->getAlign().value(); else if (auto* st = dyn_cast<StoreInst>(I)) ad = st->getPointerOperand(), al = st->getAlign().value();
        if (ad && al > 1 && !isa<AllocaInst>(ad)) { IRBuilder<> bld(I); bld.SetCurrentDebugLocation(I->getDebugLoc()); bld.CreateCall(af, {ad, bld.getInt64(al)}); }
      }
      for (auto* I : is) if (auto* av = dyn_cast<AllocaInst>(I)) if (av->isStaticAlloca() && av->getAlign().value() < 32 && av->getAllocatedType()->isArrayTy()) {
        uint64_t n = Mod->getDataLayout().getTypeAllocSize(av->getAllocatedType()), al = av->getAlign().value(); IRBuilder<> bld(I);
        auto* nv = bld.CreateAlloca(ArrayType::get(Type::getInt8Ty(C), n + al)); nv->setAlignment(Align(32)); Value* g = bld.CreateGEP(Type::getInt8Ty(C), nv, bld.getInt64(al)); av->replaceAllUsesWith(g); av->eraseFromParent();
      }
    }
  }
  if (san) for (auto& F : *Mod) if (!F.isDeclaration()) F.addFnAttr(optInit ? Attribute::SanitizeMemory : Attribute::SanitizeAddress);
  for (auto& F : *Mod) { F.removeFnAttr(Attribute::OptimizeNone); }
  if (Function* e = Mod->getFunction(optEntry)) e->setName("fsn_entry");
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*Mod, os);
}
static void onTerm(int) { for (pid_t p : gKids) kill(p, SIGKILL); _exit(4); }
int main(int argc, char** argv) {
  tStart = now(); signal(SIGTERM, onTerm);
  rlimit rl; rl.rlim_cur = rl.rlim_max = 4096ull << 20; setrlimit(RLIMIT_STACK, &rl);
  if (!getenv("FSYM_STACK")) { setenv("FSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  std::string in, native; bool trace = false, san = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { if (++i >= argc) { fprintf(stderr, "missing argument\n"); exit(3); } return argv[i]; };
    if (a == "-o") optOut = nx(); else if (a == "-entry") optEntry = nx(); else if (a == "-replay") optReplay = nx();
    else if (a == "-timeout") optTimeout = atof(nx().c_str()); else if (a == "-solver-timeout") gSolverTimeout = atof(nx().c_str());
    else if (a == "-init") optInit = true; else if (a == "-ct") optCT = true; else if (a == "-align") optAlign = true; else if (a == "-v") optVerbose = true;
    else if (a == "-tmp") gTmp = nx(); else if (a == "-seed") rngState ^= strtoull(nx().c_str(), nullptr, 10) * 0x9E3779B97F4A7C15ull;
    else if (a == "-max-nodes") optMaxNodes = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "-emit-native") native = nx(); else if (a == "-trace") trace = true; else if (a == "-san") san = true;
    else if (a == "-shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &optShard, &optShards); }
    else if (a == "-choice") { std::string s = nx(); for (size_t p = 0; p < s.size();) { preChoices.push_back(atoi(s.c_str() + p)); size_t q = s.find(',', p); if (q == std::string::npos) break; p = q + 1; } }
    else if (a == "-globals") optGlobals = true;
    else in = a;
  }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(in, err, C);
  if (!mod) { err.print("fsym", errs()); return 3; }
  Mod = mod.get(); DL = &Mod->getDataLayout();
  for (auto& F : *Mod) fnByName[F.getName().str()] = &F;
  for (auto it = fnByName.begin(); it != fnByName.end();) { if (it->second->isDeclaration()) it = fnByName.erase(it); else ++it; }
  if (!native.empty()) { emitNative(native, trace, san); return 0; }
  Function* E = Mod->getFunction(optEntry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  if (E->getName() == "main") {}
  for (int v : preChoices) choices.push_back({v, 1 << 30});
  size_t fixedChoices = preChoices.size();
  int pathNo = 0; std::set<std::string> allGlobals;
  for (;;) {
    G.reset(); ufTab.clear(); sponges.clear(); gfReset(); gfOpaque.clear(); M.clear(); genOf.clear(); PC = AS = BT; facts.clear(); factTrail.clear(); viols.clear(); absPairs.clear(); coverPend.clear(); choiceIdx = 0; inputSeq = 0; callStack.clear(); forkDepth = 0; mFloor = 0; relCount.clear();
    for (auto& p : pfuncs) delete p.second;
    pfuncs.clear();
    G.anfCap = 64; optCutChi = false;
    bool skip = false;
    if (optShards > 1 && choices.size() > fixedChoices && choices[fixedChoices].first % optShards != optShard) skip = true;
    if (!skip) {
      initGlobals();
      std::vector<SVal> args;
      try { callFn(E, args, nullptr); } catch (PathDead&) { stat["dead_paths"]++; }
      if (optShards > 1 && choices.size() <= fixedChoices && optShard != 0) break;
      if (optShards > 1 && pathNo == 0 && choices.size() > fixedChoices && choices[fixedChoices].first % optShards != optShard) { nObl = 0; viols.clear(); absPairs.clear(); coverPend.clear(); }
      else endPath();
      if (optGlobals && !mutGlobals.empty()) { for (auto& s : mutGlobals) allGlobals.insert(s); }
      pathNo++;
    }
    while (choices.size() > fixedChoices && choices.back().first + 1 >= choices.back().second) choices.pop_back();
    if (choices.size() <= fixedChoices) break;
    choices.back().first++;
    if (!found.empty() && !firstFound) firstFound = now();
    if (found.size() > 8 || (firstFound && now() - firstFound > 20)) break;
  }
  for (auto& s : allGlobals) mutGlobals.insert(s);
  flushAbs();
  std::string st = !found.empty() ? "violation" : !inconclusive.empty() ? "inconclusive" : "ok";
  writeResult(st, "");
  fflush(nullptr);
  _exit(st == "ok" ? 0 : st == "violation" ? 1 : 2);
}
