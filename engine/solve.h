// Simulation, SMT-LIB emission and the solver portfolio.
#pragma once
#include "val.h"
#include "prf.h"
#include <set>
#include <functional>
#include <chrono>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

extern BitGraph G;
static inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct Model { std::unordered_map<uint32_t, bool> v; };  // var node -> value

// GF atom evaluation is supplied by gf.h
bool gfEval(uint32_t group, std::function<bool(uint32_t)> val, uint64_t out[4]);
void gfDeps(uint32_t group, std::vector<uint32_t>& nodes);

struct SolverStats {
  uint64_t queries = 0, unsat = 0, sat = 0, unknown = 0, sims = 0; double time = 0; uint64_t abstracted = 0;
  std::map<std::string, uint64_t> by;
};
extern SolverStats SS;
extern double gSolverTimeout;
extern std::string gTmp;

// dependency cone (ascending node order = topological)
static void coneOf(const std::vector<Bit>& roots, std::vector<uint32_t>& out, bool throughUF) {
  std::vector<uint32_t> st; std::unordered_map<uint32_t, char> seen; std::unordered_map<uint32_t, char> gseen;
  for (Bit b : roots) st.push_back(b >> 1);
  while (!st.empty()) {
    uint32_t x = st.back(); st.pop_back();
    if (!x) continue;
    if (seen.count(x)) continue;
    seen[x] = 1; out.push_back(x);
    const Node& nd = G.nodes[x];
    if (nd.kind == NK_VAR) {
      const VarInfo vi = G.vars[nd.off]; const Group& g = G.groups[vi.group];
      if (g.kind == GK_ALIAS) st.push_back(g.def[vi.idx] >> 1);
      else if (throughUF && !gseen.count(vi.group)) {
        gseen[vi.group] = 1;
        if (g.kind == GK_UF || g.kind == GK_LUF) for (Bit b : g.def) st.push_back(b >> 1);
        else if (g.kind == GK_GF && g.aux) gfDeps(vi.group, st);
      }
      continue;
    }
    for (uint32_t i = 0; i < nd.n; i++) st.push_back(nd.kind == NK_OPQ ? G.pool[nd.off + i] >> 1 : G.pool[nd.off + i]);
  }
  std::sort(out.begin(), out.end());
}

static uint64_t rngState = 88172645463325252ull;
static inline uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState * 0x2545F4914F6CDD1Dull; }

// values of nodes during one simulation; anything not evaluated reads as false
struct ValMap {
  static std::vector<uint32_t>& buf() { static std::vector<uint32_t> b; return b; }
  static uint32_t& gen() { static uint32_t g = 0; return g; }
  uint32_t my; ValMap() : my(++gen()) { if (gen() == 0x7fffffff) { std::fill(buf().begin(), buf().end(), 0); gen() = my = 1; } if (buf().size() < G.nodes.size()) buf().resize(G.nodes.size() + G.nodes.size() / 4 + 64); }
  bool get(uint32_t n) const { return n < buf().size() && buf()[n] >> 1 == my && (buf()[n] & 1); }
  void set(uint32_t n, bool v) { buf()[n] = my << 1 | v; }
};
// Evaluates everything in the cone of roots. free variables are chosen by pick (and stored in m).
struct Sim {
  ValMap val;
  std::unordered_map<uint32_t, std::vector<uint8_t>> gval;
  bool bit(Bit b) { uint32_t n = b >> 1; if (!n) return b & 1; return val.get(n) ^ (b & 1); }
  static void pack(const std::vector<bool>& in, std::vector<uint8_t>& o) {
    o.assign((in.size() + 7) / 8, 0);
    for (size_t i = 0; i < in.size(); i++) if (in[i]) o[i / 8] |= 1 << (i % 8);
  }
  void run(const std::vector<uint32_t>& cone, std::function<bool(uint32_t)> pick, const Model* fix) {
    for (uint32_t x : cone) {
      const Node& nd = G.nodes[x];
      bool r = false;
      switch (nd.kind) {
        case NK_VAR: {
          const VarInfo vi = G.vars[nd.off]; const Group& g = G.groups[vi.group];
          if (fix) { auto it = fix->v.find(x); if (it != fix->v.end() && g.kind != GK_ALIAS) { r = it->second; break; } }
          if (g.kind == GK_ALIAS) r = bit(g.def[vi.idx]);
          else if (g.kind == GK_UF || g.kind == GK_LUF) {
            auto& gv = gval[vi.group];
            if (gv.empty()) {
              std::vector<bool> a; std::vector<uint8_t> in;
              gv.assign((g.nbits + 7) / 8, 0);
              if (g.kind == GK_UF) {
                for (Bit b : g.def) a.push_back(bit(b));
                pack(a, in);
                fsp_out(fsp_seed(g.name.c_str(), g.aux, in.data(), in.size()), gv.data(), gv.size());
              } else {
                std::vector<uint8_t> key;
                for (uint32_t i = 0; i < g.aux; i++) a.push_back(bit(g.def[i]));
                pack(a, key); a.clear();
                for (uint32_t i = g.aux; i < g.def.size(); i++) a.push_back(bit(g.def[i]));
                pack(a, in);
                fsp_lin(g.name.c_str(), key.data(), key.size(), in.data(), in.size(), gv.data(), gv.size());
              }
            }
            r = gv[vi.idx / 8] >> (vi.idx % 8) & 1;
          } else if (g.kind == GK_GF && g.aux) {
            auto& gv = gval[vi.group];
            if (gv.empty()) { uint64_t o[4] = {0, 0, 0, 0}; gfEval(vi.group, [&](uint32_t n) { return val.get(n); }, o); gv.assign(32, 0); memcpy(gv.data(), o, 32); }
            r = gv[vi.idx / 8] >> (vi.idx % 8) & 1;
          } else r = pick(x);
          break;
        }
        case NK_XOR: for (uint32_t i = 0; i < nd.n; i++) r ^= val.get(G.pool[nd.off + i]); break;
        case NK_MONO: r = true; for (uint32_t i = 0; i < nd.n && r; i++) r = val.get(G.pool[nd.off + i]); break;
        case NK_OPQ: r = true; for (uint32_t i = 0; i < nd.n && r; i++) r = bit(G.pool[nd.off + i]); break;
        default: break;
      }
      val.set(x, r);
    }
  }
};

// try to satisfy the conjunction of asserts by simulation
static bool simulate(const std::vector<Bit>& asserts, Model& m, int tries) {
  for (Bit b : asserts) if (b == BF) return false;
  std::vector<uint32_t> cone; coneOf(asserts, cone, true);
  if (cone.size() > 20000000) tries = std::min(tries, 2);
  for (int t = 0; t < tries; t++) {
    SS.sims++;
    Sim s; int mode = t % 8; uint64_t r1 = rng();
    std::unordered_map<uint32_t, uint8_t> gm;
    s.run(cone, [&](uint32_t x) -> bool {
      uint32_t g = G.vars[G.nodes[x].off].group;
      int md = mode;
      if (mode >= 6) { auto it = gm.find(g); if (it == gm.end()) it = gm.emplace(g, rng() % 5).first; md = it->second; }
      switch (md) { case 1: return false; case 2: return true; case 3: return (rng() & 15) == 0; case 4: return (rng() & 15) != 0; case 5: return (r1 >> (x & 7)) & 1; default: return rng() >> 40 & 1; }
    }, nullptr);
    bool ok = true;
    for (Bit b : asserts) if (!s.bit(b)) { ok = false; break; }
    if (ok) {
      for (uint32_t x : cone) if (G.nodes[x].kind == NK_VAR) {
        const Group& g = G.groups[G.vars[G.nodes[x].off].group];
        if (g.kind == GK_INPUT || g.kind == GK_UNDEF || (g.kind == GK_GF && !g.aux)) m.v[x] = s.val.get(x);
      }
      return true;
    }
  }
  return false;
}

static std::string lit(Bit b) {
  if (b == BF) return "false";
  if (b == BT) return "true";
  std::string s = "n" + std::to_string(b >> 1);
  return (b & 1) ? "(not " + s + ")" : s;
}
static void emitXor(FILE* f, std::vector<std::string>& aux, const std::vector<std::string>& l) {
  (void)aux;
  fprintf(f, "(xor");
  for (auto& s : l) fprintf(f, " %s", s.c_str());
  fprintf(f, ")");
}
static void emitSmt(FILE* f, const std::vector<Bit>& asserts, const std::vector<uint32_t>& cone, bool getModel) {
  fprintf(f, "(set-logic QF_BV)\n");
  for (uint32_t x : cone) fprintf(f, "(declare-const n%u Bool)\n", x);
  std::vector<std::string> dummy;
  for (uint32_t x : cone) {
    const Node& nd = G.nodes[x];
    if (nd.kind == NK_VAR) {
      const VarInfo vi = G.vars[nd.off]; const Group& g = G.groups[vi.group];
      if (g.kind == GK_ALIAS) fprintf(f, "(assert (= n%u %s))\n", x, lit(g.def[vi.idx]).c_str());
      continue;
    }
    fprintf(f, "(assert (= n%u ", x);
    if (nd.kind == NK_XOR) {
      std::vector<std::string> l; for (uint32_t i = 0; i < nd.n; i++) l.push_back("n" + std::to_string(G.pool[nd.off + i]));
      emitXor(f, dummy, l);
    } else {
      fprintf(f, "(and");
      for (uint32_t i = 0; i < nd.n; i++) fprintf(f, " %s", nd.kind == NK_OPQ ? lit(G.pool[nd.off + i]).c_str() : ("n" + std::to_string(G.pool[nd.off + i])).c_str());
      fprintf(f, ")");
    }
    fprintf(f, "))\n");
  }
  for (Bit b : asserts) fprintf(f, "(assert %s)\n", lit(b).c_str());
  fprintf(f, "(check-sat)\n");
  if (getModel) {
    bool any = false;
    for (uint32_t x : cone) if (G.nodes[x].kind == NK_VAR) { if (!any) fprintf(f, "(get-value ("); any = true; fprintf(f, "n%u ", x); }
    if (any) fprintf(f, "))\n");
  }
}
enum SR { SR_UNSAT, SR_SAT, SR_UNKNOWN };
static std::vector<pid_t> gKids;
static SR runPortfolio(const std::string& file, double timeout, Model* m, int nsolv = 3) {
  struct P { pid_t pid; std::string out; std::string name; bool done; };
  std::vector<P> ps;
  std::vector<std::vector<std::string>> cmds = {
    {"z3-new", "-T:" + std::to_string((int)timeout + 1), file},
    {"cvc5", "--produce-models", "--tlimit=" + std::to_string((int)(timeout * 1000)), file},
    {"z3", "-T:" + std::to_string((int)timeout + 1), file}};
  for (int i = 0; i < nsolv && i < (int)cmds.size(); i++) {
    P p; p.out = file + ".out" + std::to_string(i); p.name = cmds[i][0]; p.done = false;
    fflush(nullptr);
    p.pid = fork();
    if (p.pid == 0) {
      setpgid(0, 0);
      int fd = open(p.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 1); dup2(fd, 2);
      std::vector<char*> av; for (auto& s : cmds[i]) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    gKids.push_back(p.pid);
    ps.push_back(p);
  }
  double t0 = now(); SR res = SR_UNKNOWN; int left = ps.size();
  while (left && res == SR_UNKNOWN && now() - t0 < timeout + 2) {
    for (auto& p : ps) if (!p.done) {
      int st; if (waitpid(p.pid, &st, WNOHANG) != p.pid) continue;
      p.done = true; left--;
      FILE* f = fopen(p.out.c_str(), "r"); if (!f) continue;
      std::string txt; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) txt.append(buf, n);
      fclose(f);
      if (txt.compare(0, 6, "unsat\n") == 0) { res = SR_UNSAT; SS.by[p.name]++; break; }
      if (txt.compare(0, 4, "sat\n") == 0) {
        res = SR_SAT; SS.by[p.name]++;
        if (m) {
          size_t i = 4;
          while ((i = txt.find("(n", i)) != std::string::npos) {
            uint32_t id = strtoul(txt.c_str() + i + 2, nullptr, 10);
            size_t j = txt.find(' ', i); size_t k = txt.find(')', i);
            if (j == std::string::npos || k == std::string::npos) break;
            m->v[id] = txt.compare(j + 1, 4, "true") == 0;
            i = k;
          }
        }
        break;
      }
    }
    if (res == SR_UNKNOWN) usleep(2000);
  }
  for (auto& p : ps) { if (!p.done) { kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } unlink(p.out.c_str()); }
  gKids.clear();
  return res;
}
static int qSerial = 0;
static SR rawQuery(const std::vector<Bit>& asserts, Model* m, double timeout) {
  std::vector<uint32_t> cone; coneOf(asserts, cone, false);
  std::string file = gTmp + "/q" + std::to_string(getpid()) + "_" + std::to_string(qSerial++) + ".smt2";
  FILE* f = fopen(file.c_str(), "w");
  if (!f) { fprintf(stderr, "fsym: cannot write %s\n", file.c_str()); _exit(3); }
  emitSmt(f, asserts, cone, m != nullptr);
  fclose(f);
  double t0 = now();
  SR r = runPortfolio(file, timeout, m);
  SS.time += now() - t0; SS.queries++;
  if (r == SR_UNSAT) SS.unsat++; else if (r == SR_SAT) SS.sat++; else SS.unknown++;
  if (!getenv("FSYM_KEEP")) unlink(file.c_str());
  return r;
}
// conjunction satisfiable? UF congruence is added lazily.
static SR querySat(std::vector<Bit> asserts, Model& m, bool sim = true) {
  std::vector<Bit> a; for (Bit b : asserts) { if (b == BF) { SS.queries++; SS.unsat++; SS.by["trivial"]++; return SR_UNSAT; } if (b != BT) a.push_back(b); }
  // deep hash arguments: the formula over unconstrained hash values first, which is often enough and much smaller
  if (sim) {
    std::vector<uint32_t> c1, c2; coneOf(a, c1, false); coneOf(a, c2, true);
    if (c2.size() > 100000 && c1.size() * 10 < c2.size()) { SR r = rawQuery(a, nullptr, std::min(gSolverTimeout, 20.0)); if (r == SR_UNSAT) return r; }
  }
  if (sim) {
    Model mm;
    if (simulate(a, mm, 24)) { m = mm; SS.queries++; SS.sat++; SS.by["simulation"]++; return SR_SAT; }
  }
  for (int round = 0; round < 24; round++) {
    Model mm; SR r = rawQuery(a, &mm, gSolverTimeout);
    if (r != SR_SAT) return r;
    // complete the model and look for UF groups with equal arguments and different results
    std::vector<uint32_t> cone; coneOf(a, cone, true);
    Sim s; s.run(cone, [](uint32_t) { return false; }, &mm);
    std::map<std::pair<std::string, std::vector<uint8_t>>, uint32_t> seen; bool conflict = false;
    std::set<uint32_t> gs;
    for (uint32_t x : cone) if (G.nodes[x].kind == NK_VAR) gs.insert(G.vars[G.nodes[x].off].group);
    for (uint32_t g : gs) {
      const Group& gr = G.groups[g];
      if (gr.kind != GK_UF && gr.kind != GK_LUF) continue;
      bool used = false; for (uint32_t i = 0; i < gr.nbits && !used; i++) used = mm.v.count(gr.first + i);
      if (!used) continue;
      std::vector<bool> ab; for (Bit b : gr.def) ab.push_back(s.bit(b));
      std::vector<uint8_t> in; Sim::pack(ab, in);
      std::string key = gr.name + "/" + std::to_string(gr.aux) + "/" + std::to_string(gr.nbits) + "/" + std::to_string(gr.def.size());
      auto k = std::make_pair(key, in);
      auto it = seen.find(k);
      if (it == seen.end()) { seen[k] = g; continue; }
      const Group& g2 = G.groups[it->second];
      bool diff = false;
      for (uint32_t i = 0; i < gr.nbits; i++) { auto p = mm.v.find(gr.first + i), q = mm.v.find(g2.first + i); if (p != mm.v.end() && q != mm.v.end() && p->second != q->second) diff = true; }
      if (!diff) continue;
      std::vector<Bit> ne, od;
      for (size_t i = 0; i < gr.def.size(); i++) { Bit d = G.bxor(gr.def[i], g2.def[i]); if (d != BF) ne.push_back(d); }
      Bit anyNe = G.borAll(ne);
      for (uint32_t i = 0; i < gr.nbits; i++) od.push_back(G.bxor(G.groupBit(g, i), G.groupBit(it->second, i)));
      a.push_back(G.bor(anyNe, G.borAll(od) ^ 1));
      conflict = true;
      if (a.size() > asserts.size() + 64) break;
    }
    if (!conflict) { m = mm; for (uint32_t x : cone) if (G.nodes[x].kind == NK_VAR && !m.v.count(x)) { m.v[x] = s.val.get(x); } return SR_SAT; }
  }
  return SR_UNKNOWN;
}
