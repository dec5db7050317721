// fsym: symbolic executor for LLVM IR with a canonical bit-level term graph.
#include "gf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/ADT/DenseMap.h"
#include <memory>
#include <sys/resource.h>
using namespace llvm;
typedef ::Val SVal;

BitGraph G;
SolverStats SS;
double gSolverTimeout = 60;
std::string gTmp = "/tmp";

static bool optMem = false, optInit = false, optCT = false, optGlobals = false, optAlign = false, optVerbose = false, optCutChi = false;
static double optTimeout = 0, tStart = 0;
static int optShard = 0, optShards = 1;
static std::string optOut, optReplay, optEntry = "harness";
static size_t optMaxNodes = 120000000;

[[noreturn]] static void die(const std::string& s);

// ---------------------------------------------------------------- memory
struct Data {
  std::vector<uint8_t> st, c; std::vector<std::array<Bit, 8>> s;  // st: 0 concrete 1 symbolic 2 uninitialised
};
enum OK : uint8_t { O_GLOBAL, O_CONST, O_STACK, O_HEAP, O_FUNC, O_NONE };
struct Obj {
  std::shared_ptr<Data> d; uint64_t size = 0; uint32_t align = 1; OK kind = O_NONE; uint8_t gen = 0;
  Bit freed = BF, alloc = BT; const char* name = ""; Function* fn = nullptr;
};
static std::vector<Obj> M;
static std::vector<uint8_t> genOf;
static uint64_t addrOf(uint32_t id) { return ((uint64_t)(id + 1) << 40) | ((uint64_t)M[id].gen << 32) | 0x10000000ull | M[id].align; }
static uint64_t baseOff(uint32_t id) { return 0x10000000ull | M[id].align; }
static uint32_t newObj(OK kind, uint64_t size, uint32_t align, const char* name);

// ---------------------------------------------------------------- path state
static Bit PC = BT, AS = BT;
static std::unordered_map<uint32_t, bool> facts;
static std::vector<uint32_t> factTrail;
struct PathDead {};
struct Viol { std::string kind, msg, loc; Bit cond, as; std::vector<Bit> vals; Bit pc; };
static std::vector<Viol> viols;
struct AbsPair { Bit a, b; };
static std::vector<AbsPair> absPairs;
static std::vector<std::string> covers; static std::set<std::string> coverSeen;
static std::vector<std::pair<std::string, Bit>> coverPend;
static std::map<std::string, uint64_t> stat;
static std::set<std::string> fnExec, fnIntercepted;
static std::set<std::string> mutGlobals;
static uint64_t nInst = 0, nFork = 0, nObl = 0, nOblTriv = 0, nPaths = 0, nOpaque = 0;
static uint32_t inputSeq = 0;
static int forkDepth = 0;
static std::vector<std::string> callStack;

static Instruction* curI = nullptr;
static std::string locOf(Instruction* I) {
  if (!I) return "?";
  std::string s = I->getFunction()->getName().str();
  if (DebugLoc d = I->getDebugLoc()) { s += ":" + std::to_string(d.getLine()); if (auto* sc = dyn_cast<DIScope>(d.getScope())) s = sc->getFilename().str() + ":" + s; }
  return s;
}
static void writeResult(const std::string& status, const std::string& msg);
static bool dieWithFindings();
static bool dying = false;
static void die(const std::string& s) {
  std::string m = s + " at " + locOf(curI);
  // obligations recorded before the exploration had to stop are still decided
  if (!dying) { dying = true; if (dieWithFindings()) { writeResult("violation", m); fflush(nullptr); _exit(1); } }
  fprintf(stderr, "fsym: error: %s\n", m.c_str());
  for (auto it = callStack.rbegin(); it != callStack.rend() && it - callStack.rbegin() < 12; ++it) fprintf(stderr, "   in %s\n", it->c_str());
  writeResult("error", m);
  fflush(nullptr);
  _exit(3);
}
static void checkBudget() {
  if (dying) return;
  if (optTimeout && now() - tStart > optTimeout) die("time budget exhausted");
  if (G.nodes.size() > optMaxNodes) die("node budget exhausted");
}
static void addFact(Bit b) {
  uint32_t n = b >> 1; if (!n || facts.count(n)) return;
  facts[n] = !(b & 1); factTrail.push_back(n);
  // conjunctions known true give their parts
  const Node nd = G.nodes[n];
  if (!(b & 1)) {
    if (nd.kind == NK_OPQ) for (uint32_t i = 0; i < nd.n; i++) addFact(G.pool[nd.off + i]);
    else if (nd.kind == NK_MONO) for (uint32_t i = 0; i < nd.n; i++) addFact(G.pool[nd.off + i] << 1);
  }
}
static Bit simp(Bit b) {
  if (b < 2) return b;
  auto it = facts.find(b >> 1);
  if (it == facts.end()) {
    const Node nd = G.nodes[b >> 1];
    if (!facts.empty() && nd.kind == NK_OPQ) {
      bool all = true;
      for (uint32_t i = 0; i < nd.n; i++) {
        Bit x = simp(G.pool[nd.off + i]);
        if (x == BF) return BF ^ (b & 1);
        if (x != BT) all = false;
      }
      if (all) return BT ^ (b & 1);
    }
    return b;
  }
  return (Bit)it->second ^ (b & 1);
}
static void violate(const char* kind, const std::string& msg, Bit cond = BT) {
  Bit c = G.band(PC, cond);
  if (c == BF) return;
  std::string loc = locOf(curI);
  for (auto& v : viols) if (v.vals.empty() && v.kind == kind && v.loc == loc && v.msg == msg && v.as == AS) { v.cond = G.bor(v.cond, c); return; }
  if (optVerbose) fprintf(stderr, "[potential] %s %s %s\n", kind, msg.c_str(), loc.c_str());
  viols.push_back(Viol{kind, msg, loc, c, AS, {}, PC});
}
static std::map<std::pair<std::string, std::string>, int> relCount;
static void relViolate(const char* kind, const std::string& msg, const std::vector<Bit>& vals) {
  std::string loc = locOf(curI);
  int& n = relCount[{std::string(kind), loc}];
  if (n >= 3) return;
  n++;
  if (optVerbose) fprintf(stderr, "[potential] %s %s %s\n", kind, msg.c_str(), loc.c_str());
  viols.push_back(Viol{kind, msg, loc, PC, AS, vals, PC});
}
// checks on control-relevant values
static void checkControl(const SVal& v, const char* what) {
  if (v.k != V_BITS) return;
  uint8_t t = 0; for (uint32_t i = 0; i < v.w; i++) t |= G.taint(v.bit(i));
  std::vector<Bit> b;
  if (optInit && (t & TAINT_UNDEF)) { v.get(b); relViolate("uninit", std::string(what) + " depends on uninitialised memory", b); }
  if (optCT && (t & TAINT_SECRET)) { v.get(b); relViolate("ct", std::string(what) + " depends on a secret", b); }
}

static uint32_t newObj(OK kind, uint64_t size, uint32_t align, const char* name) {
  uint32_t id = M.size();
  if (id >= genOf.size()) genOf.resize(id + 1, 0);
  Obj o; o.kind = kind; o.size = size; o.align = align < 1 ? 1 : align; o.name = name; o.gen = ++genOf[id];
  o.d = std::make_shared<Data>(); o.d->st.assign(size, 2); o.d->c.assign(size, 0);
  o.alloc = PC;
  M.push_back(std::move(o));
  return id;
}
static Data& wr(uint32_t id) { if (M[id].d.use_count() > 1) M[id].d = std::make_shared<Data>(*M[id].d); return *M[id].d; }
static void symStore(Data& d) { if (d.s.empty()) d.s.resize(d.st.size()); }
// resolve an access; on failure records a violation and kills the path
static uint32_t resolve(uint64_t a, uint64_t n, bool write, uint64_t& off, uint32_t align = 1, const char* what = "access") {
  uint64_t id1 = a >> 40; std::string w = write ? "write" : "read";
  if (!id1 || id1 > M.size() || M[id1 - 1].kind == O_NONE || M[id1 - 1].gen != ((a >> 32) & 0xff)) {
    violate("memory", id1 ? "invalid pointer " + w + " (dangling stack or wild)" : (a < 4096 ? "null pointer " + w : "wild pointer " + w)); throw PathDead();
  }
  uint32_t id = id1 - 1; Obj& o = M[id];
  off = (a & 0xffffffffull) - baseOff(id);
  if ((int64_t)off < 0 || off + n > o.size) {
    violate("memory", "out-of-bounds " + w + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + o.name + " (" + std::to_string(o.size) + " bytes)");
    throw PathDead();
  }
  if (o.freed != BF) {
    Bit f = simp(o.freed);
    if (f != BF) { violate("memory", "use after free: " + w + " of " + std::string(o.name), f); if (f == BT) throw PathDead(); }
  }
  if (write && (o.kind == O_CONST || o.kind == O_FUNC)) { violate("memory", "write to constant " + std::string(o.name)); throw PathDead(); }
  if (optAlign && align > 1 && (a & (align - 1)) && a) violate("memory", "misaligned " + w + " of " + std::string(o.name) + " (alignment " + std::to_string(align) + ")");
  if (write && o.kind == O_GLOBAL && mutGlobals.size() < 1000) mutGlobals.insert(o.name);
  return id;
}
static inline Bit byteBit(const Data& d, uint64_t i, int k) { return d.st[i] == 1 ? d.s[i][k] : (Bit)((d.c[i] >> k) & 1); }
static void materialise(uint32_t id, uint64_t i) {
  Data& d = wr(id); symStore(d);
  uint32_t g = G.newGroup(std::string("uninit:") + M[id].name, GK_UNDEF, 8, TAINT_UNDEF);
  d.st[i] = 1; for (int k = 0; k < 8; k++) d.s[i][k] = G.groupBit(g, k);
}
static void loadBits(uint64_t a, uint64_t n, std::vector<Bit>& out, uint32_t align = 1) {
  uint64_t off; uint32_t id = resolve(a, n, false, off, align);
  out.resize(n * 8);
  for (uint64_t i = 0; i < n; i++) if (M[id].d->st[off + i] == 2) materialise(id, off + i);
  const Data& d = *M[id].d;
  for (uint64_t i = 0; i < n; i++) for (int k = 0; k < 8; k++) out[i * 8 + k] = byteBit(d, off + i, k);
}
static SVal loadInt(uint64_t a, uint32_t w, uint32_t align) {
  uint64_t n = (w + 7) / 8, off; uint32_t id = resolve(a, n, false, off, align);
  const Data& d = *M[id].d;
  if (w <= 64) {
    bool ok = true; uint64_t x = 0;
    for (uint64_t i = 0; i < n; i++) { if (d.st[off + i]) { ok = false; break; } x |= (uint64_t)d.c[off + i] << (8 * i); }
    if (ok) return SVal::conc(x, w);
  }
  std::vector<Bit> b; loadBits(a, n, b, 1); b.resize(w);
  return SVal::bits(b);
}
static void storeBits(uint64_t a, const Bit* b, uint64_t n, uint32_t align = 1) {
  uint64_t off; uint32_t id = resolve(a, n, true, off, align);
  Data& d = wr(id);
  for (uint64_t i = 0; i < n; i++) {
    uint8_t x = 0; bool c = true;
    for (int k = 0; k < 8; k++) { if (b[i * 8 + k] > 1) { c = false; break; } x |= b[i * 8 + k] << k; }
    if (c) { d.st[off + i] = 0; d.c[off + i] = x; }
    else { symStore(d); d.st[off + i] = 1; memcpy(&d.s[off + i][0], b + i * 8, 8 * sizeof(Bit)); }
  }
}
static void storeInt(uint64_t a, const SVal& v, uint32_t align) {
  uint64_t n = (v.w + 7) / 8;
  if (v.isConc()) {
    uint64_t off; uint32_t id = resolve(a, n, true, off, align); Data& d = wr(id);
    for (uint64_t i = 0; i < n; i++) { d.st[off + i] = 0; d.c[off + i] = i < 8 ? v.c >> (8 * i) : 0; }
    return;
  }
  std::vector<Bit> b; v.get(b); b.resize(n * 8, BF);
  storeBits(a, b.data(), n, align);
}
static void copyBytes(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  uint64_t so, d0; uint32_t si = resolve(src, n, false, so, 1), di = resolve(dst, n, true, d0, 1);
  if (optInit) {}  // copying uninitialised bytes is not an error by itself
  Data tmp; const Data& s = *M[si].d;
  tmp.st.assign(s.st.begin() + so, s.st.begin() + so + n); tmp.c.assign(s.c.begin() + so, s.c.begin() + so + n);
  if (!s.s.empty()) tmp.s.assign(s.s.begin() + so, s.s.begin() + so + n);
  // uninitialised bytes are given one fresh value shared by source and copy
  for (uint64_t i = 0; i < n; i++) if (tmp.st[i] == 2) { materialise(si, so + i); tmp.st[i] = 1; if (tmp.s.empty()) tmp.s.resize(n); tmp.s[i] = M[si].d->s[so + i]; }
  Data& d = wr(di);
  for (uint64_t i = 0; i < n; i++) { d.st[d0 + i] = tmp.st[i]; d.c[d0 + i] = tmp.c[i]; if (tmp.st[i] == 1) { symStore(d); d.s[d0 + i] = tmp.s[i]; } }
}
static void setBytes(uint64_t dst, const SVal& b, uint64_t n) {
  if (!n) return;
  uint64_t off; uint32_t id = resolve(dst, n, true, off); Data& d = wr(id);
  if (b.isConc()) { memset(&d.st[off], 0, n); memset(&d.c[off], (int)(b.c & 0xff), n); return; }
  symStore(d);
  for (uint64_t i = 0; i < n; i++) { d.st[off + i] = 1; for (int k = 0; k < 8; k++) d.s[off + i][k] = b.bit(k); }
}
static std::string loadStr(uint64_t a) {
  std::string s;
  for (;; a++) { SVal v = loadInt(a, 8, 1); if (!v.isConc()) die("symbolic string"); if (!v.c) return s; s.push_back((char)v.c); }
}

// ---------------------------------------------------------------- bit-vector arithmetic
static Bit bx(Bit a, Bit b) {
  if (optCutChi && a > 1 && b > 1) {
    // x ^ (y & z): name the result, so that the linear closure of one round stays small
    auto opq = [](Bit t) { return G.nodes[t >> 1].kind == NK_OPQ; };
    if (opq(a) != opq(b)) {
      Bit r = G.bxor(a, b);
      if (r < 2) return r;
      static std::unordered_map<uint32_t, uint32_t>* cut = new std::unordered_map<uint32_t, uint32_t>();
      static BitGraph* gp = nullptr; static size_t epoch = 0;
      if (gp != &G || epoch > G.nodes.size()) { cut->clear(); gp = &G; }
      epoch = G.nodes.size();
      if (G.nodes[r >> 1].kind != NK_XOR) return r;
      auto it = cut->find(r >> 1);
      uint32_t v;
      if (it != cut->end()) v = it->second;
      else {
        uint32_t g = G.newGroup("cut", GK_ALIAS, 1, 0);
        G.groups[g].def = {(Bit)((r >> 1) << 1)}; G.nodes[G.groups[g].first].taint = G.taint(r);
        v = G.groups[g].first; (*cut)[r >> 1] = v;
      }
      return (v << 1) | (r & 1);
    }
  }
  return G.bxor(a, b);
}
static SVal mk(std::vector<Bit>& b) { return SVal::bits(b); }
static SVal addc(const SVal& a, const SVal& b, Bit cin, bool invB) {
  uint32_t w = a.w;
  std::vector<Bit> r(w); Bit c = cin;
  for (uint32_t i = 0; i < w; i++) {
    Bit x = a.bit(i), y = b.bit(i) ^ (invB ? 1 : 0);
    Bit xy = G.bxor(x, y);
    r[i] = G.bxor(xy, c);
    if (i + 1 < w) {
      if (x < 2 && y < 2) c = (x == y) ? x : c;
      else if (x < 2 || y < 2) { Bit k = x < 2 ? x : y, z = x < 2 ? y : x; c = k ? G.bor(z, c) : G.band(z, c); }
      else c = G.bxor(G.band(x, y), G.band(c, xy));
    }
  }
  return mk(r);
}
static Bit ult(const SVal& a, const SVal& b) {  // a < b unsigned
  Bit lt = BF;
  for (uint32_t i = 0; i < a.w; i++) {
    Bit x = a.bit(i), y = b.bit(i), d = G.bxor(x, y);
    lt = G.ite(d, y, lt);
  }
  return lt;
}
static Bit eqv(const SVal& a, const SVal& b) {
  std::vector<Bit> d;
  for (uint32_t i = 0; i < a.w; i++) { Bit x = G.bxor(a.bit(i), b.bit(i)); if (x == BT) return BF; if (x != BF) d.push_back(x); }
  return G.borAll(d) ^ 1;
}
static SVal iteV(Bit c, const SVal& a, const SVal& b);
static SVal iteV(Bit c, const SVal& a, const SVal& b) {
  if (c == BT) return a;
  if (c == BF) return b;
  if (a.k == V_NONE) return b;
  if (b.k == V_NONE) return a;
  if (a.isAgg()) {
    std::vector<SVal> e; for (size_t i = 0; i < a.elems().size(); i++) e.push_back(iteV(c, a.elems()[i], b.elems()[i]));
    return SVal::agg(std::move(e));
  }
  if (a.isConc() && b.isConc() && a.c == b.c) return a;
  std::vector<Bit> r(a.w);
  for (uint32_t i = 0; i < a.w; i++) r[i] = G.ite(c, a.bit(i), b.bit(i));
  return mk(r);
}
static SVal shiftConst(unsigned op, const SVal& a, uint64_t s) {
  uint32_t w = a.w; std::vector<Bit> r(w);
  for (uint32_t i = 0; i < w; i++) {
    if (op == Instruction::Shl) r[i] = i >= s ? a.bit(i - s) : BF;
    else if (op == Instruction::LShr) r[i] = i + s < w ? a.bit(i + s) : BF;
    else r[i] = a.bit(i + s < w ? i + s : w - 1);
  }
  return mk(r);
}
static SVal mulv(const SVal& a, const SVal& b) {
  uint32_t w = a.w; SVal acc = w <= 64 ? SVal::conc(0, w) : SVal::bits(std::vector<Bit>(w, BF));
  for (uint32_t i = 0; i < w; i++) {
    Bit m = b.bit(i); if (m == BF) continue;
    std::vector<Bit> t(w, BF); for (uint32_t k = i; k < w; k++) t[k] = G.band(a.bit(k - i), m);
    acc = addc(acc, mk(t), BF, false);
  }
  return acc;
}
static void udivrem(const SVal& a, const SVal& b, SVal& q, SVal& r) {
  uint32_t w = a.w;
  std::vector<Bit> rem(w + 1, BF), qq(w, BF);
  SVal bw; { std::vector<Bit> t; b.get(t); t.push_back(BF); bw = mk(t); }
  for (int i = w - 1; i >= 0; i--) {
    for (int k = w; k > 0; k--) rem[k] = rem[k - 1];
    rem[0] = a.bit(i);
    SVal rv = SVal::bits(rem); Bit ge = ult(rv, bw) ^ 1; qq[i] = ge;
    SVal sub = addc(rv, bw, BT, true);
    for (uint32_t k = 0; k <= w; k++) rem[k] = G.ite(ge, sub.bit(k), rem[k]);
  }
  q = mk(qq); rem.resize(w); r = mk(rem);
}
static int64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static SVal undefV(uint32_t w) { uint32_t g = G.newGroup("poison", GK_UNDEF, w, TAINT_UNDEF); std::vector<Bit> b(w); for (uint32_t i = 0; i < w; i++) b[i] = G.groupBit(g, i); return mk(b); }
static SVal binop(unsigned op, const SVal& a, const SVal& b) {
  if (a.isAgg()) {
    std::vector<SVal> e; auto &x = a.elems(), &y = b.elems(); e.reserve(x.size());
    for (size_t i = 0; i < x.size(); i++) e.push_back(binop(op, x[i], y[i]));
    return SVal::agg(std::move(e));
  }
  uint32_t w = a.w;
  if (a.isConc() && b.isConc()) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return SVal::conc(x + y, w);
      case Instruction::Sub: return SVal::conc(x - y, w);
      case Instruction::Mul: return SVal::conc(x * y, w);
      case Instruction::And: return SVal::conc(x & y, w);
      case Instruction::Or: return SVal::conc(x | y, w);
      case Instruction::Xor: return SVal::conc(x ^ y, w);
      case Instruction::Shl: if (y >= w) return undefV(w); return SVal::conc(x << y, w);
      case Instruction::LShr: if (y >= w) return undefV(w); return SVal::conc(x >> y, w);
      case Instruction::AShr: if (y >= w) return undefV(w); return SVal::conc((uint64_t)(sx(x, w) >> y), w);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (!y) { violate("memory", "division by zero"); throw PathDead(); }
        if (op == Instruction::UDiv) return SVal::conc(x / y, w);
        if (op == Instruction::URem) return SVal::conc(x % y, w);
        if (op == Instruction::SDiv) return SVal::conc((uint64_t)(sx(x, w) / sx(y, w)), w);
        return SVal::conc((uint64_t)(sx(x, w) % sx(y, w)), w);
    }
  }
  switch (op) {
    case Instruction::And: { std::vector<Bit> r(w); for (uint32_t i = 0; i < w; i++) r[i] = G.band(a.bit(i), b.bit(i)); return mk(r); }
    case Instruction::Or: { std::vector<Bit> r(w); for (uint32_t i = 0; i < w; i++) r[i] = G.bor(a.bit(i), b.bit(i)); return mk(r); }
    case Instruction::Xor: { std::vector<Bit> r(w); for (uint32_t i = 0; i < w; i++) r[i] = bx(a.bit(i), b.bit(i)); return mk(r); }
    case Instruction::Add: return addc(a, b, BF, false);
    case Instruction::Sub: return addc(a, b, BT, true);
    case Instruction::Mul: { if (a.isConc()) return mulv(b, a); return mulv(a, b); }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      if (b.isConc()) { if (b.c >= w) return undefV(w); return shiftConst(op, a, b.c); }
      else {
        SVal r = a;
        for (uint32_t k = 0; k < b.w; k++) {
          Bit s = b.bit(k); if (s == BF) continue;
          if (k >= 31 || (1u << k) >= w) { r = iteV(s, undefV(w), r); continue; }
          r = iteV(s, shiftConst(op, r, 1u << k), r);
        }
        return r;
      }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      checkControl(a, "division operand"); checkControl(b, "division operand");
      std::vector<Bit> nz; b.get(nz); Bit z = G.borAll(nz) ^ 1; if (z != BF) violate("memory", "division by zero", z);
      SVal x = a, y = b; Bit sa = BF, sb = BF; bool sg = op == Instruction::SDiv || op == Instruction::SRem;
      if (sg) {
        sa = a.bit(w - 1); sb = b.bit(w - 1); SVal zero = SVal::conc(0, w);
        x = iteV(sa, addc(zero, a, BT, true), a); y = iteV(sb, addc(zero, b, BT, true), b);
      }
      SVal q, r; udivrem(x, y, q, r);
      if (sg) { SVal zero = SVal::conc(0, w); q = iteV(G.bxor(sa, sb), addc(zero, q, BT, true), q); r = iteV(sa, addc(zero, r, BT, true), r); }
      return (op == Instruction::UDiv || op == Instruction::SDiv) ? q : r;
    }
  }
  die("unsupported binary operator");
}
static SVal icmp(CmpInst::Predicate p, const SVal& a, const SVal& b) {
  if (a.isAgg()) {
    std::vector<SVal> e; for (size_t i = 0; i < a.elems().size(); i++) e.push_back(icmp(p, a.elems()[i], b.elems()[i]));
    return SVal::agg(std::move(e));
  }
  uint32_t w = a.w;
  if (a.isConc() && b.isConc()) {
    uint64_t x = a.c, y = b.c; int64_t s = sx(x, w), t = sx(y, w); bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
      case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
      default: die("icmp");
    }
    return SVal::conc(r, 1);
  }
  auto flip = [&](const SVal& v) { std::vector<Bit> t; v.get(t); t[w - 1] ^= 1; return mk(t); };
  Bit r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = eqv(a, b); break; case CmpInst::ICMP_NE: r = eqv(a, b) ^ 1; break;
    case CmpInst::ICMP_ULT: r = ult(a, b); break; case CmpInst::ICMP_UGE: r = ult(a, b) ^ 1; break;
    case CmpInst::ICMP_UGT: r = ult(b, a); break; case CmpInst::ICMP_ULE: r = ult(b, a) ^ 1; break;
    case CmpInst::ICMP_SLT: r = ult(flip(a), flip(b)); break; case CmpInst::ICMP_SGE: r = ult(flip(a), flip(b)) ^ 1; break;
    case CmpInst::ICMP_SGT: r = ult(flip(b), flip(a)); break; case CmpInst::ICMP_SLE: r = ult(flip(b), flip(a)) ^ 1; break;
    default: die("icmp");
  }
  return SVal::bits(&r, 1);
}

// ---------------------------------------------------------------- program
struct Opnd { int reg; SVal cst; };
struct PhiIn { int pred; Opnd v; };
struct PFunc;
enum CallK : uint8_t { C_NONE, C_DEF, C_INTR, C_FS, C_LIB, C_IND, C_ASM };
struct PInst {
  Instruction* I; unsigned op; int dst = -1; std::vector<Opnd> ops;
  std::vector<std::pair<int, uint64_t>> gep; int64_t gepC = 0;
  int succ[2] = {-1, -1};
  uint32_t align = 1; Type* ty = nullptr; uint32_t w = 0;
  CallK ck = C_NONE; Function* callee = nullptr; PFunc* pf = nullptr; int intr = 0; std::string cname;
};
struct PBlock { BasicBlock* BB; std::vector<PInst> phis; std::vector<std::vector<PhiIn>> phiIn; std::vector<PInst> insts; int ipdom = -1; bool live = true; };
struct PFunc { Function* F; int nregs = 0; std::vector<PBlock> blocks; std::string name; bool ready = false; };
static Module* Mod; static const DataLayout* DL;
static std::map<Function*, PFunc*> pfuncs;
static std::map<const GlobalValue*, uint32_t> gobj;
static std::map<std::string, Function*> fnByName;

static uint32_t bitsOf(Type* t) { if (t->isPointerTy()) return 64; return DL->getTypeSizeInBits(t).getFixedValue(); }
static SVal zeroOf(Type* t) {
  if (t->isIntegerTy() || t->isPointerTy()) { uint32_t w = bitsOf(t); return w <= 64 ? SVal::conc(0, w) : SVal::bits(std::vector<Bit>(w, BF)); }
  std::vector<SVal> e;
  if (auto* v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); i++) e.push_back(zeroOf(v->getElementType()));
  else if (auto* a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) e.push_back(zeroOf(a->getElementType()));
  else if (auto* s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) e.push_back(zeroOf(s->getElementType(i)));
  else die("zeroOf type");
  return SVal::agg(std::move(e));
}
static SVal undefOf(Type* t) {
  if (t->isIntegerTy() || t->isPointerTy()) return undefV(bitsOf(t));
  std::vector<SVal> e;
  if (auto* v = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < v->getNumElements(); i++) e.push_back(undefOf(v->getElementType()));
  else if (auto* a = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < a->getNumElements(); i++) e.push_back(undefOf(a->getElementType()));
  else if (auto* s = dyn_cast<StructType>(t)) for (unsigned i = 0; i < s->getNumElements(); i++) e.push_back(undefOf(s->getElementType(i)));
  else die("undefOf type");
  return SVal::agg(std::move(e));
}
static SVal apV(const APInt& a) {
  uint32_t w = a.getBitWidth();
  if (w <= 64) return SVal::conc(a.getZExtValue(), w);
  std::vector<Bit> b(w); for (uint32_t i = 0; i < w; i++) b[i] = a[i]; return SVal::bits(b);
}
static uint32_t globalObj(const GlobalValue* g);
static SVal constV(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) return apV(ci->getValue());
  if (isa<ConstantPointerNull>(c)) return SVal::conc(0, 64);
  if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (isa<UndefValue>(c)) return undefOf(t);
  if (auto* gv = dyn_cast<GlobalValue>(c)) return SVal::conc(addrOf(globalObj(gv)), 64);
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<SVal> e; for (unsigned i = 0; i < cd->getNumElements(); i++) e.push_back(constV(cd->getElementAsConstant(i)));
    return SVal::agg(std::move(e));
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<SVal> e; for (unsigned i = 0; i < ca->getNumOperands(); i++) e.push_back(constV(ca->getOperand(i)));
    return SVal::agg(std::move(e));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("constant gep");
        return SVal::conc(constV(ce->getOperand(0)).c + off.getSExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constV(ce->getOperand(0));
      case Instruction::Trunc: return SVal::conc(constV(ce->getOperand(0)).c, bitsOf(t));
      default: return binop(ce->getOpcode(), constV(ce->getOperand(0)), constV(ce->getOperand(1)));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); die("unsupported constant " + os.str());
}
static uint64_t szOf(Type* t) { return DL->getTypeAllocSize(t).getFixedValue(); }
static void storeVal(uint64_t a, const SVal& v, Type* t, uint32_t align);
static SVal loadVal(uint64_t a, Type* t, uint32_t align) {
  if (t->isIntegerTy() || t->isPointerTy()) return loadInt(a, bitsOf(t), align);
  std::vector<SVal> e;
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint32_t ew = bitsOf(v->getElementType());
    if (ew % 8) die("vector of sub-byte elements in memory");
    for (unsigned i = 0; i < v->getNumElements(); i++) e.push_back(loadInt(a + i * (ew / 8), ew, i ? 1 : align));
  } else if (auto* ar = dyn_cast<ArrayType>(t)) { uint64_t s = szOf(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) e.push_back(loadVal(a + i * s, ar->getElementType(), 1)); }
  else if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) e.push_back(loadVal(a + L->getElementOffset(i), st->getElementType(i), 1)); }
  else die("load type");
  return SVal::agg(std::move(e));
}
static void storeVal(uint64_t a, const SVal& v, Type* t, uint32_t align) {
  if (t->isIntegerTy() || t->isPointerTy()) { storeInt(a, v, align); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint32_t ew = bitsOf(vt->getElementType()); if (ew % 8) die("vector of sub-byte elements in memory");
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeInt(a + i * (ew / 8), v.elems()[i], i ? 1 : align);
  } else if (auto* ar = dyn_cast<ArrayType>(t)) { uint64_t s = szOf(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) storeVal(a + i * s, v.elems()[i], ar->getElementType(), 1); }
  else if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(a + L->getElementOffset(i), v.elems()[i], st->getElementType(i), 1); }
  else die("store type");
}
static bool initing = false;
static void initGlobal(uint64_t a, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { setBytes(a, SVal::conc(0, 8), DL->getTypeStoreSize(t).getFixedValue()); return; }
  if (isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t s = szOf(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) storeInt(a + i * s, constV(cd->getElementAsConstant(i)), 1); return; }
  if (isa<ConstantAggregate>(c)) {
    if (auto* st = dyn_cast<StructType>(t)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(a + L->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
    uint64_t s = szOf(isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType());
    for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(a + i * s, cast<Constant>(c->getOperand(i)));
    return;
  }
  storeInt(a, constV(c), 1);
}
static uint32_t globalObj(const GlobalValue* g) {
  auto it = gobj.find(g); if (it != gobj.end()) return it->second;
  die("unknown global " + g->getName().str());
}
static void initGlobals() {
  gobj.clear();
  for (auto& f : *Mod) { uint32_t id = newObj(O_FUNC, 1, 16, strdup(f.getName().str().c_str())); M[id].fn = &f; gobj[&f] = id; }
  for (auto& g : Mod->globals()) { uint32_t id = newObj(O_GLOBAL, szOf(g.getValueType()), g.getAlign() ? g.getAlign()->value() : 1, strdup(g.getName().str().c_str())); gobj[&g] = id; }
  for (auto& g : Mod->globals()) if (g.hasInitializer()) { initGlobal(addrOf(gobj[&g]), g.getInitializer()); if (g.isConstant()) M[gobj[&g]].kind = O_CONST; }
  mutGlobals.clear();
}

static std::string baseName(StringRef n) {
  std::string s = n.str(); size_t d = s.rfind('.');
  if (d != std::string::npos && d + 1 < s.size() && s.find_first_not_of("0123456789", d + 1) == std::string::npos) s.resize(d);
  return s;
}
enum FS { FS_SYMBOLIC, FS_SECRET, FS_DECLASSIFY, FS_UNDEF, FS_ASSUME, FS_ASSERT, FS_ASSERT_EQ, FS_CHOOSE, FS_COVER, FS_UF, FS_UFP, FS_SP_NEW, FS_SP_ADD, FS_SP_OUT, FS_SP_PUB, FS_LUF, FS_GFVAR, FS_GFMUL, FS_GF_EQ, FS_GFIN, FS_CHECK_INIT, FS_CHECK_PUB, FS_CHECK_LEAKS, FS_ANF, FS_NATIVE, FS_PRINT, FS_CUTCHI, FS_ISCONC, FS_DUMP, FS_CONCEQ, FS_MARK, FS_MAYEQ };
static const std::map<std::string, int> fsNames = {
  {"fs_symbolic", FS_SYMBOLIC}, {"fs_secret", FS_SECRET}, {"fs_declassify", FS_DECLASSIFY}, {"fs_undef", FS_UNDEF}, {"fs_assume", FS_ASSUME}, {"fs_assert", FS_ASSERT}, {"fs_assert_eq", FS_ASSERT_EQ}, {"fs_choose", FS_CHOOSE}, {"fs_cover", FS_COVER}, {"fs_uf", FS_UF}, {"fs_uf_public", FS_UFP}, {"fs_sp_new", FS_SP_NEW}, {"fs_sp_add", FS_SP_ADD}, {"fs_sp_out", FS_SP_OUT}, {"fs_sp_public", FS_SP_PUB}, {"fs_luf", FS_LUF}, {"fs_gfvar", FS_GFVAR}, {"fs_gfmul", FS_GFMUL}, {"fs_gf_assert_eq", FS_GF_EQ}, {"fs_check_init", FS_CHECK_INIT}, {"fs_check_public", FS_CHECK_PUB}, {"fs_check_leaks", FS_CHECK_LEAKS}, {"fs_anf", FS_ANF}, {"fs_native", FS_NATIVE}, {"fs_print", FS_PRINT}, {"fs_cutchi", FS_CUTCHI}, {"fs_isconc", FS_ISCONC}, {"fs_dump", FS_DUMP}, {"fs_same", FS_CONCEQ}, {"fs_mark", FS_MARK}};
static const std::set<std::string> libNames = {"malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memalign", "memcpy", "memmove", "memset", "memcmp", "bcmp", "explicit_bzero", "bzero", "__assert_fail", "abort", "strlen", "exit", "__errno_location", "memchr", "printf", "puts", "putchar", "fprintf", "__memcpy_chk", "__memset_chk", "__explicit_bzero_chk"};

static Opnd mkOp(DenseMap<const Value*, int>& rm, Value* v) {
  Opnd o; o.reg = -1;
  if (auto* c = dyn_cast<Constant>(v)) { if (isa<UndefValue>(c)) { o.reg = -2; return o; } o.cst = constV(c); return o; }
  auto it = rm.find(v);
  if (it == rm.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o; die("operand"); }
  o.reg = it->second; return o;
}
static PFunc* prep(Function* F) {
  PFunc*& slot = pfuncs[F];
  if (slot) return slot;
  PFunc* P = slot = new PFunc; P->F = F; P->name = F->getName().str();
  Instruction* saved = curI;
  DenseMap<const Value*, int> rm; DenseMap<const BasicBlock*, int> bm;
  for (auto& a : F->args()) rm[&a] = P->nregs++;
  int nb = 0; for (auto& b : *F) { bm[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) rm[&i] = P->nregs++; }
  P->blocks.resize(nb);
  // post-dominators over blocks that can reach a return
  std::vector<std::vector<int>> succ(nb), pred(nb); std::vector<char> reach(nb, 0); std::vector<int> st;
  { int k = 0; for (auto& b : *F) { for (BasicBlock* s : successors(&b)) { succ[k].push_back(bm[s]); pred[bm[s]].push_back(k); } if (isa<ReturnInst>(b.getTerminator())) { reach[k] = 1; st.push_back(k); } k++; } }
  while (!st.empty()) { int x = st.back(); st.pop_back(); for (int p : pred[x]) if (!reach[p]) { reach[p] = 1; st.push_back(p); } }
  {
    // iterative dataflow with bitsets (functions are small)
    typedef std::vector<uint64_t> BS; int wn = (nb + 64) / 64; std::vector<BS> pd(nb, BS(wn, ~0ull));
    auto has = [&](BS& b, int i) { return b[i / 64] >> (i % 64) & 1; };
    bool ch = true;
    while (ch) {
      ch = false;
      for (int b = nb - 1; b >= 0; b--) if (reach[b]) {
        BS n(wn, ~0ull); bool any = false;
        for (int s : succ[b]) if (reach[s]) { any = true; for (int i = 0; i < wn; i++) n[i] &= pd[s][i]; }
        if (!any || isa<ReturnInst>(std::next(F->begin(), b)->getTerminator())) n.assign(wn, 0);
        n[b / 64] |= 1ull << (b % 64);
        if (n != pd[b]) { pd[b] = n; ch = true; }
      }
    }
    for (int b = 0; b < nb; b++) if (reach[b]) {
      // immediate: the strict post-dominator with the largest post-dominator set
      int best = -1; int bc = -1;
      for (int c = 0; c < nb; c++) if (c != b && reach[c] && has(pd[b], c)) { int cnt = 0; for (auto x : pd[c]) cnt += __builtin_popcountll(x); if (cnt > bc) { bc = cnt; best = c; } }
      P->blocks[b].ipdom = best;
    }
  }
  int bi = 0;
  for (auto& b : *F) {
    PBlock& PB = P->blocks[bi]; PB.BB = &b; PB.live = reach[bi]; bi++;
    for (auto& i : b) {
      curI = &i;
      PInst p; p.I = &i; p.op = i.getOpcode(); p.ty = i.getType();
      if (!i.getType()->isVoidTy()) p.dst = rm[&i];
      if (auto* ph = dyn_cast<PHINode>(&i)) {
        std::vector<PhiIn> in;
        for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) in.push_back({bm[ph->getIncomingBlock(k)], mkOp(rm, ph->getIncomingValue(k))});
        PB.phis.push_back(p); PB.phiIn.push_back(in); continue;
      }
      if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { p.ops.push_back(mkOp(rm, br->getCondition())); p.succ[0] = bm[br->getSuccessor(0)]; p.succ[1] = bm[br->getSuccessor(1)]; }
        else p.succ[0] = bm[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        p.ops.push_back(mkOp(rm, sw->getCondition()));
        p.succ[0] = bm[sw->getDefaultDest()];
        for (auto& cs : sw->cases()) { p.gep.push_back({bm[cs.getCaseSuccessor()], cs.getCaseValue()->getZExtValue()}); }
      } else if (auto* ge = dyn_cast<GetElementPtrInst>(&i)) {
        p.ops.push_back(mkOp(rm, ge->getPointerOperand()));
        if (ge->getType()->isVectorTy()) die("vector gep");
        for (auto it = gep_type_begin(ge), e = gep_type_end(ge); it != e; ++it) {
          Value* idx = it.getOperand();
          if (StructType* stt = it.getStructTypeOrNull()) { p.gepC += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t s = szOf(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) p.gepC += ci->getSExtValue() * (int64_t)s;
          else { p.gep.push_back({(int)p.ops.size(), s}); p.ops.push_back(mkOp(rm, idx)); }
        }
      } else if (auto* cb = dyn_cast<CallInst>(&i)) {
        for (auto& a : cb->args()) p.ops.push_back(mkOp(rm, a.get()));
        if (cb->isInlineAsm()) { p.ck = C_ASM; PB.insts.push_back(p); continue; }
        Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf) { p.ck = C_IND; p.ops.push_back(mkOp(rm, cb->getCalledOperand())); PB.insts.push_back(p); continue; }
        p.callee = cf; p.cname = cf->getName().str();
        if (cf->isIntrinsic()) { p.ck = C_INTR; p.intr = cf->getIntrinsicID(); if (isa<DbgInfoIntrinsic>(&i)) continue; }
        else if (p.cname.rfind("fs_", 0) == 0) { auto it = fsNames.find(p.cname); if (it == fsNames.end()) die("unknown intrinsic " + p.cname); p.ck = C_FS; p.intr = it->second; }
        else {
          std::string bn = baseName(p.cname); auto it = fnByName.find("fsr_" + bn);
          if (it != fnByName.end() && P->name != "fsr_" + bn) { p.ck = C_DEF; p.callee = it->second; p.cname = "fsr_" + bn; fnIntercepted.insert(bn); }
          else if (!cf->isDeclaration()) p.ck = C_DEF;
          else if (libNames.count(p.cname)) p.ck = C_LIB;
          else p.ck = C_NONE;
        }
      } else {
        for (auto& o : i.operands()) p.ops.push_back(mkOp(rm, o.get()));
        if (auto* l = dyn_cast<LoadInst>(&i)) p.align = l->getAlign().value();
        if (auto* s = dyn_cast<StoreInst>(&i)) { p.align = s->getAlign().value(); p.ty = s->getValueOperand()->getType(); }
        if (auto* al = dyn_cast<AllocaInst>(&i)) { p.align = al->getAlign().value(); p.w = szOf(al->getAllocatedType()); }
        if (isa<CastInst>(&i) && (p.ty->isIntegerTy() || p.ty->isPointerTy())) p.w = bitsOf(p.ty);
      }
      PB.insts.push_back(p);
    }
  }
  P->ready = true; curI = saved;
  return P;
}

struct Frame { PFunc* P; std::vector<SVal> regs; std::vector<uint32_t> allocas; SVal ret; int pred = -1; const char* tag; };
enum Res { R_STOP, R_RET };
static SVal callFn(Function* F, std::vector<SVal>& args, CallBase* cb);
static Res run(Frame& fr, int b, int stop);

static inline SVal opv(Frame& fr, const Opnd& o, Type* t = nullptr) {
  if (o.reg >= 0) return fr.regs[o.reg];
  if (o.reg == -2) return undefOf(t);
  return o.cst;
}
// too many undetermined bits: let the solver list the feasible values (at most 64)
static bool solverVals(const std::vector<Bit>& bits, const char* what, std::vector<std::pair<uint64_t, Bit>>& out) {
  std::vector<Bit> q = {PC, AS};
  for (int t = 0; t < 65; t++) {
    Model m; SR r = querySat(q, m);
    if (r == SR_UNSAT) return true;
    if (r != SR_SAT) return false;
    std::vector<uint32_t> cone; coneOf(bits, cone, true); Sim s; s.run(cone, [](uint32_t) { return false; }, &m);
    uint64_t a = 0; Bit same = BT;
    for (size_t i = 0; i < bits.size() && i < 64; i++) { bool v = s.bit(bits[i]); a |= (uint64_t)v << i; same = G.band(same, bits[i] ^ (v ? 0 : 1)); }
    uint64_t id1 = a >> 40, off = 0; bool bad = !id1 || id1 > M.size() || M[id1 - 1].kind == O_NONE || M[id1 - 1].gen != ((a >> 32) & 0xff);
    if (!bad) { off = (a & 0xffffffffull) - baseOff(id1 - 1); bad = (int64_t)off < 0 || off >= M[id1 - 1].size; }
    if (bad && !strcmp(what, "address") && t > 8) { violate("memory", "access outside every object through an index that is not bounded", same); return false; }
    out.push_back({a, same}); q.push_back(same ^ 1);
  }
  return false;
}
// iterate over the feasible concrete values of a partially symbolic value
static void enumVals(const SVal& v, const char* what, std::function<void(uint64_t, Bit)> f) {
  if (v.isConc()) { f(v.c, BT); return; }
  std::vector<uint32_t> pos; uint64_t base = 0;
  std::vector<Bit> bits; v.get(bits);
  for (uint32_t i = 0; i < v.w; i++) { bits[i] = simp(bits[i]); if (bits[i] > 1) pos.push_back(i); else base |= (uint64_t)bits[i] << i; }
  uint64_t count = 0;
  std::function<void(size_t, uint64_t, Bit)> rec = [&](size_t k, uint64_t cur, Bit c) {
    if (c == BF) return;
    if (k == pos.size()) { if (++count > 8192) die(std::string("too many values for symbolic ") + what); f(cur, c); return; }
    Bit b = bits[pos[k]];
    rec(k + 1, cur, G.band(c, b ^ 1));
    rec(k + 1, cur | 1ull << pos[k], G.band(c, b));
  };
  if (pos.size() > 24) {
    std::vector<std::pair<uint64_t, Bit>> vs;
    if (solverVals(bits, what, vs)) { for (auto& e : vs) f(e.first, e.second); return; }
    die(std::string("symbolic ") + what + " with too many free bits");
  }
  rec(0, base, BT);
}
struct Snap { std::vector<SVal> regs; std::vector<Obj> mem; Bit pc, as; SVal ret; size_t facts; };
static void popFacts(size_t n) { while (factTrail.size() > n) { facts.erase(factTrail.back()); factTrail.pop_back(); } }
static void mergeMem(Bit c, std::vector<Obj>& A, std::vector<Obj>& B, std::vector<Obj>& out) {
  size_t n = std::max(A.size(), B.size());
  if (A.size() < n) A.resize(n);
  if (B.size() < n) B.resize(n);
  out.clear(); out.reserve(n);
  for (size_t i = 0; i < n; i++) {
    Obj &x = A[i], &y = B[i];
    if (x.kind == O_NONE) { out.push_back(std::move(y)); continue; }
    if (y.kind == O_NONE) { out.push_back(std::move(x)); continue; }
    if (x.gen != y.gen || x.size != y.size) {
      if (x.kind == O_HEAP || y.kind == O_HEAP) die("merge of different heap objects");
      // stack objects of different calls that reused the slot: both are dead
      Obj o = std::move(x); out.push_back(std::move(o)); continue;
    }
    if (x.d == y.d) { x.freed = G.ite(c, x.freed, y.freed); out.push_back(std::move(x)); continue; }
    Obj o = x; o.freed = G.ite(c, x.freed, y.freed);
    auto d = std::make_shared<Data>(*x.d);
    for (uint64_t k = 0; k < x.size; k++) {
      uint8_t sa = x.d->st[k], sb = y.d->st[k];
      if (sa == 0 && sb == 0 && x.d->c[k] == y.d->c[k]) continue;
      if (sa == 2 && sb == 2) continue;
      if (sa == 1 && sb == 1 && x.d->s[k] == y.d->s[k]) continue;
      std::array<Bit, 8> ba, bb;
      auto get = [&](const Data& q, uint8_t s, std::array<Bit, 8>& r) {
        if (s == 2) { uint32_t g = G.newGroup(std::string("uninit:") + x.name, GK_UNDEF, 8, TAINT_UNDEF); for (int j = 0; j < 8; j++) r[j] = G.groupBit(g, j); }
        else for (int j = 0; j < 8; j++) r[j] = byteBit(q, k, j);
      };
      get(*x.d, sa, ba); get(*y.d, sb, bb);
      if (d->s.empty()) d->s.resize(x.size);
      d->st[k] = 1; bool allc = true; uint8_t cv = 0;
      for (int j = 0; j < 8; j++) { d->s[k][j] = G.ite(c, ba[j], bb[j]); if (d->s[k][j] > 1) allc = false; else cv |= d->s[k][j] << j; }
      if (allc) { d->st[k] = 0; d->c[k] = cv; }
    }
    o.d = d; out.push_back(std::move(o));
  }
}
static void phis(Frame& fr, int from, int to) {
  PBlock& B = fr.P->blocks[to];
  if (B.phis.empty()) return;
  std::vector<SVal> tmp(B.phis.size());
  for (size_t i = 0; i < B.phis.size(); i++) {
    bool ok = false;
    for (auto& in : B.phiIn[i]) if (in.pred == from) { tmp[i] = opv(fr, in.v, B.phis[i].ty); ok = true; break; }
    if (!ok) die("phi");
  }
  for (size_t i = 0; i < B.phis.size(); i++) fr.regs[B.phis[i].dst] = std::move(tmp[i]);
}
static size_t mFloor = 0;
// execute both sides of a symbolic decision, then merge the states
static void forkSides(Frame& fr, Bit c, const std::function<void(int)>& side) {
  nFork++; checkBudget();
  Snap s; s.regs = fr.regs; s.mem = M; s.pc = PC; s.as = AS; s.ret = fr.ret; s.facts = factTrail.size();
  bool dead[2] = {false, false}; Snap r[2];
  size_t cs = callStack.size(), fl = mFloor;
  forkDepth++;
  for (int k = 0; k < 2; k++) {
    Bit cc = k == 0 ? c : c ^ 1;
    PC = G.band(s.pc, cc); AS = s.as; addFact(cc);
    try { side(k); } catch (PathDead&) { dead[k] = true; }
    callStack.resize(cs);
    popFacts(s.facts);
    r[k].regs.swap(fr.regs); r[k].mem.swap(M); r[k].as = AS; r[k].ret = fr.ret;
    if (k == 0) {
      fr.regs = s.regs; M = s.mem; fr.ret = s.ret;
      if (!dead[0] && r[0].mem.size() > M.size()) { M.resize(r[0].mem.size()); mFloor = M.size(); }
    }
  }
  mFloor = fl; forkDepth--;
  PC = s.pc;
  if (dead[0] && dead[1]) { fr.regs.swap(s.regs); M.swap(s.mem); AS = s.as; throw PathDead(); }
  if (dead[0] || dead[1]) {
    int k = dead[0] ? 1 : 0; Bit cc = k == 0 ? c : c ^ 1;
    fr.regs.swap(r[k].regs); M.swap(r[k].mem); fr.ret = r[k].ret;
    PC = G.band(s.pc, cc); AS = r[k].as; addFact(cc);
    return;
  }
  AS = G.ite(c, r[0].as, r[1].as);
  mergeMem(c, r[0].mem, r[1].mem, M);
  while (M.size() > mFloor && M.back().kind == O_NONE) M.pop_back();
  fr.regs.resize(s.regs.size());
  for (size_t i = 0; i < s.regs.size(); i++) {
    SVal &x = r[0].regs[i], &y = r[1].regs[i];
    if (x.k == y.k && x.w == y.w && (x.k == V_NONE || x.c == y.c)) fr.regs[i] = std::move(x);
    else if (x.k == V_NONE || y.k == V_NONE) fr.regs[i] = x.k == V_NONE ? y : x;
    else if (x.w != y.w || x.isAgg() != y.isAgg()) fr.regs[i] = SVal();
    else fr.regs[i] = iteV(c, x, y);
  }
  if (r[0].ret.k != V_NONE || r[1].ret.k != V_NONE) fr.ret = iteV(c, r[0].ret, r[1].ret);
}
// a loop with a symbolic bound? ask the solver whether both sides are feasible
static Bit decide(Bit c) {
  if (forkDepth <= 40) return c;
  if (forkDepth > 600) die("symbolic branch nesting too deep");
  Model m; if (querySat({PC, AS, c}, m) == SR_UNSAT) return BF;
  Model m2; if (querySat({PC, AS, c ^ 1}, m2) == SR_UNSAT) return BT;
  return c;
}
static SVal castV(unsigned op, const SVal& v, uint32_t w);
#include "intr.h"

static SVal castV(unsigned op, const SVal& v, uint32_t w) {
  switch (op) {
    case Instruction::ZExt: if (v.isConc() && w <= 64) return SVal::conc(v.c, w); { std::vector<Bit> b; v.get(b); b.resize(w, BF); return mk(b); }
    case Instruction::SExt: if (v.isConc() && w <= 64) return SVal::conc((uint64_t)sx(v.c, v.w), w); { std::vector<Bit> b; v.get(b); Bit s = b.back(); b.resize(w, s); return mk(b); }
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (v.w == w) return v;
      if (v.w < w) return castV(Instruction::ZExt, v, w);
      // fallthrough
    case Instruction::Trunc: if (v.isConc()) return SVal::conc(v.c, w); { std::vector<Bit> b; v.get(b); b.resize(w); return mk(b); }
  }
  die("cast");
}
static void flatBits(const SVal& v, std::vector<Bit>& o) {
  if (v.isAgg()) { for (auto& e : v.elems()) flatBits(e, o); return; }
  for (uint32_t i = 0; i < v.w; i++) o.push_back(v.bit(i));
}
static SVal unflat(Type* t, const std::vector<Bit>& b, size_t& p) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) { std::vector<SVal> e; for (unsigned i = 0; i < v->getNumElements(); i++) e.push_back(unflat(v->getElementType(), b, p)); return SVal::agg(std::move(e)); }
  uint32_t w = bitsOf(t); SVal r = SVal::bits(&b[p], w); p += w; return r;
}

static Res run(Frame& fr, int b, int stop) {
  for (;;) {
    PBlock& B = fr.P->blocks[b];
    int next = -1;
    for (size_t ii = 0; ii < B.insts.size(); ii++) {
      PInst& p = B.insts[ii];
      curI = p.I;
      if ((++nInst & 0xffff) == 0) checkBudget();
      switch (p.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
          fr.regs[p.dst] = binop(p.op, opv(fr, p.ops[0], p.ty), opv(fr, p.ops[1], p.ty)); break;
        case Instruction::ICmp: {
          Type* ot = p.I->getOperand(0)->getType();
          fr.regs[p.dst] = icmp(cast<ICmpInst>(p.I)->getPredicate(), opv(fr, p.ops[0], ot), opv(fr, p.ops[1], ot)); break;
        }
        case Instruction::Select: {
          SVal c = opv(fr, p.ops[0], p.I->getOperand(0)->getType()), x = opv(fr, p.ops[1], p.ty), y = opv(fr, p.ops[2], p.ty);
          if (c.isAgg()) { std::vector<SVal> e; for (size_t i = 0; i < c.elems().size(); i++) e.push_back(iteV(c.elems()[i].bit(0), x.elems()[i], y.elems()[i])); fr.regs[p.dst] = SVal::agg(std::move(e)); }
          else fr.regs[p.dst] = iteV(simp(c.bit(0)), x, y);
          break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
          SVal v = opv(fr, p.ops[0], p.I->getOperand(0)->getType());
          if (v.isAgg()) {
            std::vector<SVal> e; uint32_t w = bitsOf(cast<VectorType>(p.ty)->getElementType());
            for (auto& x : v.elems()) e.push_back(castV(p.op, x, w));
            fr.regs[p.dst] = SVal::agg(std::move(e));
          } else fr.regs[p.dst] = castV(p.op, v, p.w);
          break;
        }
        case Instruction::Freeze: fr.regs[p.dst] = opv(fr, p.ops[0], p.ty); break;
        case Instruction::BitCast: {
          SVal v = opv(fr, p.ops[0], p.I->getOperand(0)->getType());
          if (!v.isAgg() && !p.ty->isVectorTy()) { fr.regs[p.dst] = v; break; }
          std::vector<Bit> o; flatBits(v, o); size_t q = 0; fr.regs[p.dst] = unflat(p.ty, o, q); break;
        }
        case Instruction::GetElementPtr: {
          SVal base = opv(fr, p.ops[0], p.ty); uint64_t off = p.gepC; SVal so; bool sym = false;
          for (auto& g : p.gep) {
            SVal ix = opv(fr, p.ops[g.first], p.I->getOperand(1)->getType());
            if (ix.isConc()) off += (uint64_t)(sx(ix.c, ix.w) * (int64_t)g.second);
            else { SVal x = binop(Instruction::Mul, castV(ix.w < 64 ? (unsigned)Instruction::SExt : (unsigned)Instruction::Trunc, ix, 64), SVal::conc(g.second, 64)); so = sym ? binop(Instruction::Add, so, x) : x; sym = true; }
          }
          if (base.isConc()) base = SVal::conc(base.c + off, 64); else if (off) base = binop(Instruction::Add, base, SVal::conc(off, 64));
          if (sym) base = binop(Instruction::Add, base, so);
          fr.regs[p.dst] = std::move(base); break;
        }
        case Instruction::Load: {
          SVal a = opv(fr, p.ops[0]);
          if (a.isConc()) { fr.regs[p.dst] = loadVal(a.c, p.ty, p.align); break; }
          checkControl(a, "load address");
          std::vector<std::pair<uint64_t, SVal>> alts;
          Bit spc = PC;
          enumVals(a, "address", [&](uint64_t x, Bit c) {
            PC = G.band(spc, c);
            if (PC == BF) return;
            try { alts.push_back({x, loadVal(x, p.ty, p.align)}); } catch (PathDead&) {}
            PC = spc;
          });
          PC = spc;
          if (alts.empty()) throw PathDead();
          // multiplexer tree over the address bits
          std::function<SVal(std::vector<std::pair<uint64_t, SVal>>&, int)> mux = [&](std::vector<std::pair<uint64_t, SVal>>& l, int b) -> SVal {
            while (l.size() > 1) {
              std::vector<std::pair<uint64_t, SVal>> lo, hi; for (auto& e : l) (e.first >> b & 1 ? hi : lo).push_back(e);
              if (lo.empty() || hi.empty()) { b--; continue; }
              SVal h = mux(hi, b - 1), q = mux(lo, b - 1); return iteV(simp(a.bit(b)), h, q);
            }
            return l[0].second;
          };
          fr.regs[p.dst] = mux(alts, 63); break;
        }
        case Instruction::Store: {
          SVal v = opv(fr, p.ops[0], p.ty), a = opv(fr, p.ops[1]);
          if (a.isConc()) { storeVal(a.c, v, p.ty, p.align); break; }
          checkControl(a, "store address");
          Bit spc = PC;
          enumVals(a, "address", [&](uint64_t x, Bit c) {
            PC = G.band(spc, c); if (PC == BF) return;
            try { SVal o = loadVal(x, p.ty, p.align); storeVal(x, iteV(c, v, o), p.ty, p.align); } catch (PathDead&) {}
            PC = spc;
          });
          PC = spc; break;
        }
        case Instruction::Alloca: {
          uint64_t n = 1; if (!p.ops.empty()) { SVal c = opv(fr, p.ops[0]); if (!c.isConc()) die("symbolic alloca size"); n = c.c; }
          uint32_t id = newObj(O_STACK, n * p.w, p.align, p.I->hasName() ? fr.tag : fr.tag); fr.allocas.push_back(id);
          fr.regs[p.dst] = SVal::conc(addrOf(id), 64); break;
        }
        case Instruction::ExtractElement: {
          SVal v = opv(fr, p.ops[0], p.I->getOperand(0)->getType()), ix = opv(fr, p.ops[1]);
          if (ix.isConc()) { fr.regs[p.dst] = v.elems().at(ix.c); break; }
          SVal acc = v.elems()[0]; for (size_t i = 1; i < v.elems().size(); i++) acc = iteV(eqv(ix, SVal::conc(i, ix.w)), v.elems()[i], acc);
          checkControl(ix, "vector index"); fr.regs[p.dst] = acc; break;
        }
        case Instruction::InsertElement: {
          SVal v = opv(fr, p.ops[0], p.ty), e = opv(fr, p.ops[1], p.I->getOperand(1)->getType()), ix = opv(fr, p.ops[2]);
          if (!ix.isConc()) die("symbolic vector index");
          v.elemsMut().at(ix.c) = e; fr.regs[p.dst] = v; break;
        }
        case Instruction::ShuffleVector: {
          auto* s = cast<ShuffleVectorInst>(p.I); Type* ot = s->getOperand(0)->getType();
          SVal x = opv(fr, p.ops[0], ot), y = opv(fr, p.ops[1], ot); std::vector<SVal> e; int n = x.elems().size();
          for (int m : s->getShuffleMask()) e.push_back(m < 0 ? undefV(bitsOf(cast<VectorType>(ot)->getElementType())) : m < n ? x.elems()[m] : y.elems()[m - n]);
          fr.regs[p.dst] = SVal::agg(std::move(e)); break;
        }
        case Instruction::ExtractValue: { SVal v = opv(fr, p.ops[0], p.I->getOperand(0)->getType()); for (unsigned k : cast<ExtractValueInst>(p.I)->getIndices()) { SVal t = v.elems()[k]; v = t; } fr.regs[p.dst] = v; break; }
        case Instruction::InsertValue: {
          auto* iv = cast<InsertValueInst>(p.I); SVal v = opv(fr, p.ops[0], p.ty), e = opv(fr, p.ops[1], p.I->getOperand(1)->getType()); SVal* q = &v;
          auto idx = iv->getIndices(); for (size_t k = 0; k < idx.size(); k++) q = &q->elemsMut()[idx[k]];
          *q = e; fr.regs[p.dst] = v; break;
        }
        case Instruction::Call: {
          SVal r = doCall(fr, p);
          if (p.dst >= 0) fr.regs[p.dst] = std::move(r);
          curI = p.I;
          break;
        }
        case Instruction::Br: {
          if (p.succ[1] < 0) { next = p.succ[0]; break; }
          SVal cv = opv(fr, p.ops[0], p.I->getOperand(0)->getType()); Bit c = cv.bit(0);
          if (c > 1) { checkControl(cv, "branch condition"); c = simp(c); }
          if (c < 2) { next = c ? p.succ[0] : p.succ[1]; break; }
          c = decide(c);
          if (c < 2) { next = c ? p.succ[0] : p.succ[1]; break; }
          int J = B.ipdom;
          forkSides(fr, c, [&](int k) { int n = p.succ[k]; phis(fr, b, n); if (n != J) run(fr, n, J); });
          if (J < 0) return R_RET;
          if (J == stop) return R_STOP;
          b = J; goto cont;
        }
        case Instruction::Switch: {
          SVal v = opv(fr, p.ops[0], p.I->getOperand(0)->getType());
          if (v.isConc()) { next = p.succ[0]; for (auto& g : p.gep) if (g.second == v.c) { next = g.first; break; } break; }
          checkControl(v, "switch condition");
          // nested two-way forks to the common join
          int J = B.ipdom;
          std::function<void(size_t)> rec = [&](size_t k) {
            if (k == p.gep.size()) { phis(fr, b, p.succ[0]); if (p.succ[0] != J) run(fr, p.succ[0], J); return; }
            Bit c = simp(eqv(v, SVal::conc(p.gep[k].second, v.w)));
            if (c == BF) { rec(k + 1); return; }
            if (c == BT) { phis(fr, b, p.gep[k].first); if (p.gep[k].first != J) run(fr, p.gep[k].first, J); return; }
            forkSides(fr, c, [&](int side) { if (side == 0) { phis(fr, b, p.gep[k].first); if (p.gep[k].first != J) run(fr, p.gep[k].first, J); } else rec(k + 1); });
          };
          rec(0);
          if (J < 0) return R_RET;
          if (J == stop) return R_STOP;
          b = J; goto cont;
        }
        case Instruction::Ret:
          if (!p.ops.empty()) fr.ret = opv(fr, p.ops[0], p.I->getOperand(0)->getType());
          return R_RET;
        case Instruction::Unreachable: violate("memory", "unreachable code reached"); throw PathDead();
        default: die(std::string("unsupported instruction ") + p.I->getOpcodeName());
      }
    }
    if (next < 0) die("block without terminator");
    phis(fr, b, next);
    if (next == stop) return R_STOP;
    b = next;
  cont:;
  }
}
static SVal callFn(Function* F, std::vector<SVal>& args, CallBase* cb) {
  PFunc* P = prep(F);
  fnExec.insert(baseName(F->getName()));
  if (callStack.size() > 200) die("recursion too deep");
  callStack.push_back(P->name);
  Frame fr; fr.P = P; fr.regs.resize(P->nregs); fr.tag = P->name.c_str();
  unsigned k = 0;
  for (auto& a : F->args()) {
    if (k >= args.size()) break;
    if (a.hasByValAttr()) {
      uint64_t n = szOf(a.getParamByValType()); uint32_t al = a.getParamAlign() ? a.getParamAlign()->value() : 16;
      uint32_t id = newObj(O_STACK, n, al, fr.tag); fr.allocas.push_back(id);
      if (!args[k].isConc()) die("symbolic byval pointer");
      copyBytes(addrOf(id), args[k].c, n);
      fr.regs[k] = SVal::conc(addrOf(id), 64);
    } else fr.regs[k] = args[k];
    k++;
  }
  Instruction* saved = curI;
  auto release = [&]() {
    for (auto it = fr.allocas.rbegin(); it != fr.allocas.rend(); ++it) {
      uint32_t id = *it;
      if (id >= M.size()) continue;
      if (id + 1 == M.size() && id >= mFloor) M.pop_back();
      else { M[id].kind = O_NONE; M[id].d.reset(); }
    }
    while (M.size() > mFloor && M.back().kind == O_NONE) M.pop_back();
  };
  try { run(fr, 0, -1); }
  catch (PathDead&) { throw; }
  // allocas made on forked sides
  release();
  curI = saved;
  callStack.pop_back();
  return fr.ret;
}
#include "mainloop.h"
