// Contract-based deductive verifier for C++ through LLVM IR: generates verification conditions by
// symbolic execution of the real code (loops cut by inferred / supplied inductive invariants) and
// discharges them with z3. See /verif/DESIGN.md.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstring>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <sstream>

#include "solver.h"

using namespace llvm;
using std::map; using std::pair; using std::set; using std::shared_ptr; using std::string; using std::vector;

Ctx X;
static Solver* SV;
static Module* M;
static const DataLayout* DL;

// ------------------------------------------------------------------ options
static bool gBounded = false;
static unsigned gUnroll = 2;          // symbolic loop exits tolerated before switching to an invariant
static unsigned gBranchMs = 1500, gObMs = 20000;
static double gDeadline = 0;
static int gVerbose = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Abort { string why; };
struct Fork { E cond; };
struct PathEnd { string why; };
struct Timeout {};

// ------------------------------------------------------------------ memory
struct Content;
typedef shared_ptr<Content> CP;
struct Piece { uint64_t c; unsigned len; E val; };
enum LK { L_ZERO, L_UNDEF, L_SYM, L_CONC, L_STORE, L_COPY, L_FILL, L_HAVOC, L_FUN };
struct Layer {
  LK k;
  string uf;                             // L_SYM/L_UNDEF/L_HAVOC
  uint64_t stride = 1;
  Function* gen = nullptr; E genCtx = nullptr; // L_SYM with generator
  shared_ptr<map<uint32_t, pair<CP, vector<E>>>> genCache;
  shared_ptr<struct State> genState;      // state the region was created in: every reader's path extends it
  map<int64_t, E> m;                     // L_CONC: offset -> value
  E off = nullptr, len = nullptr, val = nullptr; // others
  CP src; E srcOff = nullptr;            // L_COPY
  E n = nullptr; vector<Piece> pieces;   // L_FUN
};
struct Content { vector<shared_ptr<Layer>> layers; };

struct Obj {
  uint64_t id;
  E size;
  bool alive = true, ro = false, heap = false, stack = false;
  string name;
  CP c;
  uint64_t stride = 1;
};
static uint64_t baseOf(uint64_t id) { return (id << 40) + (1ull << 39); }
static const uint64_t kFuncId = 0x700000;

struct Val { E e = nullptr; shared_ptr<vector<E>> agg; };

struct Frame {
  Function* f;
  BasicBlock* bb = nullptr; BasicBlock* prev = nullptr;
  BasicBlock::iterator it;
  std::unordered_map<const Value*, Val> regs;
  vector<uint64_t> allocas;
  const CallBase* call = nullptr; // call site in the caller
  vector<Val> varargs;
};
struct WriteRec { uint64_t obj; E off; E len; };
struct Inv { int arity; Function* f; E ctx; string name; bool onlyN = false, liveIn = false; };
struct NondetRec { string name; E e; };

struct State {
  vector<Frame> st;
  vector<E> pc;
  std::unordered_set<E> pcSet;
  map<uint64_t, shared_ptr<Obj>> mem;
  vector<WriteRec> writes;
  int rec = 0;
  uint64_t recIdLimit = 0;
  vector<Inv> invs;
  vector<NondetRec> nd;
  vector<pair<uint64_t, string>> regions; // (obj id, name) created by V_alloc
  BasicBlock* pending = nullptr;
  Val ret;
  vector<E> conds; // branch conditions seen while recording
  vector<E> ctxVars; // variables of enclosing loops (64-bit)
  vector<E> br;        // branch decisions taken (for merging pure evaluations)
  vector<uint64_t> freed;
  int unroll = 0;
  int forkGuard = 0;
  int ndLoopHavoc = 0;
  bool dead = false;
  bool unsure = false; // a branch of the path was not decided
};

struct Obl { string name, loc, status; vector<pair<string, u128>> model; string dump; double t; bool mem; };
static vector<Obl> gObs;
static set<string> gCovers;
static map<string, int> gAborts;
static long gPaths = 0, gThrows = 0, gProved = 0, gMemProved = 0, gInvLoops = 0, gUnrolled = 0, gPruned = 0, gInsts = 0;
static int gMute = 0, gPure = 0;
static long gChecks = 0;
static set<string> gThrowSites, gAssumed;
static std::set<const Function*> gDefer;
static set<string> gFailedKeys;
static set<string> gFuncs;       // functions executed
static set<string> gLoopInvs;    // loops proved by invariant
static set<string> gReplaced;
static std::unordered_map<const GlobalVariable*, uint64_t> gGlobId;
static std::unordered_map<uint64_t, shared_ptr<Obj>> gGlobInit;
static map<uint64_t, Function*> gFuncById;
static std::unordered_map<const Function*, uint64_t> gFuncId;
static uint64_t gNextId = 1;
static unsigned gFresh = 0;
static std::unordered_map<Function*, pair<shared_ptr<DominatorTree>, shared_ptr<LoopInfo>>> gLI;
static map<string, string> gDem;
static vector<pair<string, Function*>> gReplace;
static std::unordered_map<const Function*, Function*> gReplMemo;
static set<string> gNeedInv;
static string gOutModel;
static set<string> gNoInline;

static LoopInfo& LIof(Function* f) {
  auto& p = gLI[f];
  if (!p.first) { p.first = std::make_shared<DominatorTree>(*f); p.second = std::make_shared<LoopInfo>(*p.first); }
  return *p.second;
}
static string dem(const Function* f) {
  string n = f->getName().str();
  auto it = gDem.find(n);
  if (it != gDem.end()) return it->second;
  return gDem[n] = llvm::demangle(n);
}
static E fresh(const string& n, unsigned w) { return X.var(n + "#" + std::to_string(gFresh++), w); }
static E C64(uint64_t v) { return X.cst(v, 64); }

static string locOf(const Instruction* I) {
  const DebugLoc& d = I->getDebugLoc();
  string s = dem(I->getFunction());
  size_t p = s.find('('); if (p != string::npos) s = s.substr(0, p);
  if (d) { if (auto* sc = d->getScope()) { string fn = sc->getFilename().str(); size_t q = fn.rfind('/'); s += "@" + (q == string::npos ? fn : fn.substr(q + 1)) + ":" + std::to_string(d.getLine()); } }
  return s;
}
static string where(State& s) {
  string r;
  for (size_t i = s.st.size(); i-- > 0 && r.size() < 600;) {
    auto& f = s.st[i];
    if (f.bb && f.it != f.bb->end()) r += (r.empty() ? "" : " < ") + locOf(&*f.it);
  }
  return r;
}

// ------------------------------------------------------------------ path condition
static void addPc(State& s, E c) {
  if (c->op == CONST) { if (!c->c) s.dead = true; return; }
  if (c->op == AND) { addPc(s, c->a[0]); addPc(s, c->a[1]); return; }
  if (s.pcSet.count(X.lnot(c))) s.dead = true;
  if (s.pcSet.insert(c).second) s.pc.push_back(c);
}
static bool must(State& s, E c) {
  if (c->op == CONST) return c->c;
  if (s.pcSet.count(c)) return true;
  if (s.pcSet.count(X.lnot(c))) return false;
  if (c->op == AND) return must(s, c->a[0]) && must(s, c->a[1]);
  return SV->check(s.pc, X.lnot(c), gBranchMs) == UNSAT;
}
static bool feasible(State& s, E c) {
  if (c->op == CONST) return c->c;
  if (s.pcSet.count(c)) return true;
  if (s.pcSet.count(X.lnot(c))) return false;
  Res r = SV->check(s.pc, c, gBranchMs);
  if (r == UNKNOWN) s.unsure = true;
  return r != UNSAT;
}
static void checkTime() { if (gDeadline && now() > gDeadline) throw Timeout(); }

// model of the current path's inputs
static E readBytes(State& s, CP c, E off, unsigned n);
static Obj& getObj(State& s, uint64_t id);
static void dumpModel(State& s, Obl& o) {
  std::ostringstream os;
  set<string> seen;
  for (auto& x : s.nd) {
    u128 v;
    if (SV->value(x.e, v)) {
      o.model.push_back({x.name, v});
      os << "in " << x.name << " " << (uint64_t)v << "\n";
    }
  }
  // ghost functions and region bytes mentioned by the model
  z3::model& m = *SV->lastModel;
  for (unsigned i = 0; i < m.num_funcs(); i++) {
    z3::func_decl f = m.get_func_decl(i);
    string nm = f.name().str();
    if (nm.rfind("rg!", 0) != 0 && nm.rfind("uf!", 0) != 0) continue;
    z3::func_interp fi = m.get_func_interp(f);
    auto num = [&](z3::expr e) { string t = Z3_get_numeral_string(SV->c, e); return t; };
    string kind = nm.substr(0, 2), n2 = nm.substr(3);
    if (fi.else_value().is_numeral()) os << kind << "else " << n2 << " " << num(fi.else_value()) << "\n";
    for (unsigned k = 0; k < fi.num_entries(); k++) {
      auto en = fi.entry(k);
      os << kind << " " << n2;
      for (unsigned j = 0; j < en.num_args(); j++) os << " " << num(en.arg(j));
      os << " " << num(en.value()) << "\n";
    }
  }
  o.dump = os.str();
}

static vector<E> gSizes;
static void obligation(State& s, E cond, const string& name, const string& loc, bool mem) {
  if (gPure) return;
  if (gMute) { addPc(s, cond); return; }
  checkTime();
  if (cond->op == CONST && cond->c) { (mem ? gMemProved : gProved)++; if (!mem) gObs.push_back({name, loc, "proved", {}, "", 0, mem}); return; }
  double t0 = now();
  Res r = s.pcSet.count(cond) ? UNSAT : SV->check(s.pc, X.lnot(cond), gBranchMs * (mem ? 1 : 2));
  if (r != UNSAT && (r == UNKNOWN || SV->hasMul({cond}) || SV->hasMul(s.pc))) r = SV->check(s.pc, X.lnot(cond), gObMs, false, true);
  if (r == UNSAT) {
    (mem ? gMemProved : gProved)++;
    if (!mem) gObs.push_back({name, loc, "proved", {}, "", now() - t0, mem});
    addPc(s, cond);
    return;
  }
  string key = name + "|" + loc;
  Obl o{name, loc, r == SAT ? "failed" : "unknown", {}, "", now() - t0, mem};
  if (r == SAT) {
    Res r2 = SV->check(s.pc, X.lnot(cond), gObMs, true);
    if (r2 == SAT) {
      dumpModel(s, o);
      for (uint64_t k : {(uint64_t)8, (uint64_t)256, (uint64_t)65536}) { // prefer a small input: cheaper to replay
        if (gSizes.empty()) break;
        vector<E> pc = s.pc;
        for (E v : gSizes) pc.push_back(X.ule(v, X.cst(k, v->w)));
        if (SV->check(pc, X.lnot(cond), 2000, true) == SAT) { o.dump.clear(); dumpModel(s, o); break; }
      }
    }
    if (r2 == UNSAT) { o.status = "proved"; }
    if (r2 == UNKNOWN && (s.unsure || SV->hasMul(s.pc))) o.status = "unknown"; // the path itself may be infeasible
  }
  if (s.ndLoopHavoc) o.dump += "# path crosses an abstracted loop\n";
  if (gVerbose && o.status != "proved") {
    fprintf(stderr, "OBLIGATION %s: %s at %s\n  cond %s\n", o.status.c_str(), name.c_str(), where(s).c_str(), X.str(cond).c_str());
    if (getenv("VFY_PC")) for (E p : s.pc) fprintf(stderr, "   pc %s\n", X.str(p).c_str());
  }
  if (o.status == "proved" || gFailedKeys.insert(key + std::to_string(gFailedKeys.size() < 200 ? (long)gObs.size() : 0)).second) gObs.push_back(o);
  addPc(s, cond);
  if (s.dead) throw PathEnd{"after failed obligation"};
}

// ------------------------------------------------------------------ content access
static shared_ptr<Layer> mkLayer(LK k) { auto l = std::make_shared<Layer>(); l->k = k; return l; }

static u128 gcdCoef(E d, u128& c) { // d = c + G*(...)
  if (d->op == CONST) { c = d->c; return 0; }
  if (d->op != ADD) { c = 0; 
    u128 o = X.ones(d); if (!o) return 1; u128 low = o & (~o + 1); return low; }
  u128 g = 0;
  auto gcd = [](u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; };
  for (size_t i = 0; i < d->k.size(); i++) {
    u128 k = d->k[i];
    s128 sk = sgn(k, d->w);
    u128 ak = sk < 0 ? (u128)(-sk) : (u128)sk;
    u128 o = X.ones(d->a[i]);
    u128 low = o ? (o & (~o + 1)) : 1;
    g = gcd(g, ak * low);
  }
  if (g == 0) g = 1;
  s128 sc = sgn(d->c, d->w);
  s128 r = sc % (s128)g; if (r < 0) r += g;
  c = (u128)r;
  return g;
}

static E readAt(State& s, const CP& c, int li, E off, unsigned n);
static Val callPure(State& s, Function* f, vector<E> args, vector<E>* assumed, CP* outObj, uint64_t outSize);

static E byteOf(E v, unsigned i) { return X.extract(v, i * 8 + 7, i * 8); }

static E splitRead(State& s, const CP& c, int li, E off, unsigned n) {
  vector<E> p;
  for (unsigned i = n; i-- > 0;) p.push_back(readAt(s, c, li, X.add(off, C64(i)), 1));
  return X.concat(p);
}
static E ufRead(const string& uf, uint64_t stride, E off, unsigned n) {
  // struct-of-arrays naming: one function per byte residue
  vector<E> p;
  for (unsigned i = n; i-- > 0;) {
    E o = X.add(off, C64(i));
    E idx = o; uint64_t res = 0;
    string nm = uf;
    if (stride > 1) {
      u128 cc; u128 g = gcdCoef(o, cc);
      if (o->op == CONST) { res = (uint64_t)o->c % stride; idx = C64((uint64_t)o->c / stride); nm += "." + std::to_string(res); }
      else if (g % stride == 0) {
        // o = stride*q + r with every coefficient divisible
        E q = nullptr;
        if (o->op == ADD) {
          s128 c0 = sgn(o->c, 64); s128 r = c0 % (s128)stride; if (r < 0) r += stride;
          s128 qc = (c0 - r) / (s128)stride;
          q = C64((uint64_t)qc);
          for (size_t k = 0; k < o->a.size() && q; k++) {
            s128 kk = sgn(o->k[k], 64);
            if (kk % (s128)stride) { q = nullptr; break; }
            q = X.add(q, X.mulc(o->a[k], (u128)(kk / (s128)stride) & maskOf(64)));
          }
          res = (uint64_t)r;
        }
        if (q) { idx = q; nm += "." + std::to_string(res); }
        else return nullptr;
      } else return nullptr;
    }
    p.push_back(X.uf(nm, 8, {idx}));
  }
  return X.concat(p);
}

// multi-byte fields of a strided region become one function per (field, width)
static map<string, map<uint64_t, unsigned>> gFields;
static E ufReadField(State& s, const string& uf, uint64_t stride, E off, unsigned n) {
  if (stride <= 1) return ufRead(uf, stride, off, n);
  auto decompose = [&](E o, E& q, uint64_t& res) -> bool {
    if (o->op == CONST) { res = (uint64_t)o->c % stride; q = C64((uint64_t)o->c / stride); return true; }
    E oo = o;
    if (o->op != ADD) { return false; }
    s128 c0 = sgn(oo->c, 64); s128 r = c0 % (s128)stride; if (r < 0) r += stride;
    q = C64((uint64_t)((c0 - r) / (s128)stride));
    for (size_t k = 0; k < oo->a.size(); k++) {
      s128 kk = sgn(oo->k[k], 64);
      if (kk % (s128)stride) return false;
      q = X.add(q, X.mulc(oo->a[k], (u128)(kk / (s128)stride) & maskOf(64)));
    }
    res = (uint64_t)r; return true;
  };
  E q; uint64_t res;
  if (!decompose(off, q, res)) {
    // introduce the quotient: off = stride*q + r
    E qq = X.udiv(off, C64(stride)), rr = X.urem(off, C64(stride));
    // try a fixed residue
    if (n == stride && must(s, X.eq(rr, C64(0)))) { q = qq; res = 0; }
    else {
      for (uint64_t r = 0; r + n <= stride; r++) if (feasible(s, X.eq(rr, C64(r)))) {
        if (must(s, X.eq(rr, C64(r)))) {
          E v = X.varIn("quo#" + std::to_string(gFresh++), 64, 40);
          addPc(s, X.eq(off, X.add(X.mulc(v, stride), C64(r)))); addPc(s, X.ult(v, C64(1ull << 40)));
          q = v; res = r; goto found;
        }
        break;
      }
      throw Abort{"symbolic field offset into strided region " + uf};
      found:;
    }
  }
  if (res + n > stride) { // crosses elements: split at the border
    unsigned first = stride - res;
    E lo = ufReadField(s, uf, stride, off, first);
    E hi = ufReadField(s, uf, stride, X.add(off, C64(first)), n - first);
    return X.concat({hi, lo});
  }
  auto& fl = gFields[uf];
  // look for an existing field containing or overlapping
  auto it = fl.upper_bound(res);
  if (it != fl.begin()) {
    auto p = std::prev(it);
    if (p->first + p->second > res) {
      uint64_t fo = p->first; unsigned fw = p->second;
      E whole = X.uf(uf + "." + std::to_string(fo) + "." + std::to_string(fw), fw * 8, {q});
      uint64_t o = res - fo;
      if (o + n <= fw) return X.extract(whole, (o + n) * 8 - 1, o * 8);
      unsigned take = fw - o;
      E lo = X.extract(whole, fw * 8 - 1, o * 8);
      E hi = ufReadField(s, uf, stride, X.add(off, C64(take)), n - take);
      return X.concat({hi, lo});
    }
  }
  if (it != fl.end() && it->first < res + n) {
    unsigned first = it->first - res;
    E lo = ufReadField(s, uf, stride, off, first);
    E hi = ufReadField(s, uf, stride, X.add(off, C64(first)), n - first);
    return X.concat({hi, lo});
  }
  if (n > 8) { E lo = ufReadField(s, uf, stride, off, 8), hi = ufReadField(s, uf, stride, X.add(off, C64(8)), n - 8); return X.concat({hi, lo}); }
  fl[res] = n;
  return X.uf(uf + "." + std::to_string(res) + "." + std::to_string(n), n * 8, {q});
}

static E readAt(State& s, const CP& c, int li, E off, unsigned n) {
  if (li < 0) return fresh("undef", n * 8);
  Layer& L = *c->layers[li];
  E N = C64(n);
  switch (L.k) {
    case L_ZERO: return X.cst(0, n * 8);
    case L_UNDEF: { vector<E> p; for (unsigned i = n; i-- > 0;) p.push_back(X.uf(L.uf, 8, {X.add(off, C64(i))})); return X.concat(p); }
    case L_SYM: {
      if (L.gen) {
        uint64_t S = L.stride;
        u128 cc; E idx = nullptr; uint64_t res = 0;
        if (off->op == CONST) { idx = C64((uint64_t)off->c / S); res = (uint64_t)off->c % S; }
        else if (off->op == ADD && gcdCoef(off, cc) % S == 0) {
          s128 c0 = sgn(off->c, 64); s128 r = c0 % (s128)S; if (r < 0) r += S; bool ok = true;
          idx = C64((uint64_t)((c0 - r) / (s128)S));
          for (size_t k = 0; k < off->a.size(); k++) { s128 kk = sgn(off->k[k], 64); if (kk % (s128)S) ok = false; else idx = X.add(idx, X.mulc(off->a[k], (u128)(kk / (s128)S) & maskOf(64))); }
          res = (uint64_t)r; if (!ok) idx = nullptr;
        }
        if (!idx) {
          E rr = X.urem(off, C64(S));
          u128 rv; 
          if (SV->check(s.pc, X.tru(), gBranchMs, true) == SAT && SV->value(rr, rv) && must(s, X.eq(rr, C64((uint64_t)rv)))) {
            E v = X.varIn("quo#" + std::to_string(gFresh++), 64, 40);
            addPc(s, X.eq(off, X.add(X.mulc(v, S), C64((uint64_t)rv)))); addPc(s, X.ult(v, C64(1ull << 40)));
            idx = v; res = (uint64_t)rv;
          } else throw Abort{"symbolic field offset into generated region " + L.uf + " off=" + X.str(off)};
        }
        if (res + n > S) throw Abort{"read across generated elements"};
        auto it = L.genCache->find(idx->id);
        if (it == L.genCache->end()) {
          vector<E> as; CP out;
          callPure(*L.genState, L.gen, {L.genCtx, idx}, &as, &out, S);
          it = L.genCache->insert({idx->id, {out, as}}).first;
        }
        for (E a : it->second.second) addPc(s, a);
        return readBytes(s, it->second.first, C64(res), n);
      }
      return ufReadField(s, L.uf, L.stride, off, n);
    }
    case L_CONC: {
      if (L.m.empty()) return readAt(s, c, li - 1, off, n);
      if (off->op == CONST) {
        int64_t o = (int64_t)off->c;
        auto it = L.m.upper_bound(o);
        if (it != L.m.begin()) { auto p = std::prev(it); if (p->first + (int64_t)(p->second->w / 8) > o) it = p; }
        if (it == L.m.end() || it->first >= o + (int64_t)n) return readAt(s, c, li - 1, off, n);
        int64_t eo = it->first; unsigned ew = it->second->w / 8;
        if (eo <= o && o + n <= eo + ew) return X.extract(it->second, (o - eo + n) * 8 - 1, (o - eo) * 8);
        // piecewise
        vector<E> parts; int64_t p = o;
        while (p < o + (int64_t)n) {
          auto j = L.m.upper_bound(p);
          if (j != L.m.begin()) { auto q = std::prev(j); if (q->first + (int64_t)(q->second->w / 8) > p) j = q; }
          if (j == L.m.end() || j->first > p) {
            int64_t e = j == L.m.end() ? o + n : std::min<int64_t>(o + n, j->first);
            parts.push_back(readAt(s, c, li - 1, C64(p), e - p)); p = e;
          } else {
            int64_t e = std::min<int64_t>(o + n, j->first + j->second->w / 8);
            parts.push_back(X.extract(j->second, (e - j->first) * 8 - 1, (p - j->first) * 8)); p = e;
          }
        }
        std::reverse(parts.begin(), parts.end());
        return X.concat(parts);
      }
      if (L.m.size() > 3000) throw Abort{"symbolic read of a large concrete table"};
      E r = readAt(s, c, li - 1, off, n);
      u128 cc; u128 g = gcdCoef(off, cc);
      for (auto& kv : L.m) {
        int64_t eo = kv.first; unsigned ew = kv.second->w / 8;
        E d = X.sub(off, C64(eo));
        u128 dc; u128 dg = gcdCoef(d, dc);
        if (dg >= n && dg >= ew && dc == 0 && n == ew) { r = X.ite(X.eq(off, C64(eo)), kv.second, r); continue; }
        if (dg >= ew && dc >= ew && dc + n <= dg) continue;
        if (dg >= ew && dc + n <= ew) { r = X.ite(X.eq(d, C64((uint64_t)dc)), X.extract(kv.second, (unsigned)(dc + n) * 8 - 1, (unsigned)dc * 8), r); continue; }
        if (n == 1) {
          E in = X.ult(d, C64(ew));
          if (!feasible(s, in)) continue;
          E v = X.trunc(X.raw(LSHR, kv.second->w < 64 ? 64 : kv.second->w, {X.zext(kv.second, kv.second->w < 64 ? 64 : kv.second->w), X.mulc(kv.second->w > 64 ? X.zext(d, kv.second->w) : d, 8)}), 8);
          r = X.ite(in, v, r); continue;
        }
        E dis = X.band(X.ule(C64(ew), d), X.ule(d, C64(-(int64_t)n)));
        if (must(s, dis)) continue;
        return splitRead(s, c, li, off, n);
      }
      return r;
    }
    case L_STORE: {
      unsigned m = L.val->w / 8;
      E d = X.sub(off, L.off);
      if (d->op == CONST) {
        int64_t k = (int64_t)d->c;
        if (k >= 0 && k + n <= m) return X.extract(L.val, (k + n) * 8 - 1, k * 8);
        if (k >= (int64_t)m || k <= -(int64_t)n) return readAt(s, c, li - 1, off, n);
        return splitRead(s, c, li, off, n);
      }
      u128 dc; u128 g = gcdCoef(d, dc);
      if (g >= m && g >= n && dc == 0 && n == m) {
        E e = X.eq(off, L.off);
        if (s.pcSet.count(e)) return L.val;
        return X.ite(e, L.val, readAt(s, c, li - 1, off, n));
      }
      if (g >= m && dc >= m && dc + n <= g) return readAt(s, c, li - 1, off, n);
      if (g >= m && dc + n <= m) return X.ite(X.eq(d, C64((uint64_t)dc)), X.extract(L.val, (unsigned)(dc + n) * 8 - 1, (unsigned)dc * 8), readAt(s, c, li - 1, off, n));
      if (must(s, X.band(X.ule(C64(m), d), X.ule(d, C64(-(int64_t)n))))) return readAt(s, c, li - 1, off, n);
      if (n == m && must(s, X.eq(d, C64(0)))) return L.val;
      if (n == 1) {
        E in = X.ult(d, C64(m));
        unsigned W = L.val->w < 64 ? 64 : L.val->w;
        E v = m == 1 ? L.val : X.trunc(X.lshr(X.zext(L.val, W), X.zext(X.mulc(X.trunc(d, 16), 8), W)), 8);
        return X.ite(in, v, readAt(s, c, li - 1, off, 1));
      }
      return splitRead(s, c, li, off, n);
    }
    case L_COPY: case L_FILL: case L_HAVOC: case L_FUN: {
      E d = X.sub(off, L.off);
      auto inside = [&]() -> E {
        if (L.k == L_FILL) { vector<E> p(n, L.val); return X.concat(p); }
        if (L.k == L_HAVOC) { E r = ufReadField(s, L.uf, L.stride, off, n); return r; }
        if (L.k == L_COPY) return readBytes(s, L.src, X.add(L.srcOff, d), n);
        // L_FUN
        uint64_t S = L.stride; E q = nullptr; uint64_t res = 0;
        if (d->op == CONST) { q = C64((uint64_t)d->c / S); res = (uint64_t)d->c % S; }
        else {
          u128 cc;
          if (d->op == ADD && gcdCoef(d, cc) % S == 0) {
            s128 c0 = sgn(d->c, 64); s128 r = c0 % (s128)S; if (r < 0) r += S; bool ok = true;
            q = C64((uint64_t)((c0 - r) / (s128)S));
            for (size_t k = 0; k < d->a.size(); k++) { s128 kk = sgn(d->k[k], 64); if (kk % (s128)S) ok = false; else q = X.add(q, X.mulc(d->a[k], (u128)(kk / (s128)S) & maskOf(64))); }
            res = (uint64_t)r; if (!ok) q = nullptr;
          } else if (S == 1) { q = d; res = 0; }
        }
        auto pick = [&](E qq, uint64_t r) -> E {
          for (auto& p : L.pieces) if (p.c <= r && r + n <= p.c + p.len) {
            std::unordered_map<E, E> sm{{L.n, qq}}, memo;
            E v = X.subst(p.val, sm, memo);
            return X.extract(v, (r - p.c + n) * 8 - 1, (r - p.c) * 8);
          }
          return nullptr;
        };
        if (q) { E v = pick(q, res); if (v) return v; if (n > 1) return nullptr; return X.uf(L.uf, 8, {off}); }
        if (n > 1) return nullptr;
        E qq = fresh("quo", 64), rr = fresh("rem", 64);
        addPc(s, X.implies(X.ult(d, L.len), X.band(X.eq(d, X.add(X.mulc(qq, S), rr)), X.band(X.ult(rr, C64(S)), X.ult(qq, L.n)))));
        E r = X.uf(L.uf, 8, {off});
        for (uint64_t k = 0; k < S; k++) { E v = pick(qq, k); if (v) r = X.ite(X.eq(rr, C64(k)), v, r); }
        return r;
      };
      E in1 = X.ult(d, L.len);
      if (n == 1) {
        if (in1->op == CONST) return in1->c ? inside() : readAt(s, c, li - 1, off, 1);
        if (must(s, in1)) return inside();
        if (must(s, X.lnot(in1))) return readAt(s, c, li - 1, off, 1);
        return X.ite(in1, inside(), readAt(s, c, li - 1, off, 1));
      }
      E inAll = X.band(in1, X.ule(X.add(d, N), L.len));
      if (L.len->op == CONST && L.len->c < n) inAll = X.fls();
      E out = X.band(X.ule(L.len, d), X.ule(d, C64(-(int64_t)n)));
      if (d->op == CONST && L.len->op == CONST) { int64_t k = (int64_t)d->c; if (k <= -(int64_t)n || (k >= 0 && (u128)k >= L.len->c)) out = X.tru(); }
      if (must(s, inAll)) { E v = inside(); return v ? v : splitRead(s, c, li, off, n); }
      if (must(s, out)) return readAt(s, c, li - 1, off, n);
      // whole elements are either in or out
      uint64_t S = L.k == L_FUN || L.k == L_HAVOC ? L.stride : 0;
      if (!S || S < n) { u128 cc, lc; u128 g1 = gcdCoef(d, cc), g2 = gcdCoef(L.len, lc); auto gcd = [](u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }; u128 g = gcd(g1, g2); S = 0; if (g >= n && lc % g == 0 && (cc % g) + n <= g) S = (uint64_t)g; }
      if (S >= n) {
        u128 cc, lc; u128 g1 = gcdCoef(d, cc), g2 = gcdCoef(L.len, lc);
        if ((g1 % S == 0) && (g2 % S == 0) && lc % S == 0 && (cc % S) + n <= S) {
          E v = inside();
          if (v) return X.ite(in1, v, readAt(s, c, li - 1, off, n));
        }
      }
      return splitRead(s, c, li, off, n);
    }
  }
  return nullptr;
}
static E readBytes(State& s, CP c, E off, unsigned n) { return readAt(s, c, (int)c->layers.size() - 1, off, n); }

static Content& own(Obj& o) { if (o.c.use_count() > 1) o.c = std::make_shared<Content>(*o.c); return *o.c; }
static Layer& topConc(Content& c) {
  if (c.layers.empty() || c.layers.back()->k != L_CONC) c.layers.push_back(mkLayer(L_CONC));
  else if (c.layers.back().use_count() > 1) c.layers.back() = std::make_shared<Layer>(*c.layers.back());
  return *c.layers.back();
}
static void concErase(Layer& L, int64_t o, int64_t e) {
  auto it = L.m.upper_bound(o);
  if (it != L.m.begin()) { auto p = std::prev(it); if (p->first + (int64_t)(p->second->w / 8) > o) it = p; }
  while (it != L.m.end() && it->first < e) {
    int64_t eo = it->first; E v = it->second; int64_t ee = eo + v->w / 8;
    it = L.m.erase(it);
    if (eo < o) L.m[eo] = X.extract(v, (o - eo) * 8 - 1, 0);
    if (ee > e) { L.m[e] = X.extract(v, (ee - eo) * 8 - 1, (e - eo) * 8); it = L.m.upper_bound(e); }
  }
}
static void recordWrite(State& s, Obj& o, E off, E len) {
  if (s.rec && o.id < s.recIdLimit) s.writes.push_back({o.id, off, len});
}
static void writeBytes(State& s, Obj& o, E off, E val, bool rec = true) {
  if (rec) recordWrite(s, o, off, C64(val->w / 8));
  Content& c = own(o);
  if (off->op == CONST) {
    Layer& L = topConc(c);
    int64_t k = (int64_t)off->c;
    concErase(L, k, k + val->w / 8);
    L.m[k] = val;
    return;
  }
  if (!c.layers.empty() && c.layers.back()->k == L_STORE && c.layers.back()->off == off && c.layers.back()->val->w == val->w) c.layers.pop_back();
  auto l = mkLayer(L_STORE); l->off = off; l->val = val;
  c.layers.push_back(l);
  if (c.layers.size() > 400) throw Abort{"too many symbolic writes"};
}

// ------------------------------------------------------------------ objects
static shared_ptr<Obj> newObj(State& s, E size, const string& name, bool heap) {
  auto o = std::make_shared<Obj>();
  o->id = gNextId++; o->size = size; o->name = name; o->heap = heap;
  o->c = std::make_shared<Content>();
  auto l = mkLayer(L_UNDEF); l->uf = "undef!" + std::to_string(o->id);
  o->c->layers.push_back(l);
  s.mem[o->id] = o;
  return o;
}
static E constVal(State& s, const Constant* c);
static void initConst(State& s, Obj& o, const Constant* c, uint64_t off) {
  Type* t = c->getType();
  if (c->isNullValue() || isa<UndefValue>(c)) return; // zero layer beneath
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getElementType());
    for (unsigned i = 0; i < ca->getNumElements(); i++) initConst(s, o, ca->getElementAsConstant(i), off + i * es);
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(s, o, ca->getOperand(i), off + i * es);
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(s, o, cs->getOperand(i), off + sl->getElementOffset(i));
    return;
  }
  E v = constVal(s, c);
  unsigned bytes = DL->getTypeStoreSize(t);
  if (v->w < bytes * 8) v = X.zext(v, bytes * 8);
  Layer& L = topConc(*o.c);
  L.m[off] = v;
}
static uint64_t globId(const GlobalVariable* g) {
  auto it = gGlobId.find(g);
  if (it != gGlobId.end()) return it->second;
  uint64_t id = gNextId++;
  gGlobId[g] = id;
  return id;
}
static std::unordered_map<uint64_t, const GlobalVariable*> gGlobById;
static Obj& getObj(State& s, uint64_t id) {
  auto it = s.mem.find(id);
  if (it != s.mem.end()) {
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return *it->second;
  }
  auto g = gGlobById.find(id);
  if (g == gGlobById.end()) throw Abort{"unknown object"};
  auto& init = gGlobInit[id];
  if (!init) {
    init = std::make_shared<Obj>();
    init->id = id; init->name = g->second->getName().str();
    init->size = C64(DL->getTypeAllocSize(g->second->getValueType()));
    init->ro = g->second->isConstant();
    init->c = std::make_shared<Content>();
    if (g->second->hasInitializer()) {
      init->c->layers.push_back(mkLayer(L_ZERO));
      initConst(s, *init, g->second->getInitializer(), 0);
    } else {
      auto l = mkLayer(L_UNDEF); l->uf = "ext!" + init->name; init->c->layers.push_back(l);
    }
  }
  s.mem[id] = std::make_shared<Obj>(*init);
  return *s.mem[id];
}
static E funcAddr(const Function* f) {
  auto it = gFuncId.find(f);
  uint64_t id;
  if (it == gFuncId.end()) { id = kFuncId + gFuncId.size(); gFuncId[f] = id; gFuncById[id] = const_cast<Function*>(f); }
  else id = it->second;
  return C64(baseOf(id));
}
static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isVectorTy()) return DL->getTypeSizeInBits(t);
  if (t->isX86_FP80Ty()) return 80;
  throw Abort{"type without a width"};
}
static void leaves(Type* t, uint64_t off, vector<pair<uint64_t, Type*>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
  } else out.push_back({off, t});
}
static E constVal(State& s, const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 128) throw Abort{"wide constant"};
    const APInt& v = ci->getValue();
    u128 r = v.getRawData()[0]; if (v.getNumWords() > 1) r |= (u128)v.getRawData()[1] << 64;
    return X.cst(r, ci->getBitWidth());
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); u128 r = v.getRawData()[0]; if (v.getNumWords() > 1) r |= (u128)v.getRawData()[1] << 64; return X.cst(r, v.getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return C64(0);
  if (isa<UndefValue>(c)) return fresh("undef", widthOf(c->getType()));
  if (isa<ConstantAggregateZero>(c) && c->getType()->isVectorTy()) return X.cst(0, widthOf(c->getType()));
  if (auto* cv = dyn_cast<ConstantDataVector>(c)) {
    vector<E> p; for (unsigned i = cv->getNumElements(); i-- > 0;) p.push_back(constVal(s, cv->getElementAsConstant(i)));
    return X.concat(p);
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    vector<E> p; for (unsigned i = cv->getNumOperands(); i-- > 0;) p.push_back(constVal(s, cv->getOperand(i)));
    return X.concat(p);
  }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(s, ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalVariable>(c)) { uint64_t id = globId(gv); gGlobById[id] = gv; return C64(baseOf(id)); }
  if (auto* f = dyn_cast<Function>(c)) return funcAddr(f);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      auto* gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) throw Abort{"constant gep"};
      return X.add(constVal(s, cast<Constant>(gep->getPointerOperand())), C64(off.getSExtValue()));
    }
    if (ce->isCast()) {
      E v = constVal(s, ce->getOperand(0));
      unsigned w = widthOf(ce->getType());
      if (v->w == w) return v;
      return v->w > w ? X.trunc(v, w) : X.zext(v, w);
    }
    if (ce->getOpcode() == Instruction::Sub) return X.sub(constVal(s, ce->getOperand(0)), constVal(s, ce->getOperand(1)));
    if (ce->getOpcode() == Instruction::Add) return X.add(constVal(s, ce->getOperand(0)), constVal(s, ce->getOperand(1)));
  }
  throw Abort{"unsupported constant"};
}

static Val getVal(State& s, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) {
      Val r; r.agg = std::make_shared<vector<E>>();
      std::function<void(const Constant*)> go = [&](const Constant* k) {
        Type* kt = k->getType();
        if (kt->isStructTy() || kt->isArrayTy()) {
          unsigned n = kt->isStructTy() ? kt->getStructNumElements() : kt->getArrayNumElements();
          for (unsigned i = 0; i < n; i++) go(k->getAggregateElement(i));
        } else r.agg->push_back(constVal(s, k));
      };
      go(c);
      return r;
    }
    return Val{constVal(s, c), nullptr};
  }
  auto& regs = s.st.back().regs;
  auto it = regs.find(v);
  if (it == regs.end()) throw Abort{"unset value"};
  return it->second;
}
static E getE(State& s, const Value* v) {
  Val r = getVal(s, v);
  if (!r.e) throw Abort{"aggregate where scalar expected"};
  return r.e;
}

// resolve a pointer to (object, offset)
static Obj& resolve(State& s, E p, E& off, const char* what) {
  auto validId = [&](uint64_t id) { return id > 0 && (s.mem.count(id) || gGlobById.count(id)); };
  for (int iter = 0; iter < 8; iter++) {
    u128 c = p->op == CONST ? p->c : p->op == ADD ? p->c : 0;
    uint64_t id = (uint64_t)c >> 40;
    if (validId(id)) {
      // other atoms must not be pointers: trust the tag
      off = X.sub(p, C64(baseOf(id)));
      return getObj(s, id);
    }
    // a conditional pointer: decide or fork
    E ite = nullptr;
    if (p->op == ITE) ite = p;
    else if (p->op == ADD) for (E a : p->a) if (a->op == ITE) { ite = a; break; }
    if (!ite) break;
    E c0 = ite->a[0];
    if (must(s, c0)) { std::unordered_map<E, E> m{{ite, ite->a[1]}}, memo; p = X.subst(p, m, memo); continue; }
    if (must(s, X.lnot(c0))) { std::unordered_map<E, E> m{{ite, ite->a[2]}}, memo; p = X.subst(p, m, memo); continue; }
    throw Fork{c0};
  }
  if (p->op == CONST) {
    obligation(s, X.fls(), string("mem: ") + what + " through an invalid pointer", s.st.empty() || s.st.back().it == s.st.back().bb->end() ? "" : locOf(&*s.st.back().it), true);
    throw PathEnd{"invalid pointer"};
  }
  // ask the solver
  if (SV->check(s.pc, X.tru(), gObMs, true) == SAT) {
    u128 v;
    if (SV->value(p, v)) {
      uint64_t id = (uint64_t)v >> 40;
      if (validId(id)) {
        Obj& o = getObj(s, id);
        E in = X.ule(X.sub(p, C64(baseOf(id))), o.size);
        if (must(s, in)) { off = X.sub(p, C64(baseOf(id))); return o; }
        throw Fork{in};
      }
    }
  }
  if (!gMute) obligation(s, X.fls(), string("mem: ") + what + " through an unresolved pointer " + X.str(p), locOf(&*s.st.back().it), true);
  throw PathEnd{"unresolved pointer"};
}
static void boundsCheck(State& s, Obj& o, E off, E len, const char* what) {
  string loc = s.st.empty() || s.st.back().it == s.st.back().bb->end() ? "" : locOf(&*s.st.back().it);
  if (!o.alive) { obligation(s, X.fls(), string("mem: ") + what + " after free of " + o.name, loc, true); throw PathEnd{"use after free"}; }
  E lim = X.sub(o.size, len);
  E ok; s128 r1, r2;
  E end = X.add(off, len);
  if (X.linRange(off, r1, r2) && X.linRange(len, r1, r2) && r1 >= 0 && X.linRange(end, r1, r2) && X.linRange(o.size, r1, r2) && r1 >= 0) ok = X.band(X.sle(C64(0), off), X.sle(end, o.size));
  else ok = X.band(X.ule(len, o.size), X.ule(off, lim));
  if (ok->op == CONST && ok->c) { if (!gMute) gMemProved++; return; }
  obligation(s, ok, string("mem: ") + what + " in bounds of " + o.name, loc, true);
}
static E loadMem(State& s, E p, unsigned bytes) {
  E off; Obj& o = resolve(s, p, off, "read");
  boundsCheck(s, o, off, C64(bytes), "read");
  return readBytes(s, o.c, off, bytes);
}
static void storeMem(State& s, E p, E v) {
  if (v->w % 8) v = X.zext(v, (v->w + 7) / 8 * 8);
  E off; Obj& o = resolve(s, p, off, "write");
  boundsCheck(s, o, off, C64(v->w / 8), "write");
  if (o.ro && !gMute) { obligation(s, X.fls(), "mem: write to constant " + o.name, locOf(&*s.st.back().it), true); }
  writeBytes(s, o, off, v);
}
static Val loadTyped(State& s, E p, Type* t) {
  if (t->isStructTy() || t->isArrayTy()) {
    vector<pair<uint64_t, Type*>> ls; leaves(t, 0, ls);
    Val r; r.agg = std::make_shared<vector<E>>();
    for (auto& l : ls) { unsigned w = widthOf(l.second); E v = loadMem(s, X.add(p, C64(l.first)), (w + 7) / 8); r.agg->push_back(X.trunc(v, w)); }
    return r;
  }
  unsigned w = widthOf(t);
  return Val{X.trunc(loadMem(s, p, (w + 7) / 8), w), nullptr};
}
static void storeTyped(State& s, E p, const Val& v, Type* t) {
  if (v.agg) {
    vector<pair<uint64_t, Type*>> ls; leaves(t, 0, ls);
    for (size_t i = 0; i < ls.size(); i++) storeMem(s, X.add(p, C64(ls[i].first)), (*v.agg)[i]);
    return;
  }
  storeMem(s, p, v.e);
}
// C string at a (concrete-content) pointer
static string cstr(State& s, E p) {
  string r;
  for (int i = 0; i < 4096; i++) {
    E b = loadMem(s, X.add(p, C64(i)), 1);
    if (b->op != CONST) throw Abort{"symbolic string literal"};
    if (!b->c) return r;
    r += (char)b->c;
  }
  throw Abort{"long string literal"};
}
static void memCopy(State& s, E dst, E src, E len) {
  if (len->op == CONST && len->c == 0) return;
  E so, d_o;
  if (len->op != CONST) {
    if (must(s, X.eq(len, C64(0)))) return;
    if ((src->op == CONST && src->c < (1ull << 40)) || (dst->op == CONST && dst->c < (1ull << 40))) { // null with maybe-zero length
      E z = X.eq(len, C64(0));
      throw Fork{z};
    }
  }
  Obj& sobj = resolve(s, src, so, "copy source");
  uint64_t sid = sobj.id;
  boundsCheck(s, sobj, so, len, "copy read");
  CP snap = getObj(s, sid).c;
  Obj& dobj = resolve(s, dst, d_o, "copy destination");
  boundsCheck(s, dobj, d_o, len, "copy write");
  if (len->op == CONST && len->c <= 256 && (so->op == CONST || len->c <= 64)) {
    // element-wise copy keeps cells exact
    uint64_t n = (uint64_t)len->c;
    vector<pair<uint64_t, E>> vals;
    uint64_t i = 0;
    Layer* top = snap->layers.empty() ? nullptr : snap->layers.back().get();
    while (i < n) {
      unsigned step = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1;
      if (so->op == CONST && top && top->k == L_CONC) {
        int64_t o = (int64_t)so->c + i;
        auto it = top->m.find(o);
        if (it != top->m.end() && it->second->w / 8 <= n - i) step = it->second->w / 8;
        else { auto nx = top->m.upper_bound(o); if (nx != top->m.end() && nx->first - o < step) { step = nx->first - o; } }
      }
      vals.push_back({i, readBytes(s, snap, X.add(so, C64(i)), step)});
      i += step;
    }
    Obj& d2 = getObj(s, dobj.id);
    recordWrite(s, d2, d_o, len);
    for (auto& v : vals) writeBytes(s, d2, X.add(d_o, C64(v.first)), v.second, false);
    return;
  }
  Obj& d2 = getObj(s, dobj.id);
  recordWrite(s, d2, d_o, len);
  auto l = mkLayer(L_COPY); l->off = d_o; l->len = len; l->src = snap; l->srcOff = so;
  own(d2).layers.push_back(l);
}
static void memSet(State& s, E dst, E b, E len) {
  if (len->op == CONST && len->c == 0) return;
  E off; Obj& o = resolve(s, dst, off, "memset");
  boundsCheck(s, o, off, len, "memset");
  recordWrite(s, o, off, len);
  if (len->op == CONST && len->c <= 512) {
    uint64_t n = (uint64_t)len->c, i = 0;
    while (i < n) { unsigned st = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; vector<E> p(st, b); writeBytes(s, o, X.add(off, C64(i)), X.concat(p), false); i += st; }
    return;
  }
  auto l = mkLayer(L_FILL); l->off = off; l->len = len; l->val = b;
  own(o).layers.push_back(l);
}

// ------------------------------------------------------------------ floating point comparisons
static E fIsNan(E x) {
  unsigned w = x->w, m = w == 32 ? 23 : 52;
  E ex = X.extract(x, w - 2, m), fr = X.extract(x, m - 1, 0);
  return X.band(X.eq(ex, X.cst(maskOf(w - 1 - m), w - 1 - m)), X.ne(fr, X.cst(0, m)));
}
static E fLtOrd(E x, E y) { // x < y, both not NaN
  unsigned w = x->w;
  E sx = X.extract(x, w - 1, w - 1), sy = X.extract(y, w - 1, w - 1);
  E mx = X.extract(x, w - 2, 0), my = X.extract(y, w - 2, 0);
  E bothZero = X.band(X.eq(mx, X.cst(0, w - 1)), X.eq(my, X.cst(0, w - 1)));
  E lt = X.ite(sx, X.ite(sy, X.ult(my, mx), X.tru()), X.ite(sy, X.fls(), X.ult(mx, my)));
  return X.band(X.lnot(bothZero), lt);
}
static E fEqOrd(E x, E y) {
  unsigned w = x->w;
  E mx = X.extract(x, w - 2, 0), my = X.extract(y, w - 2, 0);
  return X.bor(X.eq(x, y), X.band(X.eq(mx, X.cst(0, w - 1)), X.eq(my, X.cst(0, w - 1))));
}
static E fcmp(CmpInst::Predicate p, E x, E y) {
  E nan = X.bor(fIsNan(x), fIsNan(y));
  E ord = X.lnot(nan);
  switch (p) {
    case CmpInst::FCMP_FALSE: return X.fls();
    case CmpInst::FCMP_TRUE: return X.tru();
    case CmpInst::FCMP_ORD: return ord;
    case CmpInst::FCMP_UNO: return nan;
    case CmpInst::FCMP_OEQ: return X.band(ord, fEqOrd(x, y));
    case CmpInst::FCMP_UEQ: return X.bor(nan, fEqOrd(x, y));
    case CmpInst::FCMP_ONE: return X.band(ord, X.lnot(fEqOrd(x, y)));
    case CmpInst::FCMP_UNE: return X.bor(nan, X.lnot(fEqOrd(x, y)));
    case CmpInst::FCMP_OLT: return X.band(ord, fLtOrd(x, y));
    case CmpInst::FCMP_OGT: return X.band(ord, fLtOrd(y, x));
    case CmpInst::FCMP_OLE: return X.band(ord, X.lnot(fLtOrd(y, x)));
    case CmpInst::FCMP_OGE: return X.band(ord, X.lnot(fLtOrd(x, y)));
    case CmpInst::FCMP_ULT: return X.bor(nan, fLtOrd(x, y));
    case CmpInst::FCMP_UGT: return X.bor(nan, fLtOrd(y, x));
    case CmpInst::FCMP_ULE: return X.bor(nan, X.lnot(fLtOrd(y, x)));
    case CmpInst::FCMP_UGE: return X.bor(nan, X.lnot(fLtOrd(x, y)));
    default: throw Abort{"fcmp"};
  }
}
static E icmp(CmpInst::Predicate p, E x, E y) {
  switch (p) {
    case CmpInst::ICMP_EQ: return X.eq(x, y);
    case CmpInst::ICMP_NE: return X.ne(x, y);
    case CmpInst::ICMP_ULT: return X.ult(x, y);
    case CmpInst::ICMP_ULE: return X.ule(x, y);
    case CmpInst::ICMP_UGT: return X.ult(y, x);
    case CmpInst::ICMP_UGE: return X.ule(y, x);
    case CmpInst::ICMP_SLT: return X.slt(x, y);
    case CmpInst::ICMP_SLE: return X.sle(x, y);
    case CmpInst::ICMP_SGT: return X.slt(y, x);
    case CmpInst::ICMP_SGE: return X.sle(y, x);
    default: throw Abort{"icmp"};
  }
}

// ------------------------------------------------------------------ exploration
enum Stop { S_RET, S_BACK, S_EXIT, S_RETIN };
struct Stopped { State s; Stop k; };
struct Ctl { size_t depth; Loop* loop; };
static void run(State init, const Ctl& ctl, vector<Stopped>& out);
static void enterBlock(State s, BasicBlock* from, BasicBlock* to, const Ctl& ctl, vector<State>& work, vector<Stopped>& out);

#include "builtins.h"
#include "loops.h"
#include "exec.h"
