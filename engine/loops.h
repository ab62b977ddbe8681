// Loops: concrete unrolling where control is decided, otherwise an inductive invariant found by
// Houdini over templates, branch conditions and the contract's own invariant clauses.
#pragma once

static void applyPhis(State& s, BasicBlock* from, BasicBlock* to);
static void setReg(State& s, const Value* v, Val x);

struct ExitRec { State s; BasicBlock* to; };
struct Snap {
  size_t obs; long proved, memProved, checks, throws_; set<string> covers; set<string> failed; map<string, int> aborts; long pruned;
  Snap() : obs(gObs.size()), proved(gProved), memProved(gMemProved), checks(gChecks), throws_(gThrows), covers(gCovers), failed(gFailedKeys), aborts(gAborts), pruned(gPruned) {}
  void rollback() { gObs.resize(obs); gProved = proved; gMemProved = memProved; gChecks = checks; gThrows = throws_; gCovers = covers; gFailedKeys = failed; gAborts = aborts; gPruned = pruned; }
};
static string loopKey(State& s, Loop* L) {
  string k = std::to_string((uintptr_t)L->getHeader());
  for (auto& f : s.st) if (f.call) k += "," + std::to_string((uintptr_t)f.call);
  return k;
}
static string loopName(State& s, Loop* L) {
  BasicBlock* h = L->getHeader();
  for (auto* b : {h}) for (auto& I : *b) if (I.getDebugLoc() && I.getDebugLoc().getLine()) return locOf(&I);
  for (auto* b : L->blocks()) for (auto& I : *b) if (I.getDebugLoc() && I.getDebugLoc().getLine()) return locOf(&I);
  return dem(h->getParent());
}

// a loop that walks linked nodes: a header pointer is replaced by a loaded or returned pointer on every turn
static bool chasesPointers(Loop* L) {
  for (auto& P : L->getHeader()->phis()) {
    if (!P.getType()->isPointerTy()) continue;
    for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
      if (!L->contains(P.getIncomingBlock(i))) continue;
      vector<Value*> todo{P.getIncomingValue(i)}; set<Value*> seen;
      while (!todo.empty()) {
        Value* v = todo.back(); todo.pop_back();
        if (!seen.insert(v).second) continue;
        auto* I = dyn_cast<Instruction>(v);
        if (!I || !L->contains(I)) continue;
        if (isa<LoadInst>(I) || isa<CallBase>(I)) return true;
        if (auto* p2 = dyn_cast<PHINode>(I)) { if (p2 != &P) for (auto& u : p2->incoming_values()) todo.push_back(u); }
        else if (auto* sl = dyn_cast<SelectInst>(I)) { todo.push_back(sl->getTrueValue()); todo.push_back(sl->getFalseValue()); }
      }
    }
  }
  return false;
}

static bool tryUnroll(const State& s0, Loop* L, vector<ExitRec>& exits) {
  Snap snap;
  size_t depth = s0.st.size();
  int tol = s0.unroll ? s0.unroll : (int)gUnroll;
  vector<State> frontier{s0};
  int symbolic = 0;
  size_t maxFront = gBounded ? 8000 : 48;
  if (!gBounded && chasesPointers(L)) { tol = std::max(tol, 64); maxFront = 256; }
  for (int it = 0;; it++) {
    vector<Stopped> o;
    try {
      for (auto& f : frontier) run(std::move(f), Ctl{depth, L}, o);
    } catch (Abort& a) {
      if (gBounded) throw;
      if (gVerbose) fprintf(stderr, "[unroll of %s aborted: %s]\n", loopName(const_cast<State&>(s0), L).c_str(), a.why.c_str());
      snap.rollback(); exits.clear(); return false;
    }
    size_t was = frontier.size();
    frontier.clear();
    bool ex = false;
    for (auto& x : o) {
      if (x.k == S_EXIT) { BasicBlock* to = x.s.pending; exits.push_back({std::move(x.s), to}); ex = true; }
      else if (x.k == S_BACK) { BasicBlock* p = x.s.st.back().prev; applyPhis(x.s, p, L->getHeader()); frontier.push_back(std::move(x.s)); }
    }
    if (frontier.empty()) return true;
    if (ex || frontier.size() > was) symbolic++;
    if (symbolic > tol || frontier.size() > maxFront || it > 6000) {
      if (gBounded) { gPruned++; return true; }
      snap.rollback(); exits.clear(); return false;
    }
  }
}

struct LVar { const PHINode* phi; uint64_t obj; int64_t off; unsigned w; E v0; E sym; int kind; E D; E rep; uint64_t stride = 0; int dir = 0; };
// kind 0: plain symbol; 1: linear v0 + D*n; 2: offset form v0 + sym; 3: unchanged
struct Hint { map<uint64_t, set<pair<int64_t, unsigned>>> cells; set<uint64_t> whole; };
static map<string, Hint> gHints;

struct Refine {};
static map<string, set<string>> gLoopDemote;
static map<string, map<string, int>> gScale; // pointer variables into arrays: 1 moves up, -1 moves down, 2 both, 0 not by whole elements
static set<string> gUsedInvs;

static bool symsBelow(E e, unsigned mark, const std::unordered_set<uint32_t>& allowed) {
  static std::unordered_map<uint32_t, long> idx;
  for (uint32_t sy : SV->syms(e)) {
    if (sy == 0x7fffffff || allowed.count(sy)) continue;
    auto it = idx.find(sy);
    if (it == idx.end()) {
      const string& n = X.names[sy];
      size_t p = n.find_last_of("#!");
      long v = -1;
      if (p != string::npos && p + 1 < n.size() && isdigit(n[p + 1]) && n.compare(0, 3, "rg!") && n.compare(0, 3, "uf!")) v = atol(n.c_str() + p + 1);
      it = idx.insert({sy, v}).first;
    }
    if (it->second >= (long)mark) return false;
  }
  return true;
}
static bool mentions(E e, const std::unordered_set<uint32_t>& set_) {
  for (uint32_t sy : SV->syms(e)) if (set_.count(sy)) return true;
  return false;
}

struct Cand { E e = nullptr; int inv = -1; vector<E> args; string name; };

static void loopInvariant(State s0, Loop* L, vector<ExitRec>& exits, int peel);

static void loopInvariant0(State s0, Loop* L, vector<ExitRec>& exits) {
  checkTime();
  size_t depth = s0.st.size();
  BasicBlock* H = L->getHeader();
  string key = loopKey(s0, L);
  unsigned mark = gFresh;
  uint64_t limit = gNextId;
  Hint& hint = gHints[key];
  map<uint64_t, set<pair<int64_t, unsigned>>> cellW;   // const writes seen
  set<uint64_t> whole;                                  // objects with symbolic writes
  map<uint64_t, pair<E, uint64_t>> ranges;              // obj -> (A, S): [A, A+S*n)
  for (auto& h : hint.cells) if (s0.mem.count(h.first) || gGlobById.count(h.first)) cellW[h.first] = h.second;
  for (auto o : hint.whole) if (s0.mem.count(o) || gGlobById.count(o)) whole.insert(o);
  map<string, pair<int, E>> known; // variable identity -> (kind, D)
  set<string> nonlin = gLoopDemote[key];
  vector<const PHINode*> phis;
  for (auto& p : H->phis()) phis.push_back(&p);
  string lname = loopName(s0, L);
  if (gVerbose) fprintf(stderr, "[loop %s: invariant mode]\n", lname.c_str());

  vector<LVar> vars;
  E n = nullptr;
  vector<E> recorded;
  State h0;
  const int outerMute = gMute;
  std::unordered_set<uint32_t> allowed;
  auto vid = [&](const LVar& v) { return v.phi ? "p" + std::to_string((uintptr_t)v.phi) : "c" + std::to_string(v.obj) + "+" + std::to_string(v.off) + ":" + std::to_string(v.w); };
  auto tagged = [&](E v) { u128 c = v->op == CONST ? v->c : v->op == ADD ? v->c : 0; uint64_t id = (uint64_t)c >> 40; return id > 0 && v->w == 64 && (s0.mem.count(id) || gGlobById.count(id)); };

  // build the arbitrary-iteration state
  auto build = [&]() -> State {
    State h = s0;
    h.rec++; h.recIdLimit = std::max(h.recIdLimit, limit);
    h.writes.clear(); h.conds.clear(); h.freed.clear();
    n = X.varIn("n#" + std::to_string(gFresh++), 64, 40);
    allowed.clear(); allowed.insert(n->name);
    vars.clear();
    auto addVar = [&](LVar v) {
      string id = vid(v);
      auto k = known.find(id);
      if (k != known.end() && k->second.first == 1) {
        v.kind = 1; v.D = k->second.second;
        E nn = v.w <= 64 ? X.trunc(n, v.w) : X.zext(n, v.w);
        v.rep = X.add(v.v0, X.mul(v.D, nn)); v.sym = nullptr;
      } else {
        if (tagged(v.v0)) {
          u128 c0 = v.v0->op == CONST ? v.v0->c : v.v0->c; uint64_t oid = (uint64_t)c0 >> 40;
          uint64_t sd = getObj(s0, oid).stride; auto& md = gScale[key];
          if (sd > 1 && !md.count(id)) md[id] = 1;
          if (sd > 1 && md[id]) { v.stride = sd; v.dir = md[id]; }
        }
        if (v.stride) { // whole elements away from the initial pointer
          string nm = string(v.phi ? "lv#" : "lc#") + std::to_string(gFresh++);
          v.sym = v.dir == 2 ? X.var(nm, 40) : X.varIn(nm, 64, 40); allowed.insert(v.sym->name);
          E q = v.dir == 2 ? X.sext(v.sym, 64) : v.sym; // either way: a signed count
          v.kind = 2; v.rep = v.dir == -1 ? X.sub(v.v0, X.mulc(q, v.stride)) : X.add(v.v0, X.mulc(q, v.stride));
          vars.push_back(v); return;
        }
        v.sym = fresh(v.phi ? "lv" : "lc", v.w); allowed.insert(v.sym->name);
        if (tagged(v.v0)) { v.kind = 2; v.rep = X.add(v.v0, v.sym); }
        else { v.kind = 0; v.rep = v.sym; }
      }
      vars.push_back(v);
    };
    for (auto* p : phis) {
      Val v = getVal(s0, p);
      if (!v.e) throw Abort{"aggregate phi"};
      addVar(LVar{p, 0, 0, v.e->w, v.e, nullptr, 0, nullptr, nullptr});
    }
    for (auto o : whole) {
      Obj& ob = getObj(h, o);
      auto l = mkLayer(L_HAVOC); l->off = C64(0); l->len = ob.size; l->uf = "hv!" + std::to_string(gFresh++); l->stride = ob.stride;
      own(ob).layers.push_back(l);
    }
    for (auto& r : ranges) {
      if (whole.count(r.first)) continue;
      Obj& ob = getObj(h, r.first);
      auto l = mkLayer(L_HAVOC); l->off = r.second.first; l->len = X.mulc(n, r.second.second); l->uf = "hv!" + std::to_string(gFresh++); l->stride = 1;
      own(ob).layers.push_back(l);
    }
    for (auto& c : cellW) {
      set<int64_t> cuts;
      for (auto& w : c.second) { cuts.insert(w.first); cuts.insert(w.first + w.second); }
      vector<int64_t> cv(cuts.begin(), cuts.end());
      for (size_t i = 0; i + 1 < cv.size(); i++) {
        bool cov = false;
        for (auto& w : c.second) if (w.first <= cv[i] && cv[i] < w.first + (int64_t)w.second) cov = true;
        if (!cov) continue;
        for (int64_t p = cv[i]; p < cv[i + 1];) {
          unsigned len = std::min<int64_t>(8, cv[i + 1] - p);
          Obj& o0 = getObj(s0, c.first);
          E v0 = readBytes(s0, o0.c, C64(p), len);
          addVar(LVar{nullptr, c.first, p, len * 8, v0, nullptr, 0, nullptr, nullptr});
          p += len;
        }
      }
    }
    for (auto& v : vars) {
      if (v.phi) setReg(h, v.phi, Val{v.rep, nullptr});
      else writeBytes(h, getObj(h, v.obj), C64(v.off), v.rep, false);
    }
    for (auto& v : vars) h.ctxVars.push_back(v.rep);
    h.ctxVars.push_back(n);
    return h;
  };
  auto backVal = [&](State& b, const LVar& v) -> E {
    if (v.phi) { Val x = getVal(b, v.phi->getIncomingValueForBlock(b.st.back().prev)); return x.e; }
    return readBytes(b, getObj(b, v.obj).c, C64(v.off), v.w / 8);
  };
  auto doRun = [&](State h, vector<Stopped>& o) { run(std::move(h), Ctl{depth, L}, o); };

  // absorb the writes of back states; true if the frame grew
  auto absorb = [&](vector<Stopped>& o) {
    bool grew = false;
    map<uint64_t, vector<WriteRec>> symw;
    for (auto& x : o) if (x.k == S_BACK) {
      if (!x.s.freed.empty()) for (auto id : x.s.freed) if (id < limit) throw Abort{"loop releases an outer object"};
      for (auto& w : x.s.writes) {
        if (w.obj >= limit) continue;
        if (w.off->op == CONST && w.len->op == CONST && w.len->c <= 4096) {
          if (w.len->c == 0 || whole.count(w.obj)) continue;
          if (cellW[w.obj].insert({(int64_t)w.off->c, (unsigned)w.len->c}).second) grew = true;
        } else if (!whole.count(w.obj)) symw[w.obj].push_back(w);
      }
    }
    for (auto& p : symw) {
      // linear ranges
      bool ok = true; E A = nullptr; s128 S = 0; s128 lo = 0, hi = 0;
      for (auto& w : p.second) {
        if (w.len->op != CONST) { ok = false; break; }
        E off = w.off;
        s128 k = 0;
        if (off == n) k = 1;
        else if (off->op == ADD) for (size_t i = 0; i < off->a.size(); i++) if (off->a[i] == n) k = sgn(off->k[i], 64);
        if (k <= 0) { ok = false; break; }
        E R = X.sub(off, X.mulc(n, (u128)k));
        if (!symsBelow(R, mark, {})) { ok = false; break; }
        if (!A) { A = R; S = k; lo = 0; hi = (s128)w.len->c; }
        else {
          if (S != k) { ok = false; break; }
          E d = X.sub(R, A); if (d->op != CONST) { ok = false; break; }
          s128 dd = sgn(d->c, 64); lo = std::min(lo, dd); hi = std::max(hi, dd + (s128)w.len->c);
        }
      }
      if (ok && hi - lo <= S) {
        E A2 = X.add(A, X.cst((u128)lo, 64));
        auto it = ranges.find(p.first);
        if (it == ranges.end()) { ranges[p.first] = {A2, (uint64_t)S}; cellW.erase(p.first); grew = true; continue; }
        if (it->second.first == A2 && it->second.second == (uint64_t)S) continue;
      }
      whole.insert(p.first); ranges.erase(p.first); cellW.erase(p.first); grew = true;
    }
    return grew;
  };

  auto evalCand = [&](State& st, const Cand& c, const std::unordered_map<E, E>* m) -> E {
    std::unordered_map<E, E> memo;
    if (c.inv < 0) return m ? X.subst(c.e, *m, memo) : c.e;
    auto& iv = h0.invs[c.inv];
    vector<E> args{iv.ctx};
    for (E a : c.args) args.push_back(m ? X.subst(a, *m, memo) : a);
    State t = st;
    Val v = callPure(t, iv.f, args, nullptr, nullptr, 0);
    // keep facts introduced while evaluating (quotients, generated elements)
    for (size_t i = st.pc.size(); i < t.pc.size(); i++) addPc(st, t.pc[i]);
    if (!v.e) throw Abort{"invariant clause without a value"};
    return v.e->w == 1 ? v.e : X.ne(v.e, X.cst(0, v.e->w));
  };
  // contract clauses over the context alone or the iteration count, assumed while the frame is discovered (a frame
  // found too small is detected and widened later, when only proved clauses are assumed)
  vector<Cand> early;
  bool earlyDone = false;
  auto earlyAssume = [&](State& h) {
    if (!earlyDone) {
      earlyDone = true;
      for (size_t k = 0; k < h0.invs.size(); k++) {
        if (h0.invs[k].arity > 1) continue;
        Cand c; c.inv = (int)k; if (h0.invs[k].arity == 1) c.args = {C64(0)};
        State t = s0;
        try { E e = evalCand(t, c, nullptr); if (must(t, e)) early.push_back(c); } catch (Abort&) {} catch (Fork&) {}
      }
    }
    for (auto& c : early) {
      Cand d = c; if (!d.args.empty()) d.args = {n};
      State t = h;
      try { E e = evalCand(t, d, nullptr); addPc(t, e); if (!t.dead) h = t; } catch (Abort&) {} catch (Fork&) {}
    }
  };

  // ---- phase 1: frame and linear variables
  gMute++;
  struct Unmute { bool on = true; ~Unmute() { if (on) gMute--; } void off() { if (on) { gMute--; on = false; } } } um;
  vector<vector<E>> backVals;
  vector<Stopped> o;
  for (int it = 0;; it++) {
    if (it > 12) throw Abort{"loop frame does not stabilise at " + lname};
    h0 = build();
    o.clear();
    State hd = h0;
    earlyAssume(hd);
    doRun(hd, o);
    // an iteration that releases an outer object (a vector growing) is left for later, when more is known of the variables
    o.erase(std::remove_if(o.begin(), o.end(), [&](Stopped& x) { if (x.k == S_BACK) for (auto id : x.s.freed) if (id < limit) return true; return false; }), o.end());
    if (getenv("VFY_OUT")) for (E p : s0.pc) fprintf(stderr, "  s0 %s\n", X.str(p).c_str());
    if (getenv("VFY_OUT")) for (auto& x : o) { fprintf(stderr, "  outcome kind %d\n", (int)x.k); for (size_t i = hd.pc.size(); i < x.s.pc.size(); i++) fprintf(stderr, "     %s\n", X.str(x.s.pc[i]).c_str()); }
    bool grew = absorb(o);
    recorded.clear();
    for (auto& x : o) for (E c : x.s.conds) recorded.push_back(c);
    bool changed = false;
    if (getenv("VFY_LOOP")) { fprintf(stderr, " iter %d of %s: %zu outcomes grew=%d\n", it, lname.c_str(), o.size(), grew); }
    for (auto& v : vars) {
      string id = vid(v);
      if (nonlin.count(id)) continue;
      E D = nullptr; bool lin = true, any = false;
      for (auto& x : o) if (x.k == S_BACK) {
        any = true;
        E d = X.sub(backVal(x.s, v), v.rep);
        if (v.stride) {
          int& md = gScale[key][id]; int was = md;
          if (d->op == CONST) {
            s128 dd = sgn(d->c, 64);
            if (dd % (s128)v.stride) md = 0;
            else if (dd < 0 && md == 1) md = known.count(id + "up") ? 2 : -1;
            else if (dd > 0 && md == 1) known[id + "up"] = {0, nullptr};
            else if (dd > 0 && md == -1) md = 2;
          } else if (!X.linDiv(d, v.stride, true)) md = 0;
          else if (md && md != 2) md = 2;
          if (md != was) changed = true;
        }
        if (v.w == 1) { lin = d->op == CONST && d->c == 0; }
        if (!symsBelow(d, mark, {})) lin = false;
        if (!D) D = d; else if (D != d) lin = false;
      }
      if (!any) { D = X.cst(0, v.w); }
      if (v.kind == 1) { if (any && (!lin || D != v.D)) { known.erase(id); nonlin.insert(id); changed = true; } }
      else if (lin && D) { known[id] = {1, D}; changed = true; }
      if (getenv("VFY_LOOP")) fprintf(stderr, "   var %s kind %d v0=%s D=%s lin=%d\n", v.phi ? v.phi->getName().str().c_str() : id.c_str(), v.kind, X.str(v.v0).c_str(), D ? X.str(D).c_str() : "-", lin);
    }
    if (!grew && !changed) break;
  }
  hint.cells = cellW; hint.whole = whole;

  // ---- phase 2: candidates over the symbols of h0
  vector<Cand> cands;
  {
    std::unordered_set<E> seenC;
    auto addE = [&](E e, const string& nm) {
      if (!e || e->op == CONST) return;
      if (!seenC.insert(e).second) return;
      if (!symsBelow(e, mark, allowed)) return;
      Cand c; c.e = e; c.name = nm; cands.push_back(c);
    };
    std::unordered_map<E, E> prev;
    size_t nonl = 0; for (auto& v : vars) if (v.kind != 1) nonl++;
    for (size_t vi = 0; vi < vars.size(); vi++) {
      auto& v = vars[vi];
      string b = "v" + std::to_string(vi);
      if (v.kind == 1 || v.w > 64) continue;
      uint64_t up = 0, down = 0; bool bounded = true; vector<E> consts;
      for (auto& x : o) if (x.k == S_BACK) {
        E bv = backVal(x.s, v);
        if (bv->op == CONST) consts.push_back(bv);
        if (bv != v.rep && symsBelow(bv, mark, allowed) && bv->op != CONST) prev[bv] = v.rep;
        E d = X.sub(bv, v.rep);
        if (d->op == CONST) { s128 k = sgn(d->c, v.w); if (k >= 0 && k < (1 << 20)) up = std::max<uint64_t>(up, (uint64_t)k); else if (k < 0 && k > -(1 << 20)) down = std::max<uint64_t>(down, (uint64_t)-k); else bounded = false; }
        else { u128 m = X.ones(d); if (m < (1 << 20)) up = std::max<uint64_t>(up, (uint64_t)m); else { u128 m2 = X.ones(X.neg(d)); if (m2 < (1 << 20)) down = std::max<uint64_t>(down, (uint64_t)m2); else bounded = false; } }
      }
      addE(X.eq(v.rep, v.v0), b + "=v0");
      for (E k : consts) addE(X.bor(X.eq(v.rep, v.v0), X.eq(v.rep, k)), b + "=v0|const");
      if (v.w == 1) continue;
      addE(X.ule(v.v0, v.rep), b + ">=u v0"); addE(X.ule(v.rep, v.v0), b + "<=u v0");
      addE(X.sle(v.v0, v.rep), b + ">=s v0"); addE(X.sle(v.rep, v.v0), b + "<=s v0");
      E d = X.sub(v.rep, v.v0);
      if (bounded) {
        if (up && !down) addE(X.ule(X.zext(d, 64), X.mulc(n, up)), b + "-v0<=kn");
        if (down && !up) addE(X.ule(X.zext(X.neg(d), 64), X.mulc(n, down)), b + "-v0>=-kn");
      }
      if (v.kind == 2) {
        uint64_t id = (uint64_t)v.v0->c >> 40;
        Obj& ob = getObj(h0, id);
        addE(X.ule(X.sub(v.rep, C64(baseOf(id))), ob.size), b + " in object");
        if (bounded) { uint64_t k = up | down; uint64_t low = k & (~k + 1); if (low > 1 && !v.stride) addE(X.eq(X.urem(d, C64(low)), C64(0)), b + " aligned"); }
      }
      if (nonl <= 8) for (size_t vj = 0; vj < vars.size(); vj++) if (vj != vi && vars[vj].w == v.w) {
        if (vars[vj].kind != 1 && vj < vi) continue;
        addE(X.eq(d, X.sub(vars[vj].rep, vars[vj].v0)), b + "~v" + std::to_string(vj));
        addE(X.ule(v.rep, vars[vj].rep), b + "<=v" + std::to_string(vj)); addE(X.ule(vars[vj].rep, v.rep), b + ">=v" + std::to_string(vj));
      }
    }
    std::function<E(E, bool)> widen = [&](E e, bool sg) -> E {
      if (e->op == EXTRACT && e->a[0] == n && e->name == 0) return n;
      if (e->op == ADD) {
        E r = sg ? X.sext(X.cst(e->c, e->w), 64) : X.zext(X.cst(e->c, e->w), 64);
        for (size_t i = 0; i < e->a.size(); i++) { s128 k = sgn(e->k[i], e->w); r = X.add(r, X.mulc(widen(e->a[i], sg), (u128)k & maskOf(64))); }
        return r;
      }
      return sg ? X.sext(e, 64) : X.zext(e, 64);
    };
    std::function<void(E, const string&)> addCond = [&](E c, const string& nm) {
      while (c->op == NOT) c = c->a[0];
      if (c->op == AND || c->op == OR) { addCond(c->a[0], nm); addCond(c->a[1], nm); return; }
      if (!symsBelow(c, mark, allowed) || !mentions(c, allowed)) return;
      addE(c, nm); addE(X.lnot(c), nm + "!");
      if (c->op != ULT && c->op != ULE && c->op != SLT && c->op != SLE && c->op != EQ) return;
      E a = c->a[0], b = c->a[1];
      if (a->w == 1) return;
      bool sg = c->op == SLT || c->op == SLE;
      auto both = [&](E x, E y, const string& t) {
        if (!sg) { addE(X.ule(x, y), nm + t + "<="); addE(X.ule(y, x), nm + t + ">="); }
        if (sg || c->op == EQ) { addE(X.sle(x, y), nm + t + "s<="); addE(X.sle(y, x), nm + t + "s>="); }
      };
      both(a, b, "");
      if (c->op == EQ) { addE(X.ult(a, b), nm + "<"); addE(X.ult(b, a), nm + ">");
        // pointer style ranges: distance of the two sides
      }
      if (a->w < 64) { both(widen(a, sg), widen(b, sg), "w"); }
      if (X.isC(b) || X.isC(a)) return;
    };
    std::unordered_set<E> rc;
    for (E c : recorded) {
      if (!rc.insert(c).second || rc.size() > 60) continue;
      string nm = "cond" + std::to_string(rc.size());
      addCond(c, nm);
      std::unordered_map<E, E> m1{{n, X.sub(n, C64(1))}}, me1, me2;
      E c1 = X.subst(c, m1, me1);
      if (c1 != c) addCond(c1, nm + "-1");
      if (!prev.empty()) { E c2 = X.subst(c, prev, me2); if (c2 != c) addCond(c2, nm + "-p"); }
    }
    // contract clauses
    vector<E> lv;
    auto addLv = [&](E e) {
      if (e->w > 64) return;
      E z = X.zext(e, 64);
      for (E x : lv) if (x == z) return;
      lv.push_back(z);
      if (e->w >= 16 && e->w < 64) { E sx = X.sext(e, 64); if (sx != z) lv.push_back(sx); }
    };
    for (E e : h0.ctxVars) addLv(e);
    vector<E> li; // values set before the loop and used in it
    bool wantLi = false; for (auto& iv : h0.invs) wantLi |= iv.liveIn;
    if (wantLi) for (BasicBlock* bb : L->blocks()) for (Instruction& in : *bb) for (Value* op : in.operands()) {
      if (isa<Constant>(op) || !(isa<Argument>(op) || (isa<Instruction>(op) && !L->contains(cast<Instruction>(op))))) continue;
      if (!op->getType()->isPointerTy() && !(op->getType()->isIntegerTy() && op->getType()->getIntegerBitWidth() <= 64)) continue;
      try { E e = getVal(h0, op).e; if (!e || e->w > 64) continue; e = X.zext(e, 64); if (std::find(li.begin(), li.end(), e) == li.end()) li.push_back(e); } catch (Abort&) {}
    }
    for (size_t k = 0; k < h0.invs.size(); k++) {
      auto& iv = h0.invs[k];
      string b = "inv " + iv.name;
      auto add = [&](vector<E> args, const string& nm) { Cand c; c.inv = (int)k; c.args = args; c.name = nm; cands.push_back(c); };
      if (iv.arity == 0) add({}, b);
      else if (iv.onlyN) add({n}, b + "#n");
      else if (iv.liveIn) { for (size_t a = 0; a < lv.size(); a++) for (size_t d = 0; d < li.size(); d++) add({lv[a], li[d]}, b + "#" + std::to_string(a) + "," + std::to_string(d)); }
      else if (iv.arity == 1) for (size_t a = 0; a < lv.size(); a++) add({lv[a]}, b + "#" + std::to_string(a));
      else for (size_t a = 0; a < lv.size(); a++) for (size_t d = 0; d < lv.size(); d++) if (a != d) add({lv[a], lv[d]}, b + "#" + std::to_string(a) + "," + std::to_string(d));
    }
    std::stable_sort(cands.begin(), cands.end(), [](const Cand& x, const Cand& y) { return (x.inv >= 0) > (y.inv >= 0); });
  }
  std::unordered_map<E, E> entryMap;
  for (auto& v : vars) { if (v.kind == 1) continue; if (v.stride && v.dir == 2) { entryMap[v.sym] = X.cst(0, 40); entryMap[X.sext(v.sym, 64)] = C64(0); continue; } entryMap[v.sym] = v.kind == 2 ? C64(0) : v.v0; }
  entryMap[n] = C64(0);
  {
    vector<Cand> keep;
    std::unordered_set<E> seenH;
    for (auto& c : cands) {
      State t = s0;
      E e;
      try { e = evalCand(t, c, &entryMap); } catch (Abort&) { continue; } catch (Fork&) { continue; }
      if (!must(t, e)) continue;
      keep.push_back(c);
    }
    cands.swap(keep);
  }
  if (getenv("VFY_LOOP")) fprintf(stderr, " %zu candidates hold at entry of %s\n", cands.size(), lname.c_str());

  // ---- phase 3: Houdini
  bool quiet = true; // first pass without reporting obligations
  for (int round = 0;; round++) {
    if (round > 40) throw Abort{"invariant inference does not converge at " + lname};
    checkTime();
    Snap snap;
    if (!quiet) um.off(); else if (!um.on) { gMute++; um.on = true; }
    State h = h0;
    std::unordered_set<E> seenH;
    vector<Cand> keep;
    for (auto& c : cands) {
      E e = evalCand(h, c, nullptr);
      if (getenv("VFY_LOOP") && c.inv >= 0) fprintf(stderr, "   clause %s: %s\n", c.name.c_str(), X.str(e).c_str());
      keep.push_back(c);
      if (e->op == CONST && !e->c) { keep.pop_back(); continue; }
      addPc(h, e);
    }
    cands.swap(keep);
    if (h.dead) throw Abort{"contradictory loop invariant at " + lname};
    o.clear();
    doRun(h, o);
    if (absorb(o)) { // more paths: wider frame
      hint.cells = cellW; hint.whole = whole;
      snap.rollback();
      if (!um.on) { gMute++; um.on = true; }
      throw Refine{};
    }
    set<size_t> bad;
    bool linBad = false;
    gMute++;
    set<size_t> unsure; // not preserved as far as could be decided: dropped only when nothing is refuted
    for (auto& x : o) if (x.k == S_BACK) {
      std::unordered_map<E, E> m;
      for (auto& v : vars) {
        E bv = backVal(x.s, v);
        if (v.kind == 1) { std::unordered_map<E, E> mm{{n, X.add(n, C64(1))}}, me; E ex = X.subst(v.rep, mm, me); if (bv != ex && !must(x.s, X.eq(bv, ex))) { linBad = true; gLoopDemote[key].insert(vid(v)); } continue; }
        if (v.stride) {
          E d = v.dir == -1 ? X.sub(v.v0, bv) : X.sub(bv, v.v0);
          E q = d->op == CONST ? (sgn(d->c, 64) % (s128)v.stride ? nullptr : X.cst((u128)(sgn(d->c, 64) / (s128)v.stride) & maskOf(64), 64)) : X.linDiv(d, v.stride, true);
          E lim = q && v.dir == 2 ? X.ult(X.add(q, C64(1ull << 39)), C64(1ull << 40)) : q ? X.ule(q, C64(1ull << 40)) : nullptr;
          if (!q || !must(x.s, lim)) { gScale[key][vid(v)] = 0; linBad = true; break; }
          if (v.dir == 2) { m[v.sym] = X.extract(q, 39, 0); m[X.sext(v.sym, 64)] = q; continue; }
          m[v.sym] = q; continue;
        }
        m[v.sym] = v.kind == 2 ? X.sub(bv, v.v0) : bv;
      }
      if (linBad) break;
      m[n] = X.add(n, C64(1));
      vector<pair<size_t, E>> es; E all = X.tru();
      addPc(x.s, X.ult(n, C64((1ull << 40) - 1)));
      for (size_t i = 0; i < cands.size(); i++) {
        if (bad.count(i)) continue;
        E e;
        try { e = evalCand(x.s, cands[i], &m); } catch (Abort&) { bad.insert(i); continue; } catch (Fork&) { bad.insert(i); continue; }
        if (e->op == CONST) { if (!e->c) bad.insert(i); continue; }
        if (x.s.pcSet.count(e)) continue;
        es.push_back({i, e}); 
      }
      for (auto& p : es) all = X.band(all, p.second);
      if (es.size() > 3 && must(x.s, all)) continue;
      for (auto& p : es) {
        if (must(x.s, p.second)) continue;
        if (getenv("VFY_BADC") && cands[p.first].inv >= 0) { fprintf(stderr, "  not preserved: %s: %s\n", cands[p.first].name.c_str(), X.str(p.second).c_str()); for (E q : x.s.pc) fprintf(stderr, "    pc %s\n", X.str(q).c_str()); }
        if (SV->check(x.s.pc, X.lnot(p.second), gBranchMs) == UNKNOWN) unsure.insert(p.first); else bad.insert(p.first);
      }
    }
    if (bad.empty()) bad = unsure;
    gMute--;
    if (linBad) { snap.rollback(); if (!um.on) { gMute++; um.on = true; } throw Refine{}; }
    if (getenv("VFY_LOOP")) fprintf(stderr, " round %d of %s: %zu outcomes, %zu of %zu candidates dropped\n", round, lname.c_str(), o.size(), bad.size(), cands.size());
    if (!bad.empty()) {
      vector<Cand> k2;
      for (size_t i = 0; i < cands.size(); i++) if (!bad.count(i)) k2.push_back(cands[i]); else if (getenv("VFY_LOOP")) fprintf(stderr, "   drop %s %s\n", cands[i].name.c_str(), cands[i].e ? X.str(cands[i].e).c_str() : "");
      cands.swap(k2);
      snap.rollback();
      continue;
    }
    if (quiet && outerMute == 0) { quiet = false; snap.rollback(); continue; }
    break;
  }
  if (getenv("VFY_LOOP")) for (auto& c : cands) fprintf(stderr, "   keep %s %s\n", c.name.c_str(), c.e ? X.str(c.e).c_str() : "");
  if (outerMute == 0) { gInvLoops++; gLoopInvs.insert(lname); for (auto& c : cands) if (c.inv >= 0) gUsedInvs.insert(h0.invs[c.inv].name); }
  for (auto& x : o) if (x.k == S_EXIT) {
    State& e = x.s;
    vector<WriteRec> ws = s0.writes;
    for (auto& c : cellW) for (auto& w : c.second) ws.push_back({c.first, C64(w.first), C64(w.second)});
    for (auto id : whole) ws.push_back({id, X.mulc(n, 1), X.mulc(n, 1)});
    for (auto& r : ranges) if (!whole.count(r.first)) ws.push_back({r.first, r.second.first, X.mulc(n, r.second.second)});
    for (auto& w : e.writes) ws.push_back(w);
    e.writes = ws;
    for (auto id : s0.freed) e.freed.push_back(id);
    vector<E> cs = s0.conds; for (E c : e.conds) cs.push_back(c); e.conds = cs;
    e.rec = s0.rec; e.recIdLimit = s0.recIdLimit; e.ctxVars = s0.ctxVars;
    BasicBlock* to = e.pending;
    exits.push_back({std::move(e), to});
  }
}

static void loopInvariant(State s0, Loop* L, vector<ExitRec>& exits, int peel) {
  int mute0 = gMute;
  size_t ex0 = exits.size();
  string why;
  Snap snap;
  for (int tries = 0; tries < 8; tries++) {
    try { loopInvariant0(s0, L, exits); return; }
    catch (Refine&) { gMute = mute0; exits.resize(ex0); continue; }
    catch (Abort& a) { gMute = mute0; exits.resize(ex0); why = a.why; break; }
    catch (...) { gMute = mute0; throw; }
  }
  snap.rollback();
  if (peel >= 2) throw Abort{why.empty() ? "loop frame does not stabilise" : why};
  if (gVerbose) fprintf(stderr, "[peeling %s: %s]\n", loopName(s0, L).c_str(), why.c_str());
  vector<Stopped> o;
  size_t depth = s0.st.size();
  run(s0, Ctl{depth, L}, o);
  for (auto& x : o) {
    if (x.k == S_EXIT) { BasicBlock* to = x.s.pending; exits.push_back({std::move(x.s), to}); }
    else if (x.k == S_BACK) { BasicBlock* p = x.s.st.back().prev; applyPhis(x.s, p, L->getHeader()); loopInvariant(std::move(x.s), L, exits, peel + 1); }
  }
}

static void handleLoop(State s, BasicBlock* from, Loop* L, const Ctl& ctl, vector<State>& work, vector<Stopped>& out) {
  vector<ExitRec> exits;
  string key = loopKey(s, L);
  applyPhis(s, from, L->getHeader());
  bool done = false;
  if (!gNeedInv.count(key) || gBounded || gPure || s.unroll) {
    done = tryUnroll(s, L, exits);
    if (done) gUnrolled++;
    else gNeedInv.insert(key);
  }
  if (!done) {
    if (gPure) throw Abort{"loop in a contract clause"};
    loopInvariant(s, L, exits, 0);
  }
  for (auto& e : exits) {
    BasicBlock* f = e.s.st.back().prev;
    enterBlock(std::move(e.s), f, e.to, ctl, work, out);
  }
}
