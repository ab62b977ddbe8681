// Calls: contract replacement, modelled library functions, pure evaluation of contract clauses.
#pragma once

static void pushFrame(State& s, Function* f, const CallBase* call, const vector<Val>& args);
static double asD(E e);
static E fromD(double d, unsigned w);
static E foldFp(E e);

static string litStr(State& s, E p) { return cstr(s, p); }

// evaluate a function without side effects on s; returns the (merged) result
static void setReg(State& s, const Value* v, Val x);
static Val callPure(State& s, Function* f, vector<E> args, vector<E>* assumed, CP* outObj, uint64_t outSize) {
  State t = s;
  t.br.clear(); t.rec = 0; t.conds.clear();
  shared_ptr<Obj> oo;
  vector<Val> av;
  for (E a : args) av.push_back(Val{a, nullptr});
  if (outObj) {
    oo = newObj(t, C64(outSize), "gen", false);
    auto z = mkLayer(L_UNDEF); z->uf = "genundef!" + std::to_string(oo->id);
    av.push_back(Val{C64(baseOf(oo->id)), nullptr});
  }
  size_t n0 = t.pc.size();
  pushFrame(t, f, nullptr, av);
  vector<Stopped> out;
  gPure++;
  double so = 0; (void)so;
  try { run(std::move(t), Ctl{s.st.size() + 1, nullptr}, out); } catch (...) { gPure--; throw; }
  gPure--;
  if (out.empty()) throw Abort{"contract clause " + dem(f) + " has no terminating path"};
  Val r;
  for (size_t k = out.size(); k-- > 0;) {
    State& o = out[k].s;
    E cond = X.tru();
    for (E b : o.br) cond = X.band(cond, b);
    std::unordered_set<E> brs;
    std::function<void(E)> fl = [&](E e) { if (e->op == AND) { fl(e->a[0]); fl(e->a[1]); } else brs.insert(e); };
    for (E b : o.br) fl(b);
    for (size_t i = n0; i < o.pc.size(); i++) {
      if (brs.count(o.pc[i])) continue;
      E fact = X.implies(cond, o.pc[i]);
      if (assumed) assumed->push_back(fact); else addPc(s, fact);
    }
    if (getenv("VFY_PURE")) fprintf(stderr, "     pure %zu/%zu cond %s ret %s\n", k, out.size(), X.str(cond).c_str(), o.ret.e ? X.str(o.ret.e).c_str() : "-");
    if (o.ret.e) r.e = r.e ? X.ite(cond, o.ret.e, r.e) : o.ret.e;
    if (outObj) {
      auto it = o.mem.find(oo->id);
      if (it == o.mem.end()) throw Abort{"generator output lost"};
      if (out.size() == 1) *outObj = it->second->c;
      else {
        if (!*outObj) *outObj = it->second->c;
        else {
          // merge byte ranges written on either side
          CP a = it->second->c, b = *outObj;
          set<int64_t> cuts{0, (int64_t)outSize};
          for (auto& cc : {a, b}) for (auto& l : cc->layers) if (l->k == L_CONC) for (auto& kv : l->m) { cuts.insert(kv.first); cuts.insert(kv.first + kv.second->w / 8); }
          auto nc = std::make_shared<Content>(); auto ly = mkLayer(L_CONC);
          for (auto i = cuts.begin(); std::next(i) != cuts.end(); ++i) {
            int64_t p = *i, e = *std::next(i);
            while (p < e) { unsigned w = std::min<int64_t>(8, e - p); ly->m[p] = X.ite(cond, readBytes(o, a, C64(p), w), readBytes(o, b, C64(p), w)); p += w; }
          }
          nc->layers.push_back(ly); *outObj = nc;
        }
      }
    }
  }
  return r;
}

static E allocCall(State& s, E size, const string& what) {
  if (size->op != CONST) addPc(s, X.ule(size, C64(1ull << 38))); // larger requests fail (bad_alloc), not followed
  else if (size->c > (1ull << 38)) throw PathEnd{"allocation too large"};
  auto o = newObj(s, size, what, true);
  return C64(baseOf(o->id));
}
static void freeCall(State& s, E p) {
  if (p->op == CONST && p->c == 0) return;
  E off;
  if (p->op != CONST && p->op == ITE) { E z = X.eq(p, C64(0)); if (z->op != CONST) { if (must(s, z)) return; if (!must(s, X.lnot(z))) throw Fork{z}; } }
  else if (p->op != CONST) { E z = X.eq(p, C64(0)); if (z->op != CONST && must(s, z)) return; }
  Obj& o = resolve(s, p, off, "free");
  if (!o.alive) { obligation(s, X.fls(), "mem: double free of " + o.name, locOf(&*s.st.back().it), true); throw PathEnd{"double free"}; }
  if (!o.heap) { obligation(s, X.fls(), "mem: free of non-heap " + o.name, locOf(&*s.st.back().it), true); throw PathEnd{"bad free"}; }
  obligation(s, X.eq(off, C64(0)), "mem: free of an interior pointer", locOf(&*s.st.back().it), true);
  o.alive = false;
  if (s.rec && o.id < s.recIdLimit) s.freed.push_back(o.id);
}

static Function* findFunc(E p) {
  if (p->op != CONST) return nullptr;
  auto it = gFuncById.find((uint64_t)p->c >> 40);
  return it == gFuncById.end() ? nullptr : it->second;
}
static Function* replacementFor(const Function* f) {
  auto it = gReplMemo.find(f);
  if (it != gReplMemo.end()) return it->second;
  Function* r = nullptr;
  string d = dem(f);
  for (auto& p : gReplace) if (d.rfind(p.first, 0) == 0 && p.second != f) { r = p.second; break; }
  return gReplMemo[f] = r;
}
// inline asm free helper: type information of a polymorphic object
static const GlobalVariable* vtableOf(State& s, E obj) {
  E vp = loadMem(s, obj, 8);
  if (vp->op != CONST) throw Abort{"dynamic type unknown"};
  auto g = gGlobById.find((uint64_t)vp->c >> 40);
  if (g == gGlobById.end()) throw Abort{"dynamic type unknown"};
  return g->second;
}
static bool derivesFrom(const GlobalVariable* ti, const GlobalVariable* base, uint64_t& off) {
  if (ti == base) return true;
  if (!ti->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(ti->getInitializer());
  if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++)
    if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) {
      uint64_t o2 = 0;
      if (i + 1 < cs->getNumOperands() && isa<ConstantInt>(cs->getOperand(i + 1))) o2 = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue() >> 8;
      uint64_t o3 = 0;
      if (derivesFrom(b, base, o3)) { off += o2 + o3; return true; }
    }
  return false;
}
static uint64_t nextOcc(const string& n) { static map<string, uint64_t> m; return m[n]++; }

static E overflowBit(Intrinsic::ID id, E a, E b, E& res) {
  unsigned w = a->w;
  switch (id) {
    case Intrinsic::uadd_with_overflow: res = X.add(a, b); return X.ult(res, a);
    case Intrinsic::usub_with_overflow: res = X.sub(a, b); return X.ult(a, b);
    case Intrinsic::sadd_with_overflow: { res = X.add(a, b); E x = X.add(X.sext(a, w + 1), X.sext(b, w + 1)); return X.ne(x, X.sext(res, w + 1)); }
    case Intrinsic::ssub_with_overflow: { res = X.sub(a, b); E x = X.sub(X.sext(a, w + 1), X.sext(b, w + 1)); return X.ne(x, X.sext(res, w + 1)); }
    case Intrinsic::umul_with_overflow: {
      res = X.mul(a, b);
      if (X.isC(a)) std::swap(a, b);
      if (X.isC(b)) { if (!b->c) return X.fls(); return X.ult(X.cst(maskOf(w) / b->c, w), a); }
      E x = X.mul(X.zext(a, 2 * w), X.zext(b, 2 * w)); return X.ne(X.extract(x, 2 * w - 1, w), X.cst(0, w));
    }
    case Intrinsic::smul_with_overflow: { res = X.mul(a, b); E x = X.mul(X.sext(a, 2 * w), X.sext(b, 2 * w)); return X.ne(x, X.sext(res, 2 * w)); }
    default: throw Abort{"overflow intrinsic"};
  }
}

static bool intrinsic(State& s, const IntrinsicInst* I, Val& r) {
  auto A = [&](int i) { return getE(s, I->getArgOperand(i)); };
  auto set = [&](E e) { r.e = e; return true; };
  switch (I->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::sideeffect: return true;
    case Intrinsic::stacksave: return set(C64(0));
    case Intrinsic::invariant_start: return set(C64(0));
    case Intrinsic::invariant_end: return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(s, A(0), A(1), X.zext(A(2), 64)); return true;
    case Intrinsic::memset: memSet(s, A(0), A(1), X.zext(A(2), 64)); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E res; E o = overflowBit(I->getIntrinsicID(), A(0), A(1), res);
      r.agg = std::make_shared<vector<E>>(vector<E>{res, o}); return true;
    }
    case Intrinsic::uadd_sat: { E a = A(0), b = A(1), x = X.add(a, b); return set(X.ite(X.ult(x, a), X.cst(maskOf(a->w), a->w), x)); }
    case Intrinsic::usub_sat: { E a = A(0), b = A(1); return set(X.ite(X.ult(a, b), X.cst(0, a->w), X.sub(a, b))); }
    case Intrinsic::umin: { E a = A(0), b = A(1); return set(X.ite(X.ult(a, b), a, b)); }
    case Intrinsic::umax: { E a = A(0), b = A(1); return set(X.ite(X.ult(a, b), b, a)); }
    case Intrinsic::smin: { E a = A(0), b = A(1); return set(X.ite(X.slt(a, b), a, b)); }
    case Intrinsic::smax: { E a = A(0), b = A(1); return set(X.ite(X.slt(a, b), b, a)); }
    case Intrinsic::abs: { E a = A(0); return set(X.ite(X.slt(a, X.cst(0, a->w)), X.neg(a), a)); }
    case Intrinsic::bswap: { E a = A(0); vector<E> p; for (unsigned i = 0; i < a->w / 8; i++) p.push_back(byteOf(a, i)); return set(X.concat(p)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E a = A(0), b = A(1), c = A(2); unsigned w = a->w;
      if (c->op != CONST) throw Abort{"funnel shift by a variable"};
      unsigned k = (unsigned)(c->c % w);
      E cat = X.concat({a, b});
      if (I->getIntrinsicID() == Intrinsic::fshl) return set(k ? X.extract(cat, 2 * w - k - 1, w - k) : a);
      return set(X.extract(cat, w + k - 1, k));
    }
    case Intrinsic::ctpop: { E a = A(0); E r2 = X.cst(0, a->w); for (unsigned i = 0; i < a->w; i++) r2 = X.add(r2, X.zext(X.extract(a, i, i), a->w)); return set(r2); }
    case Intrinsic::ctlz: { E a = A(0); E r2 = X.cst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r2 = X.ite(X.extract(a, i, i), X.cst(a->w - 1 - i, a->w), r2); return set(r2); }
    case Intrinsic::cttz: { E a = A(0); E r2 = X.cst(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r2 = X.ite(X.extract(a, i, i), X.cst(i, a->w), r2); return set(r2); }
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return set(A(0));
    case Intrinsic::is_constant: return set(X.fls());
    case Intrinsic::objectsize: return set(X.cst(A(1)->c ? 0 : maskOf(64), 64));
    case Intrinsic::fabs: { E a = A(0); return set(X.band(a, X.cst(maskOf(a->w - 1), a->w))); }
    case Intrinsic::sqrt: return set(X.fp(F_SQRT, A(0)->w, {A(0)}));
    case Intrinsic::fmuladd: { E a = A(0), b = A(1), c = A(2); return set(foldFp(X.fp(F_ADD, a->w, {foldFp(X.fp(F_MUL, a->w, {a, b})), c}))); }
    case Intrinsic::round: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: return set(X.uf("fround." + std::to_string(I->getIntrinsicID()), A(0)->w, {A(0)}));
    case Intrinsic::copysign: { E a = A(0), b = A(1); return set(X.concat({X.extract(b, b->w - 1, b->w - 1), X.extract(a, a->w - 2, 0)})); }
    case Intrinsic::minnum: { E a = A(0), b = A(1); return set(X.ite(fIsNan(a), b, X.ite(fIsNan(b), a, X.ite(fLtOrd(a, b), a, b)))); }
    case Intrinsic::maxnum: { E a = A(0), b = A(1); return set(X.ite(fIsNan(a), b, X.ite(fIsNan(b), a, X.ite(fLtOrd(a, b), b, a)))); }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw PathEnd{"trap"};
    case Intrinsic::eh_typeid_for: return set(X.cst(1, 32));
    default: throw Abort{"intrinsic " + I->getCalledFunction()->getName().str()};
  }
}

// returns true if handled
static bool builtin(State& s, const CallBase* cb, Function* f, vector<Val>& args, Val& r) {
  StringRef n = f->getName();
  auto A = [&](int i) { return args[i].e; };
  auto set = [&](E e) { r.e = e; return true; };
  auto curLoc = [&]() { return locOf(&*s.st.back().it); };
  if (n.starts_with("V_")) {
    auto scalar = [&](unsigned w) {
      string nm = litStr(s, A(0));
      E v = X.var("in!" + nm + "!" + std::to_string(gFresh++), w);
      s.nd.push_back({nm, v});
      return v;
    };
    if (n == "V_u64") return set(scalar(64));
    if (n == "V_u32") return set(scalar(32));
    if (n == "V_u16") return set(scalar(16));
    if (n == "V_u8") return set(scalar(8));
    if (n == "V_bool") return set(scalar(1));
    if (n == "V_f64") return set(scalar(64));
    if (n == "V_mode") return set(X.cst(gBounded ? 1 : 0, 32));
    if (n == "V_assume") { if (gPure == 0 || true) { E c = A(0); if (c->w > 1) c = X.ne(c, X.cst(0, c->w)); if (!gPure && !gMute && !feasible(s, c)) throw PathEnd{"assume"}; addPc(s, c); if (s.dead) throw PathEnd{"assume"}; } return true; }
    if (n == "V_assert") { E c = A(0); if (c->w > 1) c = X.ne(c, X.cst(0, c->w)); obligation(s, c, litStr(s, A(1)), "", false); return true; }
    if (n == "V_lemma") { // proved, then available
      E c = A(0); if (c->w > 1) c = X.ne(c, X.cst(0, c->w)); obligation(s, c, litStr(s, A(1)), "", false); return true; }
    if (n == "V_cover") {
      string nm = litStr(s, A(0));
      if (!gMute && !gCovers.count(nm) && SV->check(s.pc, X.tru(), gBranchMs, true) != UNSAT) gCovers.insert(nm);
      return true;
    }
    if (n == "V_u64r") { // arbitrary value in [lo, hi]
      E lo = A(1), hi = A(2); string nm = litStr(s, A(0));
      unsigned bits = 1; u128 om = X.ones(hi); while (bits < 64 && (om >> bits)) bits++;
      E v = bits < 64 ? X.varIn("in!" + nm + "!" + std::to_string(gFresh++), 64, bits) : X.var("in!" + nm + "!" + std::to_string(gFresh++), 64);
      s.nd.push_back({nm, v});
      addPc(s, X.ule(lo, v));
      if (hi->op != CONST || hi->c != maskOf(bits)) addPc(s, X.ule(v, hi));
      if (s.dead) throw PathEnd{"empty range"};
      return set(v);
    }
    if (n == "V_size") {
      E m = gBounded ? A(2) : A(1);
      string nm = litStr(s, A(0));
      unsigned bits = 64; if (m->op == CONST) { bits = 1; while (bits < 64 && (m->c >> bits)) bits++; }
      E v = X.varIn("in!" + nm + "!" + std::to_string(gFresh++), 64, bits);
      s.nd.push_back({nm, v});
      if (m->op != CONST || m->c != maskOf(bits)) addPc(s, X.ule(v, m));
      gSizes.push_back(v);
      return set(v);
    }
    if (n == "V_alloc" || n == "V_alloc_gen") {
      bool gen = n == "V_alloc_gen";
      string nm = litStr(s, A(0));
      uint64_t k = nextOcc("alloc!" + nm + "!" + std::to_string(s.regions.size()));
      (void)k;
      E size = gen ? nullptr : A(1);
      uint64_t stride;
      if (gen) { stride = (uint64_t)A(2)->c; size = X.mulc(A(1), stride); addPc(s, X.ule(A(1), C64(1ull << 32))); }
      else { stride = (uint64_t)A(2)->c; if (!stride) stride = 1; addPc(s, X.ule(size, C64(1ull << 38))); }
      auto o = newObj(s, size, nm, true);
      o->stride = stride;
      auto l = mkLayer(L_SYM);
      string u = "rg!" + nm; int cnt = 0; for (auto& g : s.regions) if (g.second == nm) cnt++;
      if (cnt) u += "~" + std::to_string(cnt);
      l->uf = u; l->stride = stride;
      if (gen) {
        l->gen = findFunc(A(3)); if (!l->gen) throw Abort{"V_alloc_gen needs a direct function"};
        l->genCtx = A(4); l->genCache = std::make_shared<map<uint32_t, pair<CP, vector<E>>>>();
      }
      if (gen) l->genState = std::make_shared<State>(s);
      o->c->layers.clear(); o->c->layers.push_back(l);
      s.regions.push_back({o->id, nm});
      return set(C64(baseOf(o->id)));
    }
    if (n == "V_uf" ) { string nm = litStr(s, A(0)); return set(X.uf("uf!" + nm, 64, {A(1)})); }
    if (n == "V_uf2") { string nm = litStr(s, A(0)); return set(X.uf("uf!" + nm, 64, {A(1), A(2)})); }
    if (n == "V_uf_decl") {
      string nm = litStr(s, A(0)); int kind = (int)A(1)->c;
      string g = kind >= 3 ? litStr(s, A(2)) : "";
      SV->ufInfo[X.sym("uf!" + nm)] = UFInfo{kind, g.empty() ? "" : "uf!" + g};
      return true;
    }
    if (n == "V_inv0" || n == "V_inv1" || n == "V_inv2" || n == "V_invn" || n == "V_invl") {
      Function* g = findFunc(A(0)); if (!g) throw Abort{"invariant needs a direct function"};
      s.invs.push_back(Inv{n.back() == 'n' ? 1 : n.back() == 'l' ? 2 : n.back() - '0', g, A(1), litStr(s, A(2)), n.back() == 'n', n.back() == 'l'});
      return true;
    }
    if (n == "V_inv_pop") { if (!s.invs.empty()) s.invs.pop_back(); return true; }
    if (n == "V_unroll") { s.unroll = (int)A(0)->c; return true; }
    if (n == "V_any_bytes") { // arbitrary bytes into [p, p+len): effect of an assigns clause
      E off; Obj& o = resolve(s, A(0), off, "assigns");
      if (A(1)->op == CONST && !A(1)->c) return true;
      boundsCheck(s, o, off, A(1), "assigns");
      recordWrite(s, o, off, A(1));
      if (A(1)->op == CONST && A(1)->c <= 64) { uint64_t k = (uint64_t)A(1)->c, i = 0; while (i < k) { unsigned w = k - i >= 8 ? 8 : k - i >= 4 ? 4 : 1; E av = fresh("any", w * 8); s.nd.push_back({"any", av}); writeBytes(s, o, X.add(off, C64(i)), av, false); i += w; } return true; }
      auto l = mkLayer(L_HAVOC); l->off = off; l->len = A(1); l->uf = "any!" + std::to_string(gFresh++); l->stride = 1;
      own(o).layers.push_back(l);
      return true;
    }
    if (n == "V_check_failed") { gChecks++; throw PathEnd{"check failed"}; }
    if (n == "V_log") return true;
    if (n == "V_print") { fprintf(stderr, "[print] %s = %s\n", litStr(s, A(0)).c_str(), X.str(A(1)).c_str()); return true; }
    if (n == "V_prove_unreachable") { obligation(s, X.fls(), litStr(s, A(0)), "", false); return true; }
    throw Abort{"unknown harness primitive " + n.str()};
  }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam") return set(allocCall(s, A(0), "heap"));
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") return set(allocCall(s, A(0), "heap"));
  if (n == "calloc") { E sz = X.mul(A(0), A(1)); E p = allocCall(s, sz, "heap"); Obj& o = getObj(s, (uint64_t)p->c >> 40); own(o).layers.clear(); o.c->layers.push_back(mkLayer(L_ZERO)); return set(p); }
  if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) { freeCall(s, A(0)); return true; }
  if (n == "realloc") throw Abort{"realloc"};
  if (n == "memcpy" || n == "memmove") { memCopy(s, A(0), A(1), A(2)); return set(A(0)); }
  if (n == "memset") { memSet(s, A(0), X.trunc(A(1), 8), A(2)); return set(A(0)); }
  if (n == "memcmp" || n == "bcmp") {
    E len = A(2);
    if (len->op == CONST && len->c == 0) return set(X.cst(0, 32));
    if (A(0) == A(1)) return set(X.cst(0, 32));
    if (len->op == CONST && len->c <= 256) {
      E res = X.cst(0, 32);
      for (uint64_t i = (uint64_t)len->c; i-- > 0;) {
        E a = loadMem(s, X.add(A(0), C64(i)), 1), b = loadMem(s, X.add(A(1), C64(i)), 1);
        res = X.ite(X.eq(a, b), res, X.ite(X.ult(a, b), X.cst(maskOf(32), 32), X.cst(1, 32)));
      }
      return set(res);
    }
    if (must(s, X.eq(len, C64(0)))) return set(X.cst(0, 32));
    // a bounded length: compare byte by byte under guards
    for (uint64_t lim : {4ull, 16ull, 64ull}) if (must(s, X.ule(len, C64(lim)))) {
      E so, d_o; Obj& o1 = resolve(s, A(0), so, "memcmp"); uint64_t i1 = o1.id; boundsCheck(s, o1, so, len, "memcmp");
      Obj& o2 = resolve(s, A(1), d_o, "memcmp"); boundsCheck(s, o2, d_o, len, "memcmp");
      CP c1 = getObj(s, i1).c, c2 = o2.c;
      E res = X.cst(0, 32);
      for (uint64_t i = lim; i-- > 0;) {
        E in = X.ult(C64(i), len);
        if (!feasible(s, in)) continue;
        E a = readBytes(s, c1, X.add(so, C64(i)), 1), b = readBytes(s, c2, X.add(d_o, C64(i)), 1);
        res = X.ite(X.bor(X.lnot(in), X.eq(a, b)), res, X.ite(X.ult(a, b), X.cst(maskOf(32), 32), X.cst(1, 32)));
      }
      return set(res);
    }
    // long compare: an arbitrary result, zero only if the watched first bytes agree
    E so, d_o; Obj& o1 = resolve(s, A(0), so, "memcmp"); boundsCheck(s, o1, so, len, "memcmp");
    Obj& o2 = resolve(s, A(1), d_o, "memcmp"); boundsCheck(s, o2, d_o, len, "memcmp");
    E res = fresh("memcmp", 32);
    addPc(s, X.implies(X.eq(len, C64(0)), X.eq(res, X.cst(0, 32))));
    return set(res);
  }
  if (n == "strlen") {
    E p = A(0); E off; Obj& o = resolve(s, p, off, "strlen");
    if (off->op == CONST && o.size->op == CONST) {
      uint64_t lim = (uint64_t)o.size->c; bool conc = true;
      if (lim <= 4096) {
        for (uint64_t i = (uint64_t)off->c; i < lim; i++) { E b = readBytes(s, o.c, C64(i), 1); if (b->op != CONST) { conc = false; break; } if (!b->c) return set(C64(i - (uint64_t)off->c)); }
        (void)conc;
      }
    }
    if (gBounded) {
      E off2; 
      for (int i = 0; i < 64; i++) {
        E b = loadMem(s, X.add(p, C64(i)), 1);
        E z = X.eq(b, X.cst(0, 8));
        if (must(s, z)) return set(C64(i));
        if (!must(s, X.lnot(z))) throw Fork{z};
      }
      throw PathEnd{"strlen bound"};
    }
    E L = fresh("strlen", 64);
    E o2 = off; E sz = o.size;
    // some terminator must lie inside the object
    E k = fresh("nul", 64);
    (void)k;
    addPc(s, X.ult(L, X.sub(sz, o2)));
    addPc(s, X.eq(readBytes(s, o.c, X.add(o2, L), 1), X.cst(0, 8)));
    E b0 = readBytes(s, o.c, o2, 1);
    addPc(s, X.eq(X.eq(b0, X.cst(0, 8)), X.eq(L, C64(0))));
    gAssumed.insert("strlen: argument is NUL-terminated inside its object");
    return set(L);
  }
  if (n == "__cxa_guard_acquire") { E b = loadMem(s, A(0), 1); return set(X.ite(X.eq(b, X.cst(0, 8)), X.cst(1, 32), X.cst(0, 32))); }
  if (n == "__cxa_guard_release") { storeMem(s, A(0), X.cst(1, 8)); return true; }
  if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit" ) { if (!cb->getType()->isVoidTy()) r.e = X.cst(0, 32); return true; }
  if (n == "__cxa_pure_virtual" || n == "abort" || n == "_ZSt9terminatev" || n == "exit" || n == "__assert_fail" || n == "_exit") {
    obligation(s, X.fls(), "no abort: " + n.str(), curLoc(), true); throw PathEnd{"abort"}; }
  if (n == "__cxa_throw" || n == "__cxa_rethrow" || n.starts_with("_ZSt20__throw_") || n.starts_with("_ZSt") && n.contains("__throw_") || n == "__clang_call_terminate") {
    if (n.contains("out_of_range") || n.contains("logic_error") || n.contains("invalid_argument")) {
      bool caught = false;
      for (auto& fr : s.st) if (fr.it != fr.bb->end()) if (auto* iv = dyn_cast<InvokeInst>(&*fr.it)) if (iv->getLandingPadInst()) for (unsigned k = 0; k < iv->getLandingPadInst()->getNumClauses(); k++) if (iv->getLandingPadInst()->isCatch(k)) caught = true;
      if (!caught) obligation(s, X.fls(), "no uncaught exception: " + dem(cb->getCalledFunction()), curLoc(), true);
    }
    gThrows++; gThrowSites.insert(curLoc()); throw PathEnd{"throw"}; }
  if (n == "__cxa_allocate_exception") return set(allocCall(s, A(0), "exception"));
  if (n == "__cxa_free_exception" || n == "__cxa_begin_catch" || n == "__cxa_end_catch") { if (!cb->getType()->isVoidTy()) r.e = args.empty() ? C64(0) : A(0); return true; }
  if (n.starts_with("pthread_mutex_") || n.starts_with("pthread_rwlock") || n.starts_with("pthread_cond_") || n.starts_with("__gthrw_")) { if (!cb->getType()->isVoidTy()) r.e = X.cst(0, 32); return true; }
  if (n == "__errno_location") {
    static uint64_t id = 0;
    if (!id || !s.mem.count(id)) { auto o = newObj(s, C64(4), "errno", false); id = o->id; }
    return set(C64(baseOf(id)));
  }
  if (n == "__dynamic_cast") {
    if (A(0)->op == CONST && A(0)->c == 0) return set(C64(0));
    auto* vt = vtableOf(s, A(0));
    auto* st = dyn_cast<ConstantStruct>(vt->getInitializer());
    if (!st) throw Abort{"dynamic_cast"};
    auto* arr = cast<ConstantArray>(st->getOperand(0));
    auto* ti = dyn_cast<GlobalVariable>(arr->getOperand(1)->stripPointerCasts());
    auto dg = gGlobById.find((uint64_t)A(2)->c >> 40);
    if (!ti || dg == gGlobById.end()) throw Abort{"dynamic_cast"};
    uint64_t off = 0;
    bool ok = derivesFrom(ti, dg->second, off);
    if (ok && off) throw Abort{"dynamic_cast with an offset"};
    return set(ok ? A(0) : C64(0));
  }
  if (n == "sqrt" || n == "sqrtf") return set(X.fp(F_SQRT, A(0)->w, {A(0)}));
  if (n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "time" || n == "clock") return set(fresh("clock", 64));
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n == "_ZSt9terminatev") throw PathEnd{"terminate"};
  if (n == "_ZSt11_Hash_bytesPKvmm") {
    E len = A(1);
    if (len->op == CONST && len->c <= 64) { vector<E> a; for (uint64_t i = 0; i < (uint64_t)len->c; i++) a.push_back(loadMem(s, X.add(A(0), C64(i)), 1)); if (a.empty()) return set(C64(0x1234));
      E cat = X.concat(a); if (cat->op == CONST) { uint64_t h = 1469598103934665603ull; for (E b : a) h = (h ^ (uint64_t)b->c) * 1099511628211ull; return set(C64(h)); }
      return set(X.uf("hash." + std::to_string((uint64_t)len->c), 64, a)); }
    return set(fresh("hash", 64));
  }
  if (n == "getenv") return set(C64(0));
  if (n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fflush") { r.e = fresh("printed", 32); return true; }
  if (n == "__isoc99_sscanf" ) return false;
  return false;
}

static bool execCall(State& s, const CallBase* cb, const Ctl&, vector<State>&, vector<Stopped>&) {
  if (cb->isInlineAsm()) throw Abort{"inline assembly"};
  if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
    Val r;
    intrinsic(s, ii, r);
    if (!cb->getType()->isVoidTy()) { if (!r.e && !r.agg) r.e = X.cst(0, widthOf(cb->getType())); setReg(s, cb, r); }
    return false;
  }
  Function* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  if (!f) {
    if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) f = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  }
  if (!f) {
    E p = getE(s, cb->getCalledOperand());
    if (p->op == ITE) { throw Fork{p->a[0]}; }
    f = findFunc(p);
    if (!f) {
      if (p->op == CONST) { obligation(s, X.fls(), "mem: call through an invalid function pointer", locOf(cb), true); throw PathEnd{"bad function pointer"}; }
      throw Abort{"indirect call to an unknown function at " + locOf(cb)};
    }
  }
  vector<Val> args;
  for (auto& a : cb->args()) args.push_back(getVal(s, a.get()));
  // pairs of by-value struct returns etc. are handled by the plain call protocol
  if (Function* rep = replacementFor(f)) { gReplaced.insert(dem(f)); f = rep; }
  else {
    Val r;
    if (builtin(s, cb, f, args, r)) {
      if (!cb->getType()->isVoidTy()) {
        if (!r.e && !r.agg) throw Abort{"builtin without a result " + f->getName().str()};
        if (r.e && !cb->getType()->isStructTy()) { unsigned w = widthOf(cb->getType()); if (r.e->w != w) r.e = r.e->w > w ? X.trunc(r.e, w) : X.zext(r.e, w); }
        setReg(s, cb, r);
      }
      return false;
    }
  }
  if (f->isDeclaration()) throw Abort{"no contract or body for " + dem(f)};
  if (!gDefer.empty() && gDefer.count(f)) throw Abort{"deferred"};
  pushFrame(s, f, cb, args);
  return true;
}
