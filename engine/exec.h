// Instruction execution, path exploration and the command line driver.
#pragma once

static Val mkVal(E e) { return Val{e, nullptr}; }
static void setReg(State& s, const Value* v, Val x) { s.st.back().regs[v] = std::move(x); }

static void popFrame(State& s) {
  for (auto id : s.st.back().allocas) s.mem.erase(id);
  s.st.pop_back();
}
static void pushFrame(State& s, Function* f, const CallBase* call, const vector<Val>& args) {
  if (s.st.size() > 150) throw Abort{"call depth"};
  if (gFuncs.insert(dem(f)).second) {}
  Frame fr; fr.f = f; fr.call = call;
  unsigned i = 0;
  for (auto& a : f->args()) { fr.regs[&a] = args[i]; 
    if (a.hasByValAttr()) {
      // callee-owned copy
      uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
      auto o = newObj(s, C64(sz), "byval", false); o->stack = true;
      fr.allocas.push_back(o->id);
      E base = C64(baseOf(o->id));
      fr.regs[&a] = mkVal(base);
      s.st.push_back(fr); s.st.back().bb = &f->getEntryBlock(); s.st.back().it = f->getEntryBlock().begin();
      memCopy(s, base, args[i].e, C64(sz));
      fr = s.st.back(); s.st.pop_back();
    }
    i++; }
  for (; i < args.size(); i++) fr.varargs.push_back(args[i]);
  fr.bb = &f->getEntryBlock();
  fr.it = fr.bb->begin();
  s.st.push_back(std::move(fr));
}

// evaluate the phis of `to` for the edge from->to
static void applyPhis(State& s, BasicBlock* from, BasicBlock* to) {
  vector<pair<const Value*, Val>> nv;
  for (auto& phi : to->phis()) nv.push_back({&phi, getVal(s, phi.getIncomingValueForBlock(from))});
  for (auto& p : nv) setReg(s, p.first, p.second);
  auto& f = s.st.back();
  f.prev = from; f.bb = to; f.it = to->getFirstNonPHI()->getIterator();
}

static void handleLoop(State s, BasicBlock* from, Loop* L, const Ctl& ctl, vector<State>& work, vector<Stopped>& out);

static void enterBlock(State s, BasicBlock* from, BasicBlock* to, const Ctl& ctl, vector<State>& work, vector<Stopped>& out) {
  if (s.dead) return;
  if (ctl.loop && s.st.size() == ctl.depth) {
    if (to == ctl.loop->getHeader()) { s.st.back().prev = from; s.pending = to; out.push_back({std::move(s), S_BACK}); return; }
    if (!ctl.loop->contains(to)) { s.st.back().prev = from; s.pending = to; out.push_back({std::move(s), S_EXIT}); return; }
  }
  LoopInfo& LI = LIof(s.st.back().f);
  Loop* L = LI.getLoopFor(to);
  if (L && L->getHeader() == to && !L->contains(from)) { handleLoop(std::move(s), from, L, ctl, work, out); return; }
  applyPhis(s, from, to);
  work.push_back(std::move(s));
}

static void recordCond(State& s, E c) { if (s.rec && c->op != CONST) s.conds.push_back(c); }

// branch on c: returns bit 0 if true side is feasible, bit 1 if false side is
static int decide(State& s, E c) {
  if (c->op == CONST) return c->c ? 1 : 2;
  if (s.pcSet.count(c)) return 1;
  if (s.pcSet.count(X.lnot(c))) return 2;
  checkTime();
  bool t = feasible(s, c);
  if (!t) { recordCond(s, c); return 2; }
  bool f = feasible(s, X.lnot(c));
  recordCond(s, c);
  return (t ? 1 : 0) | (f ? 2 : 0);
}

static bool execCall(State& s, const CallBase* cb, const Ctl& ctl, vector<State>& work, vector<Stopped>& out); // true: control moved

static E binop(unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return X.add(a, b);
    case Instruction::Sub: return X.sub(a, b);
    case Instruction::Mul: return X.mul(a, b);
    case Instruction::UDiv: return X.udiv(a, b);
    case Instruction::SDiv: return X.sdiv(a, b);
    case Instruction::URem: return X.urem(a, b);
    case Instruction::SRem: return X.srem(a, b);
    case Instruction::Shl: return X.shl(a, b);
    case Instruction::LShr: return X.lshr(a, b);
    case Instruction::AShr: return X.ashr(a, b);
    case Instruction::And: return X.band(a, b);
    case Instruction::Or: return X.bor(a, b);
    case Instruction::Xor: return X.bxor(a, b);
    case Instruction::FAdd: return X.fp(F_ADD, a->w, {a, b});
    case Instruction::FSub: return X.fp(F_SUB, a->w, {a, b});
    case Instruction::FMul: return X.fp(F_MUL, a->w, {a, b});
    case Instruction::FDiv: return X.fp(F_DIV, a->w, {a, b});
  }
  throw Abort{string("binary operator ") + Instruction::getOpcodeName(op)};
}
static double asD(E e) { uint64_t v = (uint64_t)e->c; if (e->w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static E fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return X.cst(u, 32); } uint64_t u; memcpy(&u, &d, 8); return X.cst(u, 64); }
static E foldFp(E e) {
  if (e->op != FPOP) return e;
  for (E a : e->a) if (a->op != CONST) return e;
  auto A = [&](int i) { return asD(e->a[i]); };
  switch ((FpKind)e->name) {
    case F_ADD: return e->w == 32 ? fromD((float)A(0) + (float)A(1), 32) : fromD(A(0) + A(1), 64);
    case F_SUB: return e->w == 32 ? fromD((float)A(0) - (float)A(1), 32) : fromD(A(0) - A(1), 64);
    case F_MUL: return e->w == 32 ? fromD((float)A(0) * (float)A(1), 32) : fromD(A(0) * A(1), 64);
    case F_DIV: return e->w == 32 ? fromD((float)A(0) / (float)A(1), 32) : fromD(A(0) / A(1), 64);
    case F_FROMSI: return e->a[0]->w <= 64 ? (e->w == 32 ? fromD((float)(int64_t)sgn(e->a[0]->c, e->a[0]->w), 32) : fromD((double)(int64_t)sgn(e->a[0]->c, e->a[0]->w), 64)) : e;
    case F_FROMUI: return e->a[0]->w <= 64 ? (e->w == 32 ? fromD((float)(uint64_t)e->a[0]->c, 32) : fromD((double)(uint64_t)e->a[0]->c, 64)) : e;
    case F_EXT: case F_TRUNC: return fromD(A(0), e->w);
    case F_TOSI: { double d = A(0); if (d > -9e18 && d < 9e18) return X.cst((u128)(s128)(int64_t)d, e->w); return e; }
    case F_TOUI: { double d = A(0); if (d >= 0 && d < 1.8e19) return X.cst((uint64_t)d, e->w); return e; }
    default: return e;
  }
}

// one non-terminator, non-call instruction
static void execSimple(State& s, Instruction* I) {
  auto A = [&](int i) { return getE(s, I->getOperand(i)); };
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I);
      E n = getE(s, ai->getArraySize());
      E sz = X.mulc(X.zext(n, 64), DL->getTypeAllocSize(ai->getAllocatedType()));
      auto o = newObj(s, sz, ai->getName().str().empty() ? "local" : ai->getName().str(), false);
      o->stack = true;
      s.st.back().allocas.push_back(o->id);
      setReg(s, I, mkVal(C64(baseOf(o->id))));
      return;
    }
    case Instruction::Load: setReg(s, I, loadTyped(s, A(0), I->getType())); return;
    case Instruction::Store: {
      auto* si = cast<StoreInst>(I);
      storeTyped(s, getE(s, si->getPointerOperand()), getVal(s, si->getValueOperand()), si->getValueOperand()->getType());
      return;
    }
    case Instruction::GetElementPtr: {
      auto* gep = cast<GEPOperator>(I);
      E p = getE(s, gep->getPointerOperand());
      for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
        if (StructType* st = gi.getStructTypeOrNull()) {
          unsigned k = cast<ConstantInt>(gi.getOperand())->getZExtValue();
          p = X.add(p, C64(DL->getStructLayout(st)->getElementOffset(k)));
        } else {
          E i = getE(s, gi.getOperand());
          p = X.add(p, X.mulc(X.sext(i, 64), DL->getTypeAllocSize(gi.getIndexedType())));
        }
      }
      setReg(s, I, mkVal(p));
      return;
    }
    case Instruction::ICmp: {
      auto* ic = cast<ICmpInst>(I);
      E a = A(0), b = A(1);
      setReg(s, I, mkVal(icmp(ic->getPredicate(), a, b)));
      return;
    }
    case Instruction::FCmp: setReg(s, I, mkVal(fcmp(cast<FCmpInst>(I)->getPredicate(), A(0), A(1)))); return;
    case Instruction::FNeg: { E a = A(0); setReg(s, I, mkVal(X.bxor(a, X.cst((u128)1 << (a->w - 1), a->w)))); return; }
    case Instruction::Select: {
      E c = A(0);
      Val t = getVal(s, I->getOperand(1)), f = getVal(s, I->getOperand(2));
      if (t.agg) throw Abort{"aggregate select"};
      // keep pointer selects resolvable
      if (c->op != CONST && I->getType()->isPointerTy()) { if (s.pcSet.count(c)) c = X.tru(); else if (s.pcSet.count(X.lnot(c))) c = X.fls(); }
      setReg(s, I, mkVal(X.ite(c, t.e, f.e)));
      recordCond(s, c);
      return;
    }
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(I);
      Val v = getVal(s, ev->getAggregateOperand());
      vector<pair<uint64_t, Type*>> ls;
      Type* t = ev->getAggregateOperand()->getType();
      size_t start = 0;
      for (unsigned k : ev->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) { ls.clear(); leaves(st->getElementType(i), 0, ls); start += ls.size(); } t = st->getElementType(k); }
        else { auto* at = cast<ArrayType>(t); ls.clear(); leaves(at->getElementType(), 0, ls); start += k * ls.size(); t = at->getElementType(); }
      }
      if (t->isStructTy() || t->isArrayTy()) {
        ls.clear(); leaves(t, 0, ls);
        Val r; r.agg = std::make_shared<vector<E>>(v.agg->begin() + start, v.agg->begin() + start + ls.size());
        setReg(s, I, r);
      } else setReg(s, I, mkVal((*v.agg)[start]));
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(I);
      Val v = getVal(s, iv->getAggregateOperand());
      Val e = getVal(s, iv->getInsertedValueOperand());
      vector<pair<uint64_t, Type*>> ls;
      Type* t = iv->getAggregateOperand()->getType();
      size_t start = 0;
      for (unsigned k : iv->indices()) {
        if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < k; i++) { ls.clear(); leaves(st->getElementType(i), 0, ls); start += ls.size(); } t = st->getElementType(k); }
        else { auto* at = cast<ArrayType>(t); ls.clear(); leaves(at->getElementType(), 0, ls); start += k * ls.size(); t = at->getElementType(); }
      }
      Val r; r.agg = std::make_shared<vector<E>>(*v.agg);
      if (e.agg) for (size_t i = 0; i < e.agg->size(); i++) (*r.agg)[start + i] = (*e.agg)[i];
      else (*r.agg)[start] = e.e;
      setReg(s, I, r);
      return;
    }
    case Instruction::ExtractElement: {
      E v = A(0), i = A(1); if (i->op != CONST) throw Abort{"symbolic vector index"};
      unsigned w = widthOf(I->getType());
      setReg(s, I, mkVal(X.extract(v, (unsigned)(i->c + 1) * w - 1, (unsigned)i->c * w)));
      return;
    }
    case Instruction::InsertElement: {
      E v = A(0), e = A(1), i = A(2); if (i->op != CONST) throw Abort{"symbolic vector index"};
      unsigned w = e->w, n = v->w / w; vector<E> p;
      for (unsigned k = n; k-- > 0;) p.push_back(k == i->c ? e : X.extract(v, (k + 1) * w - 1, k * w));
      setReg(s, I, mkVal(X.concat(p)));
      return;
    }
    case Instruction::Freeze: setReg(s, I, getVal(s, I->getOperand(0))); return;
    case Instruction::Trunc: setReg(s, I, mkVal(X.trunc(A(0), widthOf(I->getType())))); return;
    case Instruction::ZExt: setReg(s, I, mkVal(X.zext(A(0), widthOf(I->getType())))); return;
    case Instruction::SExt: setReg(s, I, mkVal(X.sext(A(0), widthOf(I->getType())))); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      E v = A(0); unsigned w = widthOf(I->getType());
      setReg(s, I, mkVal(v->w > w ? X.trunc(v, w) : X.zext(v, w))); return;
    }
    case Instruction::FPToSI: setReg(s, I, mkVal(foldFp(X.fp(F_TOSI, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::FPToUI: setReg(s, I, mkVal(foldFp(X.fp(F_TOUI, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::SIToFP: setReg(s, I, mkVal(foldFp(X.fp(F_FROMSI, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::UIToFP: setReg(s, I, mkVal(foldFp(X.fp(F_FROMUI, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::FPExt: setReg(s, I, mkVal(foldFp(X.fp(F_EXT, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::FPTrunc: setReg(s, I, mkVal(foldFp(X.fp(F_TRUNC, widthOf(I->getType()), {A(0)})))); return;
    case Instruction::AtomicRMW: {
      auto* rw = cast<AtomicRMWInst>(I);
      E p = getE(s, rw->getPointerOperand()), v = getE(s, rw->getValOperand());
      E old = X.trunc(loadMem(s, p, (v->w + 7) / 8), v->w);
      E nv = nullptr;
      switch (rw->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = X.add(old, v); break;
        case AtomicRMWInst::Sub: nv = X.sub(old, v); break;
        case AtomicRMWInst::And: nv = X.band(old, v); break;
        case AtomicRMWInst::Or: nv = X.bor(old, v); break;
        default: throw Abort{"atomicrmw"};
      }
      storeMem(s, p, nv);
      setReg(s, I, mkVal(old));
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* cx = cast<AtomicCmpXchgInst>(I);
      E p = getE(s, cx->getPointerOperand()), c = getE(s, cx->getCompareOperand()), v = getE(s, cx->getNewValOperand());
      E old = X.trunc(loadMem(s, p, (v->w + 7) / 8), v->w);
      E eq = X.eq(old, c);
      storeMem(s, p, X.ite(eq, v, old));
      Val r; r.agg = std::make_shared<vector<E>>(vector<E>{old, eq});
      setReg(s, I, r);
      return;
    }
    case Instruction::Fence: return;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E a = A(0), b = A(1);
      if (b->op != CONST || b->c == 0) {
        E ok = X.ne(b, X.cst(0, b->w));
        if (!gPure) obligation(s, ok, "arith: division by zero", locOf(I), true);
        if (s.dead) throw PathEnd{"div by zero"};
      }
      setReg(s, I, mkVal(binop(I->getOpcode(), a, b)));
      return;
    }
    default:
      if (I->isBinaryOp()) {
        if (I->getType()->isVectorTy()) {
          E a = A(0), b = A(1);
          unsigned op = I->getOpcode();
          if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) { setReg(s, I, mkVal(binop(op, a, b))); return; }
          unsigned w = widthOf(cast<VectorType>(I->getType())->getElementType()), n = a->w / w; vector<E> p;
          for (unsigned k = n; k-- > 0;) p.push_back(binop(op, X.extract(a, (k + 1) * w - 1, k * w), X.extract(b, (k + 1) * w - 1, k * w)));
          setReg(s, I, mkVal(X.concat(p)));
          return;
        }
        setReg(s, I, mkVal(foldFp(binop(I->getOpcode(), A(0), A(1)))));
        return;
      }
      throw Abort{string("instruction ") + I->getOpcodeName()};
  }
}

// run one state until it forks, moves to another block or stops. New states go to work / out.
static void stepState(State s, const Ctl& ctl, vector<State>& work, vector<Stopped>& out) {
  for (;;) {
    if (s.dead) return;
    Frame& fr = s.st.back();
    Instruction* I = &*fr.it;
    if ((++gInsts & 255) == 0) checkTime();
    try {
      if (auto* br = dyn_cast<BranchInst>(I)) {
        BasicBlock* bb = fr.bb;
        if (br->isUnconditional()) { enterBlock(std::move(s), bb, br->getSuccessor(0), ctl, work, out); return; }
        E c = getE(s, br->getCondition());
        int d = decide(s, c);
        if (d == 3) {
          State t = s;
          addPc(t, X.lnot(c)); t.br.push_back(X.lnot(c));
          enterBlock(std::move(t), bb, br->getSuccessor(1), ctl, work, out);
        }
        if (d & 1) { if (d == 3) { addPc(s, c); s.br.push_back(c); } enterBlock(std::move(s), bb, br->getSuccessor(0), ctl, work, out); }
        else if (d == 2) { enterBlock(std::move(s), bb, br->getSuccessor(1), ctl, work, out); }
        return;
      }
      if (auto* sw = dyn_cast<SwitchInst>(I)) {
        BasicBlock* bb = fr.bb;
        E v = getE(s, sw->getCondition());
        map<BasicBlock*, E> dest; vector<BasicBlock*> order;
        E any = X.fls();
        for (auto& cs : sw->cases()) {
          E c = X.eq(v, constVal(s, cs.getCaseValue()));
          any = X.bor(any, c);
          auto it = dest.find(cs.getCaseSuccessor());
          if (it == dest.end()) { dest[cs.getCaseSuccessor()] = c; order.push_back(cs.getCaseSuccessor()); }
          else it->second = X.bor(it->second, c);
        }
        E dc = X.lnot(any);
        BasicBlock* db = sw->getDefaultDest();
        if (dest.count(db)) dest[db] = X.bor(dest[db], dc); else { dest[db] = dc; order.push_back(db); }
        for (auto* b : order) {
          E c = dest[b];
          if (c->op == CONST && !c->c) continue;
          if (!feasible(s, c)) continue;
          bool only = c->op == CONST && c->c;
          State t = s;
          if (!only) { addPc(t, c); t.br.push_back(c); }
          enterBlock(std::move(t), bb, b, ctl, work, out);
          if (only) return;
        }
        return;
      }
      if (auto* rt = dyn_cast<ReturnInst>(I)) {
        Val v;
        if (rt->getReturnValue()) v = getVal(s, rt->getReturnValue());
        const CallBase* call = fr.call;
        bool stop = s.st.size() == ctl.depth && !ctl.loop;
        popFrame(s);
        if (stop) { s.ret = v; out.push_back({std::move(s), S_RET}); return; }
        if (!call) throw Abort{"return without a call"};
        if (rt->getReturnValue()) setReg(s, call, v);
        if (auto* inv = dyn_cast<InvokeInst>(call)) { BasicBlock* bb = s.st.back().bb; enterBlock(std::move(s), bb, inv->getNormalDest(), ctl, work, out); return; }
        ++s.st.back().it;
        continue;
      }
      if (isa<UnreachableInst>(I)) throw PathEnd{"unreachable"};
      if (isa<ResumeInst>(I) || isa<LandingPadInst>(I)) { gThrows++; throw PathEnd{"unwind"}; }
      if (auto* cb = dyn_cast<CallBase>(I)) {
        if (execCall(s, cb, ctl, work, out)) { continue; }
        if (auto* inv = dyn_cast<InvokeInst>(cb)) { BasicBlock* bb = s.st.back().bb; enterBlock(std::move(s), bb, inv->getNormalDest(), ctl, work, out); return; }
        ++s.st.back().it;
        continue;
      }
      execSimple(s, I);
      ++s.st.back().it;
    } catch (Fork& f) {
      int d = decide(s, f.cond);
      if (d == 3) {
        State t = s;
        addPc(t, X.lnot(f.cond)); t.br.push_back(X.lnot(f.cond));
        work.push_back(std::move(t));
        addPc(s, f.cond); s.br.push_back(f.cond);
      } else if (d == 1) { addPc(s, f.cond); if (++s.forkGuard > 10000) throw Abort{"fork loop"}; }
      else { addPc(s, X.lnot(f.cond)); if (++s.forkGuard > 10000) throw Abort{"fork loop"}; }
    }
  }
}

static void run(State init, const Ctl& ctl, vector<Stopped>& out) {
  vector<State> work;
  work.push_back(std::move(init));
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back();
    if (s.dead) continue;
    if (work.size() > 4000) throw Abort{"too many paths"};
    try { stepState(std::move(s), ctl, work, out); }
    catch (PathEnd& p) { if (gVerbose > 1) fprintf(stderr, "[path end: %s]\n", p.why.c_str()); }
  }
}

// ------------------------------------------------------------------ static initialisation
static void reach(const Constant* c, std::unordered_set<const GlobalValue*>& seen, vector<const GlobalValue*>& wl) {
  if (auto* g = dyn_cast<GlobalValue>(c)) { if (seen.insert(g).second) wl.push_back(g); return; }
  for (auto& op : c->operands()) if (auto* k = dyn_cast<Constant>(op.get())) reach(k, seen, wl);
}
static void reachAll(std::unordered_set<const GlobalValue*>& seen, vector<const GlobalValue*>& wl) {
  while (!wl.empty()) {
    auto* g = wl.back(); wl.pop_back();
    if (auto* f = dyn_cast<Function>(g)) {
      const Function* ff = f;
      if (Function* rep = replacementFor(f)) { ff = rep; if (!seen.insert(rep).second) continue; }
      for (auto& bb : *ff) for (auto& I : bb) for (auto& op : I.operands()) if (auto* k = dyn_cast<Constant>(op.get())) reach(k, seen, wl);
    } else if (auto* v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) reach(v->getInitializer(), seen, wl); }
    else if (auto* a = dyn_cast<GlobalAlias>(g)) reach(a->getAliasee(), seen, wl);
  }
}
static void runCtors(State& s, Function* entry) {
  std::unordered_set<const GlobalValue*> seen; vector<const GlobalValue*> wl{entry}; seen.insert(entry);
  reachAll(seen, wl);
  // individual initialisers in order
  vector<Function*> inits;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    for (auto& op : ca->operands()) {
      auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
      if (!f) continue;
      if (f->getName().starts_with("_GLOBAL__sub_I_")) {
        for (auto& bb : *f) for (auto& I : bb) if (auto* cb = dyn_cast<CallBase>(&I)) if (cb->getCalledFunction() && !cb->getCalledFunction()->isIntrinsic()) inits.push_back(cb->getCalledFunction());
      } else inits.push_back(f);
    }
  }
  // which initialisers write something reachable?
  std::unordered_set<Function*> chosen;
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto* f : inits) {
      if (chosen.count(f)) continue;
      bool need = false;
      std::unordered_set<const GlobalValue*> d; vector<const GlobalValue*> w;
      for (auto& bb : *f) for (auto& I : bb) {
        auto hit = [&](const Value* v) { v = v->stripInBoundsOffsets(); if (auto* g = dyn_cast<GlobalVariable>(v)) if (!g->isConstant() && seen.count(g) && !g->getName().starts_with("__dso_handle") && !g->getName().starts_with("_ZGV")) need = true; };
        if (auto* st = dyn_cast<StoreInst>(&I)) hit(st->getPointerOperand());
        if (auto* cb = dyn_cast<CallBase>(&I)) if (!cb->getCalledFunction() || cb->getCalledFunction()->getName() != "__cxa_atexit") for (auto& a : cb->args()) hit(a.get());
      }
      if (need) { chosen.insert(f); ch = true; if (seen.insert(f).second) { wl.push_back(f); reachAll(seen, wl); } }
    }
  }
  gMute++; 
  for (auto* f : inits) if (chosen.count(f)) {
    if (gVerbose > 1) fprintf(stderr, "[init %s]\n", dem(f).c_str());
    vector<Stopped> out;
    State t = s;
    pushFrame(t, f, nullptr, {});
    try { run(std::move(t), Ctl{1, nullptr}, out); }
    catch (Abort& a) { gAborts["static initialiser " + dem(f) + ": " + a.why]++; continue; }
    if (out.size() != 1) { gAborts["static initialiser " + dem(f) + ": " + std::to_string(out.size()) + " outcomes"]++; continue; }
    s = std::move(out[0].s);
    s.br.clear();
  }
  gMute--;
}

static string js(const string& s) {
  string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += c; }
  return r + "\"";
}

int main(int argc, char** argv) {
  string bc, entry, json;
  double limit = 300;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto next = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = next();
    else if (a == "--bounded") gBounded = true;
    else if (a == "--unroll") gUnroll = atoi(next().c_str());
    else if (a == "--json") json = next();
    else if (a == "--timeout") limit = atof(next().c_str());
    else if (a == "--branch-ms") gBranchMs = atoi(next().c_str());
    else if (a == "--ob-ms") gObMs = atoi(next().c_str());
    else if (a == "-v") gVerbose++;
    else bc = a;
  }
  if (gBounded && gUnroll == 2) gUnroll = 8;
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("vfy", errs()); return 3; }
  M = mod.get(); DataLayout dl = M->getDataLayout(); DL = &dl;
  Solver sv; SV = &sv;
  // contract replacements
  if (auto* ga = M->getGlobalVariable("llvm.global.annotations")) if (auto* ca = dyn_cast<ConstantArray>(ga->getInitializer()))
    for (auto& op : ca->operands()) {
      auto* st = cast<ConstantStruct>(op);
      auto* f = dyn_cast<Function>(st->getOperand(0)->stripPointerCasts());
      auto* g = dyn_cast<GlobalVariable>(st->getOperand(1)->stripPointerCasts());
      if (!f || !g) continue;
      auto* cd = dyn_cast<ConstantDataArray>(g->getInitializer());
      if (!cd || !cd->isCString()) continue;
      string t = cd->getAsCString().str();
      if (t.rfind("replace:", 0) == 0) gReplace.push_back({t.substr(8), f});
    }
  double t0 = now();
  gDeadline = t0 + limit;
  string status = "done", why;
  Function* ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  try {
    State s;
    runCtors(s, ef);
    vector<State> work;
    vector<Stopped> out;
    State t = s;
    pushFrame(t, ef, nullptr, {});
    work.push_back(std::move(t));
    Ctl ctl{1, nullptr};
    while (!work.empty()) {
      State st = std::move(work.back()); work.pop_back();
      if (st.dead) continue;
      out.clear();
      try { stepState(std::move(st), ctl, work, out); }
      catch (PathEnd& p) { if (gVerbose > 1) fprintf(stderr, "[path end: %s]\n", p.why.c_str()); }
      catch (Abort& a) { gAborts[a.why]++; if (gVerbose) fprintf(stderr, "[abort: %s]\n", a.why.c_str()); }
      gPaths += out.size();
    }
  } catch (Timeout&) { status = "timeout"; }
  catch (Abort& a) { gAborts[a.why]++; }
  catch (z3::exception& e) { status = "error"; why = e.msg(); }
  std::ostringstream os;
  long failed = 0, unknown = 0, proved = 0;
  for (auto& o : gObs) { if (o.status == "failed") failed++; else if (o.status == "unknown") unknown++; else proved++; }
  os << "{\"entry\":" << js(entry) << ",\"mode\":" << js(gBounded ? "bounded" : "proof") << ",\"status\":" << js(status) << ",\"why\":" << js(why)
     << ",\"paths\":" << gPaths << ",\"insts\":" << gInsts << ",\"wall\":" << now() - t0 << ",\"solver_time\":" << sv.solverTime << ",\"queries\":" << sv.nQueries
     << ",\"cache_hits\":" << sv.nCacheHits << ",\"proved\":" << proved << ",\"mem_proved\":" << gMemProved << ",\"failed\":" << failed << ",\"unknown\":" << unknown
     << ",\"inv_loops\":" << gInvLoops << ",\"unrolled_loops\":" << gUnrolled << ",\"pruned\":" << gPruned << ",\"throws\":" << gThrows << ",\"checks_ended\":" << gChecks;
  auto list = [&](const char* k, const set<string>& v) { os << ",\"" << k << "\":["; bool f = true; for (auto& x : v) { if (!f) os << ","; f = false; os << js(x); } os << "]"; };
  list("covers", gCovers); list("functions", gFuncs); list("loops", gLoopInvs); list("invariants", gUsedInvs); list("replaced", gReplaced); list("throw_sites", gThrowSites); list("assumed", gAssumed);
  os << ",\"aborts\":{"; { bool f = true; for (auto& a : gAborts) { if (!f) os << ","; f = false; os << js(a.first) << ":" << a.second; } } os << "}";
  // distinct obligations
  map<string, pair<long, double>> pv; 
  os << ",\"obligations\":["; { bool f = true; for (auto& o : gObs) { if (o.status == "proved") { auto& p = pv[o.name + "|" + o.loc]; p.first++; p.second += o.t; continue; } if (!f) os << ","; f = false; os << "{\"name\":" << js(o.name) << ",\"loc\":" << js(o.loc) << ",\"status\":" << js(o.status) << ",\"model\":" << js(o.dump) << "}"; } os << "]"; }
  os << ",\"proved_obligations\":{"; { bool f = true; for (auto& p : pv) { if (!f) os << ","; f = false; os << js(p.first) << ":" << p.second.first; } } os << "}}";
  if (json.empty()) printf("%s\n", os.str().c_str()); else { std::ofstream o(json); o << os.str() << "\n"; }
  if (gVerbose) fprintf(stderr, "%s: proved %ld (+%ld memory) failed %ld unknown %ld paths %ld aborts %zu loops %ld/%ld %s %.1fs\n", entry.c_str(), proved, gMemProved, failed, unknown, gPaths, gAborts.size(), gInvLoops, gUnrolled, status.c_str(), now() - t0);
  fflush(stdout); fflush(stderr);
  _exit(status == "timeout" ? 2 : (failed || unknown || !gAborts.empty()) ? 1 : 0);
}
