// Decides validity queries with z3 (QF_UFBV) plus instantiated lemmas for declared ghost functions.
#pragma once
#include <z3++.h>
#include <algorithm>
#include <fstream>
#include <chrono>
#include <set>
#include "expr.h"

enum Res { UNSAT, SAT, UNKNOWN };
struct UFInfo { int kind; std::string g; }; // kind 1: non-decreasing, 2: strictly increasing, 3: prefix sums of g

#include "intabs.h"

struct Solver {
  z3::context c;
  std::unordered_map<E, Z3_ast> bvCache, boCache;
  std::map<uint32_t, UFInfo> ufInfo;
  std::unordered_map<E, std::vector<uint32_t>> symCache;
  unsigned long nQueries = 0, nCacheHits = 0, nUnknown = 0;
  double solverTime = 0;
  bool exactMul = false;
  std::vector<std::pair<std::string, uint64_t>> dummy;
  struct CE { Res r; };
  std::unordered_map<std::string, Res> cache;
  std::unique_ptr<z3::model> lastModel;
  IntAbs ia{c};
  unsigned long nInt = 0;

  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  z3::expr ex(Z3_ast a) { return z3::expr(c, a); }

  static unsigned bitsOf(u128 m) { unsigned b = 1; while (b < 128 && (m >> b)) b++; return b; }
  z3::expr cbv(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr bo(E e) { // width-1 term as Bool
    auto it = boCache.find(e);
    if (it != boCache.end()) return ex(it->second);
    z3::expr r(c);
    switch (e->op) {
      case CONST: r = c.bool_val(e->c != 0); break;
      case AND: r = bo(e->a[0]) && bo(e->a[1]); break;
      case OR: r = bo(e->a[0]) || bo(e->a[1]); break;
      case XOR: r = bo(e->a[0]) != bo(e->a[1]); break;
      case NOT: r = !bo(e->a[0]); break;
      case EQ: if (e->a[0]->w == 1) r = bo(e->a[0]) == bo(e->a[1]); else r = bv(e->a[0]) == bv(e->a[1]); break;
      case ULT: r = z3::ult(bv(e->a[0]), bv(e->a[1])); break;
      case ULE: r = z3::ule(bv(e->a[0]), bv(e->a[1])); break;
      case SLT: r = bv(e->a[0]) < bv(e->a[1]); break;
      case SLE: r = bv(e->a[0]) <= bv(e->a[1]); break;
      case ITE: r = z3::ite(bo(e->a[0]), bo(e->a[1]), bo(e->a[2])); break;
      case VAR: r = c.bool_const(("b!" + X.names[e->name]).c_str()); break;
      default: r = bv(e) == c.bv_val(1, 1); break;
    }
    boCache[e] = keep(r);
    return r;
  }
  z3::sort fps(unsigned w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); }
  z3::expr toFp(E e) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv(e), fps(e->w))); }
  z3::expr fromFp(const z3::expr& e) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, e)); }
  z3::expr bv(E e) {
    if (e->w == 1 && e->op != EXTRACT && e->op != UF) return z3::ite(bo(e), c.bv_val(1, 1), c.bv_val(0, 1));
    auto it = bvCache.find(e);
    if (it != bvCache.end()) return ex(it->second);
    z3::expr r(c);
    auto A = [&](int i) { return bv(e->a[i]); };
    switch (e->op) {
      case CONST: r = cbv(e->c, e->w); break;
      case VAR: { auto it = X.varBits.find(e->name); if (it != X.varBits.end() && it->second < e->w) r = z3::zext(c.bv_const(X.names[e->name].c_str(), it->second), e->w - it->second); else r = c.bv_const(X.names[e->name].c_str(), e->w); break; }
      case ADD: {
        bool first = true;
        if (e->c) { r = cbv(e->c, e->w); first = false; }
        for (size_t i = 0; i < e->a.size(); i++) {
          z3::expr t = A(i);
          u128 k = e->k[i], m = maskOf(e->w);
          bool sub = false;
          if (k == m) { sub = true; }
          else if (k != 1) {
            if (!(k & (k - 1))) { int s = 0; while (!((k >> s) & 1)) s++; t = z3::shl(t, cbv(s, e->w)); }
            else t = t * cbv(k, e->w);
          }
          if (first) { r = sub ? -t : t; first = false; }
          else r = sub ? r - t : r + t;
        }
        break;
      }
      case MUL:
        if (exactMul || e->w < 24) r = A(0) * A(1);
        else {
          unsigned k = bitsOf(X.ones(e)), ka = bitsOf(X.ones(e->a[0])), kb = bitsOf(X.ones(e->a[1]));
          auto cut = [&](z3::expr x, unsigned b) { return b < e->w ? x.extract(b - 1, 0) : x; };
          z3::func_decl f = c.function(("umul" + std::to_string(e->w) + "_" + std::to_string(ka) + "_" + std::to_string(kb)).c_str(), c.bv_sort(ka), c.bv_sort(kb), c.bv_sort(k));
          r = f(cut(A(0), ka), cut(A(1), kb));
          if (k < e->w) r = z3::zext(r, e->w - k);
        }
        break;
      case UDIV: r = z3::udiv(A(0), A(1)); break;
      case SDIV: r = A(0) / A(1); break;
      case UREM: r = z3::urem(A(0), A(1)); break;
      case SREM: r = z3::srem(A(0), A(1)); break;
      case SHL: r = z3::shl(A(0), A(1)); break;
      case LSHR: r = z3::lshr(A(0), A(1)); break;
      case ASHR: r = z3::ashr(A(0), A(1)); break;
      case AND: r = A(0) & A(1); break;
      case OR: r = A(0) | A(1); break;
      case XOR: r = A(0) ^ A(1); break;
      case NOT: r = ~A(0); break;
      case CONCAT: { r = A(0); for (size_t i = 1; i < e->a.size(); i++) r = z3::concat(r, A(i)); break; }
      case EXTRACT: r = A(0).extract(e->name + e->w - 1, e->name); break;
      case ZEXT: r = z3::zext(A(0), e->w - e->a[0]->w); break;
      case SEXT: r = z3::sext(A(0), e->w - e->a[0]->w); break;
      case ITE: r = z3::ite(bo(e->a[0]), A(1), A(2)); break;
      case UF: {
        z3::sort_vector d(c); z3::expr_vector args(c);
        for (size_t i = 0; i < e->a.size(); i++) { d.push_back(c.bv_sort(e->a[i]->w)); args.push_back(A(i)); }
        if (e->a.empty()) r = c.bv_const(X.names[e->name].c_str(), e->w);
        else { z3::func_decl f = c.function(X.names[e->name].c_str(), d, c.bv_sort(e->w)); r = f(args); }
        break;
      }
      case FPOP: {
        z3::expr rm(c, Z3_mk_fpa_rne(c)), rz(c, Z3_mk_fpa_rtz(c));
        switch ((FpKind)e->name) {
          case F_ADD: r = fromFp(z3::expr(c, Z3_mk_fpa_add(c, rm, toFp(e->a[0]), toFp(e->a[1])))); break;
          case F_SUB: if (!exactMul && e->w == 64) { r = c.bv_const(("fsub!" + std::to_string(e->id)).c_str(), e->w); break; } r = fromFp(z3::expr(c, Z3_mk_fpa_sub(c, rm, toFp(e->a[0]), toFp(e->a[1])))); break;
          case F_MUL: r = fromFp(z3::expr(c, Z3_mk_fpa_mul(c, rm, toFp(e->a[0]), toFp(e->a[1])))); break;
          case F_DIV: r = fromFp(z3::expr(c, Z3_mk_fpa_div(c, rm, toFp(e->a[0]), toFp(e->a[1])))); break;
          case F_TOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, rz, toFp(e->a[0]), e->w)); break;
          case F_TOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, rz, toFp(e->a[0]), e->w)); break;
          case F_FROMSI: r = fromFp(z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm, A(0), fps(e->w)))); break;
          case F_FROMUI: r = fromFp(z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm, A(0), fps(e->w)))); break;
          case F_EXT: case F_TRUNC: r = fromFp(z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm, toFp(e->a[0]), fps(e->w)))); break;
          case F_ROUND: r = fromFp(z3::expr(c, Z3_mk_fpa_round_to_integral(c, rm, toFp(e->a[0])))); break;
          case F_SQRT: r = fromFp(z3::expr(c, Z3_mk_fpa_sqrt(c, rm, toFp(e->a[0])))); break;
        }
        break;
      }
      default: r = z3::ite(bo(e), c.bv_val(1, 1), c.bv_val(0, 1)); break;
    }
    bvCache[e] = keep(r);
    return r;
  }

  const std::vector<uint32_t>& syms(E e) {
    auto it = symCache.find(e);
    if (it != symCache.end()) return it->second;
    std::set<uint32_t> s;
    if (e->op == VAR || e->op == UF) {
      s.insert(e->name);
      auto u = ufInfo.find(e->name);
      if (u != ufInfo.end() && !u->second.g.empty()) s.insert(X.sym(u->second.g));
    }
    if (e->op == MUL || isSub(e)) s.insert(0x7fffffff);
    for (E x : e->a) { auto& t = syms(x); s.insert(t.begin(), t.end()); }
    return symCache[e] = std::vector<uint32_t>(s.begin(), s.end());
  }

  static bool isSub(E e) { return e->op == FPOP && e->name == F_SUB && e->w == 64; }
  void collect(E e, std::unordered_set<E>& seen, std::vector<E>& ufs, std::vector<E>& muls, std::vector<E>& subs) {
    if (!seen.insert(e).second) return;
    for (E x : e->a) collect(x, seen, ufs, muls, subs);
    if (isSub(e)) subs.push_back(e);
    if (e->op == UF && ufInfo.count(e->name)) ufs.push_back(e);
    if (e->op == MUL && e->w >= 24) muls.push_back(e);
  }
  // facts about rounded subtraction of finite numbers: never a NaN, sign of the comparison, monotonicity in each argument
  E fFin(E x) { return X.ne(X.extract(x, 62, 52), X.cst(0x7ff, 11)); }
  E fLess(E x, E y) {
    E sx = X.extract(x, 63, 63), sy = X.extract(y, 63, 63), mx = X.extract(x, 62, 0), my = X.extract(y, 62, 0), z = X.cst(0, 63);
    return X.band(X.lnot(X.band(X.eq(mx, z), X.eq(my, z))), X.ite(sx, X.ite(sy, X.ult(my, mx), X.tru()), X.ite(sy, X.fls(), X.ult(mx, my))));
  }
  void subLemmas(const std::vector<E>& subs, std::vector<E>& out) {
    E zero = X.cst(0, 64);
    for (E s : subs) {
      E a = s->a[0], b = s->a[1], ok = X.band(fFin(a), fFin(b));
      out.push_back(X.implies(ok, X.lnot(X.ult(X.cst((u128)0x7ff << 52, 63), X.extract(s, 62, 0)))));
      out.push_back(X.implies(ok, X.eq(fLess(s, zero), fLess(a, b))));
      out.push_back(X.implies(ok, X.eq(fLess(zero, s), fLess(b, a))));
      for (E t : subs) if (t != s) {
        E p = t->a[0], q = t->a[1], all = X.band(ok, X.band(fFin(p), fFin(q)));
        out.push_back(X.implies(X.band(all, X.band(X.lnot(fLess(p, a)), X.lnot(fLess(b, q)))), X.lnot(fLess(t, s))));
        if (a == q && b == p && s->id < t->id) out.push_back(X.implies(all, X.eq(X.extract(s, 62, 0), X.extract(t, 62, 0))));
      }
    }
  }
  // ground instances of the ghost-function axioms for the terms present in the query
  void lemmas(const std::vector<E>& fs, std::vector<E>& out) {
    std::unordered_set<E> seen; std::vector<E> ufs, muls, subs;
    for (E f : fs) collect(f, seen, ufs, muls, subs);
    if (!exactMul && !subs.empty()) subLemmas(subs, out);
    for (size_t k = 0, m = ufs.size(); k < m; k++) { // the element before an application at x + c
      E u = ufs[k], i = u->a.back();
      auto& inf = ufInfo[u->name];
      if (inf.kind < 3 || i->op != ADD || i->c < 1 || i->c > 4) continue;
      auto ga = u->a; ga.back() = X.sub(i, X.cst(1, i->w));
      E v = X.uf(X.names[u->name], u->w, ga);
      if (v->op == UF && seen.insert(v).second) ufs.push_back(v);
    }
    for (E u : ufs) {
      auto& inf = ufInfo[u->name];
      E i = u->a.back();
      E z = X.cst(0, i->w);
      if (inf.kind >= 3) {
        E lim = X.cst((u128)1 << (u->w - 2), u->w);
        auto ga = u->a; E g = X.uf(inf.g, u->w, ga);
        out.push_back(X.ule(u, lim)); out.push_back(X.ule(g, inf.kind == 4 ? X.cst(0xffffffffu, u->w) : inf.kind == 5 ? X.cst(1, u->w) : lim));
        if (inf.kind == 5) out.push_back(X.ule(u, i));
        out.push_back(X.implies(X.eq(i, z), X.eq(u, X.cst(0, u->w))));
      }
      for (E v : ufs) {
        if (v == u || v->name != u->name) continue;
        bool same = true;
        for (size_t k = 0; k + 1 < u->a.size(); k++) same &= u->a[k] == v->a[k];
        if (!same) continue;
        E j = v->a.back();
        if (inf.kind == 1) out.push_back(X.implies(X.ult(i, j), X.ule(u, v)));
        if (inf.kind == 2) out.push_back(X.implies(X.ult(i, j), X.ult(u, v)));
        if (inf.kind >= 3) {
          auto ga = u->a; E g = X.uf(inf.g, u->w, ga);
          out.push_back(X.implies(X.ult(i, j), X.ule(X.add(u, g), v)));
          out.push_back(X.implies(X.eq(X.add(i, X.cst(1, i->w)), j), X.eq(v, X.add(u, g))));
          if (inf.kind == 5) out.push_back(X.implies(X.ult(i, j), X.ule(X.sub(v, u), X.sub(j, i))));
        }
      }
    }
    if (!exactMul) for (E m : muls) {
      for (int s = 0; s < 2; s++) {
        E a = m->a[s], b = m->a[1 - s];
        out.push_back(X.implies(X.eq(a, X.cst(0, a->w)), X.eq(m, X.cst(0, m->w))));
        out.push_back(X.implies(X.eq(a, X.cst(1, a->w)), X.eq(m, b)));
      }
      for (E n : muls) {
        if (n == m || n->w != m->w) continue;
        for (int s = 0; s < 2; s++) for (int t = 0; t < 2; t++) {
          if (m->a[s] != n->a[t]) continue;
          E f = m->a[s], p = m->a[1 - s], q = n->a[1 - t];
          out.push_back(X.implies(X.band(fits(q, f), X.ult(p, q)), X.ule(X.add(m, f), n)));
          if (m->id < n->id) {
            E d = X.sub(q, p);
            if (d->op == CONST) out.push_back(X.eq(n, X.add(m, X.mulc(f, d->c))));
            else out.push_back(X.implies(X.eq(p, q), X.eq(m, n)));
          }
          if (X.sub(q, p)->op != CONST) out.push_back(X.implies(X.eq(X.add(p, X.cst(1, p->w)), q), X.eq(n, X.add(m, f))));
        }
      }
      // a product that cannot wrap dominates its factors
      E a = m->a[0], b = m->a[1];
      E ok = fits(a, b);
      E one = X.cst(1, m->w);
      out.push_back(X.implies(X.band(ok, X.ule(one, a)), X.ule(b, m)));
      out.push_back(X.implies(X.band(ok, X.ule(one, b)), X.ule(a, m)));
      u128 o = X.ones(m);
      if (o < maskOf(m->w)) out.push_back(X.raw(ULE, 1, {m, X.cst(o, m->w)}));
      else out.push_back(X.implies(ok, X.ule(m, X.cst(((u128)1 << m->w) - ((u128)1 << (m->w / 2 + 1)) + 1, m->w))));
    }
  }
  E fits(E a, E b) { // the product provably does not wrap
    u128 x = X.ones(a), y = X.ones(b), m = maskOf(a->w);
    if (!x || !y || x <= m / y) return X.tru();
    E lim = X.cst((u128)1 << (a->w / 2), a->w);
    return X.band(X.ult(a, lim), X.ult(b, lim));
  }

  Res solve(const std::vector<E>& fs, unsigned ms, bool wantModel) {
    auto t0 = std::chrono::steady_clock::now();
    nQueries++;
    z3::solver s(c);
    bool fp = false; std::unordered_set<E> seen;
    std::vector<E> st(fs.begin(), fs.end());
    while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == FPOP && (exactMul || !isSub(e))) fp = true; for (E x : e->a) st.push_back(x); }
    if (!fp) s = (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "smt")).mk_solver(); else s = z3::solver(c);
    z3::params p(c);
    p.set("timeout", ms);
    s.set(p);
    for (E f : fs) s.add(bo(f));
    std::vector<E> ls; lemmas(fs, ls);
    for (E f : ls) if (!(f->op == CONST && f->c)) s.add(bo(f));
    Res r;
    try {
      if (getenv("VFY_DUMP")) { static int k = 0; std::ofstream o("/tmp/q/" + std::to_string(k++) + ".smt2"); o << "(set-logic QF_UFBV)\n" << s.to_smt2(); }
      auto q = s.check();
      r = q == z3::unsat ? UNSAT : q == z3::sat ? SAT : UNKNOWN;
      if (r == SAT && wantModel) lastModel.reset(new z3::model(s.get_model()));
    } catch (z3::exception&) { r = UNKNOWN; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    solverTime += dt;
    if (r == UNKNOWN) nUnknown++;
    if (getenv("VFY_T")) fprintf(stderr, "[q %.3f res %d exact %d n %zu]\n", dt, r, exactMul, fs.size());
    if (getenv("VFY_SLOW") && dt > 0.5) { fprintf(stderr, "[slow %.1fs res=%d]\n", dt, r); for (E f : fs) fprintf(stderr, "   %s\n", X.str(f).c_str()); }
    return r;
  }

  // is pc /\ q satisfiable?
  Res check(const std::vector<E>& pc, E q, unsigned ms, bool wantModel = false, bool refine = false) {
    if (q->op == CONST && q->c == 0) return UNSAT;
    std::vector<E> fs;
    if (wantModel) { fs = pc; fs.push_back(q); }
    else {
      // cone of influence
      std::set<uint32_t> live(syms(q).begin(), syms(q).end());
      std::vector<char> in(pc.size(), 0);
      bool ch = true;
      while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
          if (in[i]) continue;
          auto& s = syms(pc[i]);
          bool hit = false;
          for (auto x : s) if (live.count(x)) { hit = true; break; }
          if (hit) { in[i] = 1; ch = true; live.insert(s.begin(), s.end()); }
        }
      }
      for (size_t i = 0; i < pc.size(); i++) {
        if (pc[i] == q && 0) return SAT;
        if (in[i]) { fs.push_back(pc[i]); if (X.lnot(pc[i]) == q) return UNSAT; }
      }
      fs.push_back(q);
    }
    std::sort(fs.begin(), fs.end(), [](E a, E b) { return a->id < b->id; });
    fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
    std::string key = refine ? "R" : "";
    for (E f : fs) key += std::to_string(f->id) + ",";
    if (!wantModel) {
      auto it = cache.find(key);
      if (it != cache.end()) { nCacheHits++; return it->second; }
    }
    Res r = UNKNOWN;
    static const bool noInt = getenv("VFY_NOINT");
    if (!wantModel && !noInt) {
      const unsigned first = 60;
      std::vector<E> gs = fs; lemmas(fs, gs);
      bool ghost = gs.size() > fs.size(); // ghost functions or products: mostly index arithmetic
      if (ms > first && !ghost) r = solve(fs, first, false);
      if (r == UNKNOWN) {
        auto t0 = std::chrono::steady_clock::now();
        bool u = ia.unsat(gs, ghost ? 250u : std::min(ms, 1000u));
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        solverTime += dt;
        if (getenv("VFY_T")) fprintf(stderr, "[int %.3f res %d]\n", dt, (int)u);
        if (u) { nInt++; r = UNSAT; }
      }
    }
    if (r == UNKNOWN) r = solve(fs, ms, wantModel);
    if (r == SAT && (refine || wantModel) && !exactMul && hasMul(fs)) { // refine the product abstraction
      exactMul = true;
      auto sb = bvCache; auto so = boCache; bvCache.clear(); boCache.clear();
      Res r2 = solve(fs, ms, wantModel);
      exactMul = false; bvCache = sb; boCache = so;
      if (r2 != UNKNOWN) r = r2; else r = UNKNOWN;
    }
    if (r != UNKNOWN || ms >= 10000) cache[key] = r;
    return r;
  }
  bool hasMul(const std::vector<E>& fs) { for (E f : fs) { auto& s = syms(f); if (!s.empty() && s.back() == 0x7fffffff) return true; } return false; }

  // value of a term in the last model
  bool value(E e, u128& out) {
    if (!lastModel) return false;
    z3::expr v = e->w == 1 ? lastModel->eval(bo(e), true) : lastModel->eval(bv(e), true);
    if (e->w == 1) { out = v.is_true(); return v.is_true() || v.is_false() ; }
    std::string s = Z3_get_numeral_string(c, v);
    u128 r = 0; for (char ch : s) r = r * 10 + (ch - '0');
    out = r; return true;
  }
};
