// Integer abstraction of a bit-vector query: terms become mathematical integers in [0, 2^w), wrapping becomes an explicit
// quotient, other bit operations become unconstrained integers of the right range. Unsatisfiable here implies unsatisfiable
// as bit-vectors (every bit-vector model gives an integer model); a satisfiable answer means nothing.
#pragma once
struct IntAbs {
  z3::context& c;
  explicit IntAbs(z3::context& cc) : c(cc) {}
  std::unordered_map<E, Z3_ast> ic, bc;
  std::unordered_map<E, std::vector<Z3_ast>> side;
  unsigned fresh = 0;
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  z3::expr ex(Z3_ast a) { return z3::expr(c, a); }
  static std::string dec(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } return s; }
  static std::string sdec(s128 v) { return v < 0 ? "-" + dec((u128)-v) : dec((u128)v); }
  z3::expr num(u128 v) { return c.int_val(dec(v).c_str()); }
  z3::expr snum(s128 v) { return c.int_val(sdec(v).c_str()); }
  z3::expr pow2(unsigned k) { return k < 128 ? num((u128)1 << k) : c.int_val("340282366920938463463374607431768211456"); }
  z3::expr var() { return c.int_const(("i!" + std::to_string(fresh++)).c_str()); }
  void add(E e, const z3::expr& f) { side[e].push_back(keep(f)); }
  z3::expr ranged(E e, const z3::expr& v) { add(e, v >= 0 && v <= num(X.ones(e))); return v; }
  z3::expr sg(E e) { // signed value
    z3::expr v = iv(e);
    if (X.ones(e) < ((u128)1 << (e->w - 1))) return v;
    return z3::ite(v >= pow2(e->w - 1), v - pow2(e->w), v);
  }
  z3::expr bo(E e) {
    auto it = bc.find(e); if (it != bc.end()) return ex(it->second);
    z3::expr r(c);
    switch (e->op) {
      case CONST: r = c.bool_val(e->c != 0); break;
      case AND: r = bo(e->a[0]) && bo(e->a[1]); break;
      case OR: r = bo(e->a[0]) || bo(e->a[1]); break;
      case XOR: r = bo(e->a[0]) != bo(e->a[1]); break;
      case NOT: r = !bo(e->a[0]); break;
      case EQ: if (e->a[0]->w == 1) r = bo(e->a[0]) == bo(e->a[1]); else r = lin(e->a[0], e->a[1], 0, false); break;
      case ULT: r = e->a[0]->w == 1 ? (!bo(e->a[0]) && bo(e->a[1])) : lin(e->a[0], e->a[1], 1, false); break;
      case ULE: r = e->a[0]->w == 1 ? (!bo(e->a[0]) || bo(e->a[1])) : lin(e->a[0], e->a[1], 2, false); break;
      case SLT: r = e->a[0]->w == 1 ? c.bool_const(("ib!" + std::to_string(fresh++)).c_str()) : sg(e->a[0]) < sg(e->a[1]); break;
      case SLE: r = e->a[0]->w == 1 ? c.bool_const(("ib!" + std::to_string(fresh++)).c_str()) : sg(e->a[0]) <= sg(e->a[1]); break;
      case ITE: r = z3::ite(bo(e->a[0]), bo(e->a[1]), bo(e->a[2])); break;
      case VAR: case FPOP: case ADD: case MUL: r = c.bool_const(("ib!" + std::to_string(fresh++)).c_str()); break;
      default: r = iv1(e) == 1; break;
    }
    bc[e] = keep(r); return r;
  }
  z3::expr lin(E x, E y, int k, bool) { z3::expr a = iv(x), b = iv(y); return k == 0 ? a == b : k == 1 ? a < b : a <= b; }
  z3::expr iv(E e) {
    if (e->w == 1 && e->op != EXTRACT && e->op != UF) return z3::ite(bo(e), c.int_val(1), c.int_val(0));
    return iv1(e);
  }
  // x mod 2^k, x div 2^k for a non-negative integer x
  void split(E e, const z3::expr& x, const z3::expr& d, z3::expr& q, z3::expr& r) {
    q = var(); r = var();
    add(e, x == d * q + r && r >= 0 && r < d && q >= 0);
  }
  z3::expr iv1(E e) {
    auto it = ic.find(e); if (it != ic.end()) return ex(it->second);
    z3::expr r(c), q(c), t(c);
    auto isC = [](E x) { return x->op == CONST; };
    switch (e->op) {
      case CONST: r = num(e->c); break;
      case VAR: r = ranged(e, c.int_const(("iv!" + X.names[e->name]).c_str())); break;
      case UF: {
        z3::sort_vector d(c); z3::expr_vector args(c);
        for (E x : e->a) { d.push_back(c.int_sort()); args.push_back(iv(x)); }
        if (e->a.empty()) r = c.int_const(("iu!" + X.names[e->name]).c_str());
        else { std::string n = "iu!" + X.names[e->name]; for (E x : e->a) n += "_" + std::to_string(x->w); n += "_" + std::to_string(e->w); r = c.function(n.c_str(), d, c.int_sort())(args); }
        ranged(e, r); break;
      }
      case ADD: {
        z3::expr_vector v(c);
        s128 cc = sgn(e->c, e->w);
        if (e->w > 64) { r = ranged(e, var()); break; }
        s128 lo = cc, hi = cc; v.push_back(snum(cc));
        for (size_t i = 0; i < e->a.size(); i++) {
          s128 k = sgn(e->k[i], e->w);
          z3::expr z = iv(e->a[i]);
          v.push_back(k == 1 ? z : snum(k) * z);
          s128 o = (s128)X.ones(e->a[i]);
          // bounds saturate: used only to limit the quotient
          long double m = (long double)k * (long double)o;
          if (m > 1e37L || m < -1e37L) { lo = -((s128)1 << 126); hi = (s128)1 << 126; continue; }
          if (k < 0) lo += k * o; else hi += k * o;
          if (lo < -((s128)1 << 125)) lo = -((s128)1 << 126);
          if (hi > ((s128)1 << 125)) hi = (s128)1 << 126;
        }
        z3::expr s = z3::sum(v);
        s128 M = (s128)1 << e->w;
        if (lo >= 0 && hi < M) { r = s; break; }
        q = var(); r = s - pow2(e->w) * q;
        add(e, r >= 0 && r < pow2(e->w));
        if (lo > -((s128)1 << 125) && hi < ((s128)1 << 125)) {
          s128 ql = lo >= 0 ? lo / M : -((-lo + M - 1) / M), qh = hi >= 0 ? hi / M : -((-hi + M - 1) / M);
          add(e, q >= snum(ql) && q <= snum(qh));
        }
        break;
      }
      case MUL: {
        z3::func_decl f = c.function(("imul" + std::to_string(e->w)).c_str(), c.int_sort(), c.int_sort(), c.int_sort());
        r = ranged(e, f(iv(e->a[0]), iv(e->a[1]))); break;
      }
      case UDIV: if (isC(e->a[1]) && e->a[1]->c) { split(e, iv(e->a[0]), num(e->a[1]->c), q, t); r = q; } else r = ranged(e, var()); break;
      case UREM: if (isC(e->a[1]) && e->a[1]->c) { split(e, iv(e->a[0]), num(e->a[1]->c), q, t); r = t; } else r = ranged(e, var()); break;
      case LSHR: if (isC(e->a[1]) && e->a[1]->c < e->w) { split(e, iv(e->a[0]), pow2((unsigned)e->a[1]->c), q, t); r = q; } else r = ranged(e, var()); break;
      case SHL: if (isC(e->a[1]) && e->a[1]->c < e->w) { split(e, iv(e->a[0]) * pow2((unsigned)e->a[1]->c), pow2(e->w), q, t); r = t; } else r = ranged(e, var()); break;
      case AND: {
        u128 m = 0; E o = nullptr;
        if (isC(e->a[0])) { m = e->a[0]->c; o = e->a[1]; } else if (isC(e->a[1])) { m = e->a[1]->c; o = e->a[0]; }
        if (o && m && !(m & (m + 1))) { unsigned k = 0; while ((m >> k) & 1 && k < 127) k++; split(e, iv(o), pow2(k), q, t); r = t; }
        else { r = ranged(e, var()); add(e, r <= iv(e->a[0]) && r <= iv(e->a[1])); }
        break;
      }
      case OR: r = ranged(e, var()); add(e, r >= iv(e->a[0]) && r >= iv(e->a[1]) && r <= iv(e->a[0]) + iv(e->a[1])); break;
      case NOT: r = num(maskOf(e->w)) - iv(e->a[0]); break;
      case CONCAT: { r = iv(e->a[0]); for (size_t i = 1; i < e->a.size(); i++) r = r * pow2(e->a[i]->w) + iv(e->a[i]); break; }
      case EXTRACT: {
        z3::expr x = iv(e->a[0]);
        u128 o = X.ones(e->a[0]);
        if (e->name) { split(e, x, pow2(e->name), q, t); x = q; o >>= e->name; }
        if (o > maskOf(e->w)) { split(e, x, pow2(e->w), q, t); x = t; }
        r = x; break;
      }
      case ZEXT: r = iv(e->a[0]); break;
      case SEXT: { z3::expr x = iv(e->a[0]); unsigned w0 = e->a[0]->w; r = z3::ite(x >= pow2(w0 - 1), x + (pow2(e->w) - pow2(w0)), x); break; }
      case ITE: r = z3::ite(bo(e->a[0]), iv(e->a[1]), iv(e->a[2])); break;
      default: r = ranged(e, var()); break;
    }
    ic[e] = keep(r); return r;
  }
  // true: the conjunction is unsatisfiable
  bool unsat(const std::vector<E>& fs, unsigned ms) {
    z3::solver s(c);
    z3::params p(c); p.set("timeout", ms); s.set(p);
    for (E f : fs) s.add(bo(f));
    std::unordered_set<E> seen; std::vector<E> st(fs.begin(), fs.end());
    while (!st.empty()) {
      E e = st.back(); st.pop_back();
      if (!seen.insert(e).second) continue;
      auto it = side.find(e);
      if (it != side.end()) for (auto a : it->second) s.add(ex(a));
      for (E x : e->a) st.push_back(x);
    }
    try { return s.check() == z3::unsat; } catch (z3::exception&) { return false; }
  }
};
