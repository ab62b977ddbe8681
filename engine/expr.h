// Hash-consed bit-vector terms with a linear normal form for addition. Width-1 terms double as
// booleans. Used by the VC generator; translated to z3 only when a query has to be decided.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, ADD, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, NOT,
  CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE, UF, FPOP
};
enum FpKind { F_ADD, F_SUB, F_MUL, F_DIV, F_TOSI, F_TOUI, F_FROMSI, F_FROMUI, F_EXT, F_TRUNC, F_ROUND, F_SQRT };

struct Node;
typedef const Node* E;
struct Node {
  Op op;
  uint16_t w;
  uint32_t id;
  u128 c = 0;            // CONST value / ADD constant
  std::vector<E> a;      // operands
  std::vector<u128> k;   // ADD coefficients
  uint32_t name = 0;     // VAR / UF symbol, EXTRACT low bit, FPOP kind
};

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sgn(u128 v, unsigned w) {
  if (w < 128 && (v >> (w - 1)) & 1) v |= ~maskOf(w);
  return (s128)v;
}

struct Ctx {
  std::vector<std::string> names;
  std::unordered_map<std::string, uint32_t> nameIdx;
  std::vector<Node*> nodes;
  struct H { size_t operator()(const Node* n) const {
      size_t h = n->op * 1000003u + n->w * 7919u + n->name * 31u + (size_t)n->c * 0x9E3779B97F4A7C15ull + (size_t)(n->c >> 64);
      for (auto x : n->a) h = h * 1099511628211ull ^ x->id;
      for (auto x : n->k) h = h * 1099511628211ull ^ (size_t)x;
      return h; } };
  struct Q { bool operator()(const Node* x, const Node* y) const {
      return x->op == y->op && x->w == y->w && x->name == y->name && x->c == y->c && x->a == y->a && x->k == y->k; } };
  std::unordered_set<Node*, H, Q> tab;

  std::unordered_map<uint32_t, unsigned> varBits; // variables assumed to fit in fewer bits
  uint32_t sym(const std::string& s) {
    auto it = nameIdx.find(s);
    if (it != nameIdx.end()) return it->second;
    names.push_back(s);
    return nameIdx[s] = names.size() - 1;
  }
  E mk(Node&& n) {
    auto it = tab.find(&n);
    if (it != tab.end()) return *it;
    Node* p = new Node(std::move(n));
    p->id = nodes.size();
    nodes.push_back(p);
    tab.insert(p);
    return p;
  }
  E cst(u128 v, unsigned w) { Node n; n.op = CONST; n.w = w; n.c = v & maskOf(w); return mk(std::move(n)); }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }
  E var(const std::string& s, unsigned w) { Node n; n.op = VAR; n.w = w; n.name = sym(s); return mk(std::move(n)); }
  E varIn(const std::string& s, unsigned w, unsigned bits) { varBits[sym(s)] = bits; return var(s, w); }
  E uf(const std::string& s, unsigned w, std::vector<E> args) {
    Node n; n.op = UF; n.w = w; n.name = sym(s); n.a = std::move(args); return mk(std::move(n)); }
  E fp(FpKind k, unsigned w, std::vector<E> args) { Node n; n.op = FPOP; n.w = w; n.name = k; n.a = std::move(args); return mk(std::move(n)); }

  E raw(Op op, unsigned w, std::vector<E> a, uint32_t name = 0) {
    Node n; n.op = op; n.w = w; n.a = std::move(a); n.name = name; return mk(std::move(n)); }

  static bool isC(E e) { return e->op == CONST; }
  static bool isC(E e, u128 v) { return e->op == CONST && e->c == v; }

  // ---- linear arithmetic
  typedef std::map<uint32_t, std::pair<E, u128>> Poly;
  void addTo(Poly& p, u128& c, E e, u128 k, unsigned w) {
    u128 m = maskOf(w);
    if (isC(e)) { c = (c + e->c * k) & m; return; }
    if (e->op == ADD) {
      c = (c + e->c * k) & m;
      for (size_t i = 0; i < e->a.size(); i++) addTo(p, c, e->a[i], (e->k[i] * k) & m, w);
      return;
    }
    auto& s = p[e->id];
    s.first = e;
    s.second = (s.second + k) & m;
  }
  E fromPoly(Poly& p, u128 c, unsigned w) {
    std::vector<E> a; std::vector<u128> k;
    for (auto& x : p) if (x.second.second) { a.push_back(x.second.first); k.push_back(x.second.second); }
    if (a.empty()) return cst(c, w);
    if (a.size() == 1 && k[0] == 1 && c == 0) return a[0];
    Node n; n.op = ADD; n.w = w; n.c = c; n.a = std::move(a); n.k = std::move(k);
    return mk(std::move(n));
  }
  E add(E x, E y) {
    if (isC(x) && isC(y)) return cst(x->c + y->c, x->w);
    if (isC(x, 0)) return y;
    if (isC(y, 0)) return x;
    if (x->w == 1) return bxor(x, y);
    Poly p; u128 c = 0; addTo(p, c, x, 1, x->w); addTo(p, c, y, 1, x->w);
    return fromPoly(p, c, x->w);
  }
  E sub(E x, E y) {
    if (x == y) return cst(0, x->w);
    if (isC(x) && isC(y)) return cst(x->c - y->c, x->w);
    if (isC(y, 0)) return x;
    if (x->w == 1) return bxor(x, y);
    Poly p; u128 c = 0; addTo(p, c, x, 1, x->w); addTo(p, c, y, maskOf(x->w), x->w);
    return fromPoly(p, c, x->w);
  }
  E mulc(E x, u128 k) {
    if (isC(x)) return cst(x->c * k, x->w);
    if (x->w == 1) return (k & 1) ? x : cst(0, 1);
    Poly p; u128 c = 0; addTo(p, c, x, k & maskOf(x->w), x->w);
    return fromPoly(p, c, x->w);
  }
  E mul(E x, E y) {
    if (isC(x)) return mulc(y, x->c);
    if (isC(y)) return mulc(x, y->c);
    if (x->w == 1) return band(x, y);
    // distribute over sums so that products share atoms
    if (x->op == ADD && y->op != ADD) {
      E r = mulc(y, x->c);
      for (size_t i = 0; i < x->a.size(); i++) r = add(r, mulc(mul(x->a[i], y), x->k[i]));
      return r;
    }
    if (y->op == ADD && x->op != ADD) return mul(y, x);
    if (x->id > y->id) std::swap(x, y);
    return raw(MUL, x->w, {x, y});
  }
  E neg(E x) { return sub(cst(0, x->w), x); }

  // ---- possible-one bits (cheap)
  u128 ones(E e, int d = 0) {
    u128 m = maskOf(e->w);
    if (isC(e)) return e->c;
    if (d > 6) return m;
    switch (e->op) {
      case VAR: { auto it = varBits.find(e->name); return it == varBits.end() ? m : maskOf(it->second); }
      case MUL: { u128 a = ones(e->a[0], d + 1), b = ones(e->a[1], d + 1); if (!a || !b) return 0; if (a > m / b) return m; u128 r = a * b; for (int i = 1; i < 128; i <<= 1) r |= r >> i; return r & m; }
      case UDIV: { u128 a = ones(e->a[0], d + 1); if (isC(e->a[1]) && e->a[1]->c) a /= e->a[1]->c; else return m; u128 r = a; for (int i = 1; i < 128; i <<= 1) r |= r >> i; return r & m; }
      case ZEXT: return ones(e->a[0], d + 1);
      case CONCAT: { u128 r = 0; for (E x : e->a) r = (r << x->w) | ones(x, d + 1); return r; }
      case AND: return ones(e->a[0], d + 1) & ones(e->a[1], d + 1);
      case OR: case XOR: return ones(e->a[0], d + 1) | ones(e->a[1], d + 1);
      case ITE: return ones(e->a[1], d + 1) | ones(e->a[2], d + 1);
      case EXTRACT: return (ones(e->a[0], d + 1) >> e->name) & m;
      case LSHR: if (isC(e->a[1])) return e->a[1]->c < e->w ? ones(e->a[0], d + 1) >> (unsigned)e->a[1]->c : 0; return m;
      case ADD: {
        // sum bound: if the sum of maxima does not overflow, bound by next power of two
        u128 s = e->c; bool ov = false;
        int tz = 128; auto ctz = [](u128 v) { int n = 0; if (!v) return 128; while (!(v & 1)) { v >>= 1; n++; } return n; };
        tz = ctz(e->c);
        for (size_t i = 0; i < e->a.size(); i++) {
          u128 o = ones(e->a[i], d + 1);
          int z = ctz(o) + ctz(e->k[i]); if (z < tz) tz = z;
          if (o == 0) continue;
          if (e->k[i] > m / o) { ov = true; continue; }
          u128 t = o * e->k[i];
          if (t > m - s) { ov = true; continue; }
          s += t;
        }
        u128 r = m;
        if (!ov) { r = s; for (int i = 1; i < 128; i <<= 1) r |= r >> i; r &= m; }
        if (tz >= 128) tz = 0;
        if (tz < (int)e->w) r &= ~maskOf(tz); else r = 0;
        return r & m;
      }
      case UREM: if (isC(e->a[1]) && e->a[1]->c) { u128 r = e->a[1]->c - 1; for (int i = 1; i < 128; i <<= 1) r |= r >> i; return r; } return m;
      default: return m;
    }
  }

  // ---- bitwise
  E lnot(E x) { // bitwise not
    if (isC(x)) return cst(~x->c, x->w);
    if (x->op == NOT) return x->a[0];
    if (x->w == 1) {
      if (x->op == ULT) return ule(x->a[1], x->a[0]);
      if (x->op == ULE) return ult(x->a[1], x->a[0]);
      if (x->op == SLT) return sle(x->a[1], x->a[0]);
      if (x->op == SLE) return slt(x->a[1], x->a[0]);
      return raw(NOT, 1, {x});
    }
    return sub(cst(maskOf(x->w), x->w), x); // ~x = -1 - x
  }
  E band(E x, E y) {
    if (x == y) return x;
    if (isC(x)) std::swap(x, y);
    if (isC(x)) return cst(x->c & y->c, x->w);
    if (isC(y)) {
      u128 m = maskOf(x->w);
      if (y->c == 0) return y;
      if (y->c == m) return x;
      if ((ones(x) & ~y->c & m) == 0) return x;
      // low mask
      u128 v = y->c;
      int lo = 0; while (!((v >> lo) & 1)) lo++;
      int hi = 127; while (!((v >> hi) & 1)) hi--;
      if (v == (maskOf(hi + 1) & ~maskOf(lo))) {
        E mid = extract(x, hi, lo);
        if (lo == 0) return zext(mid, x->w);
        std::vector<E> parts;
        if (hi + 1 < x->w) parts.push_back(cst(0, x->w - hi - 1));
        parts.push_back(mid);
        parts.push_back(cst(0, lo));
        return concat(parts);
      }
    }
    if (x->w == 1) {
      if ((x->op == NOT && x->a[0] == y) || (y->op == NOT && y->a[0] == x)) return fls();
    }
    if (!isC(y) && (ones(x) & ones(y)) == 0) return cst(0, x->w);
    if (!isC(y) && x->id > y->id) std::swap(x, y);
    return raw(AND, x->w, {x, y});
  }
  E bor(E x, E y) {
    if (x == y) return x;
    if (isC(x)) std::swap(x, y);
    if (isC(x)) return cst(x->c | y->c, x->w);
    if (isC(y)) { if (y->c == 0) return x; if (y->c == maskOf(x->w)) return y; }
    if (x->w == 1 && ((x->op == NOT && x->a[0] == y) || (y->op == NOT && y->a[0] == x))) return tru();
    if (x->w > 1 && (ones(x) & ones(y)) == 0) {
      // disjoint bits: a concatenation if both sides are concatenations of aligned pieces, else a sum
      if (isC(y) ? x->op == CONCAT : true) { E r = orConcat(x, y); if (r) return r; }
      return add(x, y);
    }
    if (x->id > y->id) std::swap(x, y);
    return raw(OR, x->w, {x, y});
  }
  // combine two disjoint terms into one concat by cutting at piece borders
  E orConcat(E x, E y) {
    auto packy = [&](E e) { // byte packing rather than address arithmetic
      if (e->op == CONCAT) return true;
      E b = e; if (e->op == ADD) { if (e->a.size() != 1 || e->c) return false; b = e->a[0]; }
      return b->op == ZEXT || b->op == CONCAT || b->op == EXTRACT; };
    if (isC(y) ? x->op != CONCAT : !(packy(x) && packy(y))) return nullptr;
    u128 ox = ones(x), oy = ones(y);
    std::vector<E> parts;
    int hi = x->w - 1;
    while (hi >= 0) {
      bool bx = (ox >> hi) & 1, by = (oy >> hi) & 1;
      int lo = hi;
      while (lo > 0 && (((ox >> (lo - 1)) & 1) == bx) && (((oy >> (lo - 1)) & 1) == by)) lo--;
      E p = bx ? extract(x, hi, lo) : by ? extract(y, hi, lo) : cst(0, hi - lo + 1);
      parts.push_back(p);
      hi = lo - 1;
      if (parts.size() > 20) return nullptr;
    }
    return concat(parts);
  }
  E bxor(E x, E y) {
    if (x == y) return cst(0, x->w);
    if (isC(x)) std::swap(x, y);
    if (isC(x)) return cst(x->c ^ y->c, x->w);
    if (isC(y)) { if (y->c == 0) return x; if (y->c == maskOf(x->w)) return lnot(x); }
    if (x->id > y->id) std::swap(x, y);
    return raw(XOR, x->w, {x, y});
  }
  E shl(E x, E y) {
    if (isC(y)) { if (y->c >= x->w) return cst(0, x->w); return mulc(x, (u128)1 << (unsigned)y->c); }
    if (isC(x, 0)) return x;
    return raw(SHL, x->w, {x, y});
  }
  E lshr(E x, E y) {
    if (isC(y)) {
      unsigned s = (unsigned)y->c;
      if (y->c >= x->w) return cst(0, x->w);
      if (s == 0) return x;
      if (isC(x)) return cst(x->c >> s, x->w);
      return zext(extract(x, x->w - 1, s), x->w);
    }
    if (isC(x, 0)) return x;
    return raw(LSHR, x->w, {x, y});
  }
  E ashr(E x, E y) {
    if (isC(y)) {
      unsigned s = (unsigned)y->c;
      if (y->c >= x->w) s = x->w - 1;
      if (s == 0) return x;
      if (isC(x)) return cst((u128)(sgn(x->c, x->w) >> s), x->w);
      if (!((ones(x) >> (x->w - 1)) & 1)) return zext(extract(x, x->w - 1, s), x->w);
      return sext(extract(x, x->w - 1, s), x->w);
    }
    return raw(ASHR, x->w, {x, y});
  }
  E udiv(E x, E y) {
    if (isC(y)) {
      if (y->c == 1) return x;
      if (y->c && isC(x)) return cst(x->c / y->c, x->w);
      if (y->c && !(y->c & (y->c - 1))) { int s = 0; while (!((y->c >> s) & 1)) s++; return lshr(x, cst(s, x->w)); }
      if (y->c && ones(x) < y->c) return cst(0, x->w);
      // exact division of a linear term whose coefficients divide
      if (E q = exactDiv(x, y->c)) return q;
    }
    return raw(UDIV, x->w, {x, y});
  }
  // Linear terms that provably do not wrap: mathematical value range (signed coefficients, unsigned atoms).
  bool linRange(E e, s128& lo, s128& hi) {
    if (e->w > 64) return false;
    const s128 lim = (s128)1 << (e->w - 2 > 0 ? e->w - 2 : 0);
    if (isC(e)) { lo = hi = sgn(e->c, e->w); return lo > -lim && hi < lim; }
    if (e->op != ADD) { u128 o = ones(e); if (o >= (u128)lim) return false; lo = 0; hi = (s128)o; return true; }
    lo = hi = sgn(e->c, e->w);
    for (size_t i = 0; i < e->a.size(); i++) {
      u128 o = ones(e->a[i]); s128 k = sgn(e->k[i], e->w);
      if (o >= (u128)lim) return false;
      u128 ak = (u128)(k < 0 ? -k : k);
      if (o && ak > (u128)lim / o) return false;
      if (k < 0) lo -= (s128)(ak * o); else hi += (s128)(ak * o);
      if (lo <= -lim || hi >= lim) return false;
    }
    return lo > -lim && hi < lim;
  }
  u128 linGcd(E d) {
    u128 g = 0;
    for (auto kk : d->k) { s128 k = sgn(kk, d->w); u128 v = (u128)(k < 0 ? -k : k); while (v) { u128 t = g % v; g = v; v = t; } }
    return g;
  }
  // x <= y over the integers for terms that do not wrap, scaled down; nullptr: no simplification
  E linLe(E x, E y, bool needNonNeg) {
    if (x->op != ADD && y->op != ADD) return nullptr;
    s128 xl, xh, yl, yh, dl, dh;
    if (!linRange(x, xl, xh) || !linRange(y, yl, yh)) return nullptr;
    if (needNonNeg && (xl < 0 || yl < 0)) return nullptr;
    E d = sub(y, x);
    if (!linRange(d, dl, dh)) return nullptr;
    if (dl >= 0) return tru();
    if (dh < 0) return fls();
    if (d->op != ADD) return nullptr;
    u128 g = linGcd(d);
    if (g <= 1) return nullptr;
    s128 c = sgn(d->c, d->w), q = c >= 0 ? c / (s128)g : -((-c + (s128)g - 1) / (s128)g);
    E l = cst(q < 0 ? (u128)-q : 0, d->w), r = cst(q > 0 ? (u128)q : 0, d->w);
    for (size_t i = 0; i < d->a.size(); i++) {
      s128 k = sgn(d->k[i], d->w) / (s128)g;
      if (k < 0) l = add(l, mulc(d->a[i], (u128)-k)); else r = add(r, mulc(d->a[i], (u128)k));
    }
    return ule(l, r);
  }
  E linDiv(E x, u128 dd, bool modular = false) { // modular: some q with x = dd*q modulo 2^w
    s128 lo, hi, D = sgn(dd, x->w);
    if (x->op != ADD || D <= 0 || (!modular && !linRange(x, lo, hi))) return nullptr;
    if (sgn(x->c, x->w) % D) return nullptr;
    for (auto kk : x->k) if (sgn(kk, x->w) % D) return nullptr;
    u128 m = maskOf(x->w);
    E r = cst((u128)(sgn(x->c, x->w) / D) & m, x->w);
    for (size_t i = 0; i < x->a.size(); i++) r = add(r, mulc(x->a[i], (u128)(sgn(x->k[i], x->w) / D) & m));
    return r;
  }
  // (k*t) / k when it cannot wrap
  E exactDiv(E x, u128 d) {
    if (x->op != ADD) return nullptr;
    u128 m = maskOf(x->w), s = x->c;
    if (x->c % d) return nullptr;
    for (size_t i = 0; i < x->a.size(); i++) {
      if (x->k[i] % d) return nullptr;
      u128 o = ones(x->a[i]);
      if (o && x->k[i] > m / o) return nullptr;
      u128 t = o * x->k[i];
      if (t > m - s) return nullptr;
      s += t;
    }
    E r = cst(x->c / d, x->w);
    for (size_t i = 0; i < x->a.size(); i++) r = add(r, mulc(x->a[i], x->k[i] / d));
    return r;
  }
  E urem(E x, E y) {
    if (isC(y) && y->c) {
      if (isC(x)) return cst(x->c % y->c, x->w);
      if (!(y->c & (y->c - 1))) return band(x, cst(y->c - 1, x->w));
      if (ones(x) < y->c) return x;
      if (exactDiv(x, y->c)) return cst(0, x->w);
    }
    return raw(UREM, x->w, {x, y});
  }
  E sdiv(E x, E y) {
    if (isC(x) && isC(y) && y->c) return cst((u128)(sgn(x->c, x->w) / sgn(y->c, y->w)), x->w);
    if (isC(y, 1)) return x;
    if (isC(y)) if (E q = linDiv(x, y->c)) return q;
    return raw(SDIV, x->w, {x, y});
  }
  E srem(E x, E y) {
    if (isC(x) && isC(y) && y->c) return cst((u128)(sgn(x->c, x->w) % sgn(y->c, y->w)), x->w);
    return raw(SREM, x->w, {x, y});
  }

  // ---- structure
  E extract(E x, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == x->w) return x;
    switch (x->op) {
      case CONST: return cst(x->c >> lo, w);
      case EXTRACT: return extract(x->a[0], hi + x->name, lo + x->name);
      case ZEXT: {
        unsigned iw = x->a[0]->w;
        if (lo >= iw) return cst(0, w);
        if (hi < iw) return extract(x->a[0], hi, lo);
        return zext(extract(x->a[0], iw - 1, lo), w);
      }
      case SEXT: {
        unsigned iw = x->a[0]->w;
        if (hi < iw) return extract(x->a[0], hi, lo);
        if (lo == 0) return sext(x->a[0], w);
        if (lo < iw) return sext(extract(x->a[0], iw - 1, lo), w);
        break;
      }
      case CONCAT: {
        std::vector<E> parts;
        int top = x->w;
        for (E p : x->a) {
          int plo = top - p->w, phi = top - 1;
          int l = (int)lo > plo ? lo : plo, h = (int)hi < phi ? hi : phi;
          if (l <= h) parts.push_back(extract(p, h - plo, l - plo));
          top = plo;
        }
        return concat(parts);
      }
      case AND: return band(extract(x->a[0], hi, lo), extract(x->a[1], hi, lo));
      case OR: return bor(extract(x->a[0], hi, lo), extract(x->a[1], hi, lo));
      case XOR: return bxor(extract(x->a[0], hi, lo), extract(x->a[1], hi, lo));
      case ITE: {
        return ite(x->a[0], extract(x->a[1], hi, lo), extract(x->a[2], hi, lo));
      }
      case ADD: {
        if (lo == 0) {
          E r = cst(x->c, w);
          for (size_t i = 0; i < x->a.size(); i++) {
            if ((x->k[i] & maskOf(w)) == 0) continue;
            r = add(r, mulc(extract(x->a[i], hi, 0), x->k[i]));
          }
          return r;
        }
        // drop a common power-of-two factor
        int tz = 128; auto ctz = [](u128 v) { int n = 0; if (!v) return 128; while (!(v & 1)) { v >>= 1; n++; } return n; };
        tz = ctz(x->c); for (auto kk : x->k) { int z = ctz(kk); if (z < tz) tz = z; }
        if (tz > 0 && tz < 128) {
          if ((int)hi < tz) return cst(0, w);
          if ((int)lo >= tz) {
            if (x->a.size() == 1 && x->c == 0 && x->k[0] == ((u128)1 << tz)) return extract(x->a[0], hi - tz, lo - tz);
          }
        }
        u128 o = ones(x);
        if (((o >> lo) & maskOf(w)) == 0) return cst(0, w);
        break;
      }
      case MUL: if (lo == 0) return mul(extract(x->a[0], hi, 0), extract(x->a[1], hi, 0)); break;
      default: break;
    }
    return raw(EXTRACT, w, {x}, lo);
  }
  E trunc(E x, unsigned w) { return extract(x, w - 1, 0); }
  E zext(E x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return cst(x->c, w);
    if (x->op == ZEXT) return zext(x->a[0], w);
    if (x->op == ITE && (isC(x->a[1]) || isC(x->a[2]))) return ite(x->a[0], zext(x->a[1], w), zext(x->a[2], w));
    if (x->op == CONCAT && isC(x->a[0], 0)) {
      std::vector<E> p(x->a.begin(), x->a.end()); p[0] = cst(0, p[0]->w + w - x->w); return concat(p);
    }
    // zext of a sum that provably does not wrap
    if (x->op == ADD) {
      u128 m = maskOf(x->w), s = x->c; bool ok = true;
      for (size_t i = 0; i < x->a.size() && ok; i++) {
        u128 o = ones(x->a[i]);
        if (o && x->k[i] > m / o) { ok = false; break; }
        u128 t = o * x->k[i];
        if (t > m - s) { ok = false; break; }
        s += t;
      }
      if (ok) { E r = cst(x->c, w); for (size_t i = 0; i < x->a.size(); i++) r = add(r, mulc(zext(x->a[i], w), x->k[i])); return r; }
    }
    return raw(ZEXT, w, {x});
  }
  E sext(E x, unsigned w) {
    if (x->w == w) return x;
    if (isC(x)) return cst((u128)sgn(x->c, x->w), w);
    if (!((ones(x) >> (x->w - 1)) & 1)) return zext(x, w);
    if (x->op == SEXT) return sext(x->a[0], w);
    if (x->op == ITE && (isC(x->a[1]) || isC(x->a[2]))) return ite(x->a[0], sext(x->a[1], w), sext(x->a[2], w));
    return raw(SEXT, w, {x});
  }
  E concat(const std::vector<E>& in) { // most significant first
    std::vector<E> p;
    unsigned w = 0;
    for (E x : in) {
      w += x->w;
      std::vector<E> xs;
      if (x->op == CONCAT) xs = x->a;
      else if (x->op == ZEXT) { xs = {cst(0, x->w - x->a[0]->w), x->a[0]}; }
      else xs = {x};
      for (E y : xs) {
        if (!p.empty()) {
          E l = p.back();
          if (isC(l) && isC(y)) { p.back() = cst((l->c << y->w) | y->c, l->w + y->w); continue; }
          E lb = l->op == EXTRACT ? l->a[0] : nullptr;
          if (lb && y->op == EXTRACT && y->a[0] == lb && l->name == y->name + y->w) {
            p.back() = extract(lb, l->name + l->w - 1, y->name); continue;
          }
          if (lb && y == lb && l->name == y->w) { /* cannot happen: widths */ }
          // ite merging with identical conditions
          if (l->op == ITE && y->op == ITE && l->a[0] == y->a[0]) {
            p.back() = ite(l->a[0], concat({l->a[1], y->a[1]}), concat({l->a[2], y->a[2]})); continue;
          }
        }
        p.push_back(y);
      }
    }
    if (p.size() == 1) return p[0];
    if (p.size() == 2 && isC(p[0], 0)) return zext2(p[1], w);
    Node n; n.op = CONCAT; n.w = w; n.a = std::move(p);
    return mk(std::move(n));
  }
  E zext2(E x, unsigned w) {
    if (x->op == CONCAT) { std::vector<E> p(x->a); p.insert(p.begin(), cst(0, w - x->w)); Node n; n.op = CONCAT; n.w = w; n.a = p; return mk(std::move(n)); }
    return zext(x, w);
  }
  E ite(E c, E x, E y) {
    if (isC(c)) return c->c ? x : y;
    if (x == y) return x;
    if (c->op == NOT) return ite(c->a[0], y, x);
    if (x->w == 1) {
      if (isC(x, 1)) return bor(c, y);
      if (isC(x, 0)) return band(lnot(c), y);
      if (isC(y, 1)) return bor(lnot(c), x);
      if (isC(y, 0)) return band(c, x);
      if (x == c) return bor(c, y);
      if (y == c) return band(c, x);
    }
    if (x->op == ITE && x->a[0] == c) x = x->a[1];
    if (y->op == ITE && y->a[0] == c) y = y->a[2];
    if (x == y) return x;
    return raw(ITE, x->w, {c, x, y});
  }
  E eq(E x, E y) {
    if (x == y) return tru();
    if (isC(x) && isC(y)) return x->c == y->c ? tru() : fls();
    if (isC(x)) std::swap(x, y);
    if (x->w == 1) {
      if (isC(y)) return y->c ? x : lnot(x);
      if (x->op == NOT && x->a[0] == y) return fls();
    }
    if (isC(y)) {
      if (y->c & ~ones(x) & maskOf(x->w)) return fls();
      if (x->op == ZEXT) return eq(x->a[0], cst(y->c, x->a[0]->w));
      if (x->op == SEXT) {
        E in = x->a[0];
        if ((u128)(sgn(y->c & maskOf(in->w), in->w)) == (u128)sgn(y->c, y->w)) return eq(in, cst(y->c, in->w));
        return fls();
      }
      if (x->op == CONCAT) {
        E r = tru(); int top = x->w;
        for (E p : x->a) { top -= p->w; r = band(r, eq(p, cst(y->c >> top, p->w))); }
        return r;
      }
      if (x->op == ITE && (isC(x->a[1]) || isC(x->a[2])))
        return ite(x->a[0], eq(x->a[1], y), eq(x->a[2], y));
    }
    if (x->w > 1 && (x->op == ADD || y->op == ADD)) {
      E d = sub(x, y);
      if (isC(d)) return d->c == 0 ? tru() : fls();
      // canonical: positive constant on the right
      if (d->op == ADD) {
        if (d->a.size() == 1 && d->k[0] == maskOf(d->w)) return eqRaw(d->a[0], cst(d->c, d->w)); // -a + c == 0
        if (d->a.size() == 1 && d->k[0] == 1) return eqRaw(d->a[0], cst((u128)0 - d->c, d->w));
        if (d->a.size() == 2 && d->c == 0 && d->k[0] == 1 && d->k[1] == maskOf(d->w)) return eqRaw(d->a[0], d->a[1]);
        if (d->a.size() == 2 && d->c == 0 && d->k[1] == 1 && d->k[0] == maskOf(d->w)) return eqRaw(d->a[0], d->a[1]);
        // parity argument: all coefficients share a power of two the constant does not
        u128 g = 0; for (auto kk : d->k) g |= kk;
        if (g && d->c) { u128 low = g & (~g + 1); if (d->c & (low - 1)) return fls(); }
        s128 dl, dh;
        if (linRange(d, dl, dh)) {
          if (dl > 0 || dh < 0) return fls();
          u128 gg = linGcd(d);
          if (gg > 1) {
            s128 cc = sgn(d->c, d->w);
            if (cc % (s128)gg) return fls();
            if (E q = linDiv(d, gg)) return eq(q, cst(0, d->w));
          }
        }
      }
    }
    if (x->op == ZEXT && y->op == ZEXT && x->a[0]->w == y->a[0]->w) return eq(x->a[0], y->a[0]);
    return eqRaw(x, y);
  }
  E eqRaw(E x, E y) {
    if (x == y) return tru();
    if (isC(x)) std::swap(x, y);
    if (isC(y) && (x->op == ZEXT || x->op == CONCAT || x->op == SEXT)) return eq(x, y);
    if (isC(y) && (y->c & ~ones(x) & maskOf(x->w))) return fls();
    if (!isC(y) && x->id > y->id) std::swap(x, y);
    return raw(EQ, 1, {x, y});
  }
  E ne(E x, E y) { return lnot(eq(x, y)); }
  E ult(E x, E y) {
    if (x == y) return fls();
    if (isC(x) && isC(y)) return x->c < y->c ? tru() : fls();
    if (isC(y, 0)) return fls();
    if (isC(x) && x->c == maskOf(x->w)) return fls();
    if (isC(y) && ones(x) < y->c) return tru();
    if (isC(x) && ones(y) <= x->c) return fls();
    if (isC(y, 1)) return eq(x, cst(0, x->w));
    if (isC(x, 0)) return ne(y, x);
    if (x->op == ZEXT && y->op == ZEXT && x->a[0]->w == y->a[0]->w) return ult(x->a[0], y->a[0]);
    if (x->op == ZEXT && isC(y) && y->c <= maskOf(x->a[0]->w)) return ult(x->a[0], cst(y->c, x->a[0]->w));
    if (y->op == ZEXT && isC(x) && x->c <= maskOf(y->a[0]->w)) return ult(cst(x->c, y->a[0]->w), y->a[0]);
    if (x->op == ITE && isC(y) && isC(x->a[1]) && isC(x->a[2])) return ite(x->a[0], ult(x->a[1], y), ult(x->a[2], y));
    if (x->w == 1) return band(lnot(x), y);
    if (E r = linLe(add(x, cst(1, x->w)), y, true)) return r;
    return raw(ULT, 1, {x, y});
  }
  E ule(E x, E y) {
    if (x == y) return tru();
    if (isC(x) && isC(y)) return x->c <= y->c ? tru() : fls();
    if (isC(x, 0)) return tru();
    if (isC(y) && y->c == maskOf(y->w)) return tru();
    if (isC(y) && ones(x) <= y->c) return tru();
    if (isC(x) && ones(y) < x->c) return fls();
    if (isC(y, 0)) return eq(x, y);
    if (x->op == ZEXT && y->op == ZEXT && x->a[0]->w == y->a[0]->w) return ule(x->a[0], y->a[0]);
    if (x->op == ZEXT && isC(y) && y->c <= maskOf(x->a[0]->w)) return ule(x->a[0], cst(y->c, x->a[0]->w));
    if (y->op == ZEXT && isC(x) && x->c <= maskOf(y->a[0]->w)) return ule(cst(x->c, y->a[0]->w), y->a[0]);
    if (x->w == 1) return bor(lnot(x), y);
    if (E r = linLe(x, y, true)) return r;
    return raw(ULE, 1, {x, y});
  }
  E slt(E x, E y) {
    if (x == y) return fls();
    if (isC(x) && isC(y)) return sgn(x->c, x->w) < sgn(y->c, y->w) ? tru() : fls();
    u128 sb = (u128)1 << (x->w - 1);
    if (!(ones(x) & sb) && !(ones(y) & sb)) return ult(x, y);
    if (x->w == 1) return band(x, lnot(y));
    { s128 l1, h1; if (linRange(x, l1, h1)) if (E r = linLe(add(x, cst(1, x->w)), y, false)) return r; }
    return raw(SLT, 1, {x, y});
  }
  E sle(E x, E y) {
    if (x == y) return tru();
    if (isC(x) && isC(y)) return sgn(x->c, x->w) <= sgn(y->c, y->w) ? tru() : fls();
    u128 sb = (u128)1 << (x->w - 1);
    if (!(ones(x) & sb) && !(ones(y) & sb)) return ule(x, y);
    if (x->w == 1) return bor(x, lnot(y));
    if (E r = linLe(x, y, false)) return r;
    return raw(SLE, 1, {x, y});
  }
  E implies(E x, E y) { return bor(lnot(x), y); }

  // rebuild a node with new operands
  E rebuild(E e, const std::vector<E>& a) {
    switch (e->op) {
      case ADD: { E r = cst(e->c, e->w); for (size_t i = 0; i < a.size(); i++) r = add(r, mulc(a[i], e->k[i])); return r; }
      case MUL: return mul(a[0], a[1]);
      case UDIV: return udiv(a[0], a[1]);
      case SDIV: return sdiv(a[0], a[1]);
      case UREM: return urem(a[0], a[1]);
      case SREM: return srem(a[0], a[1]);
      case SHL: return shl(a[0], a[1]);
      case LSHR: return lshr(a[0], a[1]);
      case ASHR: return ashr(a[0], a[1]);
      case AND: return band(a[0], a[1]);
      case OR: return bor(a[0], a[1]);
      case XOR: return bxor(a[0], a[1]);
      case NOT: return lnot(a[0]);
      case CONCAT: return concat(a);
      case EXTRACT: return extract(a[0], e->name + e->w - 1, e->name);
      case ZEXT: return zext(a[0], e->w);
      case SEXT: return sext(a[0], e->w);
      case EQ: return eq(a[0], a[1]);
      case ULT: return ult(a[0], a[1]);
      case ULE: return ule(a[0], a[1]);
      case SLT: return slt(a[0], a[1]);
      case SLE: return sle(a[0], a[1]);
      case ITE: return ite(a[0], a[1], a[2]);
      case UF: { Node n; n.op = UF; n.w = e->w; n.name = e->name; n.a = a; return mk(std::move(n)); }
      case FPOP: { Node n; n.op = FPOP; n.w = e->w; n.name = e->name; n.a = a; return mk(std::move(n)); }
      default: return e;
    }
  }
  E subst(E e, const std::unordered_map<E, E>& m, std::unordered_map<E, E>& memo) {
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    if (e->a.empty()) return e;
    auto im = memo.find(e);
    if (im != memo.end()) return im->second;
    std::vector<E> a; bool ch = false;
    for (E x : e->a) { E y = subst(x, m, memo); ch |= y != x; a.push_back(y); }
    E r = ch ? rebuild(e, a) : e;
    memo[e] = r;
    return r;
  }
  std::string str(E e, int d = 0) {
    auto num = [](u128 v, unsigned w) { s128 s = sgn(v, w); char b[64]; if (s > -100000 && s < 0) snprintf(b, 64, "%lld", (long long)s); else if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else if (v < 100000) snprintf(b, 64, "%llu", (unsigned long long)v); else snprintf(b, 64, "0x%llx", (unsigned long long)v); return std::string(b); };
    if (e->op == CONST) return num(e->c, e->w);
    if (e->op == VAR) return names[e->name];
    if (d > 8) return "..";
    static const char* on[] = {"const","var","+","*","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not","concat","extract","zext","sext","=","ult","ule","slt","sle","ite","uf","fp"};
    std::string s;
    if (e->op == ADD) {
      s = "(";
      for (size_t i = 0; i < e->a.size(); i++) { if (i) s += "+"; if (e->k[i] != 1) s += num(e->k[i], e->w) + "*"; s += str(e->a[i], d + 1); }
      if (e->c) s += "+" + num(e->c, e->w);
      return s + ")";
    }
    if (e->op == UF) s = names[e->name] + "(";
    else if (e->op == EXTRACT) s = "x" + std::to_string(e->name + e->w - 1) + ":" + std::to_string(e->name) + "(";
    else s = std::string(on[e->op]) + (e->op == ZEXT || e->op == SEXT ? std::to_string(e->w) : "") + "(";
    for (size_t i = 0; i < e->a.size(); i++) { if (i) s += ","; s += str(e->a[i], d + 1); }
    return s + ")";
  }
};
extern Ctx X;
