// C14: what is written in a field is what is read, here and in another layout given the same bytes, whatever the other fields hold.
// @entry h_values timeout=100
// @entry h_arrays timeout=100
// @entry h_text timeout=100
// @entry h_vector timeout=100
// @entry h_defaults timeout=60
#include "layout.h"
using namespace vrs;
namespace {
struct L : AutoDataLayout {
  DataPieceValue<uint32_t> a{"a", 17}; DataPieceArray<int64_t> b{"b", 3}; DataPieceString s{"s"}; DataPieceValue<uint8_t> c{"c", 5}; DataPieceVector<int32_t> v{"v"}; DataPieceValue<Point3Di> d{"d"}; DataPieceString t{"t"};
  AutoDataLayoutEnd end;
};
}
extern "C" void h_values() {
  L l, m; const uint32_t a = V_u32("a"); const uint8_t c = V_u8("c"); const Point3Di d{(int)V_u32("x"), (int)V_u32("y"), (int)V_u32("z")};
  const int64_t b[3] = {(int64_t)V_u64("b0"), (int64_t)V_u64("b1"), (int64_t)V_u64("b2")};
  const int order = (int)lay::pick("order", 0, 3);
  for (int i = 0; i < 4; i++) switch ((i + order) % 4) { case 0: V_assert(l.a.set(a), "set"); break; case 1: V_assert(l.b.set(b, 3), "set"); break; case 2: V_assert(l.c.set(c), "set"); break; default: V_assert(l.d.set(d), "set"); }
  m.fixedData_ = l.fixedData_;
  L& r = V_bool("other layout") ? m : l; Point3Di gd{}; int64_t gb = 0; const uint32_t k = lay::pick("element", 0, 2);
  V_assert(r.a.get() == a && r.c.get() == c && r.d.get(gd) && gd == d && r.b.get(gb, k) && gb == b[k], "each field reads as it was written");
  vector<int64_t> all; V_assert(r.b.get(all) && all.size() == 3 && all[k] == b[k], "whole array");
}
extern "C" void h_arrays() {
  L l; l.a.set(1); l.c.set(2); const uint32_t n = lay::pick("given", 0, 5), k = lay::pick("element", 0, 2); int64_t b[5]; for (auto& x : b) x = (int64_t)V_u64("b");
  V_assert(l.b.set(b, n), "set"); int64_t g = 9;
  V_assert(l.b.get(g, k) && g == (k < n ? b[k] : 0), "elements given, then zeros");
  const int64_t v = (int64_t)V_u64("one"); const uint32_t at = lay::pick("at", 0, 4);
  V_assert(l.b.set(v, at) == (at < 3), "one element, of the array"); V_assert(l.b.get(g, k) && g == (k == at ? v : k < n ? b[k] : 0), "only that element");
  V_assert(l.a.get() == 1 && l.c.get() == 2, "other fields are as they were");
  int64_t few[5] = {8, 8, 8, 8, 8}; const uint32_t want = lay::pick("wanted", 1, 5); const bool ok = l.b.get(few, want); V_assert(ok == (want <= 3), "no more than there are");
  if (ok) V_assert(k >= want ? few[k] == 8 : few[k] == (k == at ? v : k < n ? b[k] : 0), "those wanted"); else V_assert(few[want - 1] == 0, "blank");
  int64_t lo, hi; l.b.setRange(b[0], b[1]); V_assert(l.b.getMin(lo) && l.b.getMax(hi) && lo == b[0] && hi == b[1], "limits");
}
namespace {
struct Text { string v; const char* p; uint64_t n; explicit Text(const char* name) : n(V_size(name, 1u << 28, 20)) { p = (const char*)V_alloc(name, n, 1); v.assign(p, n); } };
}
extern "C" void h_text() {
  L l, m; Text s("s"), t("t"); l.s.stage(s.v); l.t.stage(t.v); const uint64_t w = V_range("watched", 0, 1u << 28);
  V_assert(l.getVarDataSizeNeeded() == s.n + t.n, "room needed");
  l.collectVariableDataAndUpdateIndex(); V_assert(l.varData_.size() == s.n + t.n && l.getVarDataSizeFromIndex() == s.n + t.n, "room taken");
  string r; const bool first = V_bool("first"); const Text& x = first ? s : t;
  V_assert((first ? l.s : l.t).get(r) && r.size() == x.n, "the text, of its length"); if (w < x.n) V_assert(r[w] == x.p[w], "its characters");
}
extern "C" void h_vector() {
  L l; Text s("s"); const uint64_t n = V_size("elements", 1u << 26, 12); const int32_t* p = (const int32_t*)V_alloc("elements", n * 4, 4); l.s.stage(s.v); l.v.stage(p, n); const uint64_t w = V_range("watched", 0, 1u << 26);
  l.collectVariableDataAndUpdateIndex(); V_assert(l.varData_.size() == s.n + 4 * n, "room taken");
  vector<int32_t> r; V_assert(l.v.get(r) && r.size() == n, "the elements, as many"); if (w < n) V_assert(r[w] == p[w], "their values");
}
extern "C" void h_defaults() {
  L l; l.fixedData_.resize(V_range("short", 0, 4)); uint32_t a = 0; uint8_t c = 0; const bool has = l.fixedData_.size() == 4;
  V_assert(l.a.get(a) == has && (has || a == 17) && l.a.isAvailable() == has, "a field that is not there has its default value"); V_assert(!l.c.get(c) && c == 5 && !l.c.set(9), "and can not be set");
  l.initLayout(); l.initDataPiecesToDefaultValue(); V_assert(l.a.get() == 17 && l.c.get() == 5, "default values");
}
