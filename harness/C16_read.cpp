// C16: the values read, changed and copied through a layout mapped on another one that has, or not, the same fields (four fields, values of any content).
// @entry h_read bounded timeout=120
// @entry h_copy bounded timeout=120
// @entry h_chain bounded timeout=60
// @entry h_match bounded timeout=60
#include "layout.h"
using namespace vrs;
namespace {
struct L : AutoDataLayout { DataPieceValue<uint32_t> a{"a", 17}; DataPieceArray<int32_t> b{"b", 2}; DataPieceString s{"s"}; DataPieceVector<int32_t> v{"v"}; AutoDataLayoutEnd end; L() { s.setDefault("default"); } };
// Another layout: each field is there, missing, or there with another type or size.
struct T : ManualDataLayout {
  DataPieceValue<uint32_t>* a = nullptr; DataPieceArray<int32_t>* b = nullptr; DataPieceString* s = nullptr; DataPieceVector<int32_t>* v = nullptr;
  uint32_t va; int32_t vb[2], vv[2]; char vs[3];
  template <class P, class... A> P* put(A... x) { auto p = make_unique<P>(x...); P* r = p.get(); add(std::move(p)); return r; }
  T() {
    const uint32_t k = lay::pick("fixed fields", 0, 8), m = lay::pick("variable fields", 0, 8);
    if (k / 3 == 0) b = put<DataPieceArray<int32_t>>("b", 2); else if (k / 3 == 1) put<DataPieceArray<int32_t>>("b", 3);
    put<DataPieceValue<int64_t>>("more");
    if (k % 3 == 0) a = put<DataPieceValue<uint32_t>>("a"); else if (k % 3 == 1) put<DataPieceValue<int32_t>>("a");
    put<DataPieceString>("other");
    if (m % 3 == 0) v = put<DataPieceVector<int32_t>>("v"); else if (m % 3 == 1) put<DataPieceVector<uint32_t>>("v");
    if (m / 3 == 0) s = put<DataPieceString>("s"); else if (m / 3 == 1) put<DataPieceVector<uint8_t>>("s");
    endLayout();
    va = V_u32("a"); for (auto& x : vb) x = (int32_t)V_u32("b"); for (auto& x : vv) x = (int32_t)V_u32("v"); for (auto& x : vs) x = (char)V_u8("s");
    if (a) a->set(va); if (b) b->set(vb, 2); if (v) v->stage(vv, 2); if (s) s->stage(string(vs, 3));
    collectVariableDataAndUpdateIndex();
  }
};
void same(const L& l, const T& t, bool staged = false) { // what is read through l
  if (!staged) { uint32_t a; V_assert(l.a.get(a) == (t.a != nullptr) && a == (t.a ? t.va : 17), "the value of the field, or its default"); }
  int32_t b[2]; const bool hb = l.b.get(b, 2); if (!staged) V_assert(hb == (t.b != nullptr) && b[0] == (t.b ? t.vb[0] : 0) && b[1] == (t.b ? t.vb[1] : 0), "the array, or its default");
  string s; V_assert(l.s.get(s) == (t.s != nullptr) && (t.s ? s == string(t.vs, 3) : s == "default"), "the text, or its default");
  vector<int32_t> v; V_assert(l.v.get(v) == (t.v != nullptr) && (t.v ? v.size() == 2 && v[0] == t.vv[0] && v[1] == t.vv[1] : v.empty()), "the elements, or none");
}
}
extern "C" void h_read() {
  T t; L l; const uint32_t req = lay::pick("required", 0, 3); l.a.setRequired(req & 1); l.s.setRequired(req & 2);
  const bool all = l.mapLayout(t); V_assert(all == !(((req & 1) && !t.a) || ((req & 2) && !t.s)) && l.hasAllRequiredPieces() == all && l.isMapped(), "complete when no required field is missing");
  V_assert(l.a.isAvailable() == (t.a != nullptr) && l.b.isAvailable() == (t.b != nullptr) && l.s.isAvailable() == (t.s != nullptr) && l.v.isAvailable() == (t.v != nullptr), "the fields that are there");
  same(l, t);
  const uint32_t x = V_u32("new"); V_assert(l.a.set(x) == (t.a != nullptr), "changed when it is there"); if (t.a) V_assert(t.a->get() == x, "changed in the other layout"); t.va = x; same(l, t);
}
extern "C" void h_copy() {
  T t; L m, to; m.mapLayout(t); to.a.set(3); to.s.stage("before"); int32_t b[2] = {5, 6}; to.b.set(b, 2);
  V_assert(to.copyDataPieceValuesFromMappedLayout(m) == (size_t)(t.a != nullptr) + (t.b != nullptr) + (t.s != nullptr) + (t.v != nullptr), "as many as there are");
  V_assert(to.a.get() == (t.a ? t.va : 3), "copied, or left alone"); V_assert(to.s.stagedValue() == (t.s ? string(t.vs, 3) : "before"), "copied, or left alone"); V_assert(to.b.get(b, 2) && b[0] == (t.b ? t.vb[0] : 5) && b[1] == (t.b ? t.vb[1] : 6), "copied, or left alone");
  V_assert(to.v.stagedValues().size() == (t.v ? 2 : 0) && (!t.v || to.v.stagedValues()[1] == t.vv[1]), "copied, or left alone");
  L u; V_assert(to.copyDataPieceValuesFromMappedLayout(u) == 0, "not from a layout that is not mapped"); V_assert(m.copyDataPieceValuesFromMappedLayout(m) == 0, "not to a mapped layout");
}
extern "C" void h_chain() {
  T t; L mid, top; mid.mapLayout(t); ManualDataLayout copy(mid); copy.endLayout(); V_assert(!copy.isMapped() && copy.getFixedDataSizeNeeded() == L().getFixedDataSizeNeeded(), "a clone has the same fields");
  const bool ok = copy.copyClonedDataPieceValues(top); V_assert(ok, "values of a clone");
}
extern "C" void h_match() {
  struct M : ManualDataLayout {} m; const char* names[] = {"a", "b", "ab"}; const uint32_t i = lay::pick("first", 0, 2), j = lay::pick("second", 0, 2), n1 = lay::pick("size", 1, 2), n2 = lay::pick("size", 1, 2), k = lay::pick("kind", 0, 3);
  DataPiece* x = m.add(make_unique<DataPieceArray<int32_t>>(names[i], n1)); DataPiece* y;
  if (k == 0) y = m.add(make_unique<DataPieceArray<int32_t>>(names[j], n2)); else if (k == 1) y = m.add(make_unique<DataPieceArray<uint32_t>>(names[j], n2)); else if (k == 2) y = m.add(make_unique<DataPieceValue<int32_t>>(names[j])); else y = m.add(make_unique<DataPieceVector<int32_t>>(names[j]));
  m.endLayout();
  V_assert(x->isMatch(*y) == (k == 0 && n1 == n2 && i == j), "same kind, size, name and type of element"); V_assert(x->isMatch(*y) == y->isMatch(*x) && x->isMatch(*x), "symmetric");
}
