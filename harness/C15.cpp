// C15: decoding the variable size fields of a DataLayout from any bytes: within the data, and faithful.
// @entry h_load timeout=60
// @entry h_store timeout=60
// @entry h_store_text timeout=60
// @entry h_access timeout=60
// @entry h_index_valid timeout=60 nofuzz
// @entry h_index_accepted timeout=60 nofuzz
// @entry h_strings bounded timeout=200 unroll=64
// @entry h_map bounded timeout=200 unroll=64
#include "layout.h"
using namespace vrs;
extern "C" void h_load() {
  const uint64_t n = V_size("bytes", 1ull << 40, 40); const int8_t* p = (const int8_t*)V_alloc("data", n, 1); const uint64_t w = V_range("watched", 0, 1ull << 33);
  size_t at = V_range("at", 0, 1ull << 40); if (V_mode() == 2) at %= n + 1; V_assume(at <= n); const size_t was = at;
  uint32_t v; const bool ok = loadElement<uint32_t>(v, p, at, n);
  V_assert(ok == (n - was >= 4) && at == was + (ok ? 4 : 0), "a number is read when there is one");
  if (ok) V_assert(v == ((uint8_t)p[was] | (uint8_t)p[was + 1] << 8 | (uint8_t)p[was + 2] << 16 | (uint32_t)(uint8_t)p[was + 3] << 24), "its value");
  string s; const size_t from = at = was; const bool got = loadElement<string>(s, p, at, n);
  V_assert(at >= was && at <= n, "never past the end");
  V_assert(got == (ok && v <= n - was - 4), "a text is read when there is one");
  if (got) { V_assert(s.size() == v && at == from + 4 + v, "its length"); if (w < v) V_assert(s[w] == p[from + 4 + w], "its characters"); }
}
extern "C" void h_store() {
  const uint64_t n = V_size("bytes", 1ull << 40, 40); int8_t* p = (int8_t*)V_alloc("data", n, 1); const uint64_t w = V_range("watched", 0, 1ull << 33);
  size_t at = V_range("at", 0, 1ull << 40); if (V_mode() == 2) at %= n + 1; V_assume(at <= n); const size_t was = at; const int8_t other = w < n ? p[w] : 0;
  const uint32_t v = V_u32("number"); const bool ok = storeElement<uint32_t>(p, v, at, n);
  V_assert(ok == (n - was >= 4) && at == was + (ok ? 4 : 0), "a number is stored when it fits");
  if (w < n && (w < was || w >= at)) V_assert(p[w] == other, "nothing else is written");
  if (ok) { size_t back = was; uint32_t u; V_assert(loadElement<uint32_t>(u, p, back, n) && u == v && back == at, "and read back"); }
}
extern "C" void h_store_text() {
  const uint64_t n = V_size("bytes", 1ull << 40, 40); int8_t* p = (int8_t*)V_alloc("data", n, 1); const uint64_t w = V_range("watched", 0, 1ull << 33);
  size_t at = V_range("at", 0, 1ull << 40); if (V_mode() == 2) at %= n + 1; V_assume(at <= n); const size_t was = at; const int8_t other = w < n ? p[w] : 0;
  const uint64_t len = V_size("length", 0xffffffffu, 20); const char* text = (const char*)V_alloc("text", len, 1); string s(text, len);
  const bool ok = storeElement<string>(p, s, at, n);
  V_assert(ok == (n - was >= 4 + len) && at == was + (ok ? 4 + len : 0) && elementSize(s) == 4 + len, "a text is stored when it fits");
  if (w < n && (w < was || w >= at)) V_assert(p[w] == other, "nothing else is written");
  if (ok) { size_t back = was; string r; V_assert(loadElement<string>(r, p, back, n) && r.size() == len && back == at, "and read back"); if (w < len) V_assert(r[w] == text[w], "the same characters"); }
}
namespace {
// Any bytes a field of texts could hold: a count, then lengths and characters, each count or length either one that fits or one that does not.
const uint32_t MAX = 20;
struct Bytes {
  uint32_t n; uint8_t* p; uint32_t at = 0; bool bad = false;
  explicit Bytes(uint32_t min = 0) : n(lay::pick("bytes", min, MAX)), p((uint8_t*)V_alloc("data", n, 1)) {}
  uint32_t number(uint32_t fit) { // the number at the current place: up to `fit`, or any larger one (returned as fit + 1)
    if (n - at < 4) { bad = true; at = n; return 0; }
    uint32_t k = lay::pick("number", 0, fit + 1); uint32_t v = k <= fit ? k : (uint32_t)V_range("larger number", fit + 1, 0xffffffffu);
    p[at] = v; p[at + 1] = v >> 8; p[at + 2] = v >> 16; p[at + 3] = v >> 24; at += 4; return k;
  }
  int text() { // its length, -1 when there is none
    if (n - at < 4) { bad = true; return -1; }
    uint32_t room = n - at - 4, k = number(room); if (k > room) { bad = true; return -1; } at += k; return (int)k;
  }
};
struct L : AutoDataLayout { DataPieceVector<string> v{"v"}; DataPieceStringMap<int32_t> m{"m"}; AutoDataLayoutEnd end; };
void give(L& l, int piece, const Bytes& b) { lay::place(l.varData_, (const int8_t*)b.p, b.n); l.getVarSizeIndex()[piece].setOffset(0); l.getVarSizeIndex()[piece].setLength(b.n); l.getVarSizeIndex()[1 - piece].setOffset(b.n); l.getVarSizeIndex()[1 - piece].setLength(0); }
}
extern "C" void h_strings() {
  Bytes b; L l; uint32_t at[5]; int len[5]; uint32_t count = 0;
  if (b.n >= 4) { count = b.number(b.n / 4 - 1); if (count > b.n / 4 - 1) b.bad = true; } else b.bad = true;
  for (uint32_t i = 0; i < count && !b.bad; i++) { len[i] = b.text(); at[i] = b.at - len[i]; }
  give(l, 0, b);
  vector<string> out; const bool ok = l.v.get(out);
  V_assert(ok == !b.bad, "read exactly when every text is there");
  V_assert(out.size() == (ok ? count : 0), "as many texts as there are, none when they are not there");
  if (ok) for (uint32_t i = 0; i < count; i++) { V_assert(out[i].size() == (size_t)len[i], "their lengths"); for (int k = 0; k < len[i]; k++) V_assert(out[i][k] == (char)b.p[at[i] + k], "their characters"); }
  lay::forget(l.varData_);
}
extern "C" void h_map() {
  Bytes b; L l; uint32_t pairs = 0; // complete pairs
  while (b.at < b.n && !b.bad) { if (b.text() < 0) break; if (b.n - b.at < 4) { b.bad = true; break; } b.at += 4; pairs++; }
  give(l, 1, b);
  map<string, int32_t> out; const bool ok = l.m.get(out);
  V_assert(ok && out.size() <= pairs && (out.empty() == (pairs == 0)), "the pairs that are there, and no other");
  lay::forget(l.varData_);
}

// Any layout: any number of variable size fields, index and data of any content.
namespace {
struct Any {
  alignas(16) uint8_t mem[sizeof(DataLayout)]; DataLayout& l; uint64_t m, fixed, n; int8_t *f, *v; alignas(16) uint8_t memTop[sizeof(DataLayout)]; DataLayout& top;
  Any() : l(*(DataLayout*)mem), top(*(DataLayout*)memTop) {
    m = V_size("variable pieces", 1u << 20, 3); fixed = V_size("fixed fields", 1u << 20, 12) + 8 * m; n = V_size("variable data", 1ull << 34, 40);
    f = (int8_t*)V_alloc("fixed data", fixed, 1); v = (int8_t*)V_alloc("variable data", n, 1);
    for (DataLayout* d : {&l, &top}) { new (&d->fixedSizePieces_) vector<DataPiece*>(); new (&d->varSizePieces_) vector<DataPiece*>(); new (&d->fixedData_) vector<int8_t>(); new (&d->varData_) vector<int8_t>(); d->mappedDataLayout_ = nullptr; d->fixedDataSizeNeeded_ = 0; }
    lay::place(l.varSizePieces_, (DataPiece**)V_alloc("pieces", 8 * m, 8), m); lay::place(l.fixedData_, f, fixed); lay::place(l.varData_, v, n); l.fixedDataSizeNeeded_ = fixed; top.mappedDataLayout_ = &l;
  }
  ~Any() { lay::forget(l.varSizePieces_); lay::forget(l.fixedData_); lay::forget(l.varData_); }
};
template <class T> void inBounds(Any& a, DataLayout& d, size_t i) {
  size_t count = 77; T* p = d.getVarData<T>(i, count); uint64_t off = 0, len = 0;
  if (i < a.m) { const auto& e = ((const DataLayout::IndexEntry*)(a.l.fixedData_.data() + (a.fixed - 8 * a.m)))[i]; off = e.getOffset(); len = e.getLength(); }
  const bool there = i < a.m && off + len <= a.n;
  if (p || a.n) V_assert((p != nullptr) == there, "data exactly when the index entry is within the data");
  if (!there) V_assert(count == 0, "no data");
  if (p) V_assert((int8_t*)p == a.l.varData_.data() + off && count == len / sizeof(T), "the data the entry tells");
}
}
extern "C" void h_access() {
  Any a; DataLayout& d = V_bool("mapped") ? a.top : a.l; const size_t i = V_u64("piece");
  switch (lay::pick("type", 0, 2)) { case 0: inBounds<int8_t>(a, d, i); break; case 1: inBounds<int32_t>(a, d, i); break; default: inBounds<Point3Di>(a, d, i); }
  const size_t at = V_u64("offset"), size = V_range("size", 0, 1ull << 40); V_assume(at <= (1ull << 40) || at == DataLayout::kNotFound); int8_t* p = d.getFixedData<int8_t>(at, size);
  V_assert((p != nullptr) == (at != DataLayout::kNotFound && at + size <= a.fixed) || a.fixed == 0, "a fixed size field exactly when it is within the data"); if (p) V_assert(p == a.l.fixedData_.data() + at, "at its place");
}

namespace {
bool entriesGood; uint64_t watch, pieces;
void genEntry(const void*, uint64_t i, void* out) { auto& e = *(DataLayout::IndexEntry*)out; e.setLength(V_uf("length", i)); e.setOffset(entriesGood ? V_uf("start", i) : V_uf("entry offset", i)); }
bool vSum(const void*, uint64_t k, uint64_t cur) { return k <= pieces && cur == V_uf("start", k); }
bool vGood(const void*, uint64_t k, uint64_t good) { return k <= pieces && (!(good & 1) || watch >= k || (uint32_t)V_uf("entry offset", watch) == V_uf("start", watch)); }
bool vAll(const void*, uint64_t good) { return good & 1; }
void index(bool good) {
  V_uf_decl("length", 0, ""); V_uf_decl("start", 4, "length"); V_uf_decl("entry offset", 0, "");
  Any a; entriesGood = good; watch = V_range("watched", 0, 1u << 20); pieces = a.m; const uint64_t total = V_uf("start", a.m);
  a.fixed = 8 * a.m; a.l.fixedDataSizeNeeded_ = a.fixed; a.l.fixedData_._M_impl._M_start = (int8_t*)V_alloc_gen("index", a.m, 8, genEntry, nullptr); a.l.fixedData_._M_impl._M_finish = a.l.fixedData_._M_impl._M_start + a.fixed;
  if (good) V_assume(a.n == total && total <= 0xffffffffu);
  V_inv2(vSum, nullptr, "lengths so far"); if (good) V_inv1(vAll, nullptr, "all good"); else V_inv2(vGood, nullptr, "good so far");
  const bool valid = a.top.isVarDataIndexValid();
  if (good) V_assert(valid, "data that follows each other is valid");
  else if (valid) { V_assert(total == a.n, "a valid index tells of all the data"); if (watch < a.m) V_assert((uint32_t)V_uf("entry offset", watch) == V_uf("start", watch) && V_uf("start", watch + 1) <= a.n, "every entry after the previous ones, within the data"); }
}
}
extern "C" void h_index_valid() { index(false); }
extern "C" void h_index_accepted() { index(true); }
