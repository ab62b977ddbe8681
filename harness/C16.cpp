// C16: reading through another layout: finding matching pieces, among any number of them.
// @entry h_find timeout=60 nofuzz
#include "layout.h"
using namespace vrs;
namespace {
// Pieces, by contract: whether the wanted one matches each of the given ones.
const uint64_t PIECE = 256; char* mem; uint64_t n, watch; DataPiece* wanted; DataPiece** given;
bool matches(uint64_t i) { return V_uf("matches", i) & 1; }
__attribute__((used, annotate("replace:vrs::DataPiece::isMatch(vrs::DataPiece const&) const"))) bool isMatch(const DataPiece* p, const DataPiece& r) { // symmetric
  const char* other = (const char*)(p == wanted ? &r : p); V_assert(p == wanted || &r == wanted, "the wanted piece is compared"); uint64_t i = (uint64_t)(other - mem) / PIECE; V_assert(i < n, "with one of the given ones"); return matches(i);
}
void gen(const void*, uint64_t i, void* out) { *(void**)out = mem + i * PIECE; }
uint64_t start;
bool after(const void*, uint64_t k) { return k >= start && (k <= n || k == start) && !(watch >= start && watch < k && matches(watch)); }
bool before(const void*, uint64_t k) { return k <= start && k <= n && !(watch < k && matches(watch)) && !(watch >= start && watch < n && matches(watch)); }
}
extern "C" void h_find() {
  n = V_size("pieces", 1u << 16, 3); mem = (char*)V_alloc("given", n * PIECE, PIECE); wanted = (DataPiece*)V_alloc("wanted", PIECE, PIECE); given = (DataPiece**)V_alloc_gen("list", n, 8, gen, nullptr);
  V_uf_decl("matches", 0, ""); watch = V_range("watched", 0, 1u << 16); vector<DataPiece*> list; lay::place(list, given, n);
  size_t at = start = V_range("start", 0, 1u << 17);
  V_inv1(after, nullptr, "not found from start"); V_inv1(before, nullptr, "not found anywhere before");
  DataPiece* r = DataLayout::findMatch(wanted, list, at);
  if (r) { const uint64_t i = (uint64_t)((char*)r - mem) / PIECE; V_assert(i < n && r == (DataPiece*)(mem + i * PIECE) && matches(i), "a piece that matches"); V_assert(at == i + 1, "the search goes on after it"); }
  else { V_assert(!(watch < n && matches(watch)), "none only when none matches"); V_assert(at == start, "the search goes on from the same place"); }
  lay::forget(list);
}
