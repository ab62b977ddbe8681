// C16: mapping all the pieces of a layout on those of another one.
// @entry h_map timeout=60 nofuzz
#include "layout.h"
using namespace vrs;
namespace {
const uint64_t PIECE = 256; char *mem, *other; uint64_t n, watch; DataPiece** searched; const vector<DataPiece*>* givenList; bool seen, noneMissing; size_t index_, offset_;
uint64_t indexOf(const void* p) { return (uint64_t)((const char*)p - mem) / PIECE; }
// findMatch, by contract: a piece of the list that matches, null when there is none.
__attribute__((used, annotate("replace:vrs::DataLayout::findMatch("))) DataPiece* find(DataPiece* p, const vector<DataPiece*>& pieces, size_t& at) {
  const uint64_t i = indexOf(p); V_assert(&pieces == givenList && i < n, "each piece is searched in the given list"); at = V_range("next start", 0, 1u << 17);
  return V_uf("found", i) & 1 ? (DataPiece*)(other + V_uf("match", i) % 65536 * PIECE) : nullptr;
}
__attribute__((used, annotate("replace:vrs::DataPiece::getPieceIndex() const"))) size_t pieceIndex(const DataPiece* p) { return (uint64_t)((const char*)p - other) / PIECE; }
__attribute__((used, annotate("replace:vrs::DataPiece::getOffset() const"))) size_t offset(const DataPiece* p) { return V_uf("offset", (uint64_t)((const char*)p - other) / PIECE); }
__attribute__((used, annotate("replace:vrs::DataPiece::isRequired() const"))) bool isRequired(const DataPiece* p) { uint64_t i = indexOf(p); return noneMissing && !(V_uf("found", i) & 1) ? false : V_uf("required", i) & 1; }
__attribute__((used, annotate("replace:vrs::DataPiece::setIndexOffset(unsigned long, unsigned long)"))) void setIndexOffset(DataPiece* p, size_t i, size_t o) { if (indexOf(p) == watch) { V_assert(watch < n, "of the pieces"); seen = true; index_ = i; offset_ = o; } }
void gen(const void*, uint64_t i, void* out) { *(void**)out = mem + i * PIECE; }
bool missing(uint64_t i) { return !(V_uf("found", i) & 1) && (V_uf("required", i) & 1); }
bool right() { const uint64_t j = V_uf("match", watch) % 65536; return V_uf("found", watch) & 1 ? index_ == j && offset_ == V_uf("offset", j) : index_ == DataLayout::kNotFound && offset_ == DataLayout::kNotFound; }
bool done(const void*, uint64_t it) { uint64_t k = (it - (uint64_t)searched) / 8; return it >= (uint64_t)searched && k <= n && it == (uint64_t)(searched + k) && seen == (watch < k) && (!seen || right()); }
bool all(const void*, uint64_t it, uint64_t ok) { uint64_t k = (it - (uint64_t)searched) / 8; return it >= (uint64_t)searched && k <= n && it == (uint64_t)(searched + k) && (!(ok & 1) || watch >= k || noneMissing || !missing(watch)) && (!noneMissing || (ok & 1)); }
}
extern "C" void h_map() {
  n = V_size("pieces", 1u << 16, 3); mem = (char*)V_alloc("searched", n * PIECE, PIECE); other = (char*)V_alloc("given", 65536 * PIECE, PIECE); searched = (DataPiece**)V_alloc_gen("list", n, 8, gen, nullptr);
  V_uf_decl("found", 0, ""); V_uf_decl("match", 0, ""); V_uf_decl("required", 0, ""); V_uf_decl("offset", 0, "");
  watch = V_range("watched", 0, 1u << 16); seen = false; noneMissing = V_bool("none missing"); vector<DataPiece*> a, b; givenList = &b; lay::place(a, searched, n);
  V_inv1(done, nullptr, "mapped so far"); V_inv2(all, nullptr, "required so far");
  const bool ok = DataLayout::mapPieces(a, b);
  if (watch < n) { V_assert(seen && right(), "each piece is mapped on its match, or marked as not found"); if (missing(watch) && !noneMissing) V_assert(!ok, "a required piece that is missing is reported"); }
  if (noneMissing) V_assert(ok, "complete when no required piece is missing");
  lay::forget(a);
}
