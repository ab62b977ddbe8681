// C14: the storage of the fields of a DataLayout: in order, never overlapping, within the buffers; variable data collected as indexed.
// @entry h_init timeout=60 nofuzz
// @entry h_collect timeout=100 nofuzz
#include "layout.h"
using namespace vrs;
namespace {
// Pieces: any number of them, of any size, in an array of PIECE bytes each; their sizes and their place, by contract.
const uint64_t PIECE = 256;
struct Set { char* mem; uint64_t n; const char* size; const char* sum; bool var; uint64_t first; };
Set sets[2]; // fixed, variable
uint64_t watch; bool placed, active; size_t atOffset; char* dest;
const Set& setOf(const void* p) { const char* c = (const char*)p; return c >= sets[0].mem && c < sets[0].mem + sets[0].n * PIECE ? sets[0] : sets[1]; }
uint64_t indexOf(const Set& s, const void* p) { uint64_t d = (uint64_t)((const char*)p - s.mem); return d / PIECE; }
struct G { DataPiece** p; };
__attribute__((used, annotate("replace:vrs::DataPiece::setIndexOffset(unsigned long, unsigned long)"))) void setIndexOffset(DataPiece* p, size_t index, size_t offset) {
  if (!sets[0].size || !active) return;
  const Set& s = setOf(p); const uint64_t i = indexOf(s, p);
  V_assert(i < s.n && index == s.first + i, "pieces are numbered in order, fixed size ones first");
  V_assert(offset == (s.var ? i : V_uf(s.sum, i)), s.var ? "variable size fields take the index entries in order" : "fixed size fields follow each other");
  if (&s == &sets[0] && i == watch) { placed = true; atOffset = offset; }
}
__attribute__((used, annotate("replace:vrs::DataPiece::getFixedSize() const"))) size_t getFixedSize(const DataPiece* p) { const Set& s = setOf(p); V_assert(!s.var, "a fixed size piece"); return V_uf("size", indexOf(s, p)); }
void genFixed(const void*, uint64_t i, void* out) { *(void**)out = sets[0].mem + i * PIECE; }
void genVar(const void*, uint64_t i, void* out) { *(void**)out = sets[1].mem + i * PIECE; }
struct Lay { // the members of a layout, without its construction
  alignas(16) uint8_t mem[sizeof(DataLayout)]; DataLayout& l; DataPiece** fixed; DataPiece** var;
  explicit Lay(bool withFixed) : l(*(DataLayout*)mem) {
    V_uf_decl("size", 0, ""); V_uf_decl("offset", 4, "size"); V_uf_decl("length", 0, ""); V_uf_decl("start", 4, "length");
    sets[0] = {nullptr, withFixed ? V_size("fixed pieces", 1u << 16, 3) : 0, "size", "offset", false, 0};
    sets[1] = {nullptr, V_size("variable pieces", 1u << 16, 3), "length", "start", true, sets[0].n};
    for (auto& s : sets) s.mem = (char*)V_alloc("pieces", s.n * PIECE, PIECE);
    fixed = (DataPiece**)V_alloc_gen("fixed", sets[0].n, 8, genFixed, nullptr); var = (DataPiece**)V_alloc_gen("var", sets[1].n, 8, genVar, nullptr);
    new (&l.fixedSizePieces_) vector<DataPiece*>(); new (&l.varSizePieces_) vector<DataPiece*>(); new (&l.fixedData_) vector<int8_t>(); new (&l.varData_) vector<int8_t>(); l.mappedDataLayout_ = nullptr;
    lay::place(l.fixedSizePieces_, fixed, sets[0].n); lay::place(l.varSizePieces_, var, sets[1].n);
    watch = V_range("watched", 0, 1u << 16);
  }
  ~Lay() { lay::forget(l.fixedSizePieces_); lay::forget(l.varSizePieces_); }
};
bool invAt(const void* c, uint64_t k, uint64_t it) { const Lay& s = *(const Lay*)c; return k <= sets[0].n && it == (uint64_t)(s.fixed + k); }
bool invSum(const void*, uint64_t k, uint64_t o) { return k <= sets[0].n && o == V_uf("offset", k); }
bool invPlaced(const void*, uint64_t k) { return k <= sets[0].n && placed == (watch < k) && (watch >= k || atOffset == V_uf("offset", watch)); }
bool invVarAt(const void* c, uint64_t k, uint64_t it) { const Lay& s = *(const Lay*)c; return k <= sets[1].n && it == (uint64_t)(s.var + k); }
bool invVarIndex(const void* c, uint64_t k, uint64_t it) { const Lay& s = *(const Lay*)c; return k >= sets[0].n && it == (uint64_t)(s.var + (k - sets[0].n)); }
}
extern "C" void h_init() {
  Lay s(true); placed = false; active = true; const uint64_t n = sets[0].n, m = sets[1].n;
  V_inv2(invAt, &s, "fixed pieces done"); V_inv2(invSum, &s, "their sizes");  V_inv1(invPlaced, &s, "watched placed");
  V_inv2(invVarAt, &s, "variable pieces done"); V_inv2(invVarIndex, &s, "their numbers");
  s.l.initLayout();
  V_assert(s.l.fixedDataSizeNeeded_ == V_uf("offset", n) + m * sizeof(DataLayout::IndexEntry) && s.l.fixedData_.size() == s.l.fixedDataSizeNeeded_, "the fixed data holds every field, and the index of the others");
  if (watch < n) V_assert(placed, "every field is placed");
  if (watch < n) V_assert(atOffset + V_uf("size", watch) == V_uf("offset", watch + 1), "after the previous ones");
  if (watch < n) V_assert(V_uf("offset", watch + 1) <= (uint64_t)((char*)s.l.getVarSizeIndex() - (char*)s.l.fixedData_.data()), "every field is placed, before the index");
  V_assert((char*)(s.l.getVarSizeIndex() + m) == (char*)s.l.fixedData_.data() + s.l.fixedData_.size(), "the index ends the fixed data");
  V_assert(s.l.varData_.empty() && !s.l.isMapped(), "no variable data yet");
}

namespace {
struct Piece : DataPiece {
  Piece() : DataPiece("p", DataPieceType::String, DataLayout::kVariableSize) {}
  size_t getVariableSize() const override { return V_uf("length", indexOf(sets[1], this)); }
  size_t collectVariableData(int8_t* data, size_t size) override {
    const uint64_t i = indexOf(sets[1], this);
    V_assert(i < sets[1].n && size == V_uf("length", i), "room for the whole field"); V_assert((char*)data == dest + V_uf("start", i), "fields follow each other in the variable data");
    if (i == watch) placed = true;
    return size;
  }
  const string& getElementTypeName() const override { return getLabel(); }
  bool isAvailable() const override { return true; }
  void print(ostream&, const string&) const override {}
  void printCompact(ostream&, const string&) const override {}
  void initToDefault() override {}
  bool copyFrom(const DataPiece*) override { return true; }
  unique_ptr<DataPiece> clone() const override { return nullptr; }
};
struct Host : AutoDataLayout { Piece p; AutoDataLayoutEnd end; };
void* vptr;
void genPiece(const void*, uint64_t i, void* out) { *(void**)out = vptr; }
struct C { Lay* s; DataLayout::IndexEntry* index; };
bool cData(const void*, uint64_t k, uint64_t d) { return k <= sets[1].n && d == (uint64_t)dest + V_uf("start", k); }
bool cOffset(const void*, uint64_t k, uint64_t o) { return k <= sets[1].n && o == V_uf("start", k); }
bool cDone(const void* c, uint64_t k) { const C& q = *(const C*)c; return k <= sets[1].n && placed == (watch < k) && (watch >= k || (q.index[watch].getOffset() == V_uf("start", watch) && q.index[watch].getLength() == V_uf("length", watch))); }
}
extern "C" void h_collect() {
  Lay s(false); placed = active = false; const uint64_t m = sets[1].n; V_assume(V_uf("start", m) <= 0xffffffffu);
  Host host; vptr = *(void**)&host.p; sets[1].mem = (char*)V_alloc_gen("variable pieces", m, PIECE, genPiece, nullptr);
  s.var = (DataPiece**)V_alloc_gen("vars", m, 8, genVar, nullptr); lay::place(s.l.varSizePieces_, s.var, m);
  const uint64_t total = V_uf("start", m); dest = (char*)V_alloc("variable data", total, 1);
  s.l.fixedDataSizeNeeded_ = 8 * m; lay::place(s.l.fixedData_, (int8_t*)V_alloc("index", 8 * m, 8), 8 * m);
  C c{&s, s.l.getVarSizeIndex()};
  V_inv2(invVarAt, &s, "pieces done"); V_inv2(cOffset, &c, "offset"); V_inv2(cData, &c, "place"); V_inv1(cDone, &c, "index");
  V_assert(s.l.getVarDataSizeNeeded() == V_uf("start", m), "the room needed is the sum of their lengths");
  s.l.collectVariableDataAndUpdateIndex(dest);
  if (watch < m) { V_assert(placed, "every field is collected"); V_assert(c.index[watch].getOffset() == V_uf("start", watch) && c.index[watch].getLength() == V_uf("length", watch), "and indexed"); }
  if (watch + 1 == m || m == 0) V_assert(s.l.getVarDataSizeFromIndex() == (m ? V_uf("start", watch + 1) : 0) && total == V_uf("start", m), "the index tells the size of the data");
}
