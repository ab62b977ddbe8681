// C11: a data source puts exactly the bytes it was given, in order.
// @entry h_chunks timeout=60
// @entry h_layouts timeout=300 nofuzz
// @entry h_non_contiguous timeout=60
#include "v.h"
#include <vrs/DataSource.cpp>
using namespace vrs;
namespace {
// DataLayout, by contract (C14): fixed data, and variable data collected at the place given, before the fixed data is read.
struct L { uint64_t fixed, var; uint8_t* data; const uint8_t* vdata; bool collected; uint8_t index; };
L ls[2]; alignas(16) uint8_t lmem[2][sizeof(DataLayout)];
DataLayout& layout(int i) { return *(DataLayout*)lmem[i]; }
L& of(const void* d) { return d == lmem[0] ? ls[0] : ls[1]; }
std::vector<int8_t> vecs[2]; 
__attribute__((used, annotate("replace:vrs::DataLayout::getFixedDataSizeNeeded() const"))) size_t fixedSize(const DataLayout* d) { return of(d).fixed; }
__attribute__((used, annotate("replace:vrs::DataLayout::getVarDataSizeNeeded() const"))) size_t varSize(const DataLayout* d) { return of(d).var; }
__attribute__((used, annotate("replace:vrs::DataLayout::collectVariableDataAndUpdateIndex(void*)"))) void collect(DataLayout* d, void* to) {
  L& l = of(d); if (l.var) memcpy(to, l.vdata, l.var); if (l.fixed) l.data[0] = l.index; l.collected = true; // the fixed data holds the index of the variable data
}
__attribute__((used, annotate("replace:vrs::DataLayout::getFixedData()"))) std::vector<int8_t>& fixedData(DataLayout* d) {
  L& l = of(d); auto& v = vecs[d == &layout(0) ? 0 : 1]; auto& m = v._M_impl; m._M_start = (int8_t*)l.data; m._M_finish = m._M_end_of_storage = m._M_start + l.fixed; return v;
}
uint8_t pick(const char* name, uint8_t lo, uint8_t hi) { uint8_t v = (uint8_t)V_range(name, lo, hi); for (uint8_t i = lo; i < hi; i++) if (v == i) return i; return hi; }
struct Chunk { uint64_t n; const uint8_t* p; DataSourceChunk c; Chunk(const char* name) : n(V_size(name, 1u << 28, 40)), p((const uint8_t*)V_alloc(name, n, 1)), c(p, n) {} };
}
extern "C" void h_chunks() {
  Chunk a("first"), b("second"), c("third"); const uint64_t total = a.n + b.n + c.n, w = V_range("watched", 0, 1u << 30);
  uint8_t* to = (uint8_t*)V_alloc("to", total, 1); const uint8_t k = pick("how many", 0, 2);
  auto judge = [&](const DataSource& s, uint64_t n) { V_assert(s.getDataSize() == n, "size"); s.copyTo(to); if (w < n) V_assert(to[w] == (w < a.n ? a.p[w] : w < a.n + b.n ? b.p[w - a.n] : c.p[w - a.n - b.n]), "the bytes given, in order"); };
  if (k % 3 == 0) judge(DataSource(a.c), a.n); else if (k % 3 == 1) judge(DataSource(a.c, b.c), a.n + b.n); else judge(DataSource(a.c, b.c, c.c), total);
  V_assert(DataSource().getDataSize() == 0, "nothing"); DataSource().copyTo(to);
}
extern "C" void h_layouts() {
  Chunk a("first"), b("second"), c("third"); const uint64_t w = V_range("watched", 0, 1u << 30);
  for (int i = 0; i < 2; i++) { L& l = ls[i]; l.fixed = V_size("fixed size", 1u << 28, 40); l.var = V_size("variable size", 1u << 28, 40); l.data = (uint8_t*)V_alloc("fixed data", l.fixed, 1); l.vdata = (const uint8_t*)V_alloc("variable data", l.var, 1); l.collected = false; l.index = V_u8("index"); }
  const uint8_t k = pick("which", 0, 7); const int lays = k < 4 ? 1 : 2, chunks = k % 4;
  uint64_t len[7], n = 0; const uint8_t* p[7]; int parts = 0;
  auto add = [&](const uint8_t* q, uint64_t m) { p[parts] = q; len[parts++] = m; n += m; };
  for (int i = 0; i < lays; i++) { add(ls[i].data, ls[i].fixed); add(ls[i].vdata, ls[i].var); }
  if (chunks > 0) add(a.p, a.n); if (chunks > 1) add(b.p, b.n); if (chunks > 2) add(c.p, c.n);
  uint8_t* to = (uint8_t*)V_alloc("to", n, 1);
  auto judge = [&](const DataSource& s) {
    V_assert(s.getDataSize() == n, "size"); s.copyTo(to); uint64_t o = w;
    V_unroll(9);
    for (int i = 0; i < parts; i++) { if (o < len[i]) { V_assert(to[w] == p[i][o], "the bytes given, in order, with the final index"); break; } o -= len[i]; }
    for (int i = 0; i < lays; i++) V_assert(ls[i].collected, "the variable data was collected");
  };
  DataLayout &x = layout(0), &y = layout(1);
  switch (k) {
    case 0: judge(DataSource(x)); break; case 1: judge(DataSource(x, a.c)); break; case 2: judge(DataSource(x, a.c, b.c)); break; case 3: judge(DataSource(x, a.c, b.c, c.c)); break;
    case 4: judge(DataSource(x, y)); break; case 5: judge(DataSource(x, y, a.c)); break; case 6: judge(DataSource(x, y, a.c, b.c)); break; default: judge(DataSource(x, y, a.c, b.c, c.c)); break;
  }
  for (auto& v : vecs) v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
}
namespace {
struct N { const uint8_t* src; uint8_t* to; uint64_t block, count, stride, wb, wo; uint8_t** cur; };
bool invCopied(const void* c, uint64_t b) { const N& n = *(const N*)c; return b <= n.count && *n.cur == n.to + b * n.block && (n.wb >= b || n.to[n.wb * n.block + n.wo] == n.src[n.wb * n.stride + n.wo]); }
bool invFrom(const void* c, uint64_t p, uint64_t b) { const N& n = *(const N*)c; return p == (uint64_t)n.src + b * n.stride; }
}
extern "C" void h_non_contiguous() {
  N n; n.block = 96; n.stride = 160; // sizes are concrete to keep the arithmetic linear, see h_non_contiguous_any
  n.count = V_size("blocks", 1u << 20, 9); V_assume(n.count > 0); n.src = (const uint8_t*)V_alloc("source", (n.count - 1) * n.stride + n.block, 1); n.to = (uint8_t*)V_alloc("to", n.count * n.block, 1);
  n.wb = V_range("watched block", 0, 1u << 20); n.wo = V_range("watched byte", 0, 95); if (V_mode() == 2) n.wb %= n.count; V_assume(n.wb < n.count);
  NonContiguousChunk c(n.src, n.block, n.count, n.stride); uint8_t* cur = n.to; n.cur = &cur;
  V_assert(c.size() == n.block * n.count, "size");
  V_inv1(invCopied, &n, "blocks copied"); V_inv2(invFrom, &n, "next block");
  c.fillAndAdvanceBuffer(cur);
  V_assert(cur == n.to + n.count * n.block, "all the blocks");
  V_assert(n.to[n.wb * n.block + n.wo] == n.src[n.wb * n.stride + n.wo], "each block from its place");
}
