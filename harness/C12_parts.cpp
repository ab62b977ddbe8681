// C12: reading the data of a compressed record to one or two destinations (the reading itself by its contract, proved in C12.cpp).
// @repo vrs/DataReference.cpp
// @repo vrs/RecordReaders.cpp
// @entry h_compressed_parts timeout=60 nofuzz
#include "v.h"
#include "decomp.h"
#include <vrs/RecordReaders.h>
namespace {
namespace pr { void* to[3]; uint32_t psize[3], pcalls, ptotal; int perr; } using namespace pr;
__attribute__((used, annotate("replace:vrs::CompressedRecordReader::read(void*, unsigned int, unsigned int, unsigned int&)"))) int readContract(CompressedRecordReader* r, void* d, uint32_t n, uint32_t, uint32_t& out) {
  V_assert(n > 0 && n <= r->remainingUncompressedSize_ && perr == 0, "something to read, after what was read");
  if (pcalls < 3) { to[pcalls] = d; psize[pcalls] = n; } pcalls++;
  perr = V_bool("fails") ? 7 : 0; out = perr ? (uint32_t)V_range("got", 0, n) : n; r->remainingUncompressedSize_ -= out; ptotal += out; return perr;
}
}
extern "C" void h_compressed_parts() {
  pcalls = ptotal = 0; perr = 0;
  MockFile f; CompressedRecordReader r; uint32_t left = V_u32("left"); r.init(f, V_u32("on disk"), left); 
  uint32_t a = (uint32_t)V_size("first part", 1u << 30, 40), b = (uint32_t)V_size("second part", 1u << 30, 40);
  uint8_t* d1 = (uint8_t*)V_alloc("first", a, 1); uint8_t* d2 = (uint8_t*)V_alloc("second", b, 1); DataReference d(d1, a, d2, b); uint32_t got = 5;
  const int e = r.read(d, got);
  if (a + b > left) { V_assert(e != 0 && pcalls == 0, "more than the record has"); return; }
  V_assert(e == perr, "failures are reported");
  if (e == 0) {
    V_assert(got == a + b && r.getUnreadBytes() == left - got, "all of it");
    V_assert(pcalls == (a ? 1u : 0u) + (b ? 1u : 0u), "each part once");
    if (a) V_assert(to[0] == d1 && psize[0] == a, "first part");
    if (b) V_assert(to[pcalls - 1] == d2 && psize[pcalls - 1] == b, "second part");
  }
}
