// C12: reading the data of a record, compressed or not: exact bytes, never past the record, exact accounting.
// @repo vrs/DataReference.cpp
// @repo vrs/RecordReaders.cpp
// @entry h_uncompressed timeout=60
// @entry h_compressed timeout=200 nofuzz
// @entry h_data_reference timeout=60
// @entry h_read_buffer timeout=60
#include "v.h"
#include "decomp.h"
#include <vrs/RecordReaders.h>
namespace {
// Decompressor, by its contract (C13): takes in order what is put in its buffers, writes in order within the destination.
namespace dc { uint8_t* buf; uint64_t room, fed, made, base, size, pending; uint8_t* dst; bool failed; bool gave; }
__attribute__((used, annotate("replace:vrs::Decompressor::getRemainingCompressedDataBufferSize() const"))) size_t remaining(const Decompressor*) { return dc::pending; }
__attribute__((used, annotate("replace:vrs::Decompressor::getRecommendedInputBufferSize() const"))) size_t recommended(const Decompressor*) { return V_range("recommended", 1, 1u << 20); }
__attribute__((used, annotate("replace:vrs::Decompressor::allocateCompressedDataBuffer(unsigned long)"))) void* allocate(Decompressor*, size_t n) {
  V_assert(dc::pending == 0, "nothing to decode is dropped"); dc::room = n; dc::gave = true; return dc::buf;
}
__attribute__((used, annotate("replace:vrs::Decompressor::decompress(void*, unsigned int, unsigned int&)"))) int decompress(Decompressor*, void* d, uint32_t n, uint32_t& out) {
  V_assert(d == dc::dst + dc::made && n == dc::size - dc::made, "output goes on where it stopped, up to the end of the destination");
  uint64_t m = V_range("made", 0, n); dc::made += m; out = (uint32_t)m; uint64_t take = V_range("pending", 0, dc::pending); dc::pending = take;
  if (V_bool("codec fails")) { dc::failed = true; return 9; }
  return 0;
}
struct Disk : MockFile { // counts what is read, from the record's data on
  uint64_t got = 0, limit = 0; bool tracked = false;
  int read(void* b, size_t n) override {
    reads++;
    if (tracked) { V_assert(b == dc::buf && n == dc::room && dc::gave, "into the buffer given for it, as much as it holds"); V_assert(n > 0 && n <= limit - got, "never past the record"); }
    if (fails()) { lastRW = 0; return lastErr; }
    lastRW = n; got += n; if (tracked) { dc::pending = n; dc::gave = false; } return 0;
  }
};
struct C { CompressedRecordReader* r; Disk* f; uint32_t disk, expanded, done; uint32_t* out; };
bool inv(const void* c) { const C& s = *(const C*)c; return s.f->got <= s.disk && s.r->remainingDiskBytes_ == s.disk - s.f->got && dc::made <= dc::size && s.r->remainingUncompressedSize_ == s.expanded - s.done - dc::made && !dc::failed && !s.f->failed && s.f->limit == s.disk; }
bool invOut(const void* c) { const C& s = *(const C*)c; return *s.out == dc::made; }
}
extern "C" void h_compressed() {
  uint32_t disk = V_u32("disk size"), expanded = V_u32("record size"); Disk f; f.mayFail = true; f.limit = disk; f.tracked = true;
  CompressedRecordReader r; r.init(f, disk, expanded);
  dc::buf = (uint8_t*)V_alloc("buffer", 1ull << 33, 1); dc::failed = dc::gave = false; dc::pending = 0; dc::made = 0;
  // somewhere in the record: some bytes were read and delivered already
  uint32_t had = (uint32_t)V_range("already read", 0, 0xffffffffu), gave = (uint32_t)V_range("already delivered", 0, 0xffffffffu); V_assume(had <= disk && gave <= expanded);
  f.got = had; r.remainingDiskBytes_ = disk - had; r.remainingUncompressedSize_ = expanded - gave; dc::pending = V_range("not decoded", 0, had);
  uint32_t size = (uint32_t)V_size("destination", 1u << 30, 64), known = V_u32("known need"); V_assume(size > 0 && size <= expanded - gave);
  dc::dst = (uint8_t*)V_alloc("destination", size, 1); dc::size = size;
  uint32_t out = 77; C c{&r, &f, disk, expanded, gave, &out};
  V_inv0(inv, &c, "accounts"); V_inv0(invOut, &c, "delivered");
  int err = r.read(dc::dst, size, known, out);
  V_assert(out == dc::made && out <= size, "counts what was delivered");
  V_assert(r.remainingUncompressedSize_ == expanded - gave - out && r.remainingDiskBytes_ == disk - f.got && f.got <= disk, "what is left, on disk and to deliver");
  if (err == 0) V_assert(out == size && !f.failed && !dc::failed, "everything delivered, no failure");
  if (f.failed || dc::failed) V_assert(err != 0, "every failure is reported");
}
namespace {
struct U { UncompressedRecordReader r; Disk f; };
}
extern "C" void h_uncompressed() {
  uint32_t left = V_u32("left"); MockFile f; f.mayFail = true; f.size = (int64_t)V_size("file", 1ull << 33, 200); f.data = (const uint8_t*)V_alloc("content", f.size, 1);
  f.pos = (int64_t)V_range("at", 0, 1ull << 33); if (V_mode() == 2) { f.pos %= f.size + 1; left %= 150; } V_assume(f.pos <= f.size);
  uint32_t a = (uint32_t)V_size("first part", 1u << 30, 40), b = (uint32_t)V_size("second part", 1u << 30, 40);
  uint8_t* d1 = (uint8_t*)V_alloc("first", a, 1); uint8_t* d2 = (uint8_t*)V_alloc("second", b, 1);
  DataReference d(d1, a, d2, b); const int64_t start = f.pos; const uint64_t w = V_range("watched", 0, 1ull << 31);
  UncompressedRecordReader r; r.init(f, left, left); uint32_t got = 5;
  V_assert(r.getUnreadBytes() == left && r.getUnreadDiskBytes() == left && r.getFileOffset() == start, "as started");
  int err = r.read(d, got);
  V_assert(r.getUnreadBytes() == left - got && r.getUnreadDiskBytes() == left - got && got <= left, "what is left");
  if (a + b > left) V_assert(err != 0 && f.pos == start && f.reads == 0, "more than the record has");
  if (err == 0) {
    V_assert(got == a + b && f.pos == start + (int64_t)got && !f.failed, "all of it");
    if (w < got) V_assert((w < a ? d1[w] : d2[w - a]) == f.data[start + (int64_t)w], "the bytes of the record, in order");
  }
}
extern "C" void h_data_reference() {
  uint32_t a = (uint32_t)V_size("first part", 1u << 30, 40), b = (uint32_t)V_size("second part", 1u << 30, 40);
  uint8_t* d1 = (uint8_t*)V_alloc("first", a, 1); uint8_t* d2 = (uint8_t*)V_alloc("second", b, 1); uint8_t* to = (uint8_t*)V_alloc("to", (uint64_t)a + b, 1);
  DataReference d; d.useRawData(d1, a, d2, b); V_assert(d.getSize() == a + b, "size");
  d.copyTo(to); const uint64_t w = V_range("watched", 0, 1ull << 31);
  if (w < (uint64_t)a + b) V_assert(to[w] == (w < a ? d1[w] : d2[w - a]), "both parts, in order");
}
// RecordReader::read(pointer, size): succeeds only when everything was read
namespace { struct Fake : UncompressedRecordReader { bool all = false; int err = 0; void* to = nullptr; uint32_t n = 0;
  int read(DataReference& d, uint32_t& out) override { V_assert(d.getDataPtr1() == to && d.getDataSize1() == n && d.getDataSize2() == 0, "the destination"); err = V_bool("fails") ? 5 : 0; out = (uint32_t)V_range("got", 0, n); all = out == n; return err; } }; }
extern "C" void h_read_buffer() {
  Fake f; f.n = (uint32_t)V_size("size", 1u << 30, 64); f.to = V_alloc("to", f.n, 1); RecordReader& r = f;
  int e = r.read(f.to, f.n); V_assert((e == 0) == (f.err == 0 && f.all), "no error exactly when everything was read"); if (f.err) V_assert(e == f.err, "its error");
}
