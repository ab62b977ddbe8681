// C10: bytes written for a record.
// @repo vrs/Record.cpp vrs/Compressor.cpp vrs/FileFormat.cpp vrs/RecordManager.cpp vrs/DataSource.cpp vrs/FileHandler.cpp
// @entry h_write_record timeout=200
// @entry h_write_direct timeout=100
// @entry h_reuse_buffer timeout=100
#include "codec.h"
#include "mockfile.h"
#include "errstub.h"
#include <vrs/Compressor.h>
#include <vrs/DataSource.h>
#include <vrs/FileFormat.h>
#include <vrs/Record.h>
#include <vrs/RecordManager.h>
using namespace vrs;
namespace {
template <class T> T at(const void* p, size_t off) { T t; memcpy(&t, (const char*)p + off, sizeof(T)); return t; }
struct Any { uint64_t n; uint8_t* d; double ts; Record::Type type; uint32_t fv; uint64_t order; StreamId id; uint32_t prev; CompressionPreset preset; };
Any anyInput() {
  Any a;
  a.n = V_size("size", 0xffffffffull - 32, 300);
  a.d = (uint8_t*)V_alloc("payload", a.n, 1);
  a.ts = V_f64("timestamp"); a.type = (Record::Type)V_u8("type"); a.fv = V_u32("formatVersion"); a.order = V_u64("order");
  a.id = StreamId((RecordableTypeId)V_u16("typeId"), V_u16("instance")); a.prev = V_u32("previous");
  a.preset = (CompressionPreset)(int)V_range("preset", 0, 11);
  return a;
}
uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
// expected header byte k for the given fields
uint8_t headerByte(const Any& a, uint64_t k, uint32_t recordSize, uint8_t ct, uint32_t us) {
  uint8_t h[32]; uint32_t u; uint16_t s; uint64_t q;
  memcpy(h, &recordSize, 4); memcpy(h + 4, &a.prev, 4); u = (uint16_t)a.id.getTypeId(); memcpy(h + 8, &u, 4); memcpy(h + 12, &a.fv, 4);
  q = bits(a.ts); memcpy(h + 16, &q, 8); s = a.id.getInstanceId(); memcpy(h + 24, &s, 2); h[26] = (uint8_t)a.type; h[27] = ct; memcpy(h + 28, &us, 4);
  return h[k];
}
}
extern "C" void h_write_record() {
  Any a = anyInput();
  RecordManager rm;
  rm.setCompression(a.preset);
  Record* r = new Record(rm);
  uint64_t w = V_u64("watched position");
  if (V_mode() == 2) w %= a.n + 40;
  codec::watch = w >= 32 ? w - 32 : 0; codec::calls = 0; codec::srcSeen = false; codec::outSize = 0;
  DataSourceChunk chunk(a.d, a.n);
  DataSource source(chunk);
  r->set(a.ts, a.type, a.fv, source, a.order);
  V_assert(r->getSize() == a.n && r->getCreationOrder() == a.order && bits(r->getTimestamp()) == bits(a.ts) && r->getRecordType() == a.type, "record details kept");
  MockFile f;
  f.mayFail = true; f.watch = w;
  Compressor compressor;
  bool tried = r->shouldTryToCompress();
  if (a.preset == CompressionPreset::None) V_assert(!tried, "no compression unless asked");
  uint32_t compressed = tried ? r->compressRecord(compressor) : 0;
  if (codec::calls) {
    V_assert(codec::srcSize == a.n, "the whole payload is compressed");
    if (codec::srcSeen) V_assert(codec::srcAt == a.d[codec::watch], "the payload's bytes are compressed");
  }
  uint32_t size = a.prev;
  int st = r->writeRecord(f, a.id, size, compressor, compressed);
  if (st != 0) { V_assert(f.failed, "a write fails only when the file fails"); return; }
  V_assert(!f.failed, "file errors are reported");
  bool comp = compressed > 0;
  uint32_t expect = 32 + (comp ? compressed : (uint32_t)a.n);
  V_assert((uint64_t)f.pos == expect && size == expect, "record size is the byte count written");
  if (comp) V_assert(codec::calls == 1 && compressed == codec::outSize && compressed < a.n, "compressed only when smaller");
  if (w < 32) {
    uint8_t ct = comp ? (a.preset <= CompressionPreset::LastLz4Preset ? 1 : 2) : 0;
    V_assert(f.hits == 1 && f.cell == headerByte(a, w, expect, ct, comp ? (uint32_t)a.n : 0), "header bytes");
    V_cover(comp ? "compressed header" : "raw header");
  } else if (w < expect) {
    V_assert(f.hits == 1 && f.cell == (comp ? codec::out[w - 32] : a.d[w - 32]), "payload bytes");
    V_cover(comp ? "compressed payload" : "raw payload");
  } else V_assert(f.hits == 0, "nothing beyond the record");
}
namespace {
struct Direct : DirectWriteRecordData {
  uint8_t* p; uint64_t n;
  size_t getDataSize() const override { return n; }
  int write(WriteFileHandler& file) const override { return file.write(p, n); }
};
}
extern "C" void h_write_direct() {
  Any a = anyInput();
  RecordManager rm;
  rm.setCompression(a.preset);
  Record* r = new Record(rm);
  Direct* d = new Direct;
  d->n = V_size("direct size", 0xffffffffull - 32, 300);
  V_assume(a.n + d->n <= 0xffffffffull - 32);
  d->p = (uint8_t*)V_alloc("direct", d->n, 1);
  uint8_t* dp = d->p; uint64_t dn = d->n;
  uint64_t w = V_u64("watched position");
  if (V_mode() == 2) w %= a.n + dn + 40;
  DataSourceChunk chunk(a.d, a.n);
  DataSource source(chunk);
  r->set(a.ts, a.type, a.fv, source, a.order);
  r->addDirectWriteRecordData(std::unique_ptr<DirectWriteRecordData>(d));
  MockFile f;
  f.mayFail = true; f.watch = w;
  Compressor compressor;
  V_assert(!r->shouldTryToCompress(), "direct-write records are not compressed");
  uint32_t size = a.prev;
  int st = r->writeRecord(f, a.id, size, compressor, 0);
  if (st != 0) { V_assert(f.failed, "a write fails only when the file fails"); return; }
  V_assert(!f.failed, "file errors are reported");
  uint32_t expect = (uint32_t)(32 + a.n + dn);
  V_assert((uint64_t)f.pos == expect && size == expect, "record size is the byte count written");
  if (w < 32) V_assert(f.hits == 1 && f.cell == headerByte(a, w, expect, 0, 0), "header bytes");
  else if (w < 32 + a.n) V_assert(f.hits == 1 && f.cell == a.d[w - 32], "buffered payload bytes");
  else if (w < expect) V_assert(f.hits == 1 && f.cell == dp[w - 32 - a.n], "direct payload bytes");
  V_cover("written");
}
// A recycled record object carries nothing over from its previous use.
extern "C" void h_reuse_buffer() {
  RecordManager rm;
  Record* r = new Record(rm);
  uint64_t m = V_size("first size", 1ull << 31, 40);
  uint8_t* md = (uint8_t*)V_alloc("first", m, 1);
  DataSourceChunk c0(md, m);
  DataSource s0(c0);
  r->set(V_f64("t0"), Record::Type::DATA, 1, s0, 7);
  if (V_bool("had direct data")) {
    Direct* d = new Direct;
    d->n = V_size("old direct size", 1ull << 31, 40); d->p = (uint8_t*)V_alloc("old direct", d->n, 1);
    r->addDirectWriteRecordData(std::unique_ptr<DirectWriteRecordData>(d));
  }
  Any a = anyInput();
  rm.setCompression(CompressionPreset::None);
  DataSourceChunk chunk(a.d, a.n);
  DataSource source(chunk);
  r->set(a.ts, a.type, a.fv, source, a.order);
  uint64_t w = V_u64("watched position");
  if (V_mode() == 2) w %= a.n + 40;
  MockFile f;
  f.watch = w;
  Compressor compressor;
  uint32_t size = a.prev;
  int st = r->writeRecord(f, a.id, size, compressor, 0);
  V_assert(st == 0 && (uint64_t)f.pos == 32 + a.n && size == 32 + a.n, "recycled record size");
  if (w < 32) V_assert(f.cell == headerByte(a, w, (uint32_t)(32 + a.n), 0, 0), "recycled record header");
  else if (w < 32 + a.n) V_assert(f.cell == a.d[w - 32], "recycled record payload");
  V_cover("reused");
}
