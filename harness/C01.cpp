// C01: record and file headers.
// @repo vrs/FileFormat.cpp vrs/Record.cpp
// @entry h_record_header timeout=60
// @entry h_sanity timeout=60
// @entry h_index_headers timeout=60
// @entry h_file_header timeout=60
#include "v.h"
#include <string.h>
#include <vrs/FileFormat.h>
#include <vrs/IndexRecord.h>
#include <vrs/Compressor.h>
using namespace vrs;
using FileFormat::RecordHeader;
using FileFormat::FileHeader;
namespace {
template <class T> T at(const void* p, size_t off) { T t; memcpy(&t, (const char*)p + off, sizeof(T)); return t; }
uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
// contract of the legacy type id translation
int64_t effectiveTypeId(int32_t raw) { return raw >= 100000 ? (int64_t)raw - 100000 + 65500 : raw; }
}
static_assert(sizeof(RecordHeader) == 32 && sizeof(FileHeader) == 80, "on-disk sizes");

// A header built for arbitrary field values stores them at the format's byte positions and reads back unchanged.
static void headerFields(RecordHeader& h, uint8_t type, uint16_t typeId, uint16_t inst, double ts, uint32_t fv, uint8_t ct, uint32_t prev, uint32_t rs, uint32_t us) {
  V_assert(at<uint32_t>(&h, 0) == rs, "record size at byte 0");
  V_assert(at<uint32_t>(&h, 4) == prev, "previous record size at byte 4");
  V_assert(at<int32_t>(&h, 8) == (int32_t)typeId, "type id at byte 8");
  V_assert(at<uint32_t>(&h, 12) == fv, "format version at byte 12");
  V_assert(at<uint64_t>(&h, 16) == bits(ts), "timestamp at byte 16");
  V_assert(at<uint16_t>(&h, 24) == inst, "instance id at byte 24");
  V_assert(at<uint8_t>(&h, 26) == type, "record type at byte 26");
  V_assert(at<uint8_t>(&h, 27) == ct, "compression type at byte 27");
  V_assert(at<uint32_t>(&h, 28) == us, "uncompressed size at byte 28");
  V_assert((uint8_t)h.getRecordType() == type, "record type reads back");
  V_assert((uint8_t)h.getCompressionType() == ct, "compression type reads back");
  V_assert((uint16_t)h.getRecordableTypeId() == typeId, "type id reads back");
  V_assert(h.getStreamId() == StreamId((RecordableTypeId)typeId, inst), "stream id reads back");
}
extern "C" void h_record_header() {
  uint8_t type = V_u8("type"), ct = V_u8("compression");
  uint16_t typeId = V_u16("typeId"), inst = V_u16("instance");
  double ts = V_f64("timestamp");
  uint32_t fv = V_u32("formatVersion"), prev = V_u32("prev"), rs = V_u32("size"), us = V_u32("uncompressed");
  StreamId id((RecordableTypeId)typeId, inst);
  RecordHeader a((Record::Type)type, id, ts, fv, (CompressionType)ct, prev, rs, us);
  headerFields(a, type, typeId, inst, ts, fv, ct, prev, rs, us);
  RecordHeader b;
  V_any_bytes(&b, sizeof(b));
  b.initHeader((Record::Type)type, id, ts, fv, (CompressionType)ct, prev, rs, us);
  headerFields(b, type, typeId, inst, ts, fv, ct, prev, rs, us);
  V_cover("built");
}
// The reader's acceptance test against its specification.
extern "C" void h_sanity() {
  RecordHeader h;
  V_any_bytes(&h, sizeof(h));
  if (V_mode() == 2 && V_bool("plausible")) {
    h.recordSize = 32 + V_u32("payload"); h.recordType = 1 + V_u8("rt") % 4; h.compressionType = V_u8("ct") % 3; h.recordableTypeId = V_u16("tid");
    if (V_bool("noprev")) h.previousRecordSize = 0;
  }
  bool ok = h.isSanityCheckOk();
  uint64_t us = h.uncompressedSize, rs = h.recordSize, prev = h.previousRecordSize;
  bool index = (uint16_t)effectiveTypeId(h.recordableTypeId) == 1;
  if (rs < 32) V_assert(!ok, "undersized record rejected");
  if (prev != 0 && prev < 32) V_assert(!ok, "undersized previous record rejected");
  if (h.recordType < 1 || h.recordType > 4) V_assert(!ok, "unknown record type rejected");
  if (us > 0 && (h.compressionType < 1 || h.compressionType > 2)) V_assert(!ok, "unknown compression rejected");
  uint64_t grow = us < 200 ? (us / 2 > 50 ? us / 2 : 50) : (us * 5 / 100 > 100 ? us * 5 / 100 : 100);
  if (rs >= 32 && us > 0 && !index && rs - 32 >= us + grow) V_assert(!ok, "implausible expansion rejected");
  // every consistent header is accepted: this includes all headers the writer produces, where compression reduced the payload
  if (rs >= 32 && (prev == 0 || prev >= 32) && h.recordType >= 1 && h.recordType <= 4 &&
      (us == 0 || (h.compressionType >= 1 && h.compressionType <= 2 && (index || rs - 32 < us + grow)))) {
    V_assert(ok, "consistent header accepted");
    V_cover("accepted");
  }
}
extern "C" void h_index_headers() {
  RecordHeader h;
  uint32_t fv = V_u32("formatVersion"), sz = V_u32("size"), prev = V_u32("prev");
  uint8_t ct = V_u8("compression");
  h.initIndexHeader(fv, sz, prev, (CompressionType)ct);
  V_assert(h.recordSize == (uint32_t)(sz + 32) && h.previousRecordSize == prev && h.formatVersion == fv && h.compressionType == ct, "index header sizes");
  V_assert((uint16_t)h.getRecordableTypeId() == 1 && h.getRecordType() == Record::Type::DATA, "index header type");
  RecordHeader d;
  d.initDescriptionHeader(fv, sz, prev);
  V_assert(d.recordSize == sz && d.previousRecordSize == prev && d.formatVersion == fv && d.compressionType == 0 && d.uncompressedSize == 0, "description header sizes");
  V_assert((uint16_t)d.getRecordableTypeId() == 2 && d.getRecordType() == Record::Type::DATA, "description header type");
  int32_t raw = (int32_t)V_u32("raw type id");
  V_assume(raw >= 0 && raw < 165536);
  if (V_mode() == 2) { V_assume(true); }
  RecordableTypeId t = FileFormat::readRecordableTypeId(raw);
  V_assert((uint16_t)t == (uint16_t)effectiveTypeId(raw), "legacy type ids translated");
  V_cover("done");
}
extern "C" void h_file_header() {
  FileHeader h;
  V_any_bytes(&h, sizeof(h));
  if (V_mode() == 2 && V_bool("plausible")) {
    memcpy(&h, "VisionRe", 8); memcpy((char*)&h + 72, "cord", 4);
    h.fileHeaderSize = (uint32_t)V_range("fhs", 70, 300); h.recordHeaderSize = (uint32_t)V_range("rhs", 25, 250);
    if (V_bool("v")) { memcpy((char*)&h + 76, "VRS1", 4); ((char*)&h)[79] = (char)('0' + V_u8("d") % 5); }
    h.indexRecordOffset = (int64_t)V_u64("iro"); h.firstUserRecordOffset = (int64_t)V_u64("furo");
  }
  const char* p = (const char*)&h;
  bool magic = memcmp(p, "VisionRe", 8) == 0 && memcmp(p + 72, "cord", 4) == 0;
  uint32_t fhs = at<uint32_t>(p, 16), rhs = at<uint32_t>(p, 20);
  bool sizes = fhs >= 80 && fhs <= 280 && rhs >= 32 && rhs <= 232;
  V_assert(h.looksLikeAVRSFile() == (magic && sizes), "recognised exactly with the magic and plausible header sizes");
  bool v = memcmp(p + 76, "VRS1", 4) == 0 || memcmp(p + 76, "VRS2", 4) == 0 || memcmp(p + 76, "VRS3", 4) == 0;
  V_assert(h.isFormatSupported() == v, "supported format versions");
  int64_t size = (int64_t)V_u64("file size");
  V_assume(size >= 0);
  int64_t iro = at<int64_t>(p, 24), furo = at<int64_t>(p, 40);
  int64_t end = h.getEndOfUserRecordsOffset(size);
  V_assert(end <= size, "user records end within the file");
  if (magic && sizes && iro > furo) V_assert(end == (iro < size ? iro : size), "user records end before a trailing index");
  else V_assert(end == size, "user records end with the file");
  FileHeader g;
  g.init(at<uint32_t>("Visi", 0), at<uint32_t>("onRe", 0), at<uint32_t>("cord", 0), at<uint32_t>("VRS1", 0));
  V_assert(g.looksLikeAVRSFile() && g.isFormatSupported(), "a fresh header is recognised");
  FileHeader k;
  k.init();
  V_assert(k.looksLikeAVRSFile() && k.isFormatSupported(), "a default header is recognised");
  k.enableFrontIndexRecordSupport();
  V_assert(k.looksLikeAVRSFile() && k.isFormatSupported(), "a front-index header is recognised");
  V_cover("done");
}
