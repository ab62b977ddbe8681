// C08: records have one total, deterministic order, and batches of records are merged in that order.
// @repo vrs/Record.cpp vrs/RecordFileWriter.cpp vrs/FileFormat.cpp
// @entry h_record_info_order timeout=60
// @entry h_signature_order timeout=30
// @entry h_sort_record_order timeout=60
// @entry h_stream_id_order timeout=30
// @entry h_merge_batches bounded timeout=300 unroll=12
#include "v.h"
#include <cmath>
#include <memory>
#include <new>
#include <vrs/IndexRecord.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordManager.h>
using namespace vrs;
using IndexRecord::RecordInfo;
namespace {
RecordInfo any(const char*) {
  RecordInfo r;
  r.timestamp = V_f64("timestamp");
  V_assume(r.timestamp == r.timestamp); // not a NaN
  r.fileOffset = (int64_t)V_u64("offset");
  r.streamId = StreamId((RecordableTypeId)V_u16("type"), V_u16("instance"));
  r.recordType = (Record::Type)V_u8("recordType");
  return r;
}
// the specified order: time, then stream (type, instance), then position
int spec(double t1, StreamId s1, int64_t p1, double t2, StreamId s2, int64_t p2) {
  if (t1 < t2) return -1;
  if (t2 < t1) return 1;
  uint32_t a = ((uint32_t)s1.getTypeId() << 16) | s1.getInstanceId(), b = ((uint32_t)s2.getTypeId() << 16) | s2.getInstanceId();
  if (a != b) return a < b ? -1 : 1;
  return p1 < p2 ? -1 : p1 > p2 ? 1 : 0;
}
}
extern "C" void h_record_info_order() {
  RecordInfo a = any("a"), b = any("b");
  if (V_mode() == 2) { if (V_bool("eqT")) b.timestamp = a.timestamp; if (V_bool("eqS")) b.streamId = a.streamId; if (V_bool("eqO")) b.fileOffset = a.fileOffset; }
  int c = spec(a.timestamp, a.streamId, a.fileOffset, b.timestamp, b.streamId, b.fileOffset);
  V_assert((a < b) == (c < 0), "records ordered by time, stream, file position");
  V_assert((b < a) == (c > 0), "order is antisymmetric and total");
  if (a == b) V_assert(c == 0, "equal records are not ordered");
  if (c == 0 && a.recordType == b.recordType) V_assert(a == b, "unordered records of one type are equal");
  V_cover("end");
}
extern "C" void h_stream_id_order() {
  StreamId a((RecordableTypeId)V_u16("type"), V_u16("instance")), b((RecordableTypeId)V_u16("type"), V_u16("instance"));
  if (V_mode() == 2) { if (V_bool("eq")) b = StreamId(a.getTypeId(), b.getInstanceId()); }
  uint32_t x = ((uint32_t)a.getTypeId() << 16) | a.getInstanceId(), y = ((uint32_t)b.getTypeId() << 16) | b.getInstanceId();
  V_assert((a < b) == (x < y), "streams ordered by type then instance");
  V_assert((a == b) == (x == y) && (a != b) == (x != y), "stream equality");
  V_assert(!(a < StreamId::lowest()), "lowest stream id");
  V_assert(a.isValid() == ((uint16_t)a.getTypeId() != 65535), "validity");
}
extern "C" void h_signature_order() {
  IndexRecord::RecordSignature a{StreamId((RecordableTypeId)V_u16("type"), V_u16("instance")), (Record::Type)V_u8("rt")};
  IndexRecord::RecordSignature b{StreamId((RecordableTypeId)V_u16("type"), V_u16("instance")), (Record::Type)V_u8("rt")};
  uint64_t x = ((uint64_t)a.recordType << 32) | ((uint32_t)a.streamId.getTypeId() << 16) | a.streamId.getInstanceId();
  uint64_t y = ((uint64_t)b.recordType << 32) | ((uint32_t)b.streamId.getTypeId() << 16) | b.streamId.getInstanceId();
  if (V_mode() == 2 && V_bool("eq")) { b.recordType = a.recordType; y = (y & 0xffffffffu) | ((uint64_t)a.recordType << 32); }
  V_assert((a < b) == (x < y), "signatures ordered by type then stream");
}
namespace {
// a record object with arbitrary time and creation order (never destroyed: storage is not interpreted further)
Record* anyRecord(void* mem) {
  Record* r = (Record*)mem;
  r->timestamp_ = V_f64("timestamp");
  V_assume(r->timestamp_ == r->timestamp_);
  r->creationOrder_ = V_u64("order");
  r->usedBufferSize_ = V_u32("size");
  return r;
}
struct alignas(16) RM { char b[sizeof(Record)]; };
}
extern "C" void h_sort_record_order() {
  RM m1{}, m2{};
  Record *a = anyRecord(&m1), *b = anyRecord(&m2);
  StreamId s((RecordableTypeId)V_u16("type"), V_u16("instance")), t((RecordableTypeId)V_u16("type"), V_u16("instance"));
  if (V_mode() == 2) { if (V_bool("eqT")) b->timestamp_ = a->timestamp_; if (V_bool("eqS")) t = s; }
  V_assume(a->creationOrder_ < (1ull << 63) && b->creationOrder_ < (1ull << 63));
  RecordFileWriter::SortRecord x(a, s), y(b, t);
  int c = spec(a->timestamp_, s, (int64_t)a->creationOrder_, b->timestamp_, t, (int64_t)b->creationOrder_);
  V_assert((x < y) == (c < 0), "pending records ordered by time, stream, creation order");
  V_assert((y < x) == (c > 0), "pending record order is antisymmetric and total");
}
// Merging batches: everything is kept, in order, with the right byte count.
extern "C" void h_merge_batches() {
  RM m[4]{};
  Record* r[4];
  for (int i = 0; i < 4; i++) r[i] = anyRecord(&m[i]);
  for (int i = 0; i < 4; i++) {
    r[i]->creationOrder_ = i;
    // small time domain: the order of any four records can be expressed with four distinct times
    uint64_t k = V_range("k", 0, 3); r[i]->timestamp_ = k == 0 ? 0. : k == 1 ? 1. : k == 2 ? 2. : 3.;
  }
  V_assume(r[0]->timestamp_ <= r[1]->timestamp_); // records of one stream are collected in time order
  StreamId s0((RecordableTypeId)100, 1), s1((RecordableTypeId)100, 2);
  RecordFileWriter::SortedRecords sorted;
  RecordFileWriter::RecordBatches batches;
  batches.emplace_back(new RecordFileWriter::RecordBatch);
  batches.back()->push_back({s0, {r[0], r[1]}});
  batches.back()->push_back({s1, {r[2]}});
  uint64_t sz = RecordFileWriter::addRecordBatchesToSortedRecords(batches, sorted);
  V_assert(sorted.size() == 3, "every record kept once");
  V_assert(sz == r[0]->usedBufferSize_ + r[1]->usedBufferSize_ + r[2]->usedBufferSize_, "bytes accounted");
  RecordFileWriter::RecordBatches more;
  more.emplace_back(new RecordFileWriter::RecordBatch);
  more.back()->push_back({s0, {r[3]}});
  more.back()->push_back({s1, {}});
  sz = RecordFileWriter::addRecordBatchesToSortedRecords(more, sorted);
  V_assert(sz == r[3]->usedBufferSize_, "bytes of a late batch accounted");
  V_assert(sorted.size() == 4, "every record kept once, late batch");
  bool seen[4] = {false, false, false, false};
  for (size_t i = 0; i < 4; i++) {
    for (int k = 0; k < 4; k++) if (sorted[i].record == r[k]) { seen[k] = true; V_assert(sorted[i].streamId == (k == 2 ? s1 : s0), "stream kept with its record"); }
    if (i) V_assert(sorted[i - 1] < sorted[i], "records sorted");
  }
  V_assert(seen[0] && seen[1] && seen[2] && seen[3], "no record lost or duplicated");
  V_cover("merged");
}
