// C05: rebuilding the index of a file whose index is missing or unusable.
// @repo vrs/FileFormat.cpp vrs/StreamId.cpp vrs/helpers/Strings.cpp vrs/FileHandler.cpp
// @entry h_rebuild bounded btimeout=200 unroll=40
// @entry h_rebuild_damaged bounded btimeout=200 unroll=40
// @entry h_rebuild_split bounded btimeout=200 unroll=40
#include "v.h"
#include <string.h>
#include "errstub.h"
#include "storecodec.h"
#include "bytefile.h"
#include <vrs/IndexRecord.cpp>
#include "progress.h"
namespace vrs { namespace os { double getTimestampSec() { return 1; } } }
using namespace vrs;
using namespace vrs::IndexRecord;
namespace {
const int kMax = 4;
int pick(const char* name, int lo, int hi) { int v = (int)V_range(name, lo, hi); for (int i = lo; i < hi; i++) if (v == i) return i; return hi; }
struct File { // a file of user records, as left by an interrupted recording
  ByteFile f; FileFormat::FileHeader fh; int n = 0; int64_t at[kMax]; uint32_t sz[kMax]; double ts[kMax]; StreamId id[kMax]; Record::Type ty[kMax]; int64_t end = 0; uint32_t prev = 0;
  File() { fh.init(); fh.descriptionRecordOffset = sizeof(fh); f.write(&fh, sizeof(fh)); description(); }
  void header(uint32_t size, uint32_t p, RecordableTypeId t, uint16_t inst, Record::Type rt, double time) {
    FileFormat::RecordHeader h; h.recordSize = size; h.previousRecordSize = p; h.setRecordableTypeId(t); h.recordableInstanceId = inst; h.setRecordType(rt); h.timestamp = time; h.formatVersion = 3;
    f.write(&h, sizeof(h));
  }
  void description() { header(32 + 6, 0, RecordableTypeId::VRSDescription, 1, Record::Type::STATE, 0); f.grow(6); prev = 38; }
  void record() {
    int i = n++; at[i] = f.getPos(); int k = pick("payload", 0, 1); uint32_t payload = k == 0 ? 0 : 11; sz[i] = 32 + payload;
    ts[i] = V_f64("time"); V_assume(ts[i] == ts[i]); id[i] = StreamId((RecordableTypeId)V_range("type", 60, 900), V_u16("inst")); ty[i] = (Record::Type)V_range("rt", 1, 3);
    V_assume(i == 0 || ts[i] > ts[i - 1]);
    header(sz[i], prev, id[i].getTypeId(), id[i].getInstanceId(), ty[i], ts[i]);
    f.grow(payload); prev = sz[i]; end = f.getPos();
  }
  void check(const std::vector<RecordInfo>& index, int count, const char* what) {
    V_assert(index.size() == (size_t)count, what);
    for (int i = 0; i < count; i++) V_assert(index[i].timestamp == ts[i] && index[i].streamId == id[i] && index[i].recordType == ty[i] && index[i].fileOffset == at[i], "each record is found where it is, with its time, stream and type");
  }
  void reread(const std::vector<RecordInfo>& index, int64_t expectedIndexAt) { // what the repaired file says
    FileFormat::FileHeader h; f.setPos(0); f.read(&h, sizeof(h));
    V_assert(h.indexRecordOffset == expectedIndexAt, "the file header tells where the index is");
    ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> again; int64_t used = 0;
    Reader r(f, h, &pl, ids, again);
    V_assert(r.readRecord((int64_t)sizeof(fh) + 38, used) == 0, "the index written can be read");
    V_assert(again.size() == index.size(), "the index written in the file is the index found");
    for (size_t i = 0; i < again.size() && i < index.size(); i++) V_assert(again[i] == index[i], "the index written in the file is the index found");
    FileFormat::RecordHeader rh; f.setPos(expectedIndexAt); f.read(&rh, sizeof(rh));
    V_assert(expectedIndexAt + (int64_t)rh.recordSize == f.size, "nothing is left after the index");
    V_assert(rh.previousRecordSize == (index.empty() ? 38 : sz[index.size() - 1]), "the index record is linked to the record before it");
  }
};
}
// A file that ends after a complete record, or in the middle of one.
extern "C" void h_rebuild() {
  File x; int n = pick("records", 0, 2); bool write = V_bool("write fixed index");
  x.end = x.f.getPos();
  for (int i = 0; i < n; i++) x.record();
  int cut = pick("tail", 0, 2); // complete, part of a header, part of a payload
  if (cut == 1) x.f.grow(pick("header bytes", 1, 2) * 15);
  else if (cut == 2) { x.header(32 + 20, x.prev, (RecordableTypeId)200, 1, Record::Type::DATA, 0); x.f.grow(pick("payload bytes", 0, 1) * 19); }
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index;
  Reader r(x.f, x.fh, &pl, ids, index);
  int st = r.rebuildIndex(write);
  if (cut == 0) V_assert(st == 0, "rebuilt");
  x.check(index, n, "every complete record is found, and nothing else");
  for (int i = 0; i < n; i++) V_assert(ids.count(x.id[i]) == 1, "each stream is listed");
  if (!write) { V_assert(x.f.reopened == 0 && (x.f.forgot == x.end), "the file is not changed, and what follows the last record is ignored"); return; }
  x.reread(index, x.end);
  V_cover("rewritten");
}
// A header that cannot be right: records before it, but the one it puts in doubt, are kept.
extern "C" void h_rebuild_damaged() {
  File x; int n = pick("records", 0, 2); bool write = V_bool("write fixed index");
  x.end = x.f.getPos();
  for (int i = 0; i < n; i++) x.record();
  int kind = pick("damage", 0, 3);
  uint32_t size = 32 + 4, prev = x.prev; uint8_t type = 3;
  if (kind == 0) { prev = V_u32("bad previous"); V_assume(prev != x.prev); }
  else if (kind == 1) size = (uint32_t)V_range("bad size", 0, 31);
  else if (kind == 2) { type = V_u8("bad type"); V_assume(type == 0 || type >= (uint8_t)Record::Type::COUNT); }
  else size = (uint32_t)V_range("too large", 32 + 5, 0xffffffff);
  x.header(size, prev, (RecordableTypeId)200, 1, Record::Type::DATA, 5); x.f.mem[x.f.pos - 32 + offsetof(FileFormat::RecordHeader, recordType)] = type; x.f.grow(4);
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index;
  Reader r(x.f, x.fh, &pl, ids, index);
  int st = r.rebuildIndex(write);
  V_assert(st != 0 || write, "damage is reported");
  V_assert(index.size() <= (size_t)n && (int)index.size() + 1 >= n, "at most the last record is given up");
  int k = (int)index.size();
  x.check(index, k, "records before the damage are kept");
  if (write) x.reread(index, k == n ? x.end : x.at[k]);
}
// A split file whose index was never completed: user records are in the second chunk.
extern "C" void h_rebuild_split() {
  File x; int n = pick("records", 1, 2);
  x.fh.indexRecordOffset = x.f.getPos();
  { FileFormat::RecordHeader h; h.initIndexHeader(kSplitIndexFormatVersion, 0, x.prev, CompressionType::Zstd); x.f.write(&h, sizeof(h)); }
  x.f.setPos(0); x.f.write(&x.fh, sizeof(x.fh)); x.f.pos = x.f.size;
  x.f.chunkSize = x.end = x.f.size; x.prev = pick("previous", 0, 1) ? 32 : 91;
  for (int i = 0; i < n; i++) x.record();
  int tail = pick("tail", 0, 3); // nothing, part of a header, a header which can't be right
  if (tail == 1) x.f.grow(15);
  else if (tail >= 2) {
    uint32_t prev = x.prev, size = 36;
    if (tail == 2) { prev = V_u32("bad previous"); V_assume(prev != x.prev); } else size = (uint32_t)V_range("bad size", 0, 31);
    x.header(size, prev, (RecordableTypeId)200, 1, Record::Type::DATA, 5); x.f.grow(4);
  }
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index; int64_t used = 0;
  Reader r(x.f, x.fh, &pl, ids, index);
  r.readRecord(0, used);
  V_assert(!r.isIndexComplete(), "an unfinished index is known to be incomplete");
  int st = r.rebuildIndex(false);
  if (tail >= 2) {
    V_assert(st != 0, "damage is reported");
    V_assert(index.size() <= (size_t)n && (int)index.size() + 1 >= n, "at most the last record is given up");
    x.check(index, (int)index.size(), "records before the damage are kept");
    return;
  }
  x.check(index, n, "every complete record of the chunks that follow is found, and nothing else");
  for (int i = 0; i < n; i++) V_assert(ids.count(x.id[i]) == 1, "each stream is listed");
  V_assert(x.f.forgot == x.end, "what follows the last record is ignored");
  V_cover("rebuilt");
}
