// C04: what the index writer writes is what the reader reads, and a preallocated index never spills over user records.
// @repo vrs/FileFormat.cpp vrs/StreamId.cpp vrs/helpers/Strings.cpp
// @entry h_round_trip bounded btimeout=150 unroll=40
// @entry h_finalize bounded btimeout=250 unroll=40
// @entry h_split_round_trip bounded btimeout=200 unroll=40
#include "v.h"
#include <string.h>
#include "errstub.h"
#include "storecodec.h"
#include "bytefile.h"
#include <vrs/IndexRecord.cpp>
using namespace vrs;
using namespace vrs::IndexRecord;
#include "progress.h"
namespace {
const int kMax = 3;
struct Recs { // up to kMax records of arbitrary fields
  int n; double ts[kMax]; uint32_t sz[kMax]; StreamId id[kMax]; Record::Type ty[kMax]; std::deque<DiskRecordInfo> q;
  Recs(int n_, bool fit) : n(n_) {
    for (int i = 0; i < n; i++) {
      ts[i] = V_f64("time"); V_assume(ts[i] == ts[i]); if (i) V_assume(ts[i] >= ts[i - 1] && (ts[i] > ts[i - 1] || true));
      sz[i] = (uint32_t)V_range("size", 32, fit ? 1000 : 0xffffffff);
      id[i] = StreamId((RecordableTypeId)V_range("type", 1, 900), (uint16_t)V_u16("inst"));
      ty[i] = (Record::Type)V_range("rt", 1, 3);
      q.emplace_back(ts[i], sz[i], id[i], ty[i]);
    }
  }
};
int pick(const char* name, int lo, int hi) { int v = (int)V_range(name, lo, hi); for (int i = lo; i < hi; i++) if (v == i) return i; return hi; }
StreamId sid(int i) { return StreamId((RecordableTypeId)(100 + i / 2), (uint16_t)(1 + i % 2)); }
void check(const Recs& r, const std::vector<RecordInfo>& index, int64_t first) {
  V_assert(index.size() == (size_t)r.n, "every record is in the index, once");
  int64_t at = first;
  for (int i = 0; i < r.n; i++) {
    V_assert(index[i].timestamp == r.ts[i] && index[i].streamId == r.id[i] && index[i].recordType == r.ty[i] && index[i].fileOffset == at, "each record is found as written, where it is");
    at += r.sz[i];
  }
}
void ordered(const Recs& r) { for (int i = 1; i < r.n; i++) V_assume(r.ts[i - 1] < r.ts[i]); }
}
// An index record written at the end of the file.
extern "C" void h_round_trip() {
  ByteFile f; FileFormat::FileHeader fh; fh.init();
  int n = pick("records", 0, 2), k = pick("streams", 0, 2);
  Recs r(n, false); ordered(r);
  Writer w(fh);
  for (int i = 0; i < k; i++) w.addStream(sid(i));
  for (int i = 0; i < n; i++) V_assert(w.addRecord(r.ts[i], r.sz[i], r.id[i], r.ty[i]) == 0, "record added");
  f.write(&fh, sizeof(fh)); f.grow(40);
  uint32_t prev = (uint32_t)V_range("previous record size", 32, 0xffffffff), last = prev;
  int64_t at = f.getPos();
  V_assert(w.finalizeClassicIndexRecord(f, at, last) == 0, "written");
  FileFormat::FileHeader h2; f.setPos(0); f.read(&h2, sizeof(h2));
  V_assert(h2.indexRecordOffset == at && fh.indexRecordOffset == at, "the file header tells where the index is");
  FileFormat::RecordHeader rh; f.setPos(at); f.read(&rh, sizeof(rh));
  V_assert(rh.previousRecordSize == prev && rh.recordSize == last && rh.isSanityCheckOk() && at + rh.recordSize == f.size, "the index is a record like the others");
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index; int64_t used = 0, first = (int64_t)sizeof(fh);
  f.total = first + 3ll * 0x100000000ll;
  Reader rd(f, h2, &pl, ids, index);
  V_assert(rd.readRecord(first, used) == 0, "an index just written can be read");
  check(r, index, first);
  V_assert(ids.size() == (size_t)k, "streams"); for (int i = 0; i < k; i++) V_assert(ids.count(sid(i)) == 1, "each stream is listed");
  V_assert(rd.isIndexComplete(), "complete");
  V_cover("read back");
}
// A preallocated index: whatever is recorded afterwards, user records stay untouched and the index is readable.
extern "C" void h_finalize() {
  ByteFile f; FileFormat::FileHeader fh; fh.init();
  int pre = pick("preliminary records", 1, 2), n = pick("records", 0, 2), k = 1, more = 2 * pick("late streams", 0, 2);
  store::padMax = 1;
  Recs p(pre, true), r(n, true); ordered(r);
  Writer w(fh);
  fh.descriptionRecordOffset = sizeof(fh);
  for (int i = 0; i < k; i++) w.addStream(sid(i));
  f.write(&fh, sizeof(fh)); f.grow(40);
  uint32_t prev = 40, last = prev; int64_t at = f.getPos();
  V_assert(w.preallocateClassicIndexRecord(f, p.q, last) == 0, "preallocated");
  int64_t first = f.getPos();
  FileFormat::FileHeader h1; f.setPos(0); f.read(&h1, sizeof(h1)); f.setPos(first);
  V_assert(h1.firstUserRecordOffset == first && h1.indexRecordOffset == 0, "the index is not announced before it is complete");
  V_assert(at + last == first, "preallocated record size");
  uint8_t user[150]; for (int i = 0; i < 150; i++) user[i] = (uint8_t)(i * 7 + 1);
  f.write(user, sizeof(user));
  int64_t end = f.getPos();
  for (int i = 0; i < more; i++) w.addStream(sid(k + i));
  for (int i = 0; i < n; i++) w.addRecord(r.ts[i], r.sz[i], r.id[i], r.ty[i]);
  uint32_t lastUser = (uint32_t)V_range("last user record size", 32, 0xffffffff); last = lastUser;
  V_assert(w.finalizeClassicIndexRecord(f, end, last) == 0, "written");
  V_assert(memcmp(f.mem + first, user, sizeof(user)) == 0, "no user record is overwritten by the index");
  FileFormat::FileHeader h2; f.setPos(0); f.read(&h2, sizeof(h2));
  V_assert(h2.indexRecordOffset == at || h2.indexRecordOffset == end, "the file header tells where the index is");
  V_assert(h2.firstUserRecordOffset == first, "user records stay where they are");
  FileFormat::RecordHeader rh; f.setPos(h2.indexRecordOffset); f.read(&rh, sizeof(rh));
  if (h2.indexRecordOffset == at) V_assert(at + (int64_t)rh.recordSize == first && rh.previousRecordSize == 40, "the record still fills its place");
  else { V_assert(rh.previousRecordSize == lastUser, "linked to the last user record"); f.setPos(at); f.read(&rh, sizeof(rh)); V_assert(at + (int64_t)rh.recordSize == first, "a failed attempt leaves the record's place as it was"); }
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index; int64_t used = 0;
  f.total = first + 100000;
  Reader rd(f, h2, &pl, ids, index);
  V_assert(rd.readRecord(first, used) == 0, "an index just written can be read");
  check(r, index, first);
  V_assert(ids.size() == (size_t)(k + more), "each stream is listed");
  V_cover("read back");
}
// A split index: batches appended to the head file, which may be left unfinished when the recording is interrupted.
extern "C" void h_split_round_trip() {
  FileFormat::FileHeader fh; fh.init();
  int n = pick("records", 0, 2); bool finished = V_bool("finished"); int batch = finished && n == 2 ? pick("appended after", 0, 2) : 0;
  Recs r(n, true); ordered(r);
  Writer w(fh);
  ByteFile* h = new ByteFile;
  w.splitHeadFile_.reset((DiskFile*)(WriteFileHandler*)h);
  h->write(&fh, sizeof(fh)); h->grow(40);
  uint32_t last = 40; int64_t at = h->getPos();
  V_assert(w.createSplitIndexRecord(last) == 0 && last == sizeof(FileFormat::RecordHeader), "split index started");
  V_assert(h->getPos() == at + (int64_t)sizeof(FileFormat::RecordHeader), "index data goes after its header");
  int64_t sum = 0;
  for (int i = 0; i < n; i++) {
    V_assert(w.addRecord(r.ts[i], r.sz[i], r.id[i], r.ty[i]) == 0, "record added");
    if (i + 1 == batch) V_assert(w.appendToSplitIndexRecord() == 0, "batch appended");
    sum += r.sz[i];
  }
  if (finished) {
    V_assert(w.completeSplitIndexRecord() == 0, "completed");
  } else { r.n = batch; }
  ByteFile f = *h;
  f.pos = 0; f.chunkSize = f.size; f.total = f.size + sum;
  FileFormat::FileHeader h2; f.setPos(0); f.read(&h2, sizeof(h2));
  V_assert(h2.indexRecordOffset == at, "the file header tells where the index is, before the end of the recording");
  V_assert(h2.firstUserRecordOffset == (finished ? f.size : 0), "where user records start is known when the index is complete");
  FileFormat::RecordHeader rh; f.setPos(at); f.read(&rh, sizeof(rh));
  V_assert(rh.isSanityCheckOk() && rh.previousRecordSize == 40 && rh.recordSize == (finished ? (uint32_t)(f.size - at) : sizeof(rh)), "a proper record");
  if (!finished && n == 0) return; // nothing was recorded
  ProgressLogger pl(false, 0); std::set<StreamId> ids; std::vector<RecordInfo> index; int64_t used = 0;
  Reader rd(f, h2, &pl, ids, index);
  V_assert(rd.readRecord(h2.firstUserRecordOffset, used) == 0, "a split index can be read");
  check(r, index, f.size);
  int64_t end = f.size; for (int i = 0; i < r.n; i++) end += r.sz[i];
  V_assert(used == end, "where the last record known ends");
  V_assert(rd.isIndexComplete() == finished, "an unfinished index is known to be incomplete");
  for (int i = 0; i < r.n; i++) V_assert(ids.count(r.id[i]) == 1, "each stream is listed");
  V_cover("read back");
}
