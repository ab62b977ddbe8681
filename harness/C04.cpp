// C04: reading and writing the index.
// @repo vrs/FileFormat.cpp vrs/StreamId.cpp vrs/helpers/Strings.cpp
// @entry h_process_classic timeout=100
// @entry h_process_split timeout=200
// @entry h_sort_needed_classic timeout=200
// @entry h_sort_needed_split timeout=200
#include "v.h"
#include <string.h>
#include <set>
#include <new>
#include "errstub.h"
#include "mockfile.h"
#include <vrs/StreamId.h>
namespace ghost { uint64_t w; bool seen; vrs::StreamId want; }
// Contract of the set of streams: it holds what is inserted. The watched stream is looked for.
namespace std {
using SidTree = _Rb_tree<vrs::StreamId, vrs::StreamId, _Identity<vrs::StreamId>, less<vrs::StreamId>, allocator<vrs::StreamId>>;
template <> template <> pair<SidTree::iterator, bool> SidTree::_M_insert_unique<const vrs::StreamId&>(const vrs::StreamId& id) {
  ghost::seen |= (id == ghost::want);
  return {iterator(&_M_impl._M_header), true};
}
}
#include <vrs/IndexRecord.cpp>
using namespace vrs;
using namespace vrs::IndexRecord;
namespace vrs { ProgressLogger::ProgressLogger(bool, double) {} ProgressLogger::~ProgressLogger() {} }
namespace {
// The ghost file: record i has size sz(i) and starts at first + P(i).
uint64_t P(uint64_t i) { return V_uf("P", i); }
uint64_t sz(uint64_t i) { return (uint32_t)V_uf("sz", i); }
uint64_t typeOf(uint64_t i) { return 1 + V_uf("type", i) % 3; }
void gen(const void* c, uint64_t i, void* out) {
  uint8_t* o = (uint8_t*)out; uint64_t ts = V_uf("ts", i); uint32_t s = (uint32_t)sz(i), t = (uint32_t)(V_uf("tid", i) & 0x3ff); uint16_t n = (uint16_t)V_uf("inst", i);
  uint8_t ty = (uint8_t)V_uf("type", i);
  memcpy(o, &ts, 8); memcpy(o + 8, &s, 4); o[12] = ty; memcpy(o + 13, &t, 4); memcpy(o + 17, &n, 2);
}
struct Setup {
  uint64_t n, first, total, w; DiskRecordInfo* p;
  MockFile file; FileFormat::FileHeader fh; ProgressLogger pl; std::set<StreamId> streams; std::vector<RecordInfo> index;
  std::vector<DiskRecordInfo> records;
  Reader* r; int64_t used = 0;
  Setup() : pl(false, 0) {
    V_uf_decl("P", 4, "sz");
    n = V_size("record count", 1u << 28, 6);
    first = V_range("first", 0, 1ull << 60); total = V_range("file size", 0, 1ull << 61);
    if (V_mode() == 2) total = first + V_uf("room", 0) % (P(n) + 40);
    file.size = (int64_t)total;
    p = (DiskRecordInfo*)V_alloc_gen("records", n, sizeof(DiskRecordInfo), gen, nullptr);
    auto& v = records._M_impl; v._M_start = p; v._M_finish = v._M_end_of_storage = p + n;
    room();
    r = new Reader(file, fh, &pl, streams, index);
    w = V_range("watched", 0, 1u << 28); if (V_mode() == 2) w %= n + 1;
    ghost::seen = false; ghost::want = StreamId{FileFormat::readRecordableTypeId((int32_t)(V_uf("tid", w) & 0x3ff)), (uint16_t)V_uf("inst", w)};
  }
  RecordInfo* base = nullptr;
  void room() { // the index has room for all the records (what reserve() does), so that entries stay where they are
    base = (RecordInfo*)V_alloc("index", n * sizeof(RecordInfo), sizeof(RecordInfo));
    auto& v = index._M_impl; v._M_start = v._M_finish = base; v._M_end_of_storage = base + n;
  }
  ~Setup() { { auto& v = index._M_impl; v._M_start = v._M_finish = v._M_end_of_storage = nullptr; } auto& v = records._M_impl; v._M_start = v._M_finish = v._M_end_of_storage = nullptr; }
  bool isAt(uint64_t i) const { // entry i of the index describes record i at its position
    const RecordInfo& x = index._M_impl._M_start[i]; uint64_t b; memcpy(&b, &x.timestamp, 8);
    return b == V_uf("ts", i) && (uint64_t)x.fileOffset == first + P(i) && x.streamId == StreamId(FileFormat::readRecordableTypeId((int32_t)(V_uf("tid", i) & 0x3ff)), (uint16_t)V_uf("inst", i)) && (uint8_t)x.recordType == (uint8_t)V_uf("type", i);
  }
};
bool validType(uint64_t i) { uint8_t t = (uint8_t)V_uf("type", i); return t >= 1 && t < (uint8_t)Record::Type::COUNT; }
bool invCount(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; auto& v = s.index._M_impl; return i <= s.n && v._M_start == s.base && v._M_finish == s.base + i && v._M_end_of_storage == s.base + s.n; }
bool invFit(const void* c, uint64_t i, uint64_t off) { const Setup& s = *(const Setup*)c; return i <= s.n && off == s.first + P(i) && (i == 0 || off <= s.total); }
bool invEntry(const void* c) { const Setup& s = *(const Setup*)c; return s.w >= s.index.size() || s.isAt(s.w); }
bool invValid(const void* c) { const Setup& s = *(const Setup*)c; return s.w >= s.index.size() || validType(s.w); }
}
namespace {
// The number of entries is what was seen less what was dropped.
uint64_t kept(const Setup& s, uint64_t i) { return i - (uint64_t)s.r->droppedRecordCount_; }
bool invCountS(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; return i <= s.n && s.r->droppedRecordCount_ >= 0 && (uint64_t)s.r->droppedRecordCount_ <= i; }
bool invSizeS(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; auto& v = s.index._M_impl; return v._M_start == s.base && v._M_finish == s.base + kept(s, i) && v._M_end_of_storage == s.base + s.n; }
bool invUsed(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; return (uint64_t)s.used == s.first + P(kept(s, i)); }
bool invFits(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; return kept(s, i) == 0 || (uint64_t)s.used <= s.total; }
bool invDrop(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; return s.r->droppedRecordCount_ == 0 || s.first + P(kept(s, i) + 1) > s.total; }
bool invValidS(const void* c) { const Setup& s = *(const Setup*)c; return s.w >= s.index.size() || (validType(s.w) && sz(s.w) >= s.fh.recordHeaderSize); }
bool invSeen(const void* c) { const Setup& s = *(const Setup*)c; return s.w >= s.index.size() || ghost::seen; }
}
extern "C" void h_process_classic() {
  Setup s;
  V_invn(invCount, &s, "one entry per record"); V_inv2(invFit, &s, "position"); V_inv0(invEntry, &s, "entries"); V_inv0(invValid, &s, "types");
  bool ok = s.r->processClassicIndexRecords(s.records, (int64_t)s.first, s.used);
  uint64_t k = s.index.size();
  V_assert(k <= s.n, "no more entries than records");
  if (s.w < k) V_assert(s.isAt(s.w) && validType(s.w), "each entry describes its record, at the sum of the sizes before it");
  if (!ok) { V_assert(k < s.n && !validType(k), "rejected only for an invalid record type"); return; }
  V_assert(k == s.n || s.first + P(k + 1) > s.total, "records are dropped only when they do not fit in the file");
  V_assert(k == 0 || s.first + P(k) <= s.total, "every record kept is entirely in the file");
  V_assert((uint64_t)s.used == s.first + P(k), "used size is where the last record kept ends");
  V_assert((uint64_t)s.r->droppedRecordCount_ == s.n - k, "dropped records are counted");
}
namespace {
bool before(const Setup& s, uint64_t a, uint64_t b) { return s.index._M_impl._M_start[a] < s.index._M_impl._M_start[b]; }
bool invSort(const void* c) { const Setup& s = *(const Setup*)c; return s.w + 1 >= s.index.size() || s.r->sortErrorCount_ > 0 || !before(s, s.w + 1, s.w); }
bool invErrs(const void* c, uint64_t i) { const Setup& s = *(const Setup*)c; return s.r->sortErrorCount_ >= 0 && (uint64_t)s.r->sortErrorCount_ <= i; }
}
extern "C" void h_sort_needed_classic() {
  Setup s;
  V_invn(invCount, &s, "one entry per record"); V_invn(invErrs, &s, "out of order pairs"); V_inv0(invSort, &s, "order seen");
  s.r->processClassicIndexRecords(s.records, (int64_t)s.first, s.used);
  if (s.w + 1 < s.index.size() && before(s, s.w + 1, s.w)) V_assert(s.r->sortErrorCount_ > 0, "records out of order are noticed, so that the index gets sorted");
}
extern "C" void h_sort_needed_split() {
  Setup s;
  s.used = (int64_t)s.first;
  s.fh.recordHeaderSize = 32;
  V_invn(invCountS, &s, "one entry per record"); V_invn(invSizeS, &s, "room"); V_invn(invErrs, &s, "out of order pairs"); V_inv0(invSort, &s, "order seen");
  s.r->processSplitIndexRecords(s.records, s.used);
  if (s.w + 1 < s.index.size() && before(s, s.w + 1, s.w)) V_assert(s.r->sortErrorCount_ > 0, "records out of order are noticed, so that the index gets sorted");
}
extern "C" void h_process_split() {
  Setup s;
  s.used = (int64_t)s.first;
  s.fh.recordHeaderSize = (uint32_t)V_range("header size", 32, 100000);
  V_invn(invCountS, &s, "entries and dropped records"); V_invn(invSizeS, &s, "room"); V_invn(invUsed, &s, "position"); V_invn(invFits, &s, "in the file"); V_invn(invDrop, &s, "dropped"); V_inv0(invEntry, &s, "entries"); V_inv0(invValidS, &s, "valid"); V_inv0(invSeen, &s, "streams");
  bool ok = s.r->processSplitIndexRecords(s.records, s.used);
  uint64_t k = s.index.size(), d = (uint64_t)s.r->droppedRecordCount_;
  V_assert(k + d <= s.n, "no more entries than records");
  if (s.w < k) V_assert(s.isAt(s.w) && validType(s.w) && sz(s.w) >= s.fh.recordHeaderSize && ghost::seen, "each entry describes its record, at the sum of the sizes before it, and its stream is listed");
  V_assert((uint64_t)s.used == s.first + P(k), "used size is where the last record kept ends");
  V_assert(k == 0 || s.first + P(k) <= s.total, "every record kept is entirely in the file");
  if (d) V_assert(s.first + P(k + 1) > s.total, "records are dropped only when they do not fit in the file");
  if (!ok) V_assert(!validType(k + d) || sz(k + d) < s.fh.recordHeaderSize, "rejected only for an invalid record type or size");
  else V_assert(k + d == s.n, "every record is kept or counted as dropped");
}
