// C06: the streams of a file, their counts and their indexes, for up to RECS records of up to three streams (bounded).
// @entry h_indexes bounded timeout=200
// @entry h_streams bounded timeout=200
// @entry h_sizes bounded timeout=200
// @flags -DV_REAL_FMT
// @repo vrs/StreamId.cpp
// @repo vrs/Recordable.cpp
#include "v.h"
#include "reader.h"
#include <vrs/Recordable.h>
namespace {
const uint32_t RECS = 3;
uint32_t pick(const char* name, uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t)V_range(name, lo, hi); for (uint32_t i = lo; i < hi; i++) if (v == i) return i; return hi; }
const StreamId kStreams[3] = {StreamId((RecordableTypeId)200, 1), StreamId((RecordableTypeId)200, 3), StreamId((RecordableTypeId)1201, 1)};
struct F {
  alignas(16) uint8_t mem[sizeof(RecordFileReader)]; RecordFileReader& r; uint32_t n; StreamId s[RECS]; uint8_t t[RECS];
  F() : r(*(RecordFileReader*)mem) {
    new (&r.recordIndex_) std::vector<RecordInfo>(); new (&r.streamIds_) std::set<StreamId>(); new (&r.streamIndex_) decltype(r.streamIndex_)(); new (&r.streamRecordCounts_) decltype(r.streamRecordCounts_)();
    new (&r.lastRequest_) decltype(r.lastRequest_)(); new (&r.recordBoundaries_) std::vector<int64_t>(); new (&r.recordLimits_) decltype(r.recordLimits_)(); new (&r.streamTags_) decltype(r.streamTags_)(); new (&r.fileTags_) decltype(r.fileTags_)();
    n = pick("records", 0, RECS);
  }
};
}
extern "C" void h_indexes() {
  F f;
  for (uint32_t i = 0; i < f.n; i++) {
    f.s[i] = kStreams[pick("stream", 0, 2)]; f.t[i] = (uint8_t)pick("type", 1, 3);
    f.r.recordIndex_.emplace_back((double)i, (int64_t)(100 * i), f.s[i], (Record::Type)f.t[i]);
    f.r.streamIds_.insert(f.s[i]); f.r.streamRecordCounts_[f.s[i]][(Record::Type)f.t[i]]++;
  }
  const StreamId s = kStreams[pick("asked stream", 0, 2)]; const uint8_t t = (uint8_t)pick("asked type", 1, 3);
  uint32_t total = 0, ofType = 0;
  const auto& index = f.r.getIndex(s);
  for (uint32_t i = 0; i < f.n; i++) if (f.s[i] == s) {
    V_assert(total < index.size() && index[total] == &f.r.recordIndex_[i], "the records of the stream, in order");
    V_assert(f.r.getRecordStreamIndex(&f.r.recordIndex_[i]) == total, "position of a record in its stream");
    if (f.t[i] == t) { V_assert(f.r.getRecord(s, (Record::Type)t, ofType) == &f.r.recordIndex_[i], "record by number"); ofType++; }
    total++;
  }
  V_assert(index.size() == total, "no other record");
  V_assert(f.r.getRecordCount(s) == total && f.r.getRecordCount(s, (Record::Type)t) == ofType, "counts");
  V_assert(f.r.getRecord(s, (Record::Type)t, ofType) == nullptr && f.r.getRecord(s, total) == nullptr, "none past the last");
  if (ofType) V_assert(f.r.getRecord(s, (Record::Type)t, 0) == f.r.getRecord(s, (Record::Type)t, 0), "asked again");
}
extern "C" void h_streams() {
  F f; bool has[3]; bool flavored[3], tagged[3];
  for (int i = 0; i < 3; i++) {
    const uint32_t k = pick("stream state", 0, 4); has[i] = k > 0; flavored[i] = k == 2 || k == 4; tagged[i] = k >= 3; // absent, plain, flavor, tag, both
    if (!has[i]) continue;
    f.r.streamIds_.insert(kStreams[i]);
    if (flavored[i]) f.r.streamTags_[kStreams[i]].vrs[Recordable::getFlavorTagName()] = "fl";
    if (tagged[i]) f.r.streamTags_[kStreams[i]].user["key"] = "value";
  }
  const RecordableTypeId type = (RecordableTypeId)(pick("type", 0, 1) ? 1201 : 200); const uint32_t number = pick("number", 0, 1);
  uint32_t hit = 0, flav = 0; StreamId nth, nthFlavor, firstTag, firstTagAny;
  for (int i = 0; i < 3; i++) {
    if (!has[i]) continue;
    if (tagged[i] && !firstTagAny.isValid()) firstTagAny = kStreams[i];
    if (kStreams[i].getTypeId() != type) continue;
    if (hit++ == number) nth = kStreams[i];
    if (flavored[i] && flav++ == number) nthFlavor = kStreams[i];
    if (tagged[i] && !firstTag.isValid()) firstTag = kStreams[i];
  }
  V_assert(f.r.getStreamForType(type, number) == nth, "the nth stream of a type");
  V_assert(f.r.getStreamForFlavor(type, "fl", number) == nthFlavor, "the nth stream of a flavor");
  V_assert(f.r.getStreamForTag("key", "value", type) == firstTag, "the first stream of a type with a tag");
  V_assert(f.r.getStreamForTag("key", "value") == firstTagAny, "the first stream with a tag");
  V_assert(!f.r.getStreamForTag("key", "valu").isValid(), "no stream with another value");
  V_assert(f.r.getStreams(type).size() == hit && f.r.getStreams(type, "fl").size() == flav, "the streams of a type");
  V_assert(f.r.getStreams(RecordableTypeId::Undefined).size() == (size_t)has[0] + has[1] + has[2], "all streams");
  for (int i = 0; i < 3; i++) {
    V_assert(f.r.getStreamForName(kStreams[i].getNumericName()) == (has[i] ? kStreams[i] : StreamId()), "a stream by its name");
  }
  V_assert(f.r.getStreamForName("200+2") == (has[0] && has[1] ? kStreams[1] : StreamId()), "a stream by its relative name");
}
// Sizes: the distance to the next record in the file, however the records are sorted in the index.
extern "C" void h_sizes() {
  F f; if (!f.n) return;
  int64_t off[RECS], end = 100;
  for (uint32_t i = 0; i < f.n; i++) {
    off[i] = 100 + 40 * (int64_t)pick("place", 0, 3);
    for (uint32_t j = 0; j < i; j++) V_assume(off[i] != off[j]);
    if (off[i] >= end) end = off[i] + 40 + (int64_t)pick("last", 0, 1);
    f.r.recordIndex_.emplace_back((double)i, off[i], kStreams[0], Record::Type::DATA);
  }
  f.r.endOfUserRecordsOffset_ = end;
  if (V_bool("boundaries")) f.r.buildRecordBoundaries(true);
  const bool use = V_bool("use boundaries");
  for (uint32_t i = 0; i < f.n; i++) {
    int64_t next = end;
    for (uint32_t j = 0; j < f.n; j++) if (off[j] > off[i] && off[j] < next) next = off[j];
    V_assert(f.r.getRecordSize(i, true) == next - off[i], "size of a record");
    if (use) V_assert(f.r.getFollowingRecordOffset(i, true) == next, "end of a record");
  }
  V_assert(f.r.getRecordSize(f.n) == 0, "no such record");
}
