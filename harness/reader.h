// A RecordFileReader whose index holds any number of records. Only the members the lookups use are constructed.
#pragma once
#include <string.h>
#include <new>
#include <map>
#include <set>
#include "errstub.h"
#include <vrs/RecordFileReader.cpp>
using namespace vrs;
using IndexRecord::RecordInfo;
namespace rd {
inline double asDouble(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline double timeAt(uint64_t i) { return asDouble(V_uf("time", i)); }
inline StreamId streamAt(uint64_t i) { return StreamId((RecordableTypeId)(uint16_t)V_uf("stream type", i), (uint16_t)V_uf("instance", i)); }
inline Record::Type typeAt(uint64_t i) { return (Record::Type)(uint8_t)V_uf("type", i); }
inline void gen(const void*, uint64_t i, void* out) {
  RecordInfo& r = *(RecordInfo*)out; uint64_t t = V_uf("time", i); memcpy(&r.timestamp, &t, 8); r.fileOffset = (int64_t)V_uf("offset", i); r.streamId = streamAt(i); r.recordType = typeAt(i);
}
struct Reader {
  alignas(16) uint8_t mem[sizeof(RecordFileReader)];
  RecordFileReader& r; uint64_t n; RecordInfo* base;
  // any number of records sorted by (non-negative) time
  explicit Reader(V_gen_t g = gen, bool empty = true) : r(*(RecordFileReader*)mem) {
    n = V_size("records", 1u << 28, 24);
    V_uf_decl("time", 1, "");
    if (!empty) V_assume(n > 0);
    if (V_mode() != 2) { if (n) V_assume(V_uf("time", n - 1) <= 0x7ff0000000000000ull); }
    base = (RecordInfo*)V_alloc_gen("index", n, sizeof(RecordInfo), g, nullptr);
    new (&r.recordIndex_) std::vector<RecordInfo>();
    auto& v = r.recordIndex_._M_impl; v._M_start = base; v._M_finish = v._M_end_of_storage = base + n;
    new (&r.streamIds_) std::set<StreamId>(); new (&r.streamIndex_) decltype(r.streamIndex_)(); new (&r.streamRecordCounts_) decltype(r.streamRecordCounts_)();
    new (&r.lastRequest_) decltype(r.lastRequest_)(); new (&r.recordBoundaries_) std::vector<int64_t>(); new (&r.recordLimits_) decltype(r.recordLimits_)();
    new (&r.streamTags_) decltype(r.streamTags_)(); new (&r.fileTags_) decltype(r.fileTags_)();
  }
};
}
