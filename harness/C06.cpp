// C06: lookups by stream, type and number, in an index of any number of records.
// @entry h_record_number timeout=100
// @entry h_last_record timeout=100
// @entry h_stream_position timeout=100
// @entry h_first_data timeout=60
// @entry h_last_data timeout=60
// @entry h_global timeout=30
#include "v.h"
#include "reader.h"
namespace {
struct Q { // the index of one stream: any number of records, of which match(i) tells those of the type asked for; count(i) of them are before position i
  rd::Reader* R; Record::Type t; StreamId s; uint64_t w; const RecordInfo** p; std::vector<const RecordInfo*>* idx;
};
Q* gq;
bool gNone;
bool isT(uint64_t i) { return V_uf("match", i) == 1 && !gNone; }
Record::Type typ(Record::Type t, uint64_t i) { uint8_t o = (uint8_t)V_uf("type", i); return isT(i) ? t : (Record::Type)(o == (uint8_t)t ? o ^ 1 : o); }
void genPtr(const void* c, uint64_t i, void* out) { const RecordInfo* p = (const RecordInfo*)c + i; memcpy(out, &p, 8); }
Record::Type gt;
void gen(const void*, uint64_t i, void* out) {
  RecordInfo& r = *(RecordInfo*)out; uint64_t t = V_uf("time", i); memcpy(&r.timestamp, &t, 8); r.fileOffset = (int64_t)V_uf("offset", i); r.streamId = rd::streamAt(i); r.recordType = typ(gt, i);
}
using Index = std::vector<const RecordInfo*>;
__attribute__((used, annotate("replace:vrs::RecordFileReader::getIndex(vrs::StreamId) const"))) const Index& indexContract(const RecordFileReader*, StreamId id) {
  V_assert(id == gq->s, "the index of the stream asked for"); return *gq->idx;
}
struct S : Q {
  alignas(16) uint8_t mem[sizeof(rd::Reader)]; alignas(8) uint8_t v[sizeof(Index)];
  explicit S(bool data = false, bool none = false) {
    gNone = none;
    V_uf_decl("count", 5, "match");
    t = data ? Record::Type::DATA : (Record::Type)V_u8("type asked for"); gt = t; s = StreamId((RecordableTypeId)V_u16("stream type"), V_u16("stream instance"));
    R = new (mem) rd::Reader(gen);
    p = (const RecordInfo**)V_alloc_gen("stream index", R->n, 8, genPtr, R->base);
    idx = new (v) Index(); auto& m = idx->_M_impl; m._M_start = p; m._M_finish = m._M_end_of_storage = p + R->n;
    w = V_range("watched", 0, 1u << 28); if (V_mode() == 2) w %= R->n + 1;
    gq = this;
#ifdef V_NATIVE
    if (R->n) { R->r.streamIds_.insert(s); R->r.streamIndex_[s] = Index(p, p + R->n); }
#endif
  }
};
uint64_t count(uint64_t i) { return V_uf("count", i); }
bool invFind(const void* c, uint64_t x, uint64_t hits) { const Q& q = *(const Q*)c; return x <= q.R->n && hits == count(x); }
struct N { Q* q; uint32_t number; };
bool invWanted(const void* c, uint64_t x) { const N& n = *(const N*)c; return x <= n.q->R->n && count(x) <= n.number; }
}
extern "C" void h_record_number() {
  S q; uint32_t number = V_u32("number"); if (V_mode() == 2) number %= q.R->n + 2;
  auto& last = q.R->r.lastRequest_; const std::pair<StreamId, Record::Type> key(q.s, q.t);
  if (V_bool("asked before")) { // any earlier request for these records that was answered
    uint32_t at = (uint32_t)V_range("answered with", 0, 1u << 28); if (V_mode() == 2 && q.R->n) at %= q.R->n;
    V_assume(at < q.R->n && isT(at));
    last[key] = {(uint32_t)count(at), at};
  }
  N n{&q, number}; V_inv2(invFind, &q, "matches so far"); V_inv1(invWanted, &n, "not found yet");
  const RecordInfo* r = q.R->r.getRecord(q.s, q.t, number);
  if (r) {
    uint64_t i = (uint64_t)(r - q.R->base);
    V_assert(i < q.R->n && r == q.R->base + i, "a record of the stream");
    V_assert(r->recordType == q.t && count(i) == number, "the record of that number among those of the type");
    V_assert(last.size() == 1 && last.begin()->first == key, "remembered for that stream and type");
    V_assert(last.begin()->second.first == number && last.begin()->second.second == i, "the answer is remembered as it is");
  } else V_assert(count(q.R->n) <= number, "none only when there are not that many");
}
namespace { // going back: nothing after this position has the type
uint64_t at8(const Q& q, uint64_t x) { const uint64_t b = (uint64_t)q.p; if (x < b) return ~0ull; uint64_t d = x - b, f = d / 8; return f * 8 == d ? f : ~0ull; }
uint64_t at24(const Q& q, uint64_t x) { const uint64_t b = (uint64_t)q.R->base; if (x < b) return ~0ull; uint64_t d = x - b, f = d / sizeof(RecordInfo); return f * sizeof(RecordInfo) == d ? f : ~0ull; }
bool invBack8(const void* c, uint64_t x) { const Q& q = *(const Q*)c; uint64_t f = at8(q, x); return f <= q.R->n && (q.w < f || q.w >= q.R->n || !isT(q.w)); }
bool invFirst(const void* c, uint64_t x) { const Q& q = *(const Q*)c; uint64_t f = at24(q, x); return f <= q.R->n && (gNone || (count(f) == 0 && count(f + 1) == count(f) + isT(f))); }
bool invLast(const void* c, uint64_t x) { const Q& q = *(const Q*)c; uint64_t f = at24(q, x); return f <= q.R->n && (gNone || count(f) == count(q.R->n)) && (f == 0 || gNone || count(f) == count(f - 1) + isT(f - 1)); }
}
extern "C" void h_last_record() {
  S q; V_inv1(invBack8, &q, "nothing after");
  const RecordInfo* r = q.R->r.getLastRecord(q.s, q.t);
  if (r) {
    uint64_t i = (uint64_t)(r - q.R->base);
    V_assert(i < q.R->n && r == q.R->base + i && isT(i), "a record of the stream and type");
    if (q.w > i && q.w < q.R->n) V_assert(!isT(q.w), "the last one");
  } else if (q.w < q.R->n) V_assert(!isT(q.w), "none only when there is none");
}
namespace {
struct P { Q* q; uint64_t i; };
bool invRange(const void* c, uint64_t x, uint64_t len) { const P& p = *(const P*)c; uint64_t f = at8(*p.q, x); return f <= p.q->R->n && len <= p.q->R->n - f && f <= p.i && p.i <= f + len; }
}
extern "C" void h_stream_position() {
  S q; uint64_t i = V_range("position", 0, 1u << 28); if (V_mode() == 2) i %= q.R->n + 1;
  V_assume(i < q.R->n); P p{&q, i}; q.s = rd::streamAt(i);
#ifdef V_NATIVE
  q.R->r.streamIndex_.clear(); q.R->r.streamIds_.insert(q.s); q.R->r.streamIndex_[q.s] = Index(q.p, q.p + q.R->n);
#endif
  V_inv2(invRange, &p, "search range");
  const RecordInfo* r = q.R->base + i;
  V_assert(q.R->r.getRecordStreamIndex(r) == i, "the position in the stream's index");
}
extern "C" void h_first_data() {
  S q(true, V_bool("no data record")); V_inv1(invFirst, &q, "nothing before");
  double t = q.R->r.getFirstDataRecordTime();
  if (q.w < q.R->n && isT(q.w) && count(q.w) == 0) V_assert(t == rd::timeAt(q.w), "time of the first data record");
  if (gNone) V_assert(t == 0, "none");
}
extern "C" void h_last_data() {
  S q(true, V_bool("no data record")); V_inv1(invLast, &q, "nothing after");
  double t = q.R->r.getLastDataRecordTime();
  if (q.w < q.R->n && isT(q.w) && count(q.w + 1) == count(q.R->n)) V_assert(t == rd::timeAt(q.w), "time of the last data record");
  if (gNone) V_assert(t == 0, "none");
}
extern "C" void h_global() {
  S q; uint32_t i = V_u32("index"); if (V_mode() == 2) i %= q.R->n + 2;
  const RecordInfo* r = q.R->r.getRecord(i);
  V_assert(r == (i < q.R->n ? q.R->base + i : nullptr), "the record of that number");
  if (r) V_assert(q.R->r.getRecordIndex(r) == i, "its number");
  RecordInfo other; V_assert(q.R->r.getRecordIndex(&other) == q.R->n, "a record of another file");
  const RecordInfo* s = q.R->r.getRecord(q.s, i); V_assert(s == (i < q.R->n ? q.R->base + i : nullptr), "the stream's record of that number");
}
