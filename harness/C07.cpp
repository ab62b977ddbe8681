// C07: lookups by time.
// @entry h_by_time timeout=100
// @entry h_lower_bound timeout=100
#include "v.h"
#include "reader.h"
namespace {
struct Q { rd::Reader R; double ts; uint64_t w; StreamId s; Record::Type t; Q() { ts = V_f64("timestamp"); V_assume(ts == ts); w = V_range("watched", 0, 1u << 28); if (V_mode() == 2) { w %= R.n + 1; if (R.n && V_bool("at")) ts = rd::timeAt(V_range("which", 0, 1u << 28) % R.n); }
  s = StreamId((RecordableTypeId)V_u16("wanted type"), V_u16("wanted instance")); t = (Record::Type)V_u8("wanted"); } };
bool before(const Q& q, uint64_t i) { return rd::timeAt(i) < q.ts; }
// binary search: what is left of the range is before the time, what is right of it is not
bool invRange(const void* c, uint64_t x, uint64_t len) {
  const Q& q = *(const Q*)c; if (x < (uint64_t)q.R.base) return false; uint64_t d = x - (uint64_t)q.R.base, f = d / sizeof(RecordInfo);
  return f * sizeof(RecordInfo) == d && f <= q.R.n && len <= q.R.n - f && (f == 0 || before(q, f - 1)) && (f + len == q.R.n || !before(q, f + len));
}
template <class M> void scan(Q& q, const RecordInfo* r, M match) {
  const RecordInfo* b = q.R.base; uint64_t n = q.R.n;
  if (r) {
    uint64_t i = (uint64_t)(r - b);
    V_assert(i < n && r == b + i, "one of the records of the file");
    V_assert(!before(q, i) && match(i), "a record asked for, not before the time");
    V_assert(i == 0 || before(q, i - 1) || !match(i - 1), "the one before does not match"); // lemma
    if (q.w < i) V_assert(before(q, q.w) || !match(q.w), "the first one");
  } else if (q.w < n) V_assert(before(q, q.w) || !match(q.w), "none only when there is none");
}
}
extern "C" void h_by_time() {
  Q q; V_inv2(invRange, &q, "search range");
  scan(q, q.R.r.getRecordByTime(q.ts), [](uint64_t) { return true; });
}
namespace { void genPtr(const void* c, uint64_t i, void* out) { const RecordInfo* p = (const RecordInfo*)c + i; memcpy(out, &p, 8); } 
struct P { Q q; const RecordInfo** p; };
bool invRangeP(const void* c, uint64_t x, uint64_t len) {
  const P& p = *(const P*)c; const Q& q = p.q; if (x < (uint64_t)p.p) return false; uint64_t d = x - (uint64_t)p.p, f = d / 8;
  return f * 8 == d && f <= q.R.n && len <= q.R.n - f && (f == 0 || before(q, f - 1)) && (f + len == q.R.n || !before(q, f + len));
}
}
// the search of a stream's index, used by contract in C07_scan.cpp
extern "C" void h_lower_bound() {
  P p; Q& q = p.q; p.p = (const RecordInfo**)V_alloc_gen("stream index", q.R.n, 8, genPtr, q.R.base);
  V_inv2(invRangeP, &p, "search range");
  using It = std::vector<const RecordInfo*>::const_iterator;
  RecordInfo key(q.ts, 0, StreamId(), Record::Type::UNDEFINED);
  uint64_t L = (uint64_t)(std::lower_bound(It(p.p), It(p.p + q.R.n), &key, vrs::ptrTimeCompare) - It(p.p));
  V_assert(L <= q.R.n && (L == 0 || before(q, L - 1)) && (L == q.R.n || !before(q, L)), "the first record not before the time");
}
