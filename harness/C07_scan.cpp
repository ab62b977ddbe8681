// C07: lookups by time: filtering from the first record not before a time, any number of records.
// @entry h_by_time_type timeout=100
// @entry h_by_time_stream timeout=100
// @entry h_by_time_stream_type timeout=100
#include "v.h"
#include "reader.h"
namespace {
struct Q {
  rd::Reader R; double ts, eps; uint64_t w; Record::Type t; StreamId s; bool any; const RecordInfo* const* ptrs = nullptr; uint64_t stride = sizeof(RecordInfo);
  Q() {
    auto fin = [](double d) { return d - d == 0; };
    ts = V_f64("timestamp"); eps = V_f64("epsilon");
    if (V_mode() == 2) { if (R.n && V_bool("at")) ts = rd::timeAt(V_range("which", 0, 1u << 28) % R.n); }
    uint64_t b; memcpy(&b, &ts, 8); V_assume(((b >> 52) & 0x7ff) != 0x7ff); V_assume(eps == eps);
    w = V_range("watched", 0, 1u << 28); if (V_mode() == 2) w %= R.n + 1;
    s = StreamId((RecordableTypeId)V_u16("wanted type"), V_u16("wanted instance")); t = (Record::Type)V_u8("wanted"); any = t == Record::Type::UNDEFINED;
    if (V_mode() != 2 && R.n) V_assume(V_uf("time", R.n - 1) < 0x7ff0000000000000ull);
  }
};
// Contract of the binary search (proved in h_by_time and h_lower_bound): where the first record not before the time is.
double timeOf(const RecordInfo& r) { return r.timestamp; }
double timeOf(const RecordInfo* r) { return r->timestamp; }
template <class T> T* lowerBound(T* first, T* last, double ts) {
  uint64_t n = (uint64_t)(last - first), L = V_range("lower bound", 0, 1u << 28);
  V_assume(L <= n && (L == 0 || timeOf(first[L - 1]) < ts) && (L == n || !(timeOf(first[L]) < ts)));
  return first + L;
}
using It1 = std::vector<RecordInfo>::const_iterator; using It2 = std::vector<const RecordInfo*>::const_iterator;
__attribute__((used, annotate("replace:__gnu_cxx::__normal_iterator<vrs::IndexRecord::RecordInfo const*, std::vector<vrs::IndexRecord::RecordInfo, std::allocator<vrs::IndexRecord::RecordInfo>>> std::lower_bound<")))
It1 lower1(It1 first, It1 last, const RecordInfo& key, bool (*)(const RecordInfo&, const RecordInfo&)) { return It1(lowerBound(&*first, &*first + (last - first), key.timestamp)); }
__attribute__((used, annotate("replace:__gnu_cxx::__normal_iterator<vrs::IndexRecord::RecordInfo const* const*, std::vector<vrs::IndexRecord::RecordInfo const*, std::allocator<vrs::IndexRecord::RecordInfo const*>>> std::lower_bound<")))
It2 lower2(It2 first, It2 last, const RecordInfo* const& key, bool (*)(const RecordInfo*, const RecordInfo*)) { return It2(lowerBound(&*first, &*first + (last - first), key->timestamp)); }
bool before(const Q& q, uint64_t i) { return rd::timeAt(i) < q.ts; }
}
namespace {
template <class M> void scan(Q& q, const RecordInfo* r, M match) {
  const RecordInfo* b = q.R.base; uint64_t n = q.R.n;
  if (r) {
    uint64_t i = (uint64_t)(r - b);
    V_assert(i < n && r == b + i, "one of the records of the file");
    V_assert(!before(q, i) && match(i), "a record asked for, not before the time");
    if (q.w < i) V_assert(before(q, q.w) || !match(q.w), "the first one");
  } else if (q.w < n) V_assert(before(q, q.w) || !match(q.w), "none only when there is none");
}
}
namespace {
bool matchT(const Q& q, uint64_t i) { return rd::typeAt(i) == q.t; }
bool matchS(const Q& q, uint64_t i) { return rd::streamAt(i) == q.s; }
template <int K> bool match(const Q& q, uint64_t i) { return (K & 1 ? matchT(q, i) : true) && (K & 2 ? matchS(q, i) : true); }
// linear search: everything up to here is before the time or something else
template <int K> bool invScan(const void* c, uint64_t x) {
  const Q& q = *(const Q*)c; if (x < (uint64_t)q.R.base) return false; uint64_t d = x - (uint64_t)q.R.base, f = d / sizeof(RecordInfo);
  return f * sizeof(RecordInfo) == d && f <= q.R.n && (f == q.R.n || !before(q, f)) && (q.w >= f || before(q, q.w) || !match<K>(q, q.w));
}
}
extern "C" void h_by_time_type() {
  Q q; V_inv1(invScan<1>, &q, "skipped records");
  scan(q, q.R.r.getRecordByTime(q.t, q.ts), [&](uint64_t i) { return match<1>(q, i); });
}
extern "C" void h_by_time_stream() {
  Q q; V_inv1(invScan<2>, &q, "skipped records");
  scan(q, q.R.r.getRecordByTime(q.s, q.ts), [&](uint64_t i) { return match<2>(q, i); });
}
extern "C" void h_by_time_stream_type() {
  Q q; V_inv1(invScan<3>, &q, "skipped records");
  scan(q, q.R.r.getRecordByTime(q.s, q.t, q.ts), [&](uint64_t i) { return match<3>(q, i); });
}
