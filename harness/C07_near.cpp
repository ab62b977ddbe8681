// C07: the record nearest to a time, with up to NEAR records (bounded).
// @entry h_nearest_any_stream bounded timeout=200
// @entry h_nearest_stream bounded timeout=200
#include "v.h"
#include "reader.h"
namespace {
const uint64_t NEAR = 3;
struct Q {
  rd::Reader R; double ts, eps; uint64_t w; Record::Type t; bool any;
  Q() {
    if (V_mode() != 2) { V_assume(R.n <= NEAR); if (R.n) V_assume(V_uf("time", R.n - 1) < 0x7ff0000000000000ull); }
    for (uint64_t k = 0; k <= NEAR; k++) if (R.n == k) break; // one path per number of records
    ts = V_f64("timestamp"); eps = V_f64("epsilon");
    if (V_mode() == 2) { if (R.n && V_bool("at")) ts = rd::timeAt(V_range("which", 0, 1u << 28) % R.n); if (R.n && V_bool("near")) eps = std::abs(rd::timeAt(V_range("which far", 0, 1u << 28) % R.n) - ts); }
    uint64_t b; memcpy(&b, &ts, 8); V_assume(((b >> 52) & 0x7ff) != 0x7ff); V_assume(eps == eps);
    w = V_range("watched", 0, 1u << 28); if (V_mode() == 2) w %= R.n + 1;
    t = (Record::Type)V_u8("wanted"); any = t == Record::Type::UNDEFINED;
  }
};
double dist(const Q& q, uint64_t i) { return std::abs(rd::timeAt(i) - q.ts); }
bool fits(const Q& q, uint64_t i) { return (q.any || rd::typeAt(i) == q.t) && dist(q, i) <= q.eps; }
void judge(const Q& q, const RecordInfo* r) {
  const RecordInfo* b = q.R.base; uint64_t n = q.R.n;
  if (r) {
    uint64_t i = (uint64_t)(r - b);
    V_assert(i < n && r == b + i, "one of the records");
    V_assert(fits(q, i), "of the type asked for, and near enough");
    if (q.w < n && fits(q, q.w)) V_assert(dist(q, i) <= dist(q, q.w), "none is nearer");
  } else if (q.w < n) V_assert(!fits(q, q.w), "none only when there is none near enough");
}
}
extern "C" void h_nearest_any_stream() {
  Q q;
  judge(q, q.R.r.getNearestRecordByTime(q.ts, q.eps, StreamId(), q.t));
}
extern "C" void h_nearest_stream() {
  Q q; const uint64_t n = q.R.n;
  std::vector<const RecordInfo*> idx; 
  if (V_mode() == 2) idx.resize(n); else { static const RecordInfo* buf[NEAR]; auto& v = idx._M_impl; v._M_start = buf; v._M_finish = v._M_end_of_storage = buf + n; }
  for (uint64_t i = 0; i < n; i++) idx[i] = q.R.base + i;
  const RecordInfo* r = vrs::getNearestRecordByTime(idx, q.ts, q.eps, q.t);
  if (V_mode() != 2) { auto& v = idx._M_impl; v._M_start = v._M_finish = v._M_end_of_storage = nullptr; }
  judge(q, r);
}
