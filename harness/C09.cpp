// C09: the records of a stream waiting to be written: none lost, none duplicated, in order; purged and recycled as asked (bounded).
// @repo vrs/Record.cpp vrs/RecordManager.cpp vrs/DataSource.cpp vrs/FileFormat.cpp vrs/Compressor.cpp
// @entry h_create bounded btimeout=200 unroll=40
// @entry h_purge bounded btimeout=250 unroll=40
// @entry h_recycle bounded btimeout=200 unroll=60
#include "codec.h"
#include <string.h>
#include "errstub.h"
#include <vrs/Compressor.h>
#include <vrs/DataSource.h>
#include <vrs/FileFormat.h>
#include <vrs/Record.h>
#include <vrs/RecordManager.h>
#include <vrs/os/Time.h>
using namespace vrs;
namespace { double gNow = 100; }
namespace vrs { namespace os { double getTimestampSec() { return gNow; } } }
namespace {
double time(const char* n, int max = 3) { int k = (int)V_range(n, 0, max); for (int i = 0; i < max; i++) if (k == i) { k = i; break; } return k; }
int one(const char* name, int n) { int v = (int)V_range(name, 0, n - 1); for (int i = 0; i < n - 1; i++) if (v == i) return i; return n - 1; }
const Record::Type kTypes[] = {Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION, Record::Type::TAGS};
}
extern "C" void h_create() { // records created in any order of time, and collected
  RecordManager m; const int N = 3; Record* r[N]; double t[N];
  for (int i = 0; i < N; i++) {
    t[i] = time("time"); r[i] = m.createRecord(t[i], kTypes[i], 7 + i, DataSource());
    V_assert(r[i]->getTimestamp() == t[i] && r[i]->getRecordType() == kTypes[i] && r[i]->formatVersion_ == 7u + i && r[i]->getSize() == 0, "a record holds what it was given");
    if (i) V_assert(r[i]->getCreationOrder() > r[i - 1]->getCreationOrder(), "creation order");
  }
  V_assert(m.activeRecords_.size() == N, "every record is kept");
  double age = time("age", 4); std::list<Record*> out; out.push_back(nullptr); m.collectOldRecords(age, out);
  size_t old = 0; for (int i = 0; i < N; i++) old += t[i] < age;
  V_assert(out.size() == old && m.activeRecords_.size() == N - old, "exactly the records before the time are collected");
  Record* all[N]; int n = 0; for (Record* x : out) { V_assert(x->getTimestamp() < age, "only records before the time are collected"); all[n++] = x; } for (Record* x : m.activeRecords_) all[n++] = x;
  for (int i = 0; i < N; i++) {
    if (i) V_assert(all[i - 1]->getTimestamp() < all[i]->getTimestamp() || (all[i - 1]->getTimestamp() == all[i]->getTimestamp() && all[i - 1]->getCreationOrder() < all[i]->getCreationOrder()), "in order of time, then of creation, each once");
    bool mine = false; for (int j = 0; j < N; j++) mine |= all[i] == r[j]; V_assert(mine, "only records created");
  }
  for (Record* x : out) x->recycle();
}
extern "C" void h_purge() {
  RecordManager m; const int N = 3; Record* r[N]; double t[N]; int k[N]; int n = one("count", N + 1);
  for (int i = 0; i < n; i++) { k[i] = one("type", 4); t[i] = i ? t[i - 1] + (V_bool("later") ? 1 : 0) : 0; r[i] = m.createRecord(t[i], kTypes[k[i]], 1, DataSource()); }
  double oldest = time("oldest", 3); bool recycle = V_bool("recycle"); m.setMaxCacheSize(1);
  bool keep[N]; size_t gone = 0; Record* gold[N];
  for (int i = 0; i < n; i++) {
    keep[i] = t[i] >= oldest || k[i] == 3;
    if (!keep[i] && k[i] != 0) { bool newer = false; for (int j = i + 1; j < n; j++) newer |= k[j] == k[i] && t[j] < oldest; keep[i] = !newer; }
    if (!keep[i]) gold[gone++] = r[i];
  }
  uint32_t count = m.purgeOldRecords(oldest, recycle);
  V_assert(count == gone, "the count of records purged");
  V_assert(m.activeRecords_.size() == n - gone, "records which are not old, the last state and configuration, and tags are kept, others are not");
  auto it = m.activeRecords_.begin();
  for (int i = 0; i < n; i++) if (keep[i]) { V_assert(*it == r[i], "the records kept stay in order"); ++it; }
  V_assert(m.cache_.size() == (recycle && gone > 0 ? 1 : 0), "buffers are recycled up to the limit, when asked");
  bool purged = m.cache_.empty(); for (size_t i = 0; i < gone; i++) purged = purged || m.cache_.front() == gold[i];
  V_assert(purged, "only records purged are recycled");
}
extern "C" void h_recycle() { // a record recycled is used once, only if it suits, and carries nothing over
  gNow = 100;
  RecordManager m; int limit = one("limit", 3); m.setMaxCacheSize(limit);
  uint8_t a[40], b[60]; for (int i = 0; i < 40; i++) a[i] = 'a'; for (int i = 0; i < 60; i++) b[i] = 'b';
  Record* x = m.createRecord(1, Record::Type::STATE, 1, DataSource(DataSourceChunk(a, 40)));
  Record* y = m.createRecord(2, Record::Type::DATA, 2, DataSource(DataSourceChunk(b, 60)));
  std::list<Record*> out; m.collectOldRecords(10, out); V_assert(out.size() == 2, "both collected");
  x->recycle(); y->recycle();
  V_assert((int)m.getCurrentCacheSize() == limit, "kept for later up to the limit");
  gNow = 100 + time("later", 3);
  uint8_t c[61]; for (int i = 0; i < 61; i++) c[i] = (uint8_t)i;
  int size = one("size", 4); size = size == 0 ? 0 : size == 1 ? 40 : size == 2 ? 59 : 61;
  Record* z = m.createRecord(5, Record::Type::CONFIGURATION, 9, DataSource(DataSourceChunk(c, size)));
  V_assert(z->getTimestamp() == 5 && z->getRecordType() == Record::Type::CONFIGURATION && z->formatVersion_ == 9 && (int)z->getSize() == size && !z->directWriteRecordData_, "a record holds what it was given");
  V_assert(z->buffer_.size() >= (size_t)size + 32, "room for the header and the data");
  V_assert(memcmp((uint8_t*)z->buffer_.data() + 32, c, size) == 0, "the data given");
  V_assert(m.activeRecords_.size() == 1 && m.activeRecords_.front() == z, "it is waiting to be written");
  for (Record* k : m.cache_) V_assert(k != z, "and isn't reused");
  int used = limit - (int)m.cache_.size(); V_assert(used == 0 || used == 1, "at most one record is reused");
  if (used == 0) V_assert(limit == 0 || gNow < 102, "an old record is reused rather than kept for ever");
  Record* w = m.createRecord(6, Record::Type::DATA, 9, DataSource()); V_assert(w != z, "another record");
}
