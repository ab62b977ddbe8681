// C02: a file made of several chunks reads, seeks and updates like one contiguous file.
// The chunk class is a parameter of the file class: here it is its contract, a file of known size with a position, which may fail.
// @repo vrs/FileHandler.cpp vrs/helpers/Strings.cpp
// @entry h_read timeout=250
// @entry h_set_pos timeout=100
// @entry h_skip timeout=100
// @entry h_chunk_info timeout=60
// @entry h_overwrite timeout=250
// @entry h_forget timeout=60
// @entry h_set_pos_update timeout=100
// @entry h_write timeout=60
// @entry h_truncate bounded timeout=60 unroll=6
// @entry h_add_chunk bounded timeout=60 unroll=6
// @entry h_open bounded timeout=60 unroll=8
#include "v.h"
#include <string.h>
#include <new>
#include "errstub.h"
#include <vrs/DiskFile.cpp>
using namespace vrs;
namespace {
uint64_t S(uint64_t i) { return V_uf("S", i); }
struct Ghost {
  const void* cur; uint64_t pos; bool eof, failed, mayFail; // the chunk used last, and its position
  const uint8_t* buf; uint64_t watch, hits, cellPos;        // where the byte at position `watch` of the caller's buffer came from / went to
  void move(const void* c) { if (cur != c) { cur = c; pos = V_range("other position", 0, 1ull << 60); eof = V_bool("eof"); } }
  bool fault() { if (mayFail && V_bool("io fails")) { failed = true; return true; } return false; }
} g;
}
namespace vrs {
class GhostChunk {
 public:
  int64_t offset_{}, size_{};
  GhostChunk() = default;
  GhostChunk(const string&, int64_t o, int64_t s) : offset_{o}, size_{s} {}
  int create(const string&, const FileSpec::Extras&) { offset_ = size_ = 0; if (g.fault()) return 5; return 0; }
  int open(bool, const FileSpec::Extras&) { if (g.fault()) return 5; g.cur = this; g.pos = 0; g.eof = false; return 0; }
  bool isOpened() const { return g.cur == this || V_bool("opened"); }
  void rewind() const { g.cur = this; g.pos = 0; g.eof = false; }
  int flush() { return g.fault() ? 5 : 0; }
  int tell(int64_t& p) const { g.move(this); p = (int64_t)g.pos; return g.fault() ? 5 : 0; }
  int seek(int64_t p, int origin) {
    g.move(this);
    if (g.fault()) return 5;
    int64_t q = origin == SEEK_CUR ? (int64_t)g.pos + p : p;
    if (q < 0) { g.failed = true; return 22; }
    g.pos = (uint64_t)q; g.eof = false; return 0;
  }
  void touch(const void* ptr, uint64_t k) {
    uint64_t off = (uint64_t)((const uint8_t*)ptr - g.buf);
    if (g.watch >= off && g.watch - off < k) { g.hits++; g.cellPos = (uint64_t)offset_ + g.pos + (g.watch - off); }
    g.pos += k;
  }
  int read(void* ptr, size_t n, size_t& got) const {
    g.move(this);
    uint64_t avail = (uint64_t)size_ > g.pos ? (uint64_t)size_ - g.pos : 0, k = n < avail ? n : avail;
    bool f = g.fault();
    if (f) k = V_range("partial", 0, k);
    const_cast<GhostChunk*>(this)->touch(ptr, k);
    got = k;
    g.eof = !f && k < n;
    return f ? 5 : k == n ? 0 : NOT_ENOUGH_DATA;
  }
  int write(const void* ptr, size_t n, size_t& put) const {
    g.move(this);
    uint64_t k = n;
    bool f = g.fault();
    if (f) k = V_range("partial", 0, k);
    const_cast<GhostChunk*>(this)->touch(ptr, k);
    put = k;
    return f ? 5 : 0;
  }
  int truncate(int64_t n) { if (g.fault()) return 5; size_ = n; return 0; }
  int close() { if (g.cur == this) g.cur = nullptr; return 0; }
  bool eof() const { return g.cur == this && g.eof; }
  int64_t getOffset() const { return offset_; }
  void setOffset(int64_t o) { offset_ = o; }
  int64_t getSize() const { return size_; }
  void setSize(int64_t s) { size_ = s; }
  const string& getPath() const { static string p{"p"}; return p; }
  bool contains(int64_t o) const { return o >= offset_ && o < offset_ + size_; }
};
template <> const string& DiskFileT<GhostChunk>::staticName() { static const string n{"ghost"}; return n; }
template class DiskFileT<GhostChunk>;
}
namespace {
using File = DiskFileT<GhostChunk>;
void gen(const void*, uint64_t i, void* out) { GhostChunk* c = (GhostChunk*)out; c->offset_ = (int64_t)S(i); c->size_ = (int64_t)(S(i + 1) - S(i)); }
struct Setup {
  uint64_t n, c; GhostChunk* p; uint64_t P, length, total, watchK = ~0ull;
  File* file;
  // any chunk sizes (empty chunks included), any current chunk and position in it
  Setup(bool readOnly) {
    V_uf_decl("S", 1, nullptr);
    n = V_size("chunk count", 1u << 20, 4);
    V_assume(n >= 1 && S(0) == 0 && S(n) < (1ull << 60));
    total = S(n);
    p = (GhostChunk*)V_alloc_gen("chunks", n, sizeof(GhostChunk), gen, nullptr);
    c = V_range("current chunk", 0, 1u << 20);
    if (V_mode() == 2) c %= n;
    V_assume(c < n);
    file = (File*)malloc(sizeof(File));
    new (file) File;
    auto& v = file->chunks_->_M_impl;
    v._M_start = p; v._M_finish = v._M_end_of_storage = p + n;
    file->currentChunk_ = p + c;
    file->filesOpenCount_ = (int)V_range("open count", 0, 3);
    file->readOnly_ = readOnly;
    g = {};
    g.cur = p + c; g.pos = V_range("position in chunk", 0, 1ull << 60);
    if (V_mode() == 2 && g.pos > S(c + 1) - S(c)) g.pos = S(c + 1) - S(c);
    V_assume(g.pos <= S(c + 1) - S(c));
    g.mayFail = V_bool("faults");
    P = S(c) + g.pos;
  }
  uint64_t idx() const { return (uint64_t)(file->currentChunk_ - p); }
};
bool invPos(const void* x) { // the position of the current chunk is where the transfer has got to
  const Setup& s = *(const Setup*)x;
  uint64_t k = s.idx();
  return g.cur == (const void*)s.file->currentChunk_ && k < s.n && g.pos <= S(k + 1) - S(k) && S(k) + g.pos == s.P + s.file->lastRWSize_ && s.file->lastRWSize_ <= s.length;
}
bool invCell(const void* x) { // the watched byte went to its own position, once
  const Setup& s = *(const Setup*)x;
  return g.watch < s.file->lastRWSize_ ? g.hits == 1 && g.cellPos == s.P + g.watch : g.hits == 0;
}
bool invErr(const void* x) { return ((const Setup*)x)->file->lastError_ == 0 && !g.failed; }
void addInv(Setup& s) { V_inv0(invPos, &s, "transfer position"); V_inv0(invCell, &s, "watched byte"); V_inv0(invErr, &s, "no error so far"); }
void anyBuffer(Setup& s) {
  s.length = V_size("length", 1ull << 60, 200);
  static uint8_t b[1];
  g.buf = V_mode() == 2 ? (uint8_t*)malloc(s.length ? s.length : 1) : (uint8_t*)V_alloc("buffer", s.length, 1);
  g.watch = V_range("watched", 0, 1ull << 60);
  if (V_mode() == 2) g.watch %= s.length + 1;
}
}
extern "C" void h_read() {
  Setup s(true);
  anyBuffer(s);
  addInv(s);
  int st = s.file->read((void*)g.buf, s.length);
  uint64_t got = s.file->getLastRWSize(), left = s.total - s.P;
  V_assert(got <= s.length && got <= left, "no more bytes than asked for or left");
  V_assert(g.watch < got ? g.hits == 1 && g.cellPos == s.P + g.watch : g.hits == 0, "every byte read is the byte of the file at that position");
  V_assert(st == s.file->getLastError(), "last error");
  if (!g.failed) {
    V_assert(got == (s.length < left ? s.length : left), "a read stops only at the end of the file");
    V_assert((st == 0) == (got == s.length), "a short read is an error");
    if (s.length) V_assert(s.file->isEof() == (got < s.length), "end of file is seen by reading past it");
  } else V_assert(st != 0, "io errors are reported");
  g.mayFail = false;
  if (!g.failed) V_assert(s.file->getPos() == (int64_t)(s.P + got), "the position moves by the bytes read");
  V_cover(st ? "short or failed read" : "full read");
}
extern "C" void h_set_pos() {
  Setup s(true);
  int64_t to = (int64_t)V_range("target", 0, 1ull << 61);
  if (V_mode() == 2 && V_bool("near")) to %= (int64_t)s.total + 3;
  int st = s.file->setPos(to);
  V_assert(st == s.file->getLastError(), "last error");
  if (!g.failed) {
    V_assert((st == 0) == ((uint64_t)to <= s.total), "every position up to the end of the file can be reached, none beyond");
    if (st == 0) V_assert(s.file->getPos() == to, "seek goes to the position asked for");
  } else V_assert(st != 0, "io errors are reported");
  V_cover(st ? "no" : "yes");
}
extern "C" void h_skip() {
  Setup s(true);
  int64_t by = (int64_t)V_range("skip", 0, 1ull << 60);
  if (V_mode() == 2 && V_bool("near")) by %= (int64_t)(s.total - s.P) + 3;
  int st = s.file->skipForward(by);
  if (!g.failed) {
    V_assert((st == 0) == (s.P + (uint64_t)by <= s.total), "skipping forward up to the end of the file");
    if (st == 0) V_assert(s.file->getPos() == (int64_t)s.P + by, "skip moves by the bytes asked for");
  } else V_assert(st != 0, "io errors are reported");
}
extern "C" void h_chunk_info() {
  Setup s(true);
  g.mayFail = false;
  V_assert(s.file->getTotalSize() == (int64_t)s.total, "total size is the sum of the chunks");
  V_assert(s.file->getPos() == (int64_t)s.P && s.file->getChunkPos() == (int64_t)(s.P - S(s.c)), "position");
  int64_t o = 0, z = 0;
  V_assert(s.file->getChunkRange(o, z) == 0, "chunk range available");
  bool next = g.pos == S(s.c + 1) - S(s.c) && s.c + 1 < s.n;
  uint64_t k = next ? s.c + 1 : s.c;
  V_assert(o == (int64_t)S(k) && z == (int64_t)(S(k + 1) - S(k)), "range of the current chunk, or of the next one at its edge");
  std::string path; size_t index = 0;
  V_assert(s.file->getCurrentChunk(path, index) && index == s.c, "current chunk index");
}
extern "C" void h_overwrite() {
  Setup s(false);
  anyBuffer(s);
  V_assume(s.P + s.length <= s.total); // updates in place
  addInv(s);
  int st = s.file->overwrite(g.buf, s.length);
  uint64_t put = s.file->getLastRWSize();
  V_assert(put <= s.length, "no more than asked for");
  V_assert(g.watch < put ? g.hits == 1 && g.cellPos == s.P + g.watch : g.hits == 0, "every byte goes to its position in the file");
  V_assert((st == 0) == !g.failed, "io errors are reported, and nothing else is an error");
  if (st == 0) V_assert(put == s.length && s.file->getTotalSize() == (int64_t)s.total, "everything is written, and sizes do not change");
  V_cover("overwritten");
}
namespace { bool invForget(const void* x) { const Setup& s = *(const Setup*)x; uint64_t k = s.file->chunks_->size(); return k > s.c && k <= s.n && (k == s.n || S(k) >= s.length); } }
extern "C" void h_forget() {
  Setup s(true);
  s.length = V_range("file size", 0, 1ull << 61);
  if (V_mode() == 2) s.length %= s.total + 3;
  V_inv0(invForget, &s, "only chunks past the size are dropped");
  s.file->forgetFurtherChunks((int64_t)s.length);
  uint64_t k = s.file->chunks_->size();
  V_assert(k > s.c && k <= s.n && s.file->currentChunk_ == s.p + s.c, "the current chunk and those before it are kept");
  V_assert(k == s.c + 1 || S(k - 1) < s.length, "the last chunk kept starts before the end");
  V_assert(k == s.n || S(k) >= s.length, "only chunks past the end are dropped");
}

extern "C" void h_set_pos_update() { // while updating, positions past the end of the last chunk are allowed
  Setup s(false);
  int64_t to = (int64_t)V_range("target", 0, 1ull << 61);
  if (V_mode() == 2 && V_bool("near")) to %= (int64_t)s.total + 3;
  int st = s.file->setPos(to);
  V_assert((st == 0) == !g.failed && st == s.file->getLastError(), "io errors are reported, and nothing else is an error");
  g.mayFail = false;
  if (st == 0) V_assert(s.file->getPos() == to, "seek goes to the position asked for");
}
extern "C" void h_write() { // appends go to the current chunk, whole
  Setup s(V_bool("read only"));
  anyBuffer(s);
  bool ro = s.file->isReadOnly();
  int st = s.file->write(g.buf, s.length);
  uint64_t put = s.file->getLastRWSize();
  if (ro) { V_assert(st != 0 && put == 0 && g.hits == 0, "files open for reading are not written"); return; }
  V_assert((st == 0) == !g.failed, "io errors are reported, and nothing else is an error");
  V_assert(st != 0 || put == s.length, "everything is written");
  V_assert(g.watch < put ? g.hits == 1 && g.cellPos == s.P + g.watch : g.hits == 0, "every byte goes to its position in the file");
}
extern "C" void h_truncate() {
  Setup s(V_bool("read only"));
  bool ro = s.file->isReadOnly();
  uint64_t cut = g.pos, old = S(s.c + 1) - S(s.c);
  int st = s.file->truncate();
  if (ro) V_assert(st != 0, "files open for reading are not truncated");
  else V_assert((st == 0) == !g.failed, "io errors are reported, and nothing else is an error");
  bool done = st == 0;
  uint64_t at = 0;
  for (uint64_t i = 0; i < s.n; i++) {
    uint64_t size = done && i == s.c ? cut : S(i + 1) - S(i);
    V_assert((uint64_t)s.p[i].getOffset() == at && (uint64_t)s.p[i].getSize() == size, "chunks stay contiguous, and only the current one is cut at the current position");
    at += size;
  }
  V_assert(s.file->getTotalSize() == (int64_t)at, "total size after truncation");
}
extern "C" void h_add_chunk() {
  File f;
  g = {}; g.mayFail = V_bool("faults");
  uint64_t at = 0; uint64_t k = V_range("chunks", 1, 3);
  if (f.create("f") != 0) { V_assert(g.failed, "create fails only when the file system does"); return; }
  for (uint64_t i = 0; ; i++) {
    V_assert(f.isOpened() && !f.isReadOnly() && f.chunks_->size() == i + 1, "chunk added");
    V_assert((uint64_t)f.chunks_->back().getOffset() == at, "a new chunk starts where the previous one ends");
    if (g.cur != (const void*)f.currentChunk_) { g.cur = f.currentChunk_; g.pos = 0; } // a new file is empty, whatever object holds it
    uint8_t b[1]; g.buf = b;
    uint64_t len = V_range("written", 0, 1ull << 40);
    g.watch = ~0ull;
    if (f.write(b, len) != 0) { V_assert(g.failed, "write"); return; }
    at += len;
    V_assert((uint64_t)f.getPos() == at || g.failed, "position after a write");
    if (g.failed) return;
    if (i + 1 >= k) break;
    if (f.addChunk() != 0) { V_assert(g.failed && f.chunks_->size() == i + 1, "a chunk that cannot be added leaves the others"); return; }
  }
  for (uint64_t i = 0; i + 1 < k; i++) V_assert((*f.chunks_)[i].getOffset() + (*f.chunks_)[i].getSize() == (*f.chunks_)[i + 1].getOffset(), "chunks are contiguous");
}
namespace vrs { namespace os { int remove(const std::string&) { return 0; } int64_t getFileSize(const std::string& path) { uint64_t i = path.size(); return V_uf("missing", i) % 5 == 0 ? -1 : (int64_t)(V_uf("file size", i) & 0xffffffffffull); } } }
extern "C" void h_open() {
  File f;
  g = {};
  FileSpec spec;
  uint64_t k = V_range("chunks", 0, 3); bool missing = false; uint64_t at = 0;
  for (uint64_t i = 0; i < k; i++) { spec.chunks.push_back(std::string(i + 1, 'c')); missing |= V_uf("missing", i + 1) % 5 == 0; }
  V_assume(k > 0);
  int st = f.openSpec(spec);
  V_assert((st == 0) == !missing, "a file opens exactly when all its chunks exist");
  V_assert(f.isOpened() == (st == 0) && f.isReadOnly(), "opened read only");
  if (st) { V_assert(f.getTotalSize() == 0, "nothing is kept of a file that cannot be opened"); return; }
  for (uint64_t i = 0; i < k; i++) {
    uint64_t size = V_uf("file size", i + 1) & 0xffffffffffull;
    V_assert((uint64_t)(*f.chunks_)[i].getOffset() == at && (uint64_t)(*f.chunks_)[i].getSize() == size, "each chunk starts where the previous one ends");
    at += size;
  }
  V_assert(f.getPos() == 0 && f.getTotalSize() == (int64_t)at, "the file starts at its first byte and is as large as its chunks");
}
