// C02: one chunk is one disk file: reads, writes, seeks and closes go to that file, and what the system reports is what is returned.
// @repo vrs/FileHandler.cpp vrs/helpers/Strings.cpp
// @entry h_chunk_io timeout=60
// @entry h_chunk_open timeout=60
#include "v.h"
#include <string.h>
#include <stdio.h>
#include <cerrno>
#include "errstub.h"
#include <vrs/os/Utils.h>
#include <vrs/FileHandler.h>
#include <vrs/helpers/Strings.h>
namespace { // the C library and the operating system, as a contract: one file at a time, which may fail
char token[4];
struct Sys {
  FILE* f; int opens, closes; const char* mode; const void* buf; uint64_t n, done, pos, size; int origin; bool err, eof, fail; int calls; const char* op;
} y;
bool fault() { y.calls++; y.fail = V_bool("system call fails"); if (y.fail) errno = (int)V_range("errno", 1, 130); return y.fail; }
size_t rw(const char* op, const void* b, size_t sz, size_t n, FILE* f) { V_assert(f == y.f && f, "on the open file"); y.op = op; y.buf = b; y.n = sz * n; y.err = y.eof = false; uint64_t k = n; if (fault()) { k = V_range("partial", 0, n); if (k < n) y.err = V_bool("error or end"), y.eof = !y.err; } y.done = k; return k; }
}
extern "C" {
size_t ghost_fread(void* b, size_t sz, size_t n, FILE* f) { return rw("read", b, sz, n, f); }
size_t ghost_fwrite(const void* b, size_t sz, size_t n, FILE* f) { return rw("write", b, sz, n, f); }
int ghost_ferror(FILE* f) { V_assert(f == y.f, "on the open file"); return y.err; }
int ghost_feof(FILE* f) { V_assert(f == y.f, "on the open file"); return y.eof; }
void ghost_rewind(FILE* f) { V_assert(f == y.f, "on the open file"); y.calls++; y.pos = 0; }
int ghost_fflush(FILE* f) { V_assert(f == y.f && f, "on the open file"); return fault() ? -1 : 0; }
int ghost_setvbuf(FILE* f, char*, int, size_t) { return fault() ? -1 : 0; }
}
namespace vrs { namespace os {
FILE* fileOpen(const string& p, const char* m) { y.mode = m; if (fault()) return nullptr; y.opens++; return y.f = (FILE*)&token[y.opens]; }
int fileClose(FILE* f) { V_assert(f == y.f && f, "the open file is closed, once"); y.closes++; y.f = nullptr; return fault() ? -1 : 0; }
int64_t fileTell(FILE* f) { V_assert(f == y.f && f, "on the open file"); return fault() ? -1 : (int64_t)y.pos; }
int fileSeek(FILE* f, int64_t o, int w) { V_assert(f == y.f && f, "on the open file"); if (fault()) return -1; y.pos = (uint64_t)o; y.origin = w; return 0; }
int fileSetSize(FILE* f, int64_t n) { V_assert(f == y.f && f, "on the open file"); if (fault()) return -1; y.size = (uint64_t)n; return 0; }
} }
#define fread ghost_fread
#define fwrite ghost_fwrite
#define ferror ghost_ferror
#define feof ghost_feof
#define rewind ghost_rewind
#define fflush ghost_fflush
#define setvbuf ghost_setvbuf
#include <vrs/DiskFileChunk.hpp>
using namespace vrs;
extern "C" void h_chunk_io() {
  y = {};
  int64_t off = (int64_t)V_range("offset", 0, 1ull << 60), size = (int64_t)V_range("size", 0, 1ull << 60);
  {
    DiskFileChunk c("p", off, size);
    V_assert(!c.isOpened() && c.getOffset() == off && c.getSize() == size, "as described");
    int64_t at = (int64_t)V_u64("at");
    V_assert(c.contains(at) == (at >= off && at - off < size), "contains exactly the bytes of its range");
    if (c.open(V_bool("read only"), {}) != 0) { V_assert(y.fail && !c.isOpened() && y.opens == 0, "open fails only when the system does"); return; }
    V_assert(c.isOpened() && y.opens == 1, "opened");
    y.calls = 0; y.fail = false; y.pos = V_range("pos", 0, 1ull << 60);
    uint64_t n = V_range("length", 0, 1ull << 60); uint8_t buf[1]; size_t done = 77; int st; int64_t p = 0;
    uint64_t k = V_range("operation", 0, 6);
    if (k <= 1) {
      st = k ? c.write(buf, n, done) : c.read(buf, n, done);
      V_assert(y.calls == 1 && y.buf == buf && y.n == n && y.op[0] == (k ? 'w' : 'r'), "the caller's bytes, all of them");
      V_assert(done == y.done && (st == 0) == (y.done == n), "what was transferred, and success exactly when it was everything");
      V_assert(c.eof() == y.eof, "end of file as the system tells");
      if (st) V_assert(y.err ? st == errno : st != 0, "the reason it was less");
    } else if (k == 2) {
      int64_t to = (int64_t)V_range("to", 0, 1ull << 60); int w = (int)V_range("origin", 0, 2);
      st = c.seek(to, w);
      V_assert((st == 0) == !y.fail && (st || (y.pos == (uint64_t)to && y.origin == w)), "seek");
    } else if (k == 3) {
      st = c.tell(p);
      V_assert((st == 0) == !y.fail && (st || p == (int64_t)y.pos), "tell");
    } else if (k == 4) {
      st = c.truncate((int64_t)n);
      V_assert((st == 0) == !y.fail, "io errors are reported");
      V_assert(st ? c.getSize() == size : c.getSize() == (int64_t)n && y.size == n, "truncated to the size asked for");
    } else if (k == 5) { st = c.flush(); V_assert((st == 0) == !y.fail && y.calls == 1, "flush"); }
    else { c.rewind(); V_assert(y.pos == 0 && y.calls == 1, "rewind"); }
    V_assert(c.getOffset() == off && (k == 4 || c.getSize() == size), "its place does not change");
    if (V_bool("moved")) {
      size = c.getSize();
      DiskFileChunk d(std::move(c));
      V_assert(d.isOpened() && !c.isOpened() && d.getOffset() == off && d.getSize() == size && d.getPath() == "p" && y.closes == 0, "a moved chunk keeps its open file");
    } else if (V_bool("closed")) {
      st = c.close();
      V_assert((st == 0) == !y.fail && !c.isOpened(), "close errors are reported");
    }
  }
  V_assert(y.closes == 1 && y.f == nullptr, "an open file is closed exactly once");
}
extern "C" void h_chunk_open() {
  y = {};
  {
    DiskFileChunk c("p", 5, 6);
    FileSpec::Extras opts;
    bool pre = V_bool("was open");
    if (pre && c.open(true, opts) != 0) return;
    V_assert(!pre || strcmp(y.mode, "rb") == 0, "files opened read only cannot be changed");
    if (V_bool("create")) {
      int st = c.create("q", opts);
      V_assert(strcmp(y.mode, "wb") == 0, "a created file starts empty");
      V_assert((st == 0) == !y.fail && c.isOpened() == !y.fail, "create");
      if (!st) V_assert(c.getPath() == "q" && c.getOffset() == 0 && c.getSize() == 0, "a created chunk is empty");
    } else {
      int st = c.open(false, opts);
      V_assert(strcmp(y.mode, "rb+") == 0, "opened for updates without losing the content");
      V_assert((st == 0) == !y.fail && c.isOpened() == !y.fail, "open");
      V_assert(c.getPath() == "p" && c.getOffset() == 5 && c.getSize() == 6, "opening keeps the description");
    }
  }
  V_assert(y.closes == y.opens, "every file opened is closed");
}
