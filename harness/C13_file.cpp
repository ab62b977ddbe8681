// C13: a compressed file is written next to its final place, and replaces what was there only when it is complete.
// @repo vrs/FileHandler.cpp vrs/helpers/Strings.cpp
// @entry h_write_zstd_file bounded btimeout=100 unroll=8
// @entry h_atomic_abort bounded btimeout=60 unroll=8
#include "v.h"
#include <string.h>
#include <stdio.h>
#include <cerrno>
#include "errstub.h"
#include <vrs/os/Utils.h>
#include <vrs/FileHandler.h>
#include <vrs/Compressor.h>
#include <vrs/Decompressor.h>
#include <vrs/helpers/Strings.h>
namespace { // the file system: a final file that may exist with its old content, and one temporary file
char token[4];
struct Sys { FILE* f; bool open, tempExists, renamed, finalTouched, fail, codecFail, all; uint64_t written, produced; int renames; std::string temp; } y;
bool fault() { bool f = V_bool("system call fails"); y.fail |= f; if (f) errno = 5; return f; }
}
extern "C" {
size_t ghost_fread(void*, size_t, size_t, FILE*) { V_assert(false, "not read"); return 0; }
size_t ghost_fwrite(const void*, size_t sz, size_t n, FILE* f) { V_assert(y.open, "on the open file"); if (fault()) return 0; y.written += sz * n; return n; }
int ghost_ferror(FILE*) { return 1; }
int ghost_feof(FILE*) { return 0; }
void ghost_rewind(FILE*) {}
int ghost_fflush(FILE*) { return fault() ? -1 : 0; }
int ghost_setvbuf(FILE*, char*, int, size_t) { return 0; }
}
namespace vrs { namespace os {
FILE* fileOpen(const string& p, const char*) { if (p == "final") { y.finalTouched = true; V_assert(false, "the final file is never opened for writing"); } y.temp = p; if (fault()) return nullptr; y.open = y.tempExists = true; return (FILE*)token; }
int fileClose(FILE*) { V_assert(y.open, "closed once"); y.open = false; return fault() ? -1 : 0; }
int64_t fileTell(FILE*) { return 0; }
int fileSeek(FILE*, int64_t, int) { return 0; }
int fileSetSize(FILE*, int64_t) { return 0; }
string getUniquePath(const string& p, size_t) { return p + "_tmp"; }
bool isFile(const string& p) { return p == y.temp ? y.tempExists : true; }
int rename(const string& a, const string& b) {
  V_assert(a == y.temp && b == "final", "the temporary file takes the final name");
  V_assert(!y.open && y.tempExists && !y.fail && !y.codecFail && y.written == y.produced && y.all, "only complete content replaces the final file");
  if (y.renames++ < 1 && V_bool("rename fails")) return 5;
  y.renamed = true; y.tempExists = false; return 0;
}
int remove(const string& p) { if (p == "final") { y.finalTouched = true; V_assert(y.renames > 0, "what was there is only removed to make room for complete content"); } else { V_assert(p == y.temp, "only the temporary file"); y.tempExists = false; } return 0; }
} }
#define fread ghost_fread
#define fwrite ghost_fwrite
#define ferror ghost_ferror
#define feof ghost_feof
#define rewind ghost_rewind
#define fflush ghost_fflush
#define setvbuf ghost_setvbuf
#include <vrs/DiskFile.cpp>
using namespace vrs;
namespace vrs {
class Compressor::CompressorImpl { public: uint64_t want = 0, got = 0; };
Compressor::Compressor() : impl_{std::make_unique<CompressorImpl>()} {}
Compressor::~Compressor() = default;
static int codecStep() { bool f = V_bool("codec fails"); y.codecFail |= f; return f ? 77 : 0; }
int Compressor::startFrame(size_t n, CompressionPreset, uint32_t& o) { o = 0; impl_->want = n; return codecStep(); }
static int put(WriteFileHandler& file, uint32_t& o) { char b[8] = {}; y.produced += 8; o += 8; return file.write(b, 8); }
int Compressor::addFrameData(WriteFileHandler& file, const void*, size_t n, uint32_t& o, size_t) { impl_->got += n; if (int e = codecStep()) return e; return put(file, o); }
int Compressor::endFrame(WriteFileHandler& file, uint32_t& o, size_t) { if (int e = codecStep()) return e; y.all = impl_->got == impl_->want; return put(file, o); }
}
extern "C" void h_write_zstd_file() {
  y = {};
  char data[4]; uint64_t n = V_range("size", 0, 1ull << 40); y.all = n == 0;
  int st = DiskFile::writeZstdFile("final", data, n);
  V_assert(!y.open, "no file is left open");
  V_assert((st == 0) == y.renamed, "success is having put the complete file in place");
  if (st) V_assert(y.fail || y.codecFail || y.renames > 0, "no failure without a cause");
  if (y.codecFail) V_assert(!y.tempExists, "no partial file is left");
  V_cover("done");
}
extern "C" void h_atomic_abort() {
  y = {}; y.all = true;
  { AtomicDiskFile f;
    if (f.create("final") != 0) return;
    if (V_bool("write")) { y.produced += 3; if (f.write("abc", 3) != 0) { f.abort(); } }
    if (V_bool("abort")) { f.abort(); V_assert(!y.renamed && !y.tempExists, "an aborted file leaves nothing"); y.fail = true; }
  }
  V_assert(!y.open, "no file is left open");
}
