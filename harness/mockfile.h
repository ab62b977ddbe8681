// A file handler over a ghost file: writes are observed at one arbitrary position, reads come from an arbitrary content region.
#pragma once
#include "v.h"
#include <string.h>
#include <vrs/ErrorCode.h>
#include <vrs/WriteFileHandler.h>
struct MockFile : vrs::WriteFileHandler {
  std::string name{"mock"};
  bool mayFail = false, failed = false;
  int64_t pos = 0, size = 0, writes = 0, reads = 0;
  // write side
  uint64_t watch = ~0ull; uint8_t cell = 0; uint64_t hits = 0;
  // read side
  const uint8_t* data = nullptr;
  size_t lastRW = 0; int lastErr = 0;
  bool fails() { if (mayFail && V_bool("io fails")) { failed = true; lastErr = 5; return true; } return false; }
  int write(const void* b, size_t n) override {
    writes++; lastRW = 0;
    if (fails()) return lastErr;
    if (watch >= (uint64_t)pos && watch - (uint64_t)pos < n) { cell = ((const uint8_t*)b)[watch - (uint64_t)pos]; hits++; }
    pos += (int64_t)n; if (pos > size) size = pos;
    lastRW = n; return 0;
  }
  int overwrite(const void* b, size_t n) override { return write(b, n); }
  int read(void* b, size_t n) override {
    reads++; lastRW = 0;
    if (fails()) return lastErr;
    uint64_t avail = pos < size ? (uint64_t)(size - pos) : 0;
    uint64_t k = n < avail ? n : avail;
    if (k > 0) memcpy(b, data + pos, k);
    pos += (int64_t)k; lastRW = k;
    return k == n ? 0 : (lastErr = vrs::NOT_ENOUGH_DATA);
  }
  int setPos(int64_t p) override { if (fails()) return lastErr; if (p < 0 || p > size) return lastErr = vrs::INVALID_REQUEST; pos = p; return 0; }
  int skipForward(int64_t o) override { return setPos(pos + o); }
  std::unique_ptr<FileHandler> makeNew() const override { return nullptr; }
  const std::string& getFileHandlerName() const override { return name; }
  int openSpec(const vrs::FileSpec&) override { return 0; }
  bool isOpened() const override { return true; }
  int64_t getTotalSize() const override { return size; }
  int close() override { return 0; }
  size_t getLastRWSize() const override { return lastRW; }
  std::vector<std::pair<std::string, int64_t>> getFileChunks() const override { return {}; }
  void forgetFurtherChunks(int64_t) override {}
  int getLastError() const override { return lastErr; }
  bool isEof() const override { return pos >= size; }
  int64_t getPos() const override { return pos; }
  int64_t getChunkPos() const override { return pos; }
  int getChunkRange(int64_t& o, int64_t& s) const override { o = 0; s = size; return 0; }
  bool isRemoteFileSystem() const override { return false; }
  int create(const vrs::FileSpec&) override { return 0; }
  int create(const std::string&, const vrs::FileSpec::Extras& = {}) override { return 0; }
  bool reopenForUpdatesSupported() const override { return true; }
  int reopenForUpdates() override { return 0; }
  bool isReadOnly() const override { return false; }
  int addChunk() override { return 0; }
  int truncate() override { return 0; }
  bool getCurrentChunk(std::string&, size_t&) const override { return false; }
};
