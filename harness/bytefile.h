// A small file kept in memory, as a write file handler.
#pragma once
#include "v.h"
#include <string.h>
#include <vrs/ErrorCode.h>
#include <vrs/WriteFileHandler.h>
struct ByteFile : vrs::WriteFileHandler {
  std::string name{"bytes"};
  static const int64_t kCap = 1024;
  uint8_t mem[kCap]; int64_t pos = 0, size = 0, total = -1; size_t lastRW = 0; int lastErr = 0, sets = 0; bool shortRead = false;
  ByteFile() { memset(mem, 0, sizeof(mem)); }
  void grow(int64_t n) { pos += n; if (pos > size) size = pos; }
  int write(const void* b, size_t n) override { V_assert(pos + (int64_t)n <= kCap, "test file too small"); memcpy(mem + pos, b, n); grow((int64_t)n); lastRW = n; return 0; }
  int overwrite(const void* b, size_t n) override { return write(b, n); }
  int read(void* b, size_t n) override { uint64_t a = pos < size ? (uint64_t)(size - pos) : 0, k = n < a ? n : a; if (k) memcpy(b, mem + pos, k); pos += (int64_t)k; lastRW = k; shortRead = k != n; return k == n ? 0 : (lastErr = vrs::NOT_ENOUGH_DATA); }
  int setPos(int64_t p) override { if (p < 0 || p > size) return lastErr = vrs::INVALID_REQUEST; pos = p; return 0; }
  int skipForward(int64_t o) override { return setPos(pos + o); }
  std::unique_ptr<FileHandler> makeNew() const override { return nullptr; }
  const std::string& getFileHandlerName() const override { return name; }
  int openSpec(const vrs::FileSpec&) override { return 0; }
  bool isOpened() const override { return true; }
  int64_t getTotalSize() const override { return total >= 0 ? total : size; }
  int close() override { return 0; }
  size_t getLastRWSize() const override { return lastRW; }
  std::vector<std::pair<std::string, int64_t>> getFileChunks() const override { return {}; }
  void forgetFurtherChunks(int64_t m) override { forgot = m; }
  int64_t forgot = -1;
  int getLastError() const override { return lastErr; }
  bool isEof() const override { return pos >= size; }
  int64_t getPos() const override { return pos; }
  int64_t getChunkPos() const override { return pos; }
  int getChunkRange(int64_t& o, int64_t& s) const override { if (chunkSize < 0) { o = 0; s = size; } else if (pos < chunkSize || getTotalSize() == chunkSize) { o = 0; s = chunkSize; } else { o = chunkSize; s = getTotalSize() - chunkSize; } return 0; }
  int64_t chunkSize = -1;
  bool isRemoteFileSystem() const override { return false; }
  int create(const vrs::FileSpec&) override { return 0; }
  int create(const std::string&, const vrs::FileSpec::Extras& = {}) override { return 0; }
  bool reopenForUpdatesSupported() const override { return true; }
  int reopenForUpdates() override { reopened++; return 0; }
  int reopened = 0;
  bool isReadOnly() const override { return false; }
  int addChunk() override { return 0; }
  int truncate() override { size = pos; return 0; }
  bool getCurrentChunk(std::string&, size_t&) const override { return false; }
};
