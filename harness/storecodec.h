// Contract of frame compression (see C13): a frame holds exactly the bytes given, in a number of bytes that is up to the
// codec, and a size limit, when there is one, is never exceeded on disk. Stored form: length, pad, bytes.
#pragma once
#include "v.h"
#include <string.h>
#include <vrs/Compressor.h>
#include <vrs/Decompressor.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandler.h>
#include <vrs/WriteFileHandler.h>
namespace store { inline uint64_t padMax = 0; inline uint64_t frames = 0; }
namespace vrs {
class Compressor::CompressorImpl { public: uint64_t want = 0, got = 0; uint8_t buf[256]; };
Compressor::Compressor() : impl_{std::make_unique<CompressorImpl>()} {}
Compressor::~Compressor() = default;
int Compressor::startFrame(size_t frameSize, CompressionPreset preset, uint32_t& outSize) {
  V_assert(preset >= CompressionPreset::ZstdFast && preset <= CompressionPreset::ZstdMax, "frames use zstd");
  outSize = 0; impl_->want = frameSize; impl_->got = 0; return 0;
}
int Compressor::addFrameData(WriteFileHandler&, const void* d, size_t n, uint32_t&, size_t) {
  V_assert(impl_->got + n <= impl_->want && impl_->got + n <= sizeof(impl_->buf), "within the frame");
  memcpy(impl_->buf + impl_->got, d, n); impl_->got += n; return 0;
}
int Compressor::endFrame(WriteFileHandler& file, uint32_t& io, size_t max) {
  V_assert(impl_->got == impl_->want, "frame complete");
  store::frames++;
  uint64_t pad = V_range("codec size", 0, store::padMax); pad = pad == 0 ? 0 : pad == 1 ? 5 : 9;
  uint8_t out[280]; out[0] = (uint8_t)impl_->got; out[1] = (uint8_t)(impl_->got >> 8); out[2] = (uint8_t)pad;
  for (uint64_t i = 0; i < pad; i++) out[3 + i] = 0xee;
  memcpy(out + 3 + pad, impl_->buf, impl_->got);
  uint64_t n = 3 + pad + impl_->got;
  if (max > 0 && io + n > max) return TOO_MUCH_DATA;
  if (int e = file.write(out, n)) return e;
  io += (uint32_t)n; return 0;
}
class Decompressor::Lz4Decompressor {};
class Decompressor::ZstdDecompressor {};
Decompressor::Decompressor() {}
Decompressor::~Decompressor() = default;
int Decompressor::initFrame(FileHandler& f, size_t& outFrameSize, size_t& max) {
  uint8_t h[3]; if (max < 3) return NOT_ENOUGH_DATA; if (int e = f.read(h, 3)) return e; max -= 3;
  outFrameSize = h[0] | (h[1] << 8); if (max < h[2]) return NOT_ENOUGH_DATA; max -= h[2]; return f.skipForward(h[2]);
}
int Decompressor::readFrame(FileHandler& f, void* dest, size_t n, size_t& max) { if (n > max) return NOT_ENOUGH_DATA; if (int e = f.read(dest, n)) return e; max -= n; return 0; }
}
