// Contracts of the lz4 / zstd entry points used by vrs (the libraries themselves are trusted).
// A compressor may fail or return any size within the given capacity, writing arbitrary bytes; the call's inputs are recorded.
#pragma once
#include "v.h"
#include <string.h>
#include <lz4frame.h>
#include <zstd.h>
namespace codec {
inline const void* src = nullptr; inline uint64_t srcSize = 0; inline uint8_t* out = nullptr; inline uint64_t outSize = 0; inline int calls = 0;
inline uint64_t watch = 0; inline uint8_t srcAt = 0; inline bool srcSeen = false; // the input byte at position `watch` of the last call
inline bool stepFailed = false;
inline const uint64_t kErr = 0xffffffffffffff00ull; // errors are the 255 highest values
inline size_t compress(void* dst, size_t cap, const void* s, size_t n) {
  calls++; src = s; srcSize = n;
  if (watch < n) { srcAt = ((const uint8_t*)s)[watch]; srcSeen = true; }
  if (V_bool("codec fails")) { outSize = 0; return kErr + 1 + V_u8("code") % 200; }
  uint64_t r = V_range("codec size", 1, cap);
  out = (uint8_t*)V_alloc("codec", r, 1); outSize = r;
  memcpy(dst, out, r);
  return r;
}
inline size_t step() { bool f = V_bool("step fails"); if (f) { stepFailed = true; return kErr + 1 + V_u8("code") % 200; } return 0; }
}
extern "C" {
#ifndef CODEC_NO_COMPRESS
size_t LZ4F_compressFrameBound(size_t n, const LZ4F_preferences_t*) { return n + n / 255 + 64; }
size_t LZ4F_compressFrame(void* d, size_t c, const void* s, size_t n, const LZ4F_preferences_t*) { return codec::compress(d, c, s, n); }
size_t ZSTD_compressBound(size_t n) { return n + (n >> 8) + 64; }
size_t ZSTD_compress2(ZSTD_CCtx*, void* d, size_t c, const void* s, size_t n) { return codec::compress(d, c, s, n); }
ZSTD_CCtx* ZSTD_createCCtx() { return (ZSTD_CCtx*)&codec::calls; }
size_t ZSTD_freeCCtx(ZSTD_CCtx*) { return 0; }
size_t ZSTD_CCtx_reset(ZSTD_CCtx*, ZSTD_ResetDirective) { return codec::step(); }
size_t ZSTD_CCtx_setParameter(ZSTD_CCtx*, ZSTD_cParameter, int) { return codec::step(); }
size_t ZSTD_CCtx_setPledgedSrcSize(ZSTD_CCtx*, unsigned long long) { return codec::step(); }
size_t ZSTD_CStreamOutSize() { return 131591; }
#endif
unsigned LZ4F_isError(LZ4F_errorCode_t e) { return e > codec::kErr; }
const char* LZ4F_getErrorName(LZ4F_errorCode_t) { return "lz4 error"; }
unsigned ZSTD_isError(size_t e) { return e > codec::kErr; }
const char* ZSTD_getErrorName(size_t) { return "zstd error"; }
}
