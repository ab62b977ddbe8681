// Decompressor in an arbitrary state, with contracts for the codec libraries
#pragma once
#include "v.h"
#include <string.h>
#include "errstub.h"
#include "mockfile.h"
#define ZSTD_STATIC_LINKING_ONLY
#include "codec.h"
namespace ghost {
const uint8_t* file; uint64_t w, eaten, made; void* dst; uint64_t dstSize; bool failed; uint64_t fpos; bool exact;
}
extern "C" {
ZSTD_DStream* ZSTD_createDStream() { return (ZSTD_DStream*)&codec::calls; }
size_t ZSTD_freeDStream(ZSTD_DStream*) { return 0; }
size_t ZSTD_initDStream(ZSTD_DStream*) { if (V_bool("init fails")) { ghost::failed = true; return codec::kErr + 1; } return V_range("first hint", 1, 1u << 20); }
unsigned long long ZSTD_getFrameContentSize(const void* p, size_t n) {
  if (ghost::exact && ghost::w >= ghost::eaten && ghost::w - ghost::eaten < n) V_assert(((const uint8_t*)p)[ghost::w - ghost::eaten] == ghost::file[ghost::w], "the frame header is what the file holds");
  return V_u64("content size");
}
size_t ZSTD_decompressStream(ZSTD_DStream*, ZSTD_outBuffer* o, ZSTD_inBuffer* in) {
  V_assert(in->pos <= in->size && o->pos <= o->size, "positions within the buffers");
  V_assert(o->dst == ghost::dst && o->size == ghost::dstSize && o->pos == ghost::made, "output goes on where it stopped, within the destination");
  uint64_t n = in->size - in->pos;
  if (ghost::exact) {
    V_assert(ghost::eaten + n == ghost::fpos, "everything read and not decoded yet");
    if (ghost::w >= ghost::eaten && ghost::w - ghost::eaten < n) V_assert(((const uint8_t*)in->src)[in->pos + (ghost::w - ghost::eaten)] == ghost::file[ghost::w], "the codec is given the bytes of the file, in order");
  }
  if (V_bool("codec fails")) { ghost::failed = true; return codec::kErr + 1; }
  uint64_t take = V_range("taken", 0, n), make = V_range("made", 0, o->size - o->pos);
  in->pos += take; o->pos += make; ghost::eaten += take; ghost::made = o->pos;
  return V_bool("complete") ? 0 : V_range("hint", 1, 1u << 20);
}
LZ4F_errorCode_t LZ4F_createDecompressionContext(LZ4F_dctx** p, unsigned) { *p = (LZ4F_dctx*)&codec::calls; return 0; }
LZ4F_errorCode_t LZ4F_freeDecompressionContext(LZ4F_dctx*) { return 0; }
void LZ4F_resetDecompressionContext(LZ4F_dctx*) {}
size_t LZ4F_decompress(LZ4F_dctx*, void* dst, size_t* dn, const void* src, size_t* sn, const LZ4F_decompressOptions_t*) {
  V_assert(dst == ghost::dst && *dn == ghost::dstSize, "output within the destination");
  V_assert(*sn == ghost::fpos, "all the compressed bytes not decoded yet");
  if (ghost::w < *sn) V_assert(((const uint8_t*)src)[ghost::w] == ghost::file[ghost::w], "the compressed bytes, in order");
  if (V_bool("codec fails")) { ghost::failed = true; return codec::kErr + 1; }
  *dn = ghost::made = V_range("made", 0, *dn); *sn = ghost::eaten = V_range("taken", 0, *sn);
  return V_range("hint", 0, 1u << 20);
}
}
#include <vrs/Decompressor.cpp>
bool vrs::utils::Throttler::report(int, const void*) { return false; }
using namespace vrs;
struct Src : MockFile {
  int read(void* b, size_t n) override {
    reads++;
    if (fails()) { if (n) V_any_bytes(b, n); return lastErr; }
    if (n) memcpy(b, data + pos, n); pos += (int64_t)n; ghost::fpos = (uint64_t)pos; return 0;
  }
};
namespace {
struct D {
  Decompressor d; uint64_t B, R, Dd;
  D(uint64_t least = 0) {
    ghost::failed = false; ghost::eaten = ghost::made = ghost::fpos = 0;
    B = V_size("buffer", 1u << 30, 1u << 20); if (V_mode() == 2 && B < least) B = least; R = V_range("read", 0, 1u << 30); Dd = V_range("decoded", 0, 1u << 30);
    if (V_mode() == 2) { R %= B + 1; Dd %= R + 1; if (R - Dd > 32) Dd = R - 32; }
    V_assume(Dd <= R && R <= B && B >= least);
    d.compressedBuffer_.resize(B);
    if (B) V_any_bytes(d.compressedBuffer_.data(), B);
    d.readSize_ = R; d.decodedSize_ = Dd;
  }
};
}
namespace {
void setup(D& s, Src& f) { // the buffer holds the first bytes of the file, some of them decoded already
  f.size = (int64_t)V_size("file", 1u << 31, 64); f.data = (const uint8_t*)V_alloc("content", f.size, 1); f.mayFail = true;
  uint64_t have = s.R - s.Dd; V_assume(have <= (uint64_t)f.size);
  if (have) memcpy(s.d.compressedBuffer_.data() + s.Dd, f.data, have);
  f.pos = (int64_t)have; ghost::fpos = have; ghost::eaten = 0; ghost::file = f.data; ghost::exact = true;
  ghost::w = V_range("watched", 0, 1u << 31); V_assume(ghost::w < (uint64_t)f.size);
}
}
