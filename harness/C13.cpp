// C13: compressed frames. Everything the codec produces goes to the file, in order and within the limit; everything it is
// given when decoding comes from the file, in order. zstd and lz4 are contracts: any progress, any result, any failure.
// @repo vrs/helpers/Strings.cpp
// @flags -DCODEC_NO_COMPRESS
// @entry h_add_frame_data timeout=100
// @entry h_start_frame timeout=60
#include "v.h"
#include <string.h>
#include "errstub.h"
#include "mockfile.h"
#define ZSTD_STATIC_LINKING_ONLY
#include "codec.h"
namespace ghost {
uint64_t consumed, pending, produced; const void* pendingAt; const void* outBuf; uint64_t outCap; bool failed, reset; int level; uint64_t pledged;
const void* inPtr; uint64_t inSize;
}
extern "C" {
ZSTD_CCtx* ZSTD_createCCtx() { return (ZSTD_CCtx*)&codec::calls; }
size_t ZSTD_freeCCtx(ZSTD_CCtx*) { return 0; }
size_t ZSTD_CCtx_reset(ZSTD_CCtx*, ZSTD_ResetDirective) { ghost::reset = true; return 0; }
size_t ZSTD_CCtx_setParameter(ZSTD_CCtx*, ZSTD_cParameter, int l) { ghost::level = l; return codec::step(); }
size_t ZSTD_CCtx_setPledgedSrcSize(ZSTD_CCtx*, unsigned long long n) { ghost::pledged = n; return codec::step(); }
size_t ZSTD_CStreamOutSize() { return 131591; }
size_t ZSTD_compressBound(size_t n) { return n + 1; }
size_t ZSTD_compress2(ZSTD_CCtx*, void*, size_t, const void*, size_t) { return 0; }
size_t LZ4F_compressFrameBound(size_t n, const LZ4F_preferences_t*) { return n; }
size_t LZ4F_compressFrame(void*, size_t, const void*, size_t, const LZ4F_preferences_t*) { return 0; }
// Streaming compression: consumes some of the input, puts some bytes in the output buffer.
size_t ZSTD_compressStream2(ZSTD_CCtx*, ZSTD_outBuffer* o, ZSTD_inBuffer* in, ZSTD_EndDirective end) {
  V_assert(ghost::pending == 0 && o->pos == 0, "what the codec produced is written before it is asked for more");
  V_assert(o->dst == ghost::outBuf && o->size <= ghost::outCap && o->size > 0, "output goes to the internal buffer");
  V_assert(in->src == ghost::inPtr && in->size == ghost::inSize && in->pos == ghost::consumed, "input goes on where it stopped");
  if (V_bool("codec fails")) { ghost::failed = true; return codec::kErr + 1 + V_u8("code") % 200; }
  uint64_t take = V_range("taken", 0, in->size - in->pos), make = V_range("made", 0, o->size);
  V_assume(ghost::produced + make < (1ull << 31)); // frames are far smaller than the 4 GB their sizes can express
  in->pos += take; o->pos += make; ghost::consumed += take; ghost::pending = make; ghost::pendingAt = o->dst; ghost::produced += make;
  ghost::reset = false;
  bool done = V_bool("flushed");
  if (end == ZSTD_e_end && done && in->pos == in->size) return 0;
  return V_range("left", 1, 1u << 20);
}
}
#include <vrs/Compressor.cpp>
struct SinkFile : MockFile {
  int write(const void* b, size_t n) override {
    V_assert(b == ghost::pendingAt && n == ghost::pending, "exactly what the codec produced is written");
    ghost::pending = 0;
    if (fails()) return lastErr;
    pos += (int64_t)n; return 0;
  }
};
using namespace vrs;
namespace {
struct Add { uint64_t start, max; uint32_t io; SinkFile* f; };
bool inv0(const void* c) { const Add& a = *(const Add*)c; return ghost::pending == 0 && ghost::produced + a.start == a.io && (uint64_t)a.f->pos == ghost::produced && !ghost::failed && !a.f->failed; }
bool invMax(const void* c) { const Add& a = *(const Add*)c; return a.max == 0 || a.io <= a.max || ghost::produced == 0; }
bool invIn(const void* c) { return ghost::consumed <= ghost::inSize && ghost::produced < (1ull << 31); }
bool invPos(const void* c, uint64_t x) { return x == ghost::consumed; }
}
extern "C" void h_start_frame() {
  Compressor c; uint32_t out = 77; uint64_t n = V_u64("frame size");
  auto p = (CompressionPreset)V_range("preset", (int)CompressionPreset::FirstZstdPreset, (int)CompressionPreset::LastZstdPreset);
  codec::stepFailed = false;
  int st = c.startFrame(n, p, out);
  V_assert(out == 0, "the size starts at 0");
  V_assert((st == 0) == !codec::stepFailed, "codec failures are reported");
  if (!st) V_assert(ghost::pledged == n, "the codec knows the size of the frame");
  V_assert(c.buffer_.size() >= ZSTD_CStreamOutSize(), "room for the codec's output");
}
extern "C" void h_add_frame_data() {
  Compressor c; uint32_t z = 0;
  codec::stepFailed = false;
  if (c.startFrame(100, CompressionPreset::ZstdMedium, z) != 0) return;
  SinkFile f; f.mayFail = true;
  ghost::outBuf = c.buffer_.data(); ghost::outCap = c.buffer_.size(); ghost::failed = false; ghost::reset = false;
  ghost::pending = ghost::produced = ghost::consumed = 0;
  Add a{V_range("before", 0, 1u << 30), 0, 0, &f}; a.io = (uint32_t)a.start; if (V_bool("limited")) a.max = V_range("limit", 1, 1u << 31);
  V_inv0(inv0, &a, "written so far"); V_inv0(invMax, &a, "within the limit"); V_inv0(invIn, &a, "input"); V_inv1(invPos, &a, "input position");
  bool end = V_bool("end"); int st; uint8_t data[1];
  if (end) { ghost::inPtr = nullptr; ghost::inSize = 0; st = c.endFrame(f, a.io, a.max); }
  else { ghost::inPtr = data; ghost::inSize = V_range("size", 0, 1ull << 40); st = c.addFrameData(f, data, ghost::inSize, a.io, a.max); }
  if (a.max && f.pos > 0) V_assert((uint64_t)f.pos + a.start <= a.max, "never more bytes in the file than the limit");
  if (st == 0) {
    V_assert(!ghost::failed && !f.failed, "failures are reported");
    V_assert(ghost::pending == 0 && (uint64_t)f.pos == ghost::produced, "all that the codec produced is in the file");
    V_assert(a.io == a.start + ghost::produced, "the size counts every byte written");
    V_assert(ghost::consumed == ghost::inSize, "all the data was compressed");
  } else {
    if (st == TOO_MUCH_DATA) V_assert(a.max > 0 && a.start + ghost::produced > a.max && ghost::reset, "given up only past the limit, ready for another frame");
    else V_assert(ghost::failed || f.failed, "no failure without a cause");
    V_assert(!ghost::failed || ghost::reset, "a codec in error is reset");
  }
}
