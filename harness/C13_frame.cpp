// C13: decoding a whole frame: the codec is given the bytes of the file in order, each once, until the frame is complete.
// @repo vrs/FileFormat.cpp
// @flags -DCODEC_NO_COMPRESS
// @entry h_read_frame timeout=150
#include "decomp.h"
// Contract of allocateCompressedDataBuffer (h_alloc_buffer) where the buffer is large enough: it is not replaced.
namespace {
__attribute__((used, annotate("replace:vrs::Decompressor::allocateCompressedDataBuffer("))) void* allocContract(Decompressor* d, size_t n) {
  size_t left = d->readSize_ - d->decodedSize_, size = d->compressedBuffer_.size();
  V_assert(d->decodedSize_ <= d->readSize_ && d->readSize_ <= size && n <= size && left <= size - n, "the buffer is large enough");
  if (left == 0) d->decodedSize_ = 0;
  else if (d->readSize_ + n > size) { memmove(d->compressedBuffer_.data(), d->compressedBuffer_.data() + d->decodedSize_, left); d->decodedSize_ = 0; }
  d->readSize_ = d->decodedSize_ + left + n;
  return d->compressedBuffer_.data() + d->decodedSize_ + left;
}
struct Rd { D* s; Src* f; uint64_t* max; uint64_t max0, p0; };
bool invCount(const void* c) { const Rd& r = *(const Rd*)c; auto& d = r.s->d; return d.decodedSize_ <= d.readSize_ && d.readSize_ <= d.compressedBuffer_.size() && ghost::eaten + (d.readSize_ - d.decodedSize_) == ghost::fpos && (uint64_t)r.f->pos == ghost::fpos && !ghost::failed && !r.f->failed && ghost::made <= ghost::dstSize; }
bool invMax(const void* c) { const Rd& r = *(const Rd*)c; return r.max0 >= *r.max && r.max0 - *r.max == (uint64_t)r.f->pos - r.p0; }
bool invData(const void* c) { const Rd& r = *(const Rd*)c; auto& d = r.s->d; return ghost::w < ghost::eaten || ghost::w >= ghost::fpos || d.compressedBuffer_[d.decodedSize_ + (ghost::w - ghost::eaten)] == ghost::file[ghost::w]; }
bool invMade(const void* c, uint64_t x) { return x == ghost::made; }
}
extern "C" void h_read_frame() {
  D s(1u << 20); Src f; setup(s, f);
  V_assume(s.B >= s.R - s.Dd + (1u << 20)); // growing the buffer: h_alloc_buffer
  uint64_t max0 = V_range("limit", 0, 1u << 31), max = max0, p0 = f.pos; V_assume(max0 <= (uint64_t)f.size - p0);
  uint8_t dst[1]; ghost::dst = dst; ghost::dstSize = V_range("frame size", 0, 1ull << 32); ghost::made = 0;
  Rd r{&s, &f, &max, max0, p0};
  V_inv0(invCount, &r, "counts"); V_inv0(invMax, &r, "limit"); V_inv0(invData, &r, "bytes not decoded yet"); V_inv1(invMade, &r, "output position");
  int st = s.d.readFrame(f, dst, ghost::dstSize, max);
  V_assert(max <= max0 && (f.failed || max0 - max == (uint64_t)f.pos - p0), "the limit counts every byte read");
  V_assert((uint64_t)f.pos <= p0 + max0, "nothing is read past the limit");
  if (f.failed || ghost::failed) V_assert(st != 0, "failures are reported");
  if (st == 0) V_assert(s.d.readSize_ - s.d.decodedSize_ == (uint64_t)f.pos - ghost::eaten, "bytes of the next frame are kept");
  else V_assert(f.failed || ghost::failed || st == NOT_ENOUGH_DATA, "no failure without a cause");
}
