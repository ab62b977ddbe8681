// C13: decoding. What the codec is given are the bytes of the file, in order, each once; nothing is read past the limit.
// @repo vrs/FileFormat.cpp
// @flags -DCODEC_NO_COMPRESS
// @entry h_alloc_buffer timeout=100
// @entry h_init_frame timeout=100
// @entry h_decompress timeout=60
#include "decomp.h"
extern "C" void h_alloc_buffer() {
  D s; uint64_t w = V_range("watched", 0, 1u << 30); if (V_mode() == 2) w %= s.R - s.Dd + 1;
  bool in = w < s.R - s.Dd; uint8_t old = 0; if (in) old = s.d.compressedBuffer_[s.Dd + w];
  uint64_t n = V_range("request", 0, 1u << 30);
  uint8_t* p = (uint8_t*)s.d.allocateCompressedDataBuffer(n);
  V_assert(s.d.decodedSize_ <= s.d.readSize_ && s.d.readSize_ <= s.d.compressedBuffer_.size(), "within the buffer");
  V_assert(s.d.readSize_ - s.d.decodedSize_ == s.R - s.Dd + n, "the request is added to what is not decoded yet");
  V_assert(p == s.d.compressedBuffer_.data() + (s.d.readSize_ - n), "the space returned follows it");
  if (in) V_assert(s.d.compressedBuffer_[s.d.decodedSize_ + w] == old, "bytes not decoded yet are kept, in order");
  V_assert(s.d.getRemainingCompressedDataBufferSize() == s.R - s.Dd + n, "remaining bytes");
}
extern "C" void h_init_frame() {
  D s; Src f; setup(s, f);
  uint64_t max0 = V_range("limit", 0, 1u << 31), max = max0, p0 = f.pos; V_assume(max0 <= (uint64_t)f.size - p0);
  size_t out = 0;
  int st = s.d.initFrame(f, out, max);
  V_assert(max <= max0 && (f.failed || max0 - max == (uint64_t)f.pos - p0), "the limit counts every byte read");
  V_assert((uint64_t)f.pos <= p0 + max0, "nothing is read past the limit");
  if (f.failed) V_assert(st != 0, "read failures are reported");
  if (st == 0) {
    V_assert(out < (uint64_t)-2, "unknown and invalid frame sizes are errors");
    V_assert(s.d.readSize_ - s.d.decodedSize_ == (uint64_t)f.pos, "what was read is kept for the frame");
    if (ghost::w < (uint64_t)f.pos) V_assert(s.d.compressedBuffer_[s.d.decodedSize_ + ghost::w] == f.data[ghost::w], "in order");
  }
}
extern "C" void h_decompress() {
  D s; ghost::exact = false;
  uint64_t have = s.R - s.Dd; uint8_t dst[1]; uint32_t cap = V_u32("destination"), got = 77; ghost::dst = dst; ghost::dstSize = cap; ghost::made = 0;
  uint8_t* content = (uint8_t*)V_alloc("content", have, 1); if (have) memcpy(s.d.compressedBuffer_.data() + s.Dd, content, have);
  ghost::file = content; ghost::fpos = have; ghost::w = V_range("watched", 0, 1u << 30); V_assume(have == 0 || ghost::w < have);
  ghost::exact = true;
  bool lz4 = V_bool("lz4");
  s.d.setCompressionType(lz4 ? CompressionType::Lz4 : CompressionType::Zstd);
  int st = s.d.decompress(dst, cap, got);
  V_assert((st != 0) == ghost::failed, "codec failures are reported");
  if (!st) {
    V_assert(got == ghost::made && got <= cap, "the bytes produced, no more than asked for");
    V_assert(s.d.getRemainingCompressedDataBufferSize() == have - ghost::eaten, "the bytes consumed are not decoded again");
    V_assert(s.d.getRecommendedInputBufferSize() >= 4096 && s.d.getRecommendedInputBufferSize() <= 2 * 1024 * 1024, "recommended size");
  }
}
