// C17: geometry and byte sizes of image and audio content.
// @repo vrs/RecordFormat.cpp vrs/FileFormat.cpp vrs/helpers/Strings.cpp
// @entry h_image_geometry timeout=120
// @entry h_image_core timeout=120
// @entry h_audio_geometry timeout=60
// @entry h_equality timeout=60
// @entry h_audio_equality timeout=60
#include "v.h"
#include <string.h>
#include <vrs/RecordFormat.h>
using namespace vrs;
namespace {
const size_t kUnknown = ContentBlock::kSizeUnknown;
// The format's definition of one row of the first plane: groups of g pixels in b bytes (0: no fixed layout).
struct Row { uint32_t g, b; };
Row rowOf(PixelFormat p) {
  switch (p) {
    case PixelFormat::GREY8: case PixelFormat::RGB_IR_RAW_4X4: case PixelFormat::BAYER8_RGGB: case PixelFormat::BAYER8_BGGR: case PixelFormat::BAYER8_GBRG:
    case PixelFormat::YUV_I420_SPLIT: case PixelFormat::YUV_420_NV21: case PixelFormat::YUV_420_NV12: return {1, 1};
    case PixelFormat::GREY10: case PixelFormat::GREY12: case PixelFormat::GREY16: case PixelFormat::BAYER10_GBRG: return {1, 2};
    case PixelFormat::RGB8: case PixelFormat::BGR8: return {1, 3};
    case PixelFormat::DEPTH32F: case PixelFormat::RGBA8: return {1, 4};
    case PixelFormat::RGB10: case PixelFormat::RGB12: return {1, 6};
    case PixelFormat::SCALAR64F: return {1, 8};
    case PixelFormat::RGB32F: return {1, 12};
    case PixelFormat::RGBA32F: return {1, 16};
    case PixelFormat::RAW10: case PixelFormat::RAW10_BAYER_RGGB: case PixelFormat::RAW10_BAYER_BGGR: case PixelFormat::GREY10PACKED: return {4, 5};
    case PixelFormat::YUY2: return {2, 4};
    default: return {0, 0};
  }
}
bool isI420(PixelFormat p) { return p == PixelFormat::YUV_I420_SPLIT; }
bool isNV(PixelFormat p) { return p == PixelFormat::YUV_420_NV21 || p == PixelFormat::YUV_420_NV12; }
PixelFormat anyFormat() { return (PixelFormat)(uint8_t)V_range("pixel format", 0, (uint64_t)PixelFormat::COUNT - 1); }
uint32_t anyDim(const char* n) { uint32_t v = V_u32(n); if (V_mode() == 2 && V_bool("small")) v %= 50; return v; }
struct Img { PixelFormat p; uint32_t w, h, s, s2; };
Img anyImg() {
  Img i{anyFormat(), anyDim("width"), anyDim("height"), anyDim("stride"), anyDim("stride2")};
  Row r = rowOf(i.p);
  V_assume(i.w < 0xfffffff0u && i.h < 0xfffffff0u && ((uint64_t)i.w + 3) * (r.b ? r.b : 1) <= 0xffffffffu * (uint64_t)(r.g ? r.g : 1)); // a row fits in 32 bits
  return i;
}
uint64_t row0(const Img& i) { Row r = rowOf(i.p); return i.s ? i.s : r.g ? ((uint64_t)i.w + r.g - 1) / r.g * r.b : 0; }
uint64_t row1(const Img& i) { return i.s2 && (isI420(i.p) || isNV(i.p)) ? i.s2 : isI420(i.p) ? ((uint64_t)i.w + 1) / 2 : isNV(i.p) ? ((uint64_t)i.w + 1) / 2 * 2 : 0; }
uint32_t planes(PixelFormat p) { return isI420(p) ? 3 : isNV(p) ? 2 : 1; }
void check(const ImageContentBlockSpec& spec, const Img& i) {
  uint64_t r0 = row0(i), r1 = row1(i), hh = ((uint64_t)i.h + 1) / 2;
  V_assert(spec.getStride() == r0, "row size of the first plane");
  V_assert(spec.getPlaneCount() == planes(i.p), "plane count");
  uint32_t k = V_u32("plane");
  if (V_mode() == 2) k %= 5;
  V_assert(spec.getPlaneStride(k) == (k == 0 ? r0 : k < planes(i.p) ? r1 : 0), "row size of each plane");
  V_assert(spec.getPlaneHeight(k) == (k == 0 ? i.h : k < planes(i.p) ? hh : 0), "height of each plane");
  Row r = rowOf(i.p);
  bool plain = r.g == 1 && planes(i.p) == 1;
  V_assert(spec.getBytesPerPixel() == (plain ? r.b : kUnknown), "bytes per pixel");
  uint64_t total = 0; // of the row sizes and heights established above
  for (uint32_t q = 0; q < planes(i.p); q++) total += (uint64_t)spec.getPlaneStride(q) * spec.getPlaneHeight(q);
  bool known = i.p != PixelFormat::UNDEFINED && i.w > 0 && i.h > 0 && total > 0;
  V_assert(spec.getRawImageSize() == (known ? total : kUnknown), "raw image size is the sum of its planes");
}
}
extern "C" void h_image_geometry() {
  Img i = anyImg();
  ImageContentBlockSpec spec(i.p, i.w, i.h, i.s, i.s2);
  V_assert(spec.getWidth() == i.w && spec.getHeight() == i.h && spec.getPixelFormat() == i.p && spec.getImageFormat() == ImageFormat::RAW && spec.getRawStride() == i.s && spec.getRawStride2() == i.s2, "dimensions kept");
  check(spec, i);
  V_assert(spec.getBlockSize() == spec.getRawImageSize(), "raw image blocks have their raw size");
  ContentBlock block(i.p, i.w, i.h, i.s, i.s2);
  V_assert(block.getContentType() == ContentType::IMAGE && block.getBlockSize() == spec.getRawImageSize(), "raw image block size");
  uint32_t c = spec.getChannelCountPerPixel();
  bool colour = i.p == PixelFormat::BGR8 || i.p == PixelFormat::RGB8 || i.p == PixelFormat::RGB10 || i.p == PixelFormat::RGB12 || i.p == PixelFormat::RGB32F || i.p == PixelFormat::RGB_IR_RAW_4X4 || i.p == PixelFormat::YUY2 || isI420(i.p) || isNV(i.p);
  bool alpha = i.p == PixelFormat::RGBA8 || i.p == PixelFormat::RGBA32F;
  V_assert(c == (i.p == PixelFormat::UNDEFINED ? 0 : alpha ? 4 : colour ? 3 : 1), "channel count");
  V_cover("image");
}
extern "C" void h_image_core() {
  Img i = anyImg();
  ImageFormat f = (ImageFormat)(uint8_t)V_range("image format", 0, (uint64_t)ImageFormat::COUNT - 1);
  ImageContentBlockSpec spec(f, i.p, i.w, i.h, i.s, i.s2, "c", V_u8("quality"), V_f64("key"), V_u32("index"));
  check(spec, i);
  if (f != ImageFormat::RAW) V_assert(spec.getBlockSize() == kUnknown, "the size of encoded images is not derived from their dimensions");
  ImageContentBlockSpec core = spec.core();
  V_assert(core.getImageFormat() == f && core.getPixelFormat() == i.p && core.getWidth() == i.w && core.getHeight() == i.h && core.getCodecName() == "c", "the core spec keeps format and dimensions");
  V_assert(core.getStride() == spec.getStride() && core.getRawImageSize() == spec.getRawImageSize(), "the core spec keeps the geometry");
  V_assert(core.getPlaneStride(1) == spec.getPlaneStride(1) || !(isI420(i.p) || isNV(i.p)), "the core spec keeps the geometry of the other planes");
  ContentBlock b(spec, 77);
  V_assert(b.getBlockSize() == 77, "an explicit block size is used as is");
  spec.init(i.p, i.w, i.h, i.s, i.s2);
  V_assert(spec.getPixelFormat() == i.p && spec.getWidth() == i.w && spec.getHeight() == i.h && spec.getRawStride() == i.s && spec.getRawStride2() == i.s2, "a spec initialised again has the new dimensions");
  V_assert(spec.getImageFormat() == ImageFormat::RAW && spec.getCodecName().empty() && spec.getKeyFrameIndex() == 0 && spec.getCodecQuality() == 255, "a spec initialised again keeps nothing");
  V_cover("core");
}
namespace {
uint32_t sampleBits(AudioSampleFormat f) {
  switch (f) {
    case AudioSampleFormat::S8: case AudioSampleFormat::U8: case AudioSampleFormat::A_LAW: case AudioSampleFormat::MU_LAW: return 8;
    case AudioSampleFormat::S16_LE: case AudioSampleFormat::U16_LE: case AudioSampleFormat::S16_BE: case AudioSampleFormat::U16_BE: return 16;
    case AudioSampleFormat::S24_LE: case AudioSampleFormat::U24_LE: case AudioSampleFormat::S24_BE: case AudioSampleFormat::U24_BE: return 24;
    case AudioSampleFormat::S32_LE: case AudioSampleFormat::U32_LE: case AudioSampleFormat::S32_BE: case AudioSampleFormat::U32_BE: case AudioSampleFormat::F32_LE: case AudioSampleFormat::F32_BE: return 32;
    case AudioSampleFormat::F64_LE: case AudioSampleFormat::F64_BE: return 64;
    default: return 0;
  }
}
bool bigEndian(AudioSampleFormat f) {
  return f == AudioSampleFormat::S16_BE || f == AudioSampleFormat::U16_BE || f == AudioSampleFormat::S24_BE || f == AudioSampleFormat::U24_BE || f == AudioSampleFormat::S32_BE || f == AudioSampleFormat::U32_BE || f == AudioSampleFormat::F32_BE || f == AudioSampleFormat::F64_BE;
}
bool isFloat(AudioSampleFormat f) { return f == AudioSampleFormat::F32_LE || f == AudioSampleFormat::F32_BE || f == AudioSampleFormat::F64_LE || f == AudioSampleFormat::F64_BE; }
struct Aud { AudioFormat a; AudioSampleFormat f; uint8_t ch, st; uint32_t rate, n; };
Aud anyAudio() {
  Aud a{(AudioFormat)(uint8_t)V_range("audio format", 1, (uint64_t)AudioFormat::COUNT - 1), (AudioSampleFormat)(uint8_t)V_range("sample format", 0, (uint64_t)AudioSampleFormat::COUNT - 1), V_u8("channels"), V_u8("stride"), V_u32("rate"), V_u32("samples")};
  if (V_mode() == 2 && V_bool("few")) a.ch %= 8;
  V_assume(sampleBits(a.f) / 8 * a.ch <= 255); // frames of up to 255 bytes
  return a;
}
}
extern "C" void h_audio_geometry() {
  Aud a = anyAudio();
  AudioContentBlockSpec spec(a.a, a.f, a.ch, a.st, a.rate, a.n);
  uint32_t bits = sampleBits(a.f), frame = a.st ? a.st : bits / 8 * a.ch;
  V_assert(spec.getAudioFormat() == a.a && spec.getSampleFormat() == a.f && spec.getChannelCount() == a.ch && spec.getSampleRate() == a.rate && spec.getSampleCount() == a.n, "audio parameters kept");
  V_assert(spec.getBitsPerSample() == bits && spec.getBytesPerSample() == bits / 8 && AudioContentBlockSpec::getBytesPerSample(a.f) == bits / 8, "sample size");
  V_assert(spec.isLittleEndian() == !bigEndian(a.f) && spec.isIEEEFloat() == isFloat(a.f), "sample representation");
  V_assert(spec.getSampleFrameStride() == frame, "frame size");
  uint64_t size = (uint64_t)frame * a.n;
  V_assert(spec.getPcmBlockSize() == (size ? size : kUnknown), "audio size is frame size times frame count");
  V_assert(spec.getBlockSize() == (a.a == AudioFormat::PCM && size ? size : kUnknown), "audio block size");
  V_assert(spec.isSampleBlockFormatDefined() == (a.a == AudioFormat::PCM && bits > 0 && a.ch > 0), "format completeness");
  ContentBlock b(a.a, a.f, a.ch, a.st, a.rate, a.n);
  V_assert(b.getContentType() == ContentType::AUDIO && b.getBlockSize() == spec.getBlockSize(), "audio content block size");
  uint32_t m = V_u32("new count");
  spec.setSampleCount(m);
  V_assert(spec.getPcmBlockSize() == ((uint64_t)frame * m ? (uint64_t)frame * m : kUnknown), "audio size follows the sample count");
  V_cover("audio");
}
extern "C" void h_equality() {
  Img i = anyImg(), j = anyImg();
  if (V_mode() == 2) { if (V_bool("same")) j = i; if (V_bool("d")) j.w ^= 1; if (V_bool("d")) j.s2 ^= 1; }
  ImageContentBlockSpec x(i.p, i.w, i.h, i.s, i.s2), y(j.p, j.w, j.h, j.s, j.s2);
  bool same = i.p == j.p && i.w == j.w && i.h == j.h && i.s == j.s && i.s2 == j.s2;
  V_assert((x == y) == same && (x != y) == !same, "image specs are equal exactly when all parameters are");
}
extern "C" void h_audio_equality() {
  Aud a = anyAudio(), b = anyAudio();
  if (V_mode() == 2) { if (V_bool("same")) b = a; if (V_bool("d")) b.n ^= 1; if (V_bool("d")) b.rate ^= 1; }
  AudioContentBlockSpec p(a.a, a.f, a.ch, a.st, a.rate, a.n), q(b.a, b.f, b.ch, b.st, b.rate, b.n);
  uint32_t fa = a.st ? a.st : sampleBits(a.f) / 8 * a.ch, fb = b.st ? b.st : sampleBits(b.f) / 8 * b.ch;
  bool compat = a.f == b.f && a.ch == b.ch && fa == fb && a.rate == b.rate;
  V_assert(p.isCompatibleWith(q) == compat, "audio compatibility");
  V_assert((p == q) == (compat && a.a == b.a && a.n == b.n), "audio specs are equal exactly when all parameters are");
}
