// C19: record formats, and what they are made of, read back from their text as they were.
// @repo vrs/Record.cpp vrs/helpers/Strings.cpp
// @flags -DV_REAL_FMT
// @entry h_enums bounded btimeout=120 unroll=60
// @entry h_escape bounded btimeout=120 unroll=60
// @entry h_image bounded btimeout=250 unroll=80
// @entry h_audio bounded btimeout=250 unroll=80
// @entry h_custom bounded btimeout=120 unroll=80
// @entry h_format bounded btimeout=200 unroll=120
// @entry h_tag bounded btimeout=200 unroll=80
// @entry h_tag_text bounded btimeout=200 unroll=80
#include "v.h"
#include <string.h>
#include "errstub.h"
#include <vrs/DataLayout.h>
#include <vrs/RecordFormat.h>
#include <vrs/helpers/EnumStringConverter.h>
#include "scan.h"
#include <vrs/RecordFormat.cpp>
#undef sscanf
#undef istringstream
namespace {
int one(const char* name, int n) { int v = (int)V_range(name, 0, n - 1); for (int i = 0; i < n - 1; i++) if (v == i) return i; return n - 1; }
template <class C, class E> void named(int n) {
  int i = one("value", n); std::string_view s = C::toStringView((E)i);
  V_assert(s.size() > 0 && C::toEnum(s) == (E)i, "each value has a name which reads back as this value");
}
std::string text(const char* name, int max) { int n = one(name, max + 1); char c[8]; for (int i = 0; i < n; i++) c[i] = (char)V_u8("char"); return std::string(c, n); }
uint32_t dim(const char* name) { uint32_t v = V_u32(name); V_assume(v < 1000); return v; }
}
extern "C" void h_enums() {
  switch (one("kind", 5)) {
    case 0: named<ContentTypeConverter, ContentType>((int)ContentType::COUNT); break;
    case 1: named<ImageFormatConverter, ImageFormat>((int)ImageFormat::COUNT); break;
    case 2: named<PixelFormatConverter, PixelFormat>((int)PixelFormat::COUNT); break;
    case 3: named<AudioFormatConverter, AudioFormat>((int)AudioFormat::COUNT); break;
    default: named<AudioSampleFormatConverter, AudioSampleFormat>((int)AudioSampleFormat::COUNT); break;
  }
}
extern "C" void h_escape() {
  std::string s = text("length", 3), e = escapeString(s);
  for (size_t i = 0; i < e.size(); i++) { uint8_t c = (uint8_t)e[i]; V_assert(c > 32 && c < 127 && c != '+' && c != '/', "only characters which are safe in a format"); }
  V_assert(unescapeString(e.c_str(), e.size()) == s, "reads back as it was");
  V_assert(unescapeString(e.c_str(), e.size() + 10) == s, "the terminator ends the text");
}
extern "C" void h_image() {
  int f = one("image format", (int)ImageFormat::COUNT);
  ImageContentBlockSpec s; s.clear(); s.imageFormat_ = (ImageFormat)f;
  bool raw = s.imageFormat_ == ImageFormat::RAW, codec = s.imageFormat_ == ImageFormat::VIDEO || s.imageFormat_ == ImageFormat::CUSTOM_CODEC;
  if (f != 0) {
    int part = one("part", codec ? 5 : raw ? 4 : 3); // the part looked at: the others have some value
    s.pixelFormat_ = part == 0 ? (PixelFormat)one("pixel format", (int)PixelFormat::COUNT) : PixelFormat::GREY8;
    s.width_ = 640; s.height_ = 480;
    if (part == 1) { s.width_ = V_u32("width"); V_assume(s.width_ > 0 && s.width_ < 100000); }
    if (part == 2) { bool dims = V_bool("dimensions"); s.width_ = dims ? dim("width") : 0; s.height_ = dims ? dim("height") : 0; V_assume(!dims || (s.width_ > 0 && s.height_ > 0)); }
    if (part == 3) { if (V_bool("stride")) s.stride_ = dim("stride"); if (V_bool("stride 2")) s.stride2_ = dim("stride 2"); } else if (raw || codec) { s.stride_ = 1000; s.stride2_ = 2000; }
    if (part == 4) { if (V_bool("codec")) s.codecName_ = text("codec length", 2); if (V_bool("quality")) { s.codecQuality_ = V_u8("quality"); V_assume(s.codecQuality_ <= 100); } } else if (codec) { s.codecName_ = "H.264/x"; s.codecQuality_ = 7; }
  }
  ImageContentBlockSpec r(s.asString());
  V_assert(r == s, "an image format reads back as it was");
}
extern "C" void h_audio() {
  int f = one("audio format", (int)AudioFormat::COUNT), p = one("sample case", 5);
  static const AudioSampleFormat kSamples[] = {AudioSampleFormat::UNDEFINED, AudioSampleFormat::S8, AudioSampleFormat::U24_BE, AudioSampleFormat::F64_LE, AudioSampleFormat::MU_LAW};
  AudioContentBlockSpec s; s.clear(); s.audioFormat_ = (AudioFormat)f;
  if (f != 0) {
    s.sampleFormat_ = kSamples[p];
    if (V_bool("channels")) { s.channelCount_ = V_u8("channels"); }
    if (V_bool("stride")) s.sampleFrameStride_ = V_u8("stride");
    if (V_bool("rate")) s.sampleFrameRate_ = dim("rate"); else if (V_bool("count")) s.sampleFrameCount_ = dim("count");
  }
  AudioContentBlockSpec r(s.asString());
  V_assert(r == s, "an audio format reads back as it was");
}
extern "C" void h_custom() {
  bool sized = V_bool("sized"); size_t size = ContentBlock::kSizeUnknown; if (sized) size = dim("size");
  CustomContentBlock c(text("length", 3), size);
  ContentBlock r(c.asString());
  V_assert(r == c && r.getContentType() == ContentType::CUSTOM && r.getBlockSize() == size, "type and size");
  V_assert(r.getCustomContentBlockFormat() == c.getCustomContentBlockFormat(), "the name of the format");
}
extern "C" void h_format() {
  auto block = [](const char* n) -> ContentBlock {
    bool sized = V_bool("sized"); size_t size = ContentBlock::kSizeUnknown; if (sized) size = dim("size");
    switch (one(n, 5)) {
      case 0: return ContentBlock(ContentType::CUSTOM, size);
      case 1: return ContentBlock(ContentType::DATA_LAYOUT, size);
      case 2: return ContentBlock(ImageContentBlockSpec(ImageFormat::VIDEO, "a+b", 10, PixelFormat::GREY8), size);
      case 3: return ContentBlock(AudioContentBlockSpec(AudioFormat::PCM, AudioSampleFormat::S16_LE, 2), size);
      default: return ContentBlock(ContentType::EMPTY, size);
    }
  };
  ContentBlock a = block("first"), b = block("second");
  RecordFormat f = a + b; RecordFormat r(f.asString());
  V_assert(r.getContentBlock(0) == a && r.getContentBlock(1) == b && r == f, "a record format reads back as it was");
}
extern "C" void h_tag() {
  static const Record::Type kTypes[] = {Record::Type::STATE, Record::Type::CONFIGURATION, Record::Type::DATA};
  Record::Type t = kTypes[one("type", 3)]; uint32_t v = V_u32("version");
  V_assume(v < 100000);
  std::string s = RecordFormat::getRecordFormatTagName(t, v);
  Record::Type rt; uint32_t rv;
  V_assert(RecordFormat::parseRecordFormatTagName(s, rt, rv) && rt == t && rv == v, "a record format name reads back");
}
extern "C" void h_tag_text() {
  static const char* kHeads[] = {"RF:Data", "RF:State:", "RF:Configuration:42949672", "R", "DL:Data:"};
  int h = one("head", 5), n = one("length", 4), k = (int)strlen(kHeads[h]); char c[40]; memcpy(c, kHeads[h], k); for (int i = 0; i < n; i++) c[k + i] = (char)V_u8("char");
  std::string s(c, k + n); Record::Type t; uint32_t v;
  bool ok = RecordFormat::parseRecordFormatTagName(s, t, v);
  int d = h == 0 ? 7 : h == 1 ? 8 : h == 2 ? 16 : -1; // where ':' is
  bool good = d >= 0 && d < k + n && c[d] == ':' && d + 1 < k + n; uint64_t w = 0;
  if (good) { int i = d + 1; for (; i < k + n && c[i] != 0; i++) { good = good && c[i] >= '0' && c[i] <= '9'; w = w * 10 + (uint64_t)(c[i] - '0'); } good = good && i > d + 1 && w < 1ull << 32; }
  V_assert(ok == good, "accepted exactly when it is the name of a record format");
  if (ok) V_assert(v == w && t == (h == 0 ? Record::Type::DATA : h == 1 ? Record::Type::STATE : Record::Type::CONFIGURATION), "the type and version named");
}
