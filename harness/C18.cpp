// C18: deduction of content block sizes from the record size.
// @repo vrs/RecordFormat.cpp vrs/FileFormat.cpp vrs/helpers/Strings.cpp
// @entry h_sizes timeout=100
// @entry h_block_size timeout=60
// @entry h_used timeout=60
// @entry h_type_count bounded timeout=60 unroll=8
#include "v.h"
#include <string.h>
#include <new>
#include <vrs/RecordFormat.h>
using namespace vrs;
namespace {
const size_t kUnknown = ContentBlock::kSizeUnknown;
// Ghost description of the blocks: S(i) is the total of the known sizes before block i, U(i) increases at blocks of unknown size.
uint64_t S(uint64_t i) { return V_uf("S", i); }
uint64_t U(uint64_t i) { return V_uf("U", i); }
bool unknownAt(uint64_t i) { return U(i + 1) != U(i); }
uint64_t sizeAt(uint64_t i) { return S(i + 1) - S(i); }
bool emptyAt(uint64_t i) { return (unsigned)!unknownAt(i) & (unsigned)(sizeAt(i) == 0) & (unsigned)(V_uf("kind", i) & 1); }
static_assert((int)ContentType::CUSTOM == 0 && (int)ContentType::EMPTY == 1 && (int)ContentType::COUNT == 5, "types");
uint64_t typeAt(uint64_t i) { // any type but EMPTY for blocks which are not empty
  uint64_t k = (V_uf("kind", i) >> 1) & 3, e = emptyAt(i);
  return e | ((1 - e) * (k + (k != 0)));
}
void gen(const void*, uint64_t i, void* out) {
  ContentBlock* c = (ContentBlock*)out;
  c->contentType_ = (ContentType)typeAt(i);
  c->size_ = sizeAt(i) | (0 - (uint64_t)unknownAt(i)); // an unknown size is ~0
  c->imageSpec_.imageFormat_ = ImageFormat::JPG; // a type whose size is not known from its dimensions
  c->audioSpec_.audioFormat_ = AudioFormat::OPUS;
}
struct Blocks {
  uint64_t n; ContentBlock* p;
  alignas(RecordFormat) char mem[sizeof(RecordFormat)];
  RecordFormat& f() { return *(RecordFormat*)mem; }
  Blocks(uint64_t max = 1u << 20) {
    V_uf_decl("S", 1, nullptr); V_uf_decl("U", 1, nullptr);
    n = V_size("block count", max, 5);
    V_assume(S(n) < (1ull << 60) && S(0) == 0);
    p = (ContentBlock*)V_alloc_gen("blocks", n, sizeof(ContentBlock), gen, nullptr);
    new (mem) RecordFormat;
    auto& v = f().blocks_._M_impl;
    v._M_start = p; v._M_finish = v._M_end_of_storage = p + n;
  }
};
struct Ctx { uint64_t first, n; };
bool invSum(const void* c, uint64_t k, uint64_t size) {
  const Ctx& x = *(const Ctx*)c;
  return k >= x.first && k <= x.n && U(k) == U(x.first) && size == S(k) - S(x.first);
}
struct Used { uint64_t n, w; };
bool invUsed(const void* c, uint64_t k) { const Used& x = *(const Used*)c; return k <= x.n && (k > x.w || x.w >= x.n || emptyAt(x.w)); }
uint64_t rest(uint64_t first, uint64_t n) { return first >= n ? 0 : U(n) == U(first) ? S(n) - S(first) : kUnknown; }
}
extern "C" void h_sizes() {
  Blocks b;
  Ctx c{V_range("first", 0, b.n), b.n};
  V_inv2(invSum, &c, "sum of the blocks seen");
  V_assert(b.f().getRemainingBlocksSize(c.first) == rest(c.first, b.n), "remaining size is the sum of the remaining blocks, when all are known");
  if (c.first == 0) V_assert(b.f().getRecordSize() == rest(0, b.n), "record size is the sum of its blocks, when all are known");
  V_cover("sizes");
}
extern "C" void h_block_size() {
  Blocks b;
  uint64_t i = V_range("index", 0, b.n), remaining = V_u64("remaining");
  if (V_mode() == 2 && V_bool("small")) remaining %= 200;
  V_assume(i < b.n);
  Ctx c{i + 1, b.n};
  V_inv2(invSum, &c, "sum of the blocks seen");
  uint64_t r = rest(i + 1, b.n);
  uint64_t expect = !unknownAt(i) ? (sizeAt(i) <= remaining ? sizeAt(i) : kUnknown) : r != kUnknown && r <= remaining ? remaining - r : kUnknown;
  V_assert(b.p[i].getBlockSize() == (unknownAt(i) ? kUnknown : sizeAt(i)), "size of one block");
  V_assert(b.f().getBlockSize(i, remaining) == expect, "a block of unknown size takes what the following blocks leave");
  V_cover("block");
}
extern "C" void h_used() {
  Blocks b;
  Used u{b.n, V_range("watched", 0, b.n)};
  V_inv1(invUsed, &u, "blocks dropped are empty");
  uint64_t k = b.f().getUsedBlocksCount();
  V_assert(k <= b.n, "no more used blocks than blocks");
  if (k) V_assert(!emptyAt(k - 1), "the last used block is not empty");
  if (u.w >= k && u.w < b.n) V_assert(emptyAt(u.w), "only trailing empty blocks are not used");
  uint64_t w = V_range("any index", 0, 1u << 21);
  const ContentBlock& cb = b.f().getContentBlock(w);
  if (w < b.n) V_assert(&cb == b.p + w, "block access");
  else V_assert(cb.getContentType() == ContentType::EMPTY && cb.getBlockSize() == 0, "blocks past the end are empty");
  V_cover("used");
}
extern "C" void h_type_count() {
  Blocks b(5);
  uint64_t t = V_range("type", 0, (uint64_t)ContentType::COUNT - 1), k = 0;
  for (uint64_t i = 0; i < b.n; i++) if (typeAt(i) == t) k++;
  V_assert(b.f().getBlocksOfTypeCount((ContentType)t) == k, "blocks of a type counted");
}
