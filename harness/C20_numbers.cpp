// C20: numbers written as text.
// @entry h_int bounded btimeout=200 unroll=60
// @entry h_uint64 bounded btimeout=300 unroll=80
// @entry h_byte_size bounded btimeout=200 unroll=60
#include "v.h"
#include <string.h>
#include "errstub.h"
#include <vrs/helpers/Strings.cpp>
using namespace vrs::helpers;
namespace {
bool digit(uint8_t c) { return c >= '0' && c <= '9'; }
struct Text { uint8_t* s; int n; Text(int max) { n = (int)V_range("length", 0, max); for (int i = 0; i < max; i++) if (n == i) { n = i; break; } s = new uint8_t[n]; for (int i = 0; i < n; i++) s[i] = V_u8("char"); } std::string_view v() { return {(char*)s, (size_t)n}; } };
// leading digits, as a number; over tells it exceeds 64 bits
int digits(const uint8_t* s, int n, uint64_t& v, bool& over) { v = 0; over = false; int i = 0; for (; i < n && digit(s[i]); i++) { unsigned __int128 w = (unsigned __int128)v * 10 + (s[i] - '0'); if (w >> 64) { over = true; } v = (uint64_t)w; } return i; }
}
extern "C" void h_int() {
  Text t(5); bool wide = V_bool("wide"); uint8_t* s = t.s; int n = t.n;
  if (wide) { bool minus = V_bool("minus"); n = 10 + minus; s = new uint8_t[n]; memcpy(s, minus ? "-2147483" : "2147483", 7 + minus); for (int i = n - 3; i < n; i++) s[i] = V_u8("low digit"); }
  int out = 12345; bool ok = readInt(std::string_view((char*)s, n), out);
  bool neg = n > 0 && s[0] == '-'; uint64_t v = 0; int k = 0; for (int i = neg; i < n && digit(s[i]); i++, k++) v = v * 10 + (s[i] - '0');
  bool good = k > 0 && k + neg == n && v <= (neg ? 0x80000000ull : 0x7fffffffull);
  V_assert(ok == good, "accepted exactly when it is an integer which fits, and nothing else");
  if (ok) V_assert((int64_t)out == (neg ? -(int64_t)v : (int64_t)v), "the integer written");
}
extern "C" void h_uint64() {
  Text t(5); bool wide = V_bool("wide"); uint8_t* s = t.s; int n = t.n;
  if (wide) { n = 20; s = new uint8_t[20]; memcpy(s, "1844674407370955", 16); for (int i = 16; i < 20; i++) s[i] = V_u8("low digit"); }
  std::string_view sv((char*)s, n);
  uint64_t out = 5, v; bool over; bool ok = readUInt64(sv, out); int k = digits(s, n, v, over);
  V_assert(ok == (n > 0 && k == n && !over), "accepted exactly when it is a number which fits, and nothing else");
  V_assert(out == (ok ? v : 0), "the number written, or 0");
}
extern "C" void h_byte_size() {
  Text t(6); if (V_bool("wide")) { t.n = 10; t.s = new uint8_t[10]; memcpy(t.s, "16777", 5); for (int i = 5; i < 9; i++) t.s[i] = V_u8("char"); t.s[9] = 'B'; }
  uint64_t out = 5, v; bool over; bool ok = readByteSize(t.v(), out); int k = digits(t.s, t.n, v, over);
  auto low = [&](int i) { return i < t.n ? (t.s[i] | 0x20) : 0; };
  int r = t.n - k; int sh = -1;
  if (k > 0) { if (r == 0) sh = 0; else if (r == 1 && low(k) == 'b') sh = 0; else if (r == 2 && low(k + 1) == 'b') { uint8_t c = low(k); sh = c == 'k' ? 10 : c == 'm' ? 20 : c == 'g' ? 30 : c == 't' ? 40 : c == 'e' ? 50 : -1; } }
  if (sh == 50) return; // not decided: see DESIGN.md
  V_assert(ok == (sh >= 0 && v <= ~0ull >> sh), "accepted exactly when it is a number with a known unit, which fits");
  if (ok) V_assert(out == v << sh, "the size written");
  else if (k == 0) V_assert(out == 0, "0 when there is no number");
}
