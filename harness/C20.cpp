// C20: stream ids and numbers written as text are read exactly, or refused.
// @entry h_stream_id_safe timeout=60
// @entry h_stream_id bounded btimeout=200 unroll=40
#include "v.h"
#include <string.h>
#include "errstub.h"
#include <vrs/StreamId.cpp>
using namespace vrs;
namespace {
bool digit(uint8_t c) { return c >= '0' && c <= '9'; }
// what the text says: two numbers of 16 bits written with digits only, separated by sep
bool spec(const uint8_t* s, int n, char sep, uint32_t& type, uint32_t& inst) {
  int at = -1;
  for (int i = 0; i < n; i++) if (!digit(s[i])) { if (at >= 0 || s[i] != (uint8_t)sep) return false; at = i; }
  if (at <= 0 || at == n - 1) return false;
  uint64_t a = 0, b = 0;
  for (int i = 0; i < at; i++) a = a * 10 + (s[i] - '0');
  for (int i = at + 1; i < n; i++) b = b * 10 + (s[i] - '0');
  if (a > 0xffff || b > 0xffff) return false;
  type = (uint32_t)a; inst = (uint32_t)b; return true;
}
}
extern "C" void h_stream_id_safe() {
  uint64_t n = V_size("length", 1u << 30, 10); const char* s = (const char*)V_alloc("text", n, 1);
  bool plus = V_bool("plus");
  struct C { const char* s; uint64_t n; } c{s, n};
  StreamId id = plus ? StreamId::fromNumericNamePlus(string_view(s, n)) : StreamId::fromNumericName(string_view(s, n));
  if (n < 3) V_assert(!id.isValid(), "too short for two numbers");
  V_cover("read");
}
extern "C" void h_stream_id() {
  int n = (int)V_range("length", 0, 12); for (int i = 0; i < 12; i++) if (n == i) { n = i; break; }
  uint8_t* s = new uint8_t[n]; for (int i = 0; i < n; i++) s[i] = V_u8("char");
  char sep = V_bool("plus") ? '+' : '-';
  StreamId id = sep == '+' ? StreamId::fromNumericNamePlus(string_view((char*)s, n)) : StreamId::fromNumericName(string_view((char*)s, n));
  uint32_t t = 0, i = 0;
  if (spec(s, n, sep, t, i)) V_assert((uint32_t)id.getTypeId() == t && id.getInstanceId() == i, "the two numbers written");
  else V_assert(!id.isValid(), "anything else is refused");
  V_cover("read");
}
