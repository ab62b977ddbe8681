// fmt model. By default formatted text is unspecified (a fixed placeholder): no property reads it. With V_REAL_FMT the
// subset used for text that matters is implemented: literal text, {{ }}, {} {:x} {:#x} {:X} {:0Nx} for integers, {} for strings.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
namespace fmt {
#ifdef V_REAL_FMT
namespace vdetail {
inline void putU(std::string& o, unsigned long long v, unsigned base, bool upper, int width, char pad) {
  char b[70]; int n = 0;
  do { unsigned d = (unsigned)(v % base); b[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)); v /= base; } while (v);
  for (int i = n; i < width; i++) o.push_back(pad);
  while (n) o.push_back(b[--n]);
}
struct Spec { bool alt = false, upper = false, hex = false, zero = false; int width = 0; };
template <class T>
inline void put(std::string& o, const Spec& s, const T& v) {
  if constexpr (std::is_same_v<T, char>) o.push_back(v);
  else if constexpr (std::is_same_v<T, bool>) o += v ? "true" : "false";
  else if constexpr (std::is_enum_v<T>) put(o, s, (std::underlying_type_t<T>)v);
  else if constexpr (std::is_integral_v<T>) {
    unsigned long long u; bool neg = false;
    if constexpr (std::is_signed_v<T>) { neg = v < 0; u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; } else u = v;
    if (neg) o.push_back('-');
    if (s.alt && s.hex) o += s.upper ? "0X" : "0x";
    putU(o, u, s.hex ? 16 : 10, s.upper, s.width - (s.alt && s.hex ? 2 : 0) - (neg ? 1 : 0), s.zero ? '0' : ' ');
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) o += std::string_view(v);
  else o += "?";
}
struct Parser { std::string_view f; size_t p = 0;
  bool next(std::string& o, Spec& s) {
    while (p < f.size()) {
      char c = f[p];
      if (c == '{' && p + 1 < f.size() && f[p + 1] == '{') { o.push_back('{'); p += 2; continue; }
      if (c == '}' && p + 1 < f.size() && f[p + 1] == '}') { o.push_back('}'); p += 2; continue; }
      if (c != '{') { o.push_back(c); p++; continue; }
      p++;
      while (p < f.size() && f[p] != '}') {
        char q = f[p++];
        if (q == '#') s.alt = true; else if (q == 'x') s.hex = true; else if (q == 'X') s.hex = s.upper = true;
        else if (q == '0' && s.width == 0) s.zero = true; else if (q >= '0' && q <= '9') s.width = s.width * 10 + (q - '0');
      }
      p++;
      return true;
    }
    return false;
  }
};
}
template <class S, class... A>
inline std::string format(const S& f, const A&... a) {
  std::string o; vdetail::Parser ps{std::string_view(f)};
  (([&] { vdetail::Spec s; if (ps.next(o, s)) vdetail::put(o, s, a); })(), ...);
  vdetail::Spec s; ps.next(o, s);
  return o;
}
#else
template <class S, class... A>
inline std::string format(const S&, const A&...) { return std::string("~"); }
#endif
template <class It, class S, class... A>
inline It format_to(It it, const S& f, const A&... a) { std::string s = fmt::format(f, a...); for (char c : s) *it++ = c; return it; }
template <class... A>
inline void print(const A&...) {}
template <class R>
inline std::string join(const R&, std::string_view) { return std::string("~"); }
template <class T> inline const void* ptr(const T*) { return nullptr; }
template <class S> inline S runtime(S s) { return s; }
}
