// Contracts of the C library used to parse text: sscanf (the conversions %u, %s, %lf), istringstream and getline.
#pragma once
#include <cstdio>
#include <istream>
#include <sstream>
#include <string>
namespace vscan {
inline bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool lit(const char*& s, const char*& f) { while (*f && *f != '%') { if (*s != *f) return false; s++; f++; } return true; }
inline bool num(const char*& s, unsigned* o) {
  while (space(*s)) s++;
  bool minus = *s == '-'; if (*s == '-' || *s == '+') s++;
  if (*s < '0' || *s > '9') return false;
  unsigned v = 0; for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (unsigned)(*s - '0');
  *o = minus ? 0 - v : v; return true;
}
inline int scan(const char* s, const char* f, unsigned* a) { if (!lit(s, f)) return 0; return num(s, a); }
inline int scan(const char* s, const char* f, unsigned* a, unsigned* b) { if (!lit(s, f) || !num(s, a)) return 0; f += 2; if (!lit(s, f)) return 1; return 1 + num(s, b); }
inline int scan(const char* s, const char* f, char* o) { if (!lit(s, f)) return 0; while (space(*s)) s++; if (!*s) return -1; while (*s && !space(*s)) *o++ = *s++; *o = 0; return 1; }
inline int scan(const char*, const char*, double*) { return 0; } // key frame times are not covered
}
namespace std {
struct VTextStream {
  string t; size_t p = 0; bool end = false;
  VTextStream(const string& s) : t(s) {}
  string str() const { return t; }
  bool eof() const { return end; }
};
inline VTextStream& getline(VTextStream& s, string& o, char d) {
  o.clear();
  for (;;) { if (s.p >= s.t.size()) { s.end = true; return s; } char c = s.t[s.p++]; if (c == d) return s; o.push_back(c); }
}
}
#define sscanf vscan::scan
#define istringstream VTextStream
