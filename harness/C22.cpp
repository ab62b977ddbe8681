// C22: URIs are parsed exactly, or refused.
// @entry h_urldecode bounded btimeout=150 unroll=60
// @entry h_query bounded btimeout=150 unroll=60
// @entry h_parse_uri bounded btimeout=250 unroll=60
// @entry h_location bounded btimeout=100 unroll=60
// @entry h_path bounded btimeout=150 unroll=60
#include "v.h"
#include <string.h>
#include <map>
#include "errstub.h"
#include <vrs/DiskFile.h>
#include <vrs/FileHandlerFactory.h>
namespace vrs {
const string& diskName() { static const string name = "diskfile"; return name; }
const string& asyncName() { static const string name = "asyncdiskfile"; return name; }
template <> const string& DiskFileT<DiskFileChunk>::staticName() { return diskName(); }
#if VRS_ASYNC_DISKFILE_SUPPORTED()
template <> const string& DiskFileT<AsyncDiskFileChunk>::staticName() { return asyncName(); }
#endif
}
#include <vrs/FileSpec.cpp>
using namespace vrs;
namespace { int gColon; bool gCalled; }
// the factory, which gives a handler of its own the uri: any outcome
namespace vrs {
FileHandlerFactory::FileHandlerFactory() {}
FileHandlerFactory& FileHandlerFactory::getInstance() { static FileHandlerFactory& f = *new FileHandlerFactory(); return f; }
int FileHandlerFactory::delegateOpen(const string&, unique_ptr<FileHandler>&) { return 1; }
int FileHandlerFactory::delegateOpen(const FileSpec&, unique_ptr<FileHandler>&) { return 1; }
int FileHandlerFactory::parseUri(FileSpec& s, size_t colon) { gCalled = true; gColon = (int)colon; return V_bool("parsed") ? 0 : INVALID_URI_FORMAT; }
}
namespace {
struct Text { // a text of up to max characters which nothing follows in memory
  uint8_t* s; int n;
  Text(int max, int min = 0) { n = (int)V_range("length", min, max); for (int i = min; i < max; i++) if (n == i) { n = i; break; } s = new uint8_t[n]; for (int i = 0; i < n; i++) s[i] = V_u8("char"); }
  std::string_view v() const { return {(char*)s, (size_t)n}; }
};
int hex(uint8_t c) { if (c >= '0' && c <= '9') return c - '0'; c |= 0x20; return c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
bool alpha(uint8_t c) { c |= 0x20; return c >= 'a' && c <= 'z'; }
bool schemeChar(uint8_t c) { return alpha(c) || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == '_'; }
struct Out { uint8_t s[24]; int n = 0; bool ok = true; bool is(const std::string& o) const { return o.size() == (size_t)n && memcmp(o.data(), s, n) == 0; } };
Out decoded(const uint8_t* s, int b, int e) { // text in which %XX stand for a byte; control characters are refused
  Out o;
  for (int i = b; i < e; i++) {
    uint8_t c = s[i];
    if (c == '%' && i + 2 < e && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) { c = (uint8_t)(hex(s[i + 1]) * 16 + hex(s[i + 2])); i += 2; }
    if (c < 0x20) { o.ok = false; return o; }
    o.s[o.n++] = c;
  }
  return o;
}
struct KV { bool ok = false; Out k, v; };
KV keyValue(const uint8_t* s, int b, int e) {
  KV r; int eq = -1;
  for (int i = b; i < e; i++) if (s[i] == '=') { if (eq >= 0) return r; eq = i; }
  if (eq <= b || eq == e - 1 || eq < 0) return r;
  r.k = decoded(s, b, eq); r.v = decoded(s, eq + 1, e); r.ok = r.k.ok && r.v.ok; return r;
}
}
extern "C" void h_urldecode() {
  Text t(6); std::string out = "x"; Out o = decoded(t.s, 0, t.n);
  int st = FileSpec::urldecode(t.v(), out);
  V_assert((st == 0) == o.ok, "refused exactly when it holds a control character");
  if (st == 0) V_assert(o.is(out), "the text decoded");
}
extern "C" void h_query() {
  Text t(6); std::string k, v; KV e = keyValue(t.s, 0, t.n);
  int st = FileSpec::decodeQuery(t.v(), k, v);
  V_assert((st == 0) == e.ok, "accepted exactly when it is a key and a value");
  if (st == 0) V_assert(e.k.is(k) && e.v.is(v), "the key and the value");
}
extern "C" void h_parse_uri() {
  static const char* kForms[] = {"", "a:", "a:b?c=d", "s:p?"}; int form = (int)V_range("form", 0, 3); for (int i = 0; i < 3; i++) if (form == i) { form = i; break; }
  int f = (int)strlen(kForms[form]); Text t(form == 0 ? 4 : 3);
  int n = f + t.n; uint8_t* s = new uint8_t[n]; memcpy(s, kForms[form], f); memcpy(s + f, t.s, t.n);
  std::string scheme = "x", path = "y"; FileSpec::Extras params; params["z"] = "t";
  int st = FileSpec::parseUri(std::string_view((char*)s, n), scheme, path, params);
  int colon = -1, q = -1; for (int i = n - 1; i >= 0; i--) { if (s[i] == ':') colon = i; if (s[i] == '?') q = i; }
  bool ok = colon != 0 && (colon > 0 || q > 0);
  for (int i = 0; i < colon; i++) ok = ok && (i == 0 ? alpha(s[i]) : schemeChar(s[i]));
  int b = colon + 1, e = q >= 0 ? q : n;
  ok = ok && e > b; Out p; if (ok) { p = decoded(s, b, e); ok = p.ok; }
  V_assert((st == 0) == ok, "accepted exactly when it is a scheme, a path and parameters");
  if (st != 0) { V_assert(scheme.empty() && path.empty(), "nothing is returned when refused"); return; }
  V_assert(p.is(path), "the path, decoded");
  V_assert(colon < 0 ? scheme.empty() : scheme == std::string((char*)s, colon), "the scheme");
  size_t count = 0;
  if (q >= 0) for (int start = q + 1, i = q + 1; i <= n; i++) if (i == n || s[i] == '&' || s[i] == ';') {
    KV kv = keyValue(s, start, i); start = i + 1;
    if (!kv.ok) continue;
    std::string key((char*)kv.k.s, kv.k.n);
    bool later = false; // the last value given counts
    for (int st2 = i + 1, j = i + 1; j <= n; j++) if (j == n || s[j] == '&' || s[j] == ';') { KV o = keyValue(s, st2, j); st2 = j + 1; if (o.ok && o.k.n == kv.k.n && memcmp(o.k.s, kv.k.s, o.k.n) == 0) later = true; }
    if (later) continue;
    count++; auto it = params.find(key); V_assert(it != params.end() && kv.v.is(it->second), "each parameter has the value given");
  }
  V_assert(params.size() == count, "the parameters given, and no other");
}
extern "C" void h_location() {
  Text t(5, 1); FileSpec f; f.fileHandlerName = "s"; f.uri = std::string(t.v());
  std::string l = f.getSourceLocation();
  int colon = -1; for (int i = t.n - 1; i >= 0; i--) if (t.s[i] == ':') colon = i;
  V_assert(l.size() <= (size_t)t.n && memcmp(l.data(), t.s, l.size()) == 0 && (int)l.size() > colon, "the beginning of the uri");
  if (colon < 0) V_assert(l.size() == (size_t)t.n, "the uri when it has no scheme");
}
extern "C" void h_path() { // what is a uri, and what is a path
  Text t(5, 1); V_assume(t.s[0] != '{'); FileSpec f; gCalled = false;
  int colon = -1; for (int i = t.n - 1; i >= 0; i--) if (t.s[i] == ':') colon = i;
  bool isUri = colon > 1; for (int i = 0; i < colon; i++) isUri = isUri && (i == 0 ? alpha(t.s[i]) : schemeChar(t.s[i]));
  int st = f.fromPathJsonUri(t.v(), "");
  if (isUri) { V_assert(gCalled && gColon == colon && f.uri == t.v() && f.fileHandlerName == t.v().substr(0, colon), "a uri is given to the handler its scheme names"); return; }
  V_assert(st == 0, "a path is accepted");
  V_assert(f.fileHandlerName == DiskFile::staticName(), "a path is a disk file");
  if (!gCalled) V_assert(f.chunks.size() == 1 && f.chunks[0] == t.v() && f.uri.empty(), "the path given");
}
