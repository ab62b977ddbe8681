// Native implementation of the specification primitives: replays a verifier model, or draws directed random inputs.
#include "v.h"
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <exception>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
using std::string;
namespace {
jmp_buf gJ;
uint64_t rs[2];
uint64_t rnd() { uint64_t a = rs[0], b = rs[1]; rs[0] = b; a ^= a << 23; rs[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rs[1] + b; }
struct FI { bool hasElse = false; uint64_t els = 0; std::map<std::vector<uint64_t>, uint64_t> m; };
std::map<string, std::deque<uint64_t>> mIn, curIn;
std::map<string, FI> mRg, mUf;
std::map<string, std::pair<int, string>> ufDecl;
std::map<string, std::map<uint64_t, uint64_t>> memo, prefixMemo;
std::map<string, int> allocCnt;
std::vector<uint64_t> drawn;
std::vector<std::pair<string, uint64_t>> logv;
std::map<string, uint64_t> covers;
bool gModel = false;
int profile = 0;
uint64_t curIter = 0, curSeed = 0;
const char* gEntry = "";
uint64_t small() { return rnd() % 9; }
uint64_t draw(unsigned bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
  unsigned k = rnd() % 16;
  if (profile == 1) k = k % 6;
  if (k < 4) v = small();
  else if (k < 6) v = rnd() % 300;
  else if (k < 8 && !drawn.empty()) { v = drawn[rnd() % drawn.size()]; unsigned z = rnd() % 6; if (z == 1) v++; else if (z == 2) v--; else if (z == 3) v += drawn[rnd() % drawn.size()]; else if (z == 4) v += small(); }
  else if (k < 10) { v = 1ull << (rnd() % bits); v += (int64_t)(rnd() % 5) - 2; }
  else if (k < 12) v = m - small();
  else if (k < 13) v = rnd() & ((1ull << (1 + rnd() % (bits == 64 ? 63 : bits))) - 1);
  else if (k < 14) v = 0;
  else v = rnd();
  v &= m; drawn.push_back(v); return v;
}
bool fromModel(const char* n, uint64_t& v) {
  if (!gModel) return false;
  auto it = curIn.find(n);
  if (it == curIn.end() || it->second.empty()) return false;
  v = it->second.front(); it->second.pop_front(); return true;
}
uint64_t in(const char* n, unsigned bits) {
  uint64_t v;
  if (!fromModel(n, v)) v = gModel ? 0 : draw(bits);
  if (bits < 64) v &= (1ull << bits) - 1;
  logv.push_back({n, v}); return v;
}
void fillRandom(uint8_t* p, uint64_t n) {
  unsigned k = rnd() % 8;
  for (uint64_t i = 0; i < n; i++)
    p[i] = k < 3 ? rnd() : k == 3 ? rnd() % 3 : k == 4 ? (rnd() % 4 ? 0 : rnd()) : k == 5 ? 0xff - rnd() % 3 : k == 6 ? ' ' + rnd() % 95 : 0;
}
[[noreturn]] void fail(const char* kind, const char* name) {
  fprintf(stderr, "NATIVE-FAIL %s: %s  entry=%s seed=%llu iter=%llu\n", kind, name, gEntry, (unsigned long long)curSeed, (unsigned long long)curIter);
  for (auto& l : logv) fprintf(stderr, "  input %s = %llu (0x%llx)\n", l.first.c_str(), (unsigned long long)l.second, (unsigned long long)l.second);
  fflush(stderr);
  _exit(1);
}
void onAlarm(int) { fail("hang", "no progress within the CPU limit"); }
void onAbort(int) { fail("crash", "abort signal"); }
uint64_t prefix(const string& n, int kind, const string& g, uint64_t i);
uint64_t ufValue(const string& n, uint64_t i) {
  auto d = ufDecl.find(n);
  if (d != ufDecl.end()) return prefix(n, d->second.first, d->second.second, i);
  // is n the increment function of some prefix sum with model points?
  if (gModel) {
    for (auto& u : ufDecl) if (u.second.first >= 3 && u.second.second == n) return prefix(u.first, u.second.first, n, i + 1) - prefix(u.first, u.second.first, n, i);
    auto& f = mUf[n]; auto it = f.m.find({i}); return it != f.m.end() ? it->second : f.els;
  }
  auto& mm = memo[n];
  auto it = mm.find(i); if (it != mm.end()) return it->second;
  bool inc = false; for (auto& u : ufDecl) if (u.second.second == n) { inc = true; if (u.second.first == 5) return mm[i] = rnd() & 1; }
  uint64_t v = inc ? (rnd() % 40 == 0 ? rnd() % 100000 : rnd() % 40) : draw(64);
  return mm[i] = v;
}
uint64_t prefix(const string& n, int kind, const string& g, uint64_t i) {
  if (gModel) {
    std::map<uint64_t, uint64_t> pts;
    for (auto& kv : mUf[n].m) if (kv.first.size() == 1) pts[kv.first[0]] = kv.second;
    if (kind >= 3) { pts[0] = 0; for (auto& kv : mUf[g].m) if (pts.count(kv.first[0]) && !pts.count(kv.first[0] + 1)) pts[kv.first[0] + 1] = pts[kv.first[0]] + kv.second; }
    auto it = pts.upper_bound(i);
    if (it == pts.begin()) { uint64_t d = it == pts.end() ? 0 : it->first - i; uint64_t b = it == pts.end() ? 0 : it->second; return kind == 2 ? b - d : b; }
    auto p = std::prev(it);
    if (p->first == i) return p->second;
    if (kind == 5) return it == pts.end() ? p->second : std::min(p->second + (i - p->first), it->second);
    return kind == 2 ? p->second + (i - p->first) : p->second;
  }
  if (i > 5000000) longjmp(gJ, 2);
  auto& pm = prefixMemo[n];
  if (pm.empty()) pm[0] = kind >= 3 ? 0 : draw(20);
  uint64_t k = pm.rbegin()->first, v = pm.rbegin()->second;
  while (k < i) { v += kind >= 3 ? ufValue(g, k) : kind == 2 ? 1 + (rnd() % 4 ? 0 : rnd() % 20) : (rnd() % 3 ? rnd() % 20 : 0); pm[++k] = v; }
  return pm[i];
}
} // namespace
extern "C" {
uint64_t V_u64(const char* n) { return in(n, 64); }
uint64_t V_u64r(const char* n, uint64_t lo, uint64_t hi) {
  if (lo > hi) longjmp(gJ, 1);
  uint64_t v;
  if (!fromModel(n, v)) { v = gModel ? lo : draw(64); if (v < lo || v > hi) v = hi - lo == ~0ull ? v : rnd() % 3 ? lo + v % (hi - lo + 1) : rnd() % 2 ? lo : hi; }
  if (v < lo || v > hi) longjmp(gJ, 1);
  drawn.push_back(v); logv.push_back({n, v}); return v;
}
uint32_t V_u32(const char* n) { return (uint32_t)in(n, 32); }
uint16_t V_u16(const char* n) { return (uint16_t)in(n, 16); }
uint8_t V_u8(const char* n) { return (uint8_t)in(n, 8); }
bool V_bool(const char* n) { uint64_t v; if (!fromModel(n, v)) v = gModel ? 0 : rnd(); logv.push_back({n, v & 1}); return v & 1; }
double V_f64(const char* n) {
  uint64_t v;
  if (!fromModel(n, v)) {
    if (gModel) v = 0;
    else {
      static const double sp[] = {0, -0.0, 1, -1, 0.5, 1e-9, 1e300, -1e300, 1e18, 3.25, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
      unsigned k = rnd() % 6; double d = k == 0 ? sp[rnd() % 13] : k < 4 ? (double)(int64_t)(rnd() % 2001) / 8 - 100 : (double)(int64_t)rnd() / 4294967296.0;
      memcpy(&v, &d, 8);
      if (k == 5) v = rnd();
    }
  }
  logv.push_back({n, v}); double d; memcpy(&d, &v, 8); return d;
}
void V_assume(bool c) { if (!c) longjmp(gJ, 1); }
void V_assert(bool c, const char* n) { if (!c) fail("assertion", n); }
void V_lemma(bool c, const char* n) { if (!c) fail("lemma", n); }
void V_cover(const char* n) { covers[n]++; }
int V_mode() { return 2; }
uint64_t V_size(const char* n, uint64_t pm, uint64_t bm) {
  uint64_t v;
  if (!fromModel(n, v)) {
    if (gModel) v = 0;
    else {
      unsigned k = rnd() % 8; uint64_t lim = k < 3 ? bm : k < 7 ? 4 * bm + 4 : 40 * bm + 8;
      if (lim > pm) lim = pm;
      v = rnd() % (lim + 1);
    }
  }
  drawn.push_back(v); logv.push_back({n, v}); return v;
}
void* V_alloc(const char* n, uint64_t size, uint64_t stride) {
  if (size > (3ull << 30)) longjmp(gJ, 2);
  int c = allocCnt[n]++;
  string nm = n; if (c) nm += "~" + std::to_string(c);
  uint8_t* p = (uint8_t*)malloc(size);
  if (!p) longjmp(gJ, 2);
  if (!gModel) { fillRandom(p, size); return p; }
  memset(p, 0, size);
  if (stride <= 1) {
    auto& f = mRg[nm];
    if (f.hasElse) memset(p, (int)f.els, size);
    for (auto& kv : f.m) if (kv.first[0] < size) p[kv.first[0]] = (uint8_t)kv.second;
  } else {
    for (auto& r : mRg) {
      unsigned fo, fw; char tail;
      if (r.first.compare(0, nm.size() + 1, nm + ".") || sscanf(r.first.c_str() + nm.size(), ".%u.%u%c", &fo, &fw, &tail) != 2) continue;
      if (r.second.hasElse && r.second.els) for (uint64_t i = 0; i * stride + fo + fw <= size; i++) memcpy(p + i * stride + fo, &r.second.els, fw < 8 ? fw : 8);
      for (auto& kv : r.second.m) if (kv.first[0] <= size && kv.first[0] * stride + fo + fw <= size) memcpy(p + kv.first[0] * stride + fo, &kv.second, fw < 8 ? fw : 8);
    }
  }
  return p;
}
void* V_alloc_gen(const char*, uint64_t count, uint64_t stride, V_gen_t g, const void* ctx) {
  if (count > 50000000 || count * stride > (3ull << 30)) longjmp(gJ, 2);
  uint8_t* p = (uint8_t*)malloc(count * stride);
  if (!p) longjmp(gJ, 2);
  memset(p, 0, count * stride);
  for (uint64_t i = 0; i < count; i++) g(ctx, i, p + i * stride);
  return p;
}
uint64_t V_uf(const char* n, uint64_t i) { return ufValue(n, i); }
uint64_t V_uf2(const char* n, uint64_t i, uint64_t j) {
  if (gModel) { auto& f = mUf[n]; auto it = f.m.find({i, j}); return it != f.m.end() ? it->second : f.els; }
  auto& mm = memo[string(n) + "#" + std::to_string(i)];
  auto it = mm.find(j); if (it != mm.end()) return it->second;
  return mm[j] = draw(64);
}
void V_uf_decl(const char* n, int kind, const char* g) { ufDecl[n] = {kind, g ? g : ""}; }
void V_inv0(V_inv0_t, const void*, const char*) {}
void V_inv1(V_inv1_t, const void*, const char*) {}
void V_invl(V_inv2_t, const void*, const char*) {}
void V_invn(V_inv1_t, const void*, const char*) {}
void V_inv2(V_inv2_t, const void*, const char*) {}
void V_inv_pop() {}
void V_unroll(int) {}
void V_any_bytes(void* p, uint64_t n) {
  if (gModel) {
    memset(p, 0, n);
    uint64_t i = 0;
    while (i < n) { uint64_t v, w = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1; if (fromModel("any", v)) memcpy((uint8_t*)p + i, &v, w); i += w; }
  } else if (n <= 8) { uint64_t v = draw(64); memcpy(p, &v, n); }
  else fillRandom((uint8_t*)p, n);
}
void V_check_failed() { longjmp(gJ, 3); }
void V_print(const char* n, uint64_t v) { if (getenv("V_PRINT")) fprintf(stderr, "[print] %s = %llu\n", n, (unsigned long long)v); }
void V_prove_unreachable(const char* n) { fail("reached", n); }
const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=1:detect_stack_use_after_return=0:detect_container_overflow=0:handle_abort=0"; }
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
  double secs = 2; uint64_t seed = 1, only = ~0ull, maxIter = ~0ull; string entry, model;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--secs") secs = atof(argv[++i]);
    else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--iter") only = strtoull(argv[++i], 0, 10);
    else if (a == "--max-iter") maxIter = strtoull(argv[++i], 0, 10);
    else if (a == "--model") model = argv[++i];
  }
  gEntry = entry.c_str(); curSeed = seed;
  auto f = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
  if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  if (!model.empty()) {
    gModel = true;
    FILE* m = fopen(model.c_str(), "r"); char* line = nullptr; size_t cap = 0;
    while (m && getline(&line, &cap, m) > 0) {
      std::vector<string> w; for (char* t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t);
      auto num = [](const string& s) { return strtoull(s.c_str(), 0, 10); };
      if (w.size() == 3 && w[0] == "in") mIn[w[1]].push_back(num(w[2]));
      else if (w.size() == 3 && (w[0] == "rgelse" || w[0] == "ufelse")) { auto& fi = (w[0][0] == 'r' ? mRg : mUf)[w[1]]; fi.hasElse = true; fi.els = num(w[2]); }
      else if (w.size() >= 4 && (w[0] == "rg" || w[0] == "uf")) { std::vector<uint64_t> k; for (size_t i = 2; i + 1 < w.size(); i++) k.push_back(num(w[i])); (w[0] == "rg" ? mRg : mUf)[w[1]].m[k] = num(w.back()); }
    }
    if (m) fclose(m);
  }
  signal(SIGPROF, onAlarm); signal(SIGABRT, onAbort);
  double t0 = now();
  volatile uint64_t done = 0, rejected = 0, big = 0, ended = 0, threw = 0;
  volatile uint64_t it = only != ~0ull ? only : 0;
  for (;; it = it + 1) {
    curIter = it;
    rs[0] = seed * 0x9E3779B97F4A7C15ull + 1; rs[1] = it * 0xD1342543DE82EF95ull + 7; for (int i = 0; i < 8; i++) rnd();
    profile = rnd() % 4;
    curIn = mIn; memo.clear(); prefixMemo.clear(); ufDecl.clear(); allocCnt.clear(); drawn.clear(); logv.clear();
    itimerval tv{}; tv.it_value.tv_sec = 30; setitimer(ITIMER_PROF, &tv, nullptr);
    int r = setjmp(gJ);
    if (r == 0) {
      try { f(); done = done + 1; }
      catch (std::bad_alloc&) { threw = threw + 1; }
      catch (std::length_error&) { threw = threw + 1; }
      catch (std::exception& e) { fail("exception", e.what()); }
    } else if (r == 1) rejected = rejected + 1; else if (r == 2) big = big + 1; else ended = ended + 1;
    if (gModel || only != ~0ull || now() - t0 > secs || it + 1 >= maxIter) break;
  }
  printf("{\"entry\":\"%s\",\"completed\":%llu,\"rejected\":%llu,\"too_big\":%llu,\"checks\":%llu,\"threw\":%llu,\"iterations\":%llu,\"covers\":{", gEntry, (unsigned long long)done, (unsigned long long)rejected, (unsigned long long)big, (unsigned long long)ended, (unsigned long long)threw, (unsigned long long)it + 1);
  bool first = true; for (auto& c : covers) { printf("%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
  printf("}}\n");
  fflush(stdout);
  _exit(0);
}
