// Library functions given as ordinary code to the verifier (models of libc / libstdc++ internals that ship without a body).
#include <cstddef>
#include <cstdint>
extern "C" {
__attribute__((used)) int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
__attribute__((used)) int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
__attribute__((used)) void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
__attribute__((used)) char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
__attribute__((used)) int isdigit(int c) { return c >= '0' && c <= '9'; }
__attribute__((used)) int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
__attribute__((used)) int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
__attribute__((used)) int isalnum(int c) { return isdigit(c) || isalpha(c); }
__attribute__((used)) int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
__attribute__((used)) int isupper(int c) { return c >= 'A' && c <= 'Z'; }
__attribute__((used)) int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((used)) int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
__attribute__((used)) int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
__attribute__((used)) int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
__attribute__((used)) int isprint(int c) { return c >= 32 && c < 127; }
}
// std::map / std::set node primitives: a plain (unbalanced) binary search tree; ordering and iteration are those of the library.
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color _M_color; _Rb_tree_node_base* _M_parent; _Rb_tree_node_base* _M_left; _Rb_tree_node_base* _M_right; };
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
__attribute__((used)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) { return inc(x); }
__attribute__((used)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) { return inc(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) { return dec(x); }
__attribute__((used)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) { return dec(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((used)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
__attribute__((used)) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) {
  // relink z's in-order neighbours; z is returned for deallocation
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  _Rb_tree_node_base* nx = nullptr; _Rb_tree_node_base* pv = nullptr;
  if (h._M_left == z) nx = inc(z);
  if (h._M_right == z) { pv = (h._M_left == z) ? &h : dec(z); }
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (h._M_left == z) h._M_left = nx;
  if (h._M_right == z) h._M_right = pv;
  return z;
}
// std::list node primitives
namespace __detail {
struct _List_node_base { _List_node_base* _M_next; _List_node_base* _M_prev;
  void _M_hook(_List_node_base* const p) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept; static void swap(_List_node_base& x, _List_node_base& y) noexcept; void _M_reverse() noexcept; };
__attribute__((used)) void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
__attribute__((used)) void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
__attribute__((used)) void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
__attribute__((used)) void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
}
#include "v.h"
extern "C" {
__attribute__((used)) int64_t _ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)(V_u64("clock") >> 1); }
__attribute__((used)) int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)(V_u64("clock") >> 1); }
}
// std::call_once
namespace std { __attribute__((used)) thread_local void* __once_callable; __attribute__((used)) thread_local void (*__once_call)(); }
extern "C" {
__attribute__((used)) int pthread_once(int* f, void (*r)()) { if (!*f) { *f = 2; r(); } return 0; }
__attribute__((used)) int __pthread_key_create(unsigned*, void (*)(void*)) { return 0; }
__attribute__((used)) void __once_proxy() { std::__once_call(); }
}
