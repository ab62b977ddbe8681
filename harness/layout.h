// A DataLayout on regions of arbitrary content, with pieces of the kinds asked for.
#pragma once
#include "v.h"
#include "/repo/vrs/DataLayout.cpp"
namespace lay {
using namespace vrs;
inline uint32_t pick(const char* name, uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t)V_range(name, lo, hi); for (uint32_t i = lo; i < hi; i++) if (v == i) return i; return hi; }
template <class T> void place(std::vector<T>& v, const void* p, uint64_t n) { // v is the n elements at p
  if (V_mode() == 2) { v.assign((const T*)p, (const T*)p + n); return; }
  v._M_impl._M_start = (T*)p; v._M_impl._M_finish = v._M_impl._M_end_of_storage = (T*)p + n;
}
template <class T> void forget(std::vector<T>& v) { if (V_mode() == 2) return; v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr; }
}
