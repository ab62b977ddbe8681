// Specification primitives available to contracts and harnesses. In the verifier they are intercepted;
// in native builds (replay, directed testing) they are implemented by native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t V_u64(const char* name);
uint64_t V_u64r(const char* name, uint64_t lo, uint64_t hi);
uint32_t V_u32(const char* name);
uint16_t V_u16(const char* name);
uint8_t V_u8(const char* name);
bool V_bool(const char* name);
double V_f64(const char* name);
void V_assume(bool c);
void V_assert(bool c, const char* name);
void V_lemma(bool c, const char* name);
void V_cover(const char* name);
int V_mode(); // 0: proof, 1: bounded, 2: native
uint64_t V_size(const char* name, uint64_t proofMax, uint64_t boundedMax); // arbitrary value up to the bound
void* V_alloc(const char* name, uint64_t size, uint64_t stride);            // region of arbitrary content
typedef void (*V_gen_t)(const void* ctx, uint64_t i, void* out);
void* V_alloc_gen(const char* name, uint64_t count, uint64_t stride, V_gen_t gen, const void* ctx);
uint64_t V_uf(const char* name, uint64_t i);                // ghost function
uint64_t V_uf2(const char* name, uint64_t i, uint64_t j);
void V_uf_decl(const char* name, int kind, const char* g);  // 1 non-decreasing, 2 strictly increasing, 3 prefix sums of g, 4 prefix sums of g with g < 2^32, 5 prefix sums of g with g < 2 (counts)
typedef bool (*V_inv0_t)(const void* ctx);
typedef bool (*V_inv1_t)(const void* ctx, uint64_t x);
typedef bool (*V_inv2_t)(const void* ctx, uint64_t x, uint64_t y);
void V_inv0(V_inv0_t f, const void* ctx, const char* name);
void V_inv1(V_inv1_t f, const void* ctx, const char* name);
void V_invn(V_inv1_t f, const void* ctx, const char* name); // over the iteration count only
void V_invl(V_inv2_t f, const void* ctx, const char* name); // over a loop variable and a value set before the loop
void V_inv2(V_inv2_t f, const void* ctx, const char* name);
void V_inv_pop();
void V_unroll(int n);
void V_any_bytes(void* p, uint64_t n);
void V_check_failed();
void V_print(const char* name, uint64_t v);
void V_prove_unreachable(const char* name);
}
// arbitrary value in [lo, hi]
static inline uint64_t V_range(const char* name, uint64_t lo, uint64_t hi) { return V_u64r(name, lo, hi); }
// true with a condition natively biased to hold (used where random inputs would rarely satisfy it)
template <class T>
static inline T V_any(const char* name) {
  T t;
  V_any_bytes(&t, sizeof(T));
  return t;
}
