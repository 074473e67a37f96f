// Harness interface. In the symbolic run these are engine primitives; in a native
// replay (vp_native.cpp) the recorded input bytes are fed back in order.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void vp_symbolic(void* p, size_t n, const char* name);   // n arbitrary bytes
void vp_symbolic_num(void* p, size_t n, const char* name); // the same, n <= 8, for values that are computed with
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_reach(const char* label);                        // must be reached on some path
uint64_t vp_param(unsigned i);
bool vp_native();
long vp_live();                                          // live heap allocations
uint64_t vp_concrete(uint64_t v);                        // fork over the values of v
void vp_print(const char* label, uint64_t v);
bool vp_and(bool a, bool b);                             // no fork
bool vp_or(bool a, bool b);
uint64_t vp_ite(bool c, uint64_t a, uint64_t b);
bool vp_eq_bytes(const void* a, const void* b, size_t n);
}
template <typename T> inline T vp_any(const char* name) { T v; vp_symbolic(&v, sizeof(T), name); return v; }
inline bool vp_bool(const char* name) { unsigned char c; vp_symbolic(&c, 1, name); vp_assume(c <= 1); return c != 0; }
// symbolic value in [lo, hi]
inline uint64_t vp_range(uint64_t lo, uint64_t hi, const char* name)
{
    if(hi < 256) { unsigned char c; vp_symbolic(&c, 1, name); vp_assume(vp_and(c >= lo, c <= hi)); return c; }
    uint64_t c; vp_symbolic(&c, 8, name); vp_assume(vp_and(c >= lo, c <= hi)); return c;
}
// symbolic value in [lo, hi], made concrete by forking
inline uint64_t vp_pick(uint64_t lo, uint64_t hi, const char* name) { return vp_concrete(vp_range(lo, hi, name)); }
template <typename T> inline T vp_num(const char* name) { T v; vp_symbolic_num(&v, sizeof(T), name); return v; }
