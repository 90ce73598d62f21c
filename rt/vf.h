// Harness interface. Under vsym these are engine builtins; natively (replay) rt/native.cpp implements them
// over the recorded input values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
uint64_t vf_sym(const char* name, uint32_t bits); // an arbitrary value of that many bits
void vf_assume(bool c);
void vf_check(bool c, const char* msg);
void vf_reach(const char* name); // vacuity witness: every run must report the ones its entry declares
uint64_t vf_concrete(uint64_t v); // case split on the value
bool vf_symbolic_mode();
bool vf_is_symbolic(uint64_t v);
uint64_t vf_cut(uint64_t v); // the same value; for the solver a point at which proofs may be cut
uint64_t vf_canon(uint64_t v); // the same value; for the solver the cut point it provably equals, if there is one
void vf_print(const char* name, uint64_t v);
void vf_fault(const char* msg);
void vf_unsupported(const char* msg);
void vf_explore_schedules(uint32_t preemptions);
void vf_yield();
void vf_end_path();
uint64_t vf_live_heap();
extern bool vf_flat_hash; // hash functions depend on the length of a key only (keeps symbolic keys out of bucket numbers)
}
inline uint64_t vf_range(const char* n, uint64_t lo, uint64_t hi, uint32_t bits = 16) {
  uint64_t v = vf_sym(n, bits);
  vf_assume(v >= lo && v <= hi);
  return v;
}
// a concrete number in [lo, hi], one path for each
inline uint64_t vf_split(const char* n, uint64_t lo, uint64_t hi) {
  uint64_t v = hi > lo ? vf_range(n, lo, hi, hi < 255 ? 8 : 16) : lo;
  return vf_concrete(v);
}
inline bool vf_bool(const char* n) { return vf_sym(n, 1) & 1; }
template <class F>
bool vf_throws(F f) {
  try {
    f();
  } catch (...) {
    return true;
  }
  return false;
}
