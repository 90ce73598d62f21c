#pragma once
#include <cstdint>
extern "C" uint64_t vf_sym(const char*, uint32_t);
namespace folly {
struct Random {
  static uint32_t rand32() { return (uint32_t)vf_sym("folly_rand", 32); }
  static uint32_t rand32(uint32_t n) { return n ? rand32() % n : 0; }
  static uint64_t rand64() { return vf_sym("folly_rand64", 64); }
  static uint32_t secureRand32() { return rand32(); }
  static uint64_t secureRand64() { return rand64(); }
  template <class A, class B> static uint32_t rand32(A lo, B hi) { return lo + rand32() % (hi - lo); }
};
} // namespace folly
