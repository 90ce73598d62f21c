// The block cipher taken as an arbitrary function of key and block: equal keys and blocks give equal results and
// nothing else is assumed. (The cipher itself is property E07.) Replaces fbpcf/engine/util/aes.cpp.
#pragma once
#include "vf.h"
#include <immintrin.h>
#include <mutex>
#include "fbpcf/engine/util/aes.h"
namespace aesm {
struct Call { uint64_t k[2], b[2], o[2]; };
inline std::vector<Call> g_calls;
inline std::mutex g_lock;
inline bool g_mix = false; // a fixed function instead of an arbitrary one
inline bool g_mixNoise = false; // a fixed function for keys drawn from system noise (see openssl_model.h)
inline bool same(uint64_t a, uint64_t b) { uint64_t d = a ^ b; return !vf_is_symbolic(d) && d == 0; }
inline __m128i apply(__m128i key, __m128i block) {
  if (g_mix || (g_mixNoise && same(_mm_extract_epi64(key, 1), 0xa5a5a5a5a5a5a5a5ull))) {
    uint64_t a = _mm_extract_epi64(key, 0) * 31 + _mm_extract_epi64(key, 1) * 17 + 5, b = _mm_extract_epi64(block, 0) * 7 + _mm_extract_epi64(block, 1) * 3 + 1;
    uint64_t x = (a ^ b) * 0x9e3779b97f4a7c15ull, y = (x ^ x >> 29 ^ b) * 0xbf58476d1ce4e5b9ull;
    return _mm_set_epi64x(y ^ y >> 31, x ^ y >> 17);
  }
  std::lock_guard<std::mutex> g(g_lock);
  Call c{{(uint64_t)_mm_extract_epi64(key, 0), (uint64_t)_mm_extract_epi64(key, 1)}, {(uint64_t)_mm_extract_epi64(block, 0), (uint64_t)_mm_extract_epi64(block, 1)}, {}};
  for (auto& x : g_calls)
    if (same(x.k[0], c.k[0]) && same(x.k[1], c.k[1]) && same(x.b[0], c.b[0]) && same(x.b[1], c.b[1])) return _mm_set_epi64x(x.o[1], x.o[0]);
  for (auto& o : c.o) o = vf_sym("cipher", 64);
  g_calls.push_back(c);
  return _mm_set_epi64x(c.o[1], c.o[0]);
}
} // namespace aesm
namespace fbpcf::engine::util {
Aes::Aes(__m128i key) { roundKey_.fill(key); }
__m128i Aes::getFixedKey() { return _mm_set_epi64x(0, 0); }
void Aes::encryptInPlace(std::vector<__m128i>& t) const { for (auto& x : t) x = aesm::apply(roundKey_[0], x); }
void Aes::inPlaceHash(std::vector<__m128i>& t) const { for (auto& x : t) x = _mm_xor_si128(aesm::apply(roundKey_[0], x), x); }
} // namespace fbpcf::engine::util
