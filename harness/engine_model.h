// What the secret share engine builds on, taken as arbitrary: a pseudo-random generator whose output stream is an
// arbitrary sequence of bytes per key (the same for everyone who has the key), and correlated tuples that satisfy
// their relation and are otherwise arbitrary.
#pragma once
#define VF_RAND_DISTINCT
#include "vf.h"
#include <mutex>
#include "openssl_model.h"
#include "two_party.h"
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
namespace em {
using fbpcf::engine::SecretShareEngine;
using fbpcf::engine::communication::SecretShareEngineCommunicationAgent;
using fbpcf::engine::tuple_generator::IArithmeticTupleGenerator;
using fbpcf::engine::tuple_generator::ITupleGenerator;
using BT = ITupleGenerator::BooleanTuple;
using CT = ITupleGenerator::CompositeBooleanTuple;
using IT = IArithmeticTupleGenerator::IntegerTuple;
inline std::recursive_mutex g_lock;
using Key = std::pair<uint64_t, uint64_t>;
inline std::map<Key, std::vector<uint8_t>> g_stream;
struct Flip { bool on = false; Key key; size_t pos = 0; uint8_t delta = 0; bool used = false; };
inline Flip g_flip;
inline bool g_fixedStream = false; // a fixed stream per key instead of an arbitrary one
inline bool g_fixedTuples = false; // likewise for the tuples
inline uint64_t mix(uint64_t);
inline uint64_t g_next = 0;
inline uint64_t tsym(const char* n, int w) { return g_fixedTuples ? mix(++g_next) >> (64 - w) : vf_sym(n, w); }
inline Key keyOf(__m128i k) { return {(uint64_t)_mm_extract_epi64(k, 0), (uint64_t)_mm_extract_epi64(k, 1)}; }
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ x >> 27) * 0x94d049bb133111ebull;
  return x ^ x >> 31;
}
class Prg final : public fbpcf::engine::util::IPrg {
  Key key_;
  size_t pos_ = 0;
 public:
  explicit Prg(__m128i k) : key_(vf_concrete(keyOf(k).first), vf_concrete(keyOf(k).second)) {}
  bool flips() const { return g_flip.on && g_flip.key == key_ && g_flip.pos == pos_; }
  uint8_t byte() {
    std::lock_guard<std::recursive_mutex> g(g_lock);
    auto& s = g_stream[key_];
    while (s.size() <= pos_) s.push_back(g_fixedStream ? mix(mix(key_.first * 31 + key_.second * 17) + s.size()) >> 40 : vf_sym("stream", 8));
    bool flip = flips();
    if (flip) g_flip.used = true;
    uint8_t v = s[pos_++];
    return flip ? v ^ g_flip.delta : v;
  }
  std::vector<bool> getRandomBits(uint32_t n) override {
    std::vector<bool> r(n);
    for (uint32_t i = 0; i < n; i++) r[i] = byte() & 1;
    return r;
  }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    std::vector<unsigned char> r(n);
    for (auto& x : r) x = byte();
    return r;
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override {
    std::vector<uint64_t> r(n);
    for (auto& x : r) {
      uint64_t add = 0;
      bool on = g_flip.on;
      x = 0;
      for (int k = 0; k < 8; k++) {
        if (flips()) { add = (uint64_t)g_flip.delta << (8 * k); g_flip.used = true; g_flip.on = false; }
        x |= (uint64_t)byte() << (8 * k);
        g_flip.on = on;
      }
      x += add; // a change of a whole word is an addition
    }
    return r;
  }
};
class PrgFactory final : public fbpcf::engine::util::IPrgFactory {
 public:
  std::unique_ptr<fbpcf::engine::util::IPrg> create(__m128i seed) const override { return std::make_unique<Prg>(seed); }
};
// pools of tuples: one row of shares per party; component c is determined by the others at the last party
struct BitRow { std::vector<bool> a; std::vector<std::vector<bool>> b, c; };
struct IntRow { std::vector<uint64_t> a, b, c; };
inline std::map<size_t, std::vector<BitRow>> g_comp; // by number of products; key 0 holds the normal tuples
inline std::vector<IntRow> g_int;
inline const BitRow& bitRow(size_t kind, size_t i, int p) {
  std::lock_guard<std::recursive_mutex> g(g_lock);
  auto& v = g_comp[kind];
  size_t n = kind ? kind : 1;
  while (v.size() <= i) {
    BitRow r;
    bool a = false;
    std::vector<bool> b(n), c(n);
    for (int q = 0; q < p; q++) {
      r.a.push_back(tsym("a", 1));
      a ^= r.a[q];
      r.b.emplace_back(n);
      r.c.emplace_back(n);
      for (size_t k = 0; k < n; k++) {
        r.b[q][k] = tsym("b", 1);
        b[k] = b[k] ^ r.b[q][k];
        r.c[q][k] = q + 1 < p ? tsym("c", 1) : (a & b[k]) ^ c[k];
        c[k] = c[k] ^ r.c[q][k];
      }
    }
    v.push_back(r);
  }
  return v[i];
}
inline const IntRow& intRow(size_t i, int p) {
  std::lock_guard<std::recursive_mutex> g(g_lock);
  while (g_int.size() <= i) {
    IntRow r;
    uint64_t a = 0, b = 0, c = 0;
    for (int q = 0; q < p; q++) {
      r.a.push_back(tsym("a", 64));
      r.b.push_back(tsym("b", 64));
      a += r.a[q];
      b += r.b[q];
      r.c.push_back(q + 1 < p ? tsym("c", 64) : a * b - c);
      c += r.c[q];
    }
    g_int.push_back(r);
  }
  return g_int[i];
}
// one mask of one tuple changed, to see what depends on it
struct TFlip { bool on = false, isInt = false; size_t kind = 0, row = 0, col = 0; uint64_t delta = 0; };
inline TFlip g_tflip;
class Tuples final : public ITupleGenerator {
  int me_, p_;
  bool comp_;
  std::map<size_t, size_t> next_;

 public:
  Tuples(int me, int p, bool comp) : me_(me), p_(p), comp_(comp) {}
  std::vector<BT> getBooleanTuple(uint32_t n) override {
    std::vector<BT> r;
    for (uint32_t i = 0; i < n; i++) {
      size_t k = next_[0]++;
      auto& t = bitRow(0, k, p_);
      bool f = g_tflip.on && !g_tflip.isInt && g_tflip.kind == 0 && g_tflip.row == k;
      r.emplace_back((bool)t.a[me_] ^ (f && g_tflip.col == 0), (bool)t.b[me_][0] ^ (f && g_tflip.col == 1), (bool)t.c[me_][0]);
    }
    return r;
  }
  std::map<size_t, std::vector<CT>> getCompositeTuple(const std::map<size_t, uint32_t>& sizes) override {
    std::map<size_t, std::vector<CT>> r;
    for (auto& [k, n] : sizes) {
      auto& v = r[k];
      for (uint32_t i = 0; i < n; i++) {
        size_t row = next_[k]++;
        auto& t = bitRow(k, row, p_);
        bool f = g_tflip.on && !g_tflip.isInt && g_tflip.kind == k && g_tflip.row == row;
        auto b = t.b[me_];
        if (f && g_tflip.col > 0) b[g_tflip.col - 1] = !b[g_tflip.col - 1];
        v.emplace_back((bool)t.a[me_] ^ (f && g_tflip.col == 0), b, t.c[me_]);
      }
    }
    return r;
  }
  std::pair<std::vector<BT>, std::map<size_t, std::vector<CT>>> getNormalAndCompositeBooleanTuples(uint32_t n, const std::map<size_t, uint32_t>& s) override {
    auto a = getBooleanTuple(n);
    return {a, getCompositeTuple(s)};
  }
  bool supportsCompositeTupleGeneration() override { return comp_; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {1000, 2000}; }
};
class IntTuples final : public IArithmeticTupleGenerator {
  int me_, p_;
  size_t next_ = 0;

 public:
  IntTuples(int me, int p) : me_(me), p_(p) {}
  std::vector<IT> getIntegerTuple(uint32_t n) override {
    std::vector<IT> r;
    for (uint32_t i = 0; i < n; i++) {
      size_t k = next_++;
      auto& t = intRow(k, p_);
      bool f = g_tflip.on && g_tflip.isInt && g_tflip.row == k;
      r.emplace_back(t.a[me_] + (f && g_tflip.col == 0 ? g_tflip.delta : 0), t.b[me_] + (f && g_tflip.col == 1 ? g_tflip.delta : 0), t.c[me_]);
    }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
inline std::unique_ptr<SecretShareEngine> mkEngine(int me, int p, bool comp, std::map<int, std::unique_ptr<IPartyCommunicationAgent>> agents) {
  return std::make_unique<SecretShareEngine>(
      std::make_unique<Tuples>(me, p, comp), std::make_unique<IntTuples>(me, p),
      std::make_unique<SecretShareEngineCommunicationAgent>(me, std::move(agents)), std::make_unique<PrgFactory>(), me, p);
}
// every party runs f(its number, its engine)
template <class F> void engines(int p, bool comp, F f) {
  auto fac = mkFactories(p);
  std::vector<std::function<void()>> fs;
  for (int i = 0; i < p; i++)
    fs.push_back([&, i] {
      auto e = mkEngine(i, p, comp, fbpcf::engine::communication::getAgentMap(p, i, *fac[i]));
      f(i, *e);
    });
  runParties(fs);
}
} // namespace em
