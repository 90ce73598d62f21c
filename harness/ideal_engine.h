// A one-party engine that computes on plain values: the oracle side of scheduler harnesses. It follows the
// contract of ISecretShareEngine: results of scheduled operations exist only after executeScheduledOperations
// and only until the next one.
#pragma once
#include "vf.h"
#include <stdexcept>
#include "fbpcf/engine/ISecretShareEngine.h"
class IdealEngine final : public fbpcf::engine::ISecretShareEngine {
  using VB = std::vector<bool>;
  using VI = std::vector<uint64_t>;
  struct Sched { std::vector<bool> a; std::vector<VB> b, c; std::vector<std::vector<VB>> d; std::vector<uint64_t> m; std::vector<VI> bm; } s_, r_;
  static void same(size_t a, size_t b) { if (a != b) throw std::invalid_argument("sizes differ"); }
  template <class F> static VB map2(const VB& a, const VB& b, F f) { same(a.size(), b.size()); VB r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = f((bool)a[i], (bool)b[i]); return r; }
  template <class F> static VI map2i(const VI& a, const VI& b, F f) { same(a.size(), b.size()); VI r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = f(a[i], b[i]); return r; }
  static VB inv(const VB& a) { VB r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = !a[i]; return r; }
  static bool X(bool a, bool b) { return a ^ b; }
  static bool N(bool a, bool b) { return a & b; }

 public:
  int rounds = 0;
  bool setInput(int, std::optional<bool> v) override { return v.value(); }
  VB setBatchInput(int, const VB& v) override { return v; }
  uint64_t setIntegerInput(int, std::optional<uint64_t> v) override { return v.value(); }
  VI setBatchIntegerInput(int, const VI& v) override { return v; }
  bool computeSymmetricXOR(bool a, bool b) const override { return a ^ b; }
  VB computeBatchSymmetricXOR(const VB& a, const VB& b) const override { return map2(a, b, X); }
  bool computeAsymmetricXOR(bool a, bool b) const override { return a ^ b; }
  VB computeBatchAsymmetricXOR(const VB& a, const VB& b) const override { return map2(a, b, X); }
  bool computeSymmetricNOT(bool a) const override { return !a; }
  VB computeBatchSymmetricNOT(const VB& a) const override { return inv(a); }
  bool computeAsymmetricNOT(bool a) const override { return !a; }
  VB computeBatchAsymmetricNOT(const VB& a) const override { return inv(a); }
  bool computeFreeAND(bool a, bool b) const override { return a & b; }
  VB computeBatchFreeAND(const VB& a, const VB& b) const override { return map2(a, b, N); }
  uint32_t scheduleAND(bool a, bool b) override { s_.a.push_back(a & b); return s_.a.size() - 1; }
  uint32_t scheduleBatchAND(const VB& a, const VB& b) override { s_.b.push_back(map2(a, b, N)); return s_.b.size() - 1; }
  uint32_t scheduleCompositeAND(bool a, VB b) override { VB r(b.size()); for (size_t i = 0; i < b.size(); i++) r[i] = a & (bool)b[i]; s_.c.push_back(r); return s_.c.size() - 1; }
  uint32_t scheduleBatchCompositeAND(const VB& a, const std::vector<VB>& b) override { std::vector<VB> r; for (auto& x : b) r.push_back(map2(a, x, N)); s_.d.push_back(r); return s_.d.size() - 1; }
  VB computeBatchANDImmediately(const VB& a, const VB& b) override { return map2(a, b, N); }
  bool getANDExecutionResult(uint32_t i) const override { return r_.a.at(i); }
  const VB& getBatchANDExecutionResult(uint32_t i) const override { return r_.b.at(i); }
  const VB& getCompositeANDExecutionResult(uint32_t i) const override { return r_.c.at(i); }
  const std::vector<VB>& getBatchCompositeANDExecutionResult(uint32_t i) const override { return r_.d.at(i); }
  uint64_t computeSymmetricPlus(uint64_t a, uint64_t b) const override { return a + b; }
  VI computeBatchSymmetricPlus(const VI& a, const VI& b) const override { return map2i(a, b, [](uint64_t x, uint64_t y) { return x + y; }); }
  uint64_t computeAsymmetricPlus(uint64_t a, uint64_t b) const override { return a + b; }
  VI computeBatchAsymmetricPlus(const VI& a, const VI& b) const override { return map2i(a, b, [](uint64_t x, uint64_t y) { return x + y; }); }
  uint64_t computeSymmetricNeg(uint64_t a) const override { return 0 - a; }
  VI computeBatchSymmetricNeg(const VI& a) const override { VI r; for (auto x : a) r.push_back(0 - x); return r; }
  uint64_t computeFreeMult(uint64_t a, uint64_t b) const override { return a * b; }
  VI computeBatchFreeMult(const VI& a, const VI& b) const override { return map2i(a, b, [](uint64_t x, uint64_t y) { return x * y; }); }
  uint32_t scheduleMult(uint64_t a, uint64_t b) override { s_.m.push_back(a * b); return s_.m.size() - 1; }
  uint32_t scheduleBatchMult(const VI& a, const VI& b) override { s_.bm.push_back(map2i(a, b, [](uint64_t x, uint64_t y) { return x * y; })); return s_.bm.size() - 1; }
  VI computeBatchMultImmediately(const VI& a, const VI& b) override { return map2i(a, b, [](uint64_t x, uint64_t y) { return x * y; }); }
  uint64_t getMultExecutionResult(uint32_t i) const override { return r_.m.at(i); }
  const VI& getBatchMultExecutionResult(uint32_t i) const override { return r_.bm.at(i); }
  VB revealToParty(int id, const VB& v) const override { return id == 0 ? v : VB(v.size()); }
  VI revealToParty(int id, const VI& v) const override { return id == 0 ? v : VI(v.size()); }
  void executeScheduledOperations() override { r_ = std::move(s_); s_ = {}; rounds++; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
