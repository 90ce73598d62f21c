// Arbitrary correlated blocks: a pool per direction (sender party), from which both ends take theirs in order.
// Sender's block has its last bit 0, the correlation has it 1, receiver's block = sender's ^ (choice ? correlation : 0).
#pragma once
#include "vf.h"
#include <map>
#include <mutex>
#include "aes_ref.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IFlexibleRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IFlexibleRandomCorrelatedObliviousTransferFactory.h"
namespace otm {
using fbpcf::engine::tuple_generator::oblivious_transfer::IFlexibleRandomCorrelatedObliviousTransfer;
using fbpcf::engine::tuple_generator::oblivious_transfer::IRandomCorrelatedObliviousTransfer;
inline std::mutex g_m;
inline __m128i symBlock(const char* n, int lsb = -1) {
  uint64_t lo = vf_sym(n, 64), hi = vf_sym(n, 64);
  if (lsb >= 0) lo = (lo & ~1ull) | lsb;
  return _mm_set_epi64x(hi, lo);
}
struct Dir {
  __m128i delta;
  std::vector<__m128i> k0;
  std::vector<bool> c;
  size_t sent = 0, got = 0;
};
inline std::map<int, Dir> g_dir; // by sender
inline bool g_splitChoice = true;
inline int g_fixedChoices = -1; // otherwise: the choice bits, periodically: two bits per direction
inline bool g_concrete = false;
inline bool g_byFactory = false; // the correlation is the one the sender brings along
inline Dir& dirLocked(int s) {
  auto it = g_dir.find(s);
  if (it == g_dir.end()) {
    it = g_dir.emplace(s, Dir{}).first;
    it->second.delta = g_concrete ? _mm_set_epi64x(0x1234567 + s, 0xabcdef1) : symBlock("delta", 1);
  }
  return it->second;
}
inline Dir& dir(int s) {
  std::lock_guard<std::mutex> g(g_m);
  return dirLocked(s);
}
// to be called before the parties start: choice bits split paths
inline void prepareLocked(int s, size_t n) {
  auto& d = dirLocked(s);
  while (d.k0.size() < n) {
    size_t i = d.k0.size();
    d.k0.push_back(g_concrete ? _mm_set_epi64x(i * 77, 1000 * s + 2 * i) : symBlock("k0", 0));
    if (g_fixedChoices >= 0) d.c.push_back(g_fixedChoices >> (2 * s + i % 2) & 1);
    else d.c.push_back(g_splitChoice ? vf_split("choice", 0, 1) : vf_bool("choice"));
  }
}
inline void prepare(int s, size_t n) {
  std::lock_guard<std::mutex> g(g_m);
  prepareLocked(s, n);
}
class Rcot final : public IFlexibleRandomCorrelatedObliviousTransfer {
  int sender_;
  bool iSend_;
  size_t next_ = 0;
  std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> agent_;
  bool known() { std::lock_guard<std::mutex> g(g_m); return g_dir.count(sender_); }

 public:
  Rcot(int sender, bool iSend, std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> a = nullptr) : sender_(sender), iSend_(iSend), agent_(std::move(a)) {}
  std::vector<__m128i> rcot(int64_t n) override {
    if (g_byFactory) while (!iSend_ && !known()) vf_yield();
    std::lock_guard<std::mutex> g(g_m);
    auto& d = dirLocked(sender_);
    prepareLocked(sender_, next_ + n);
    std::vector<__m128i> r;
    for (int64_t i = 0; i < n; i++, next_++) {
      if (iSend_ || !d.c[next_]) r.push_back(d.k0[next_]);
      else r.push_back(_mm_xor_si128(d.k0[next_], d.delta));
    }
    (iSend_ ? d.sent : d.got) += n;
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {16, 32}; }
  std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> extractCommunicationAgent() override { return std::move(agent_); }
};
class RcotFactory final : public fbpcf::engine::tuple_generator::oblivious_transfer::IFlexibleRandomCorrelatedObliviousTransferFactory {
  int me_;

 public:
  explicit RcotFactory(int me) : me_(me) { g_byFactory = true; }
  std::unique_ptr<IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(__m128i delta, std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> a) override {
    vf_check(_mm_extract_epi64(delta, 0) & 1, "the correlation tells the choice bit");
    std::lock_guard<std::mutex> g(g_m);
    g_dir[me_].delta = delta;
    return std::make_unique<Rcot>(me_, true, std::move(a));
  }
  std::unique_ptr<IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent> a) override {
    return std::make_unique<Rcot>(1 - me_, false, std::move(a));
  }
};
} // namespace otm
