// M04: compaction.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.cpp fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp
// @entry vf_m04_shuffled prop=M04 reach=ok time=300 : 0 to 2 values, pairs or bit strings and 3 pairs, all labels and values, either owner, every shuffle || 0 to 4
// @entry vf_m04_plain prop=M04 reach=ok time=100 : without shuffling, 0 to 5 values, pairs or bit strings, all labels and values, either owner || 0 to 8
// @entry vf_m04_dummy prop=M04 reach=ok time=100 : the placeholder compactor, 0 to 5 values or pairs, all labels and values || 0 to 8
// @entry vf_m04_shares prop=M04 reach=ok time=120 : over secret shares, immediate and deferred scheduler, 1 to 3 pairs or bit strings, all labels and values
// @entry vf_m04_hidden prop=M04 reach=ok : the number of labelled items may not be revealed
#include "netshare.h"
#include "netplain.h"
#include "fbpcf/mpc_std_lib/compactor/DummyCompactorFactory.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib;
using namespace fbpcf::mpc_std_lib::util;
using VB = std::vector<bool>;
using Pair = std::pair<Intp<false, 64>, Intp<false, 32>>;
// one draw is an arbitrary choice among the positions left: the random bytes of M03 with one arbitrary byte each
static size_t g_n = 0;
struct Few final : engine::util::IPrg {
  size_t left = g_n;
  VB getRandomBits(uint32_t n) override { return VB(n); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> r(n); if (n) r[n - 1] = vf_split("byte", 0, left-- - 1); return r; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { return std::vector<uint64_t>(n); }
};
struct FewFactory final : engine::util::IPrgFactory { std::unique_ptr<engine::util::IPrg> create(__m128i) const override { return std::make_unique<Few>(); } };
enum class How { Shuffle, None, Dummy };
template <class T> struct Result { std::vector<T> v; VB l; };
template <int id, class T> Result<T> party(How how, const std::vector<T>& in, const VB& label, int owner, int reader) {
  using A = MpcAdapters<T, id>;
  using L = MpcAdapters<bool, id>;
  using S = typename A::SecBatchType;
  using P = std::pair<T, bool>;
  using SP = typename SecBatchType<P, id>::type;
  auto src = A::processSecretInputs(in, owner);
  auto lab = L::processSecretInputs(label, 1 - owner);
  std::unique_ptr<compactor::ICompactor<S, typename L::SecBatchType>> c;
  if (how == How::Dummy) c = compactor::insecure::DummyCompactorFactory<T, bool, id>(id, 1 - id).create();
  else {
    std::unique_ptr<shuffler::IShufflerFactory<SP>> s;
    if (how == How::None) s = std::make_unique<shuffler::insecure::NonShufflerFactory<SP>>();
    else s = std::make_unique<shuffler::PermuteBasedShufflerFactory<SP>>(id, 1 - id, std::make_unique<permuter::AsWaksmanPermuterFactory<P, id>>(id, 1 - id), std::make_unique<FewFactory>());
    c = compactor::ShuffleBasedCompactorFactory<T, bool, id>(id, 1 - id, std::move(s)).create();
  }
  auto [v, l] = c->compaction(src, lab, label.size(), true);
  Result<T> r;
  r.v = A::openToParty(v, reader);
  r.l = L::openToParty(l, reader);
  return r;
}
template <class T> Result<T> compacted(How how, const std::vector<T>& in, const VB& label, int owner, int reader) {
  Result<T> got;
  auto other = in;
  auto otherL = label;
  if (reader == 0) runTwo([&] { got = party<0, T>(how, in, label, owner, reader); }, [&] { party<1, T>(how, other, otherL, owner, reader); });
  else runTwo([&] { party<0, T>(how, other, otherL, owner, reader); }, [&] { got = party<1, T>(how, in, label, owner, reader); });
  return got;
}
static VB labels(size_t n) { VB l(n); for (size_t i = 0; i < n; i++) l[i] = vf_split("label", 0, 1); return l; }
static size_t count(const VB& l) { size_t n = 0; for (bool b : l) n += b; return n; }
template <class T, class R> void sameContents(const std::vector<R>& got, const std::vector<R>& in, const VB& label, const VB& gl, R any) {
  vf_check(got.size() == count(label) && gl.size() == count(label), "as many as are labelled");
  for (bool b : gl) vf_check(b, "the items kept are labelled");
  unsigned a = 0, b = 0;
  for (auto& x : got) a += x == any;
  for (size_t i = 0; i < in.size(); i++) b += label[i] && in[i] == any;
  vf_check(a == b, "every labelled item is kept and nothing else");
}
static std::vector<uint8_t> columns(const std::vector<VB>& r) {
  vf_check(r.size() == 2, "as wide as before");
  vf_check(r[0].size() == r[1].size(), "rows are equally long");
  std::vector<uint8_t> o(r[0].size());
  for (size_t w = 0; w < r.size(); w++) for (size_t i = 0; i < o.size(); i++) o[i] |= (uint8_t)r[w][i] << w;
  return o;
}
static void run(How how, size_t n, int type) {
  int owner = how == How::Shuffle ? n % 2 : vf_split("owner", 0, 1), reader = (n + owner) % 2;
  auto l = labels(n);
  if (type == 0) {
    std::vector<uint32_t> in;
    for (size_t i = 0; i < n; i++) in.push_back(vf_sym("v", 32));
    auto g = compacted<uint32_t>(how, in, l, owner, reader);
    sameContents<uint32_t, uint32_t>(g.v, in, l, g.l, vf_sym("any", 32));
  } else if (type == 1) {
    std::vector<Pair> in;
    for (size_t i = 0; i < n; i++) in.push_back({Intp<false, 64>(vf_sym("v", 64)), Intp<false, 32>((uint32_t)vf_sym("w", 32))});
    auto g = compacted<Pair>(how, in, l, owner, reader);
    sameContents<Pair, Pair>(g.v, in, l, g.l, {Intp<false, 64>(vf_sym("any", 64)), Intp<false, 32>((uint32_t)vf_sym("any", 32))});
  } else if (how != How::Dummy) {
    std::vector<VB> in(2);
    for (auto& r : in) for (size_t i = 0; i < n; i++) r.push_back(vf_bool("bit"));
    auto g = compacted<VB>(how, in, l, owner, reader);
    sameContents<VB, uint8_t>(columns(g.v), columns(in), l, g.l, vf_sym("any", 2));
  }
  vf_reach("ok");
}
static void plain() { static auto fac = mkFactories(2); useNetPlain<0>(0, 2, fac); useNetPlain<1>(1, 2, fac); }
extern "C" void vf_m04_shuffled() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 4 : 3);
  int t = n == 3 && !VF_THOROUGH ? 1 : vf_split("type", 0, 2);
  plain();
  g_n = n;
  run(How::Shuffle, n, t);
}
extern "C" void vf_m04_plain() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 8 : 5);
  int t = vf_split("type", 0, 2);
  plain();
  run(How::None, n, t);
}
extern "C" void vf_m04_dummy() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 8 : 5);
  int t = vf_split("type", 0, 1);
  plain();
  run(How::Dummy, n, t);
}
extern "C" void vf_m04_shares() {
  size_t n = vf_split("n", 1, 3);
  int t = vf_split("type", 1, 2);
  bool lazy = vf_split("deferred", 0, 1);
  auto fac = mkFactories(2);
  em::g_fixedStream = em::g_fixedTuples = true;
  runTwo([&] { useShares<0>(0, 2, fac, lazy); }, [&] { useShares<1>(1, 2, fac, lazy); });
  run(How::None, n, t);
}
extern "C" void vf_m04_hidden() {
  plain();
  using SP = typename SecBatchType<std::pair<uint32_t, bool>, 0>::type;
  compactor::ShuffleBasedCompactor<uint32_t, bool, 0> c(0, 1, std::make_unique<shuffler::insecure::NonShuffler<SP>>());
  auto src = MpcAdapters<uint32_t, 0>::processSecretInputs({1, 2}, 0);
  auto lab = MpcAdapters<bool, 0>::processSecretInputs({true, false}, 0);
  vf_check(vf_throws([&] { c.compaction(src, lab, 2, false); }), "refused");
  vf_reach("ok");
}
