// U01: from a union of two parties' rows to the data of the rows they have in common.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/engine/util/util.cpp fbpcf/engine/util/aes.cpp fbpcf/primitive/mac/AesCmac.cpp fbpcf/primitive/mac/S2v.cpp fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.cpp fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
// @stubs archive
// @std 20
// @entry vf_u01_adapter prop=U01 reach=ok,none time=250 : unions of 1 to 3 rows, every assignment of rows to parties, every numbering of one party's rows and two of the other's, every shuffle, over secret shares (both schedulers) and the networked plaintext scheduler || unions of 1 to 4, every numbering
// @entry vf_u01_larger prop=U01 reach=ok time=250 : unions of 4, 5, 8 and 9 rows of which every pattern of four is common, numberings reversed and rotated, one shuffle || every pattern of seven
// @entry vf_u01_reject prop=U01 reach=ok : unions of 0 to 3 rows, numbers from far below to far above the range, repeated numbers
// @entry vf_u01_dummy prop=U01 reach=ok time=100 : the placeholder processor, 1 to 3 rows of 1 or 3 bytes, every selection of 1 or 2 rows in any order, both directions, all contents
// @entry vf_u01_data prop=U01 reach=ok time=300 qtime=60 : the encrypting processor, 2 rows of 1, 16 and 17 bytes, one or both rows selected in any order, all contents, a fixed key || either direction, 3 rows
// @entry vf_u01_whole prop=U01 reach=ok time=250 : adapter and placeholder processors together, unions of 1 to 3 rows, one numbering each, every shuffle, all contents
#define UDP_REAL_AES
#include "udp.h"
#include "netshare.h"
#include "netplain.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/AdapterFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DataProcessorFactory.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/DummyDataProcessorFactory.h"
using namespace udp;
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::unified_data_process::adapter;
using Map = std::vector<int32_t>;
using VB = std::vector<bool>;
static std::vector<size_t> nth(size_t n, size_t k) {
  std::vector<size_t> left, r;
  for (size_t i = 0; i < n; i++) left.push_back(i);
  for (; n; n--) { size_t j = k % n; k /= n; r.push_back(left[j]); left.erase(left.begin() + j); }
  return r;
}
static size_t fact(size_t n) { return n < 2 ? 1 : n * fact(n - 1); }
// the shuffle both parties end up with: shares are moved alike at both (what the shufflers do is M03)
static std::vector<size_t> g_order;
template <int id> struct Shuffle final : mpc_std_lib::shuffler::IShuffler<frontend::BitString<true, id, true>> {
  using S = frontend::BitString<true, id, true>;
  S shuffle(const S& src, uint32_t n) const override {
    vf_check(n == g_order.size(), "the whole union is shuffled");
    auto share = src.extractStringShare().getValue();
    auto moved = share;
    for (size_t w = 0; w < share.size(); w++) {
      vf_check(share[w].size() == n, "one entry per row of the union");
      for (size_t i = 0; i < n; i++) moved[w][i] = share[w][g_order[i]];
    }
    return S(typename S::ExtractedString(moved));
  }
};
template <int id> struct ShuffleFactory final : mpc_std_lib::shuffler::IShufflerFactory<frontend::BitString<true, id, true>> {
  std::unique_ptr<mpc_std_lib::shuffler::IShuffler<frontend::BitString<true, id, true>>> create() override { return std::make_unique<Shuffle<id>>(); }
};
static void schedulers(FactoryList& fac, int kind) {
  fixedSeeds = true;
  em::g_fixedStream = em::g_fixedTuples = true;
  if (kind == 2) runTwo([&] { useNetPlain<0>(0, 2, fac); }, [&] { useNetPlain<1>(1, 2, fac); });
  else runTwo([&] { useShares<0>(0, 2, fac, kind); }, [&] { useShares<1>(1, 2, fac, kind); });
}
template <int id> Map adapt(const Map& m, bool swapped) { // party 0 of the adapter may be either
  bool first = (id == 0) != swapped;
  return AdapterFactory<id>(first, swapped, !swapped, std::make_unique<ShuffleFactory<id>>()).create()->adapt(m);
}
static Map numbering(const std::vector<int>& who, int bit, const std::vector<size_t>& perm) { // rows of a party get some of the numbers
  Map m;
  size_t next = 0;
  for (int w : who) m.push_back(w & bit ? (int32_t)perm[next++] : -1);
  return m;
}
static void rightPairs(const Map& m0, const Map& m1, const Map& p0, const Map& p1) {
  size_t common = 0;
  for (size_t i = 0; i < m0.size(); i++) common += m0[i] >= 0 && m1[i] >= 0;
  vf_check(p0.size() == common && p1.size() == common, "one row per common identifier");
  for (size_t i = 0; i < m0.size(); i++) {
    if (m0[i] < 0 || m1[i] < 0) continue;
    size_t times = 0;
    for (size_t k = 0; k < common; k++) times += p0[k] == m1[i] && p1[k] == m0[i];
    vf_check(times == 1, "each common row once, at the same place for both");
  }
}
static std::vector<int> assignment(size_t n) { std::vector<int> who; while (who.size() < n) who.push_back(vf_split("who", 1, 3)); return who; }
extern "C" void vf_u01_adapter() {
  size_t n = vf_split("union", 1, VF_THOROUGH ? 4 : 3);
  auto who = assignment(n);
  auto all = fact(n) - 1;
  Map m0 = numbering(who, 1, nth(n, VF_THOROUGH || n < 3 ? vf_split("numbering", 0, all) : vf_split("numbering", 0, 1) * 5));
  Map m1 = numbering(who, 2, nth(n, n < 4 ? vf_split("numbering", 0, all) : vf_split("numbering", 0, 2) * 9 + 1));
  g_order = nth(n, n < 3 || VF_THOROUGH ? vf_split("shuffle", 0, n < 4 ? all : 3) : (m0[0] + m1[1] + 3 * (m0[2] + 1) + 2) % 6);
  auto fac = mkFactories(2);
  int kind = (who[0] + m1[0] + m0[n - 1] + 2) % 3;
  bool swapped = (who[n - 1] + m1[n - 1] + 1) & 1;
  schedulers(fac, kind);
  Map p0, p1;
  runTwo([&] { p0 = adapt<0>(m0, swapped); }, [&] { p1 = adapt<1>(m1, swapped); });
  rightPairs(m0, m1, p0, p1);
  vf_reach(p0.empty() ? "none" : "ok");
}
extern "C" void vf_u01_larger() {
  static const size_t ns[] = {4, 5, 8, 9};
  size_t n = ns[vf_split("union", 0, 3)];
  std::vector<int> who(n, 3);
  for (size_t i = 0; i < n; i++) if (i % 2 || VF_THOROUGH || n < 8) if (i < 7 && i != 2 && !vf_split("common", 0, 1)) who[i] = 1 + i / 2 % 2;
  std::vector<size_t> a(n), b(n);
  for (size_t i = 0; i < n; i++) { a[i] = n - 1 - i; b[i] = (i * 2 + 3) % n; if (n % 2 == 0) b[i] = (i + 3) % n; }
  Map m0 = numbering(who, 1, a), m1 = numbering(who, 2, b);
  g_order = b;
  auto fac = mkFactories(2);
  schedulers(fac, n % 2);
  Map p0, p1;
  runTwo([&] { p0 = adapt<0>(m0, false); }, [&] { p1 = adapt<1>(m1, false); });
  rightPairs(m0, m1, p0, p1);
  vf_reach("ok");
}
extern "C" void vf_u01_reject() {
  static const int32_t vs[] = {-1, 0, 1, 2, 3, -2, INT32_MIN, INT32_MAX};
  size_t n = vf_split("union", 0, 3);
  Map m;
  bool wrong = n == 0;
  for (size_t i = 0; i < n; i++) {
    int32_t v = vs[vf_split("number", 0, 7)];
    if (v != -1) { wrong |= v < 0 || v >= (int32_t)n; for (auto x : m) wrong |= x == v; }
    m.push_back(v);
  }
  if (!wrong) vf_end_path();
  vf_check(vf_throws([&] { AdapterFactory<0>(true, 0, 1, std::make_unique<ShuffleFactory<0>>()).create()->adapt(m); }), "rejected");
  vf_reach("ok");
}
template <int id> using Str = frontend::BitString<true, id, true>;
template <int id> using Processor = std::unique_ptr<IDataProcessor<id>>;
template <int id> Processor<id> processor(bool dummy, FactoryList& fac) {
  if (dummy) return insecure::DummyDataProcessorFactory<id>(id, 1 - id, *fac[id]).create();
  return getDataProcessorFactoryWithAesCtr<id>(id, 1 - id, *fac[id])->create();
}
// bits of the selected rows, least significant bit of each byte first
static void selected(const std::vector<VB>& got, const Rows& rows, const Indexes& which) {
  vf_check(got.size() == rows[0].size() * 8, "as wide as the rows");
  for (size_t i = 0; i < got.size(); i++) {
    vf_check(got[i].size() == which.size(), "one row per selection");
    for (size_t k = 0; k < which.size(); k++) vf_check(got[i][k] == (rows[which[k]][i / 8] >> (i % 8) & 1), "the selected row");
  }
}
static void exchange(bool dummy, FactoryList& fac, const Rows& rows, const Indexes& which, bool back) {
  Processor<0> a;
  Processor<1> b;
  runTwo([&] { a = processor<0>(dummy, fac); }, [&] { b = processor<1>(dummy, fac); });
  size_t w = rows[0].size();
  std::vector<VB> got;
  auto mine = [&](auto& p) { return p->processMyData(rows, which.size()); };
  auto peers = [&](auto& p) { return p->processPeersData(rows.size(), which, w); };
  int reader = which.size() & 1;
  runTwo([&] { auto s = back ? peers(a) : mine(a); auto o = s.openToParty(reader).getValue(); if (!reader) got = o; },
         [&] { auto s = back ? mine(b) : peers(b); auto o = s.openToParty(reader).getValue(); if (reader) got = o; });
  selected(got, rows, which);
}
static Indexes select(size_t n) {
  Indexes r;
  size_t m = vf_split("selected", 1, n < 2 ? n : 2);
  while (r.size() < m) {
    size_t k = vf_split("row", 0, n - 1);
    if (r.size() && r[0] == k) vf_end_path();
    r.push_back(k);
  }
  return r;
}
extern "C" void vf_u01_dummy() {
  size_t n = vf_split("rows", 1, 3), w = vf_split("wide", 0, 1) ? 3 : 1;
  Rows rows = symRows(n, w);
  auto which = select(n);
  bool back = vf_split("back", 0, 1);
  auto fac = mkFactories(2);
  schedulers(fac, 2);
  exchange(true, fac, rows, which, back);
  vf_reach("ok");
}
extern "C" void vf_u01_data() {
  static const size_t ws[] = {1, 16, 17};
  size_t n = VF_THOROUGH ? 3 : 2, w = ws[vf_split("width", 0, 2)];
  Rows rows = symRows(n, w);
  auto which = select(n);
  fixedSeeds = cmacm::g_constant = true;
  auto fac = mkFactories(2);
  schedulers(fac, 2);
  exchange(false, fac, rows, which, VF_THOROUGH ? vf_split("back", 0, 1) : which.size() == 2);
  vf_reach("ok");
}
extern "C" void vf_u01_whole() {
  size_t n = vf_split("union", 1, 3);
  auto who = assignment(n);
  size_t rows0 = 0, rows1 = 0, common = 0;
  for (int w : who) { rows0 += w & 1; rows1 += w >> 1; common += w == 3; }
  if (!common) vf_end_path();
  Map m0 = numbering(who, 1, nth(rows0, fact(rows0) - 1)), m1 = numbering(who, 2, nth(rows1, fact(rows1) / 2));
  g_order = nth(n, vf_split("shuffle", 0, fact(n) - 1));
  Rows d0 = symRows(rows0, 1), d1 = symRows(rows1, 2);
  auto fac = mkFactories(2);
  schedulers(fac, 2);
  Processor<0> a;
  Processor<1> b;
  runTwo([&] { a = processor<0>(true, fac); }, [&] { b = processor<1>(true, fac); });
  std::vector<VB> of0, of1;
  runTwo([&] {
    auto p = adapt<0>(m0, false);
    auto x = a->processMyData(d0, p.size());
    auto y = a->processPeersData(rows1, Indexes(p.begin(), p.end()), 2);
    of0 = x.openToParty(0).getValue();
    of1 = y.openToParty(0).getValue();
  }, [&] {
    auto p = adapt<1>(m1, false);
    auto x = b->processPeersData(rows0, Indexes(p.begin(), p.end()), 1);
    auto y = b->processMyData(d1, p.size());
    x.openToParty(0).getValue();
    y.openToParty(0).getValue();
  });
  vf_check(of0.size() == 8 && of1.size() == 16, "as wide as the rows");
  // both parties' data of the common rows, in the order of the shuffle
  size_t k = 0;
  for (size_t i = 0; i < n; i++) {
    size_t u = g_order[i];
    if (who[u] != 3) continue;
    for (size_t j = 0; j < 8; j++) vf_check(of0[j].size() == common && of0[j][k] == (d0[m0[u]][0] >> j & 1), "one party's data");
    for (size_t j = 0; j < 16; j++) vf_check(of1[j].size() == common && of1[j][k] == (d1[m1[u]][j / 8] >> (j % 8) & 1), "the other party's data of the same row");
    k++;
  }
  vf_reach("ok");
}
