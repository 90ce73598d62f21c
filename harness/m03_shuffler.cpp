// M03: random permutations and shuffling.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.cpp fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp
// @entry vf_m03_draw prop=M03 reach=ok time=100 : sizes 0 to 6, all random bytes || 0 to 9
// @entry vf_m03_all prop=M03 reach=a0,a1,b0,b1,b2,b3,b4,b5,c0,c1,c2,c3,c4,c5,c6,c7,c8,c9,c10,c11,c12,c13,c14,c15,c16,c17,c18,c19,c20,c21,c22,c23 time=100 : each permutation of 2, 3 and 4 elements occurs for some random bytes
// @entry vf_m03_values prop=M03 reach=ok time=120 : 0 to 3 32-bit values or pairs, both parties' random bytes arbitrary, with the routing network or the placeholder; every value comes out as often as it goes in || 0 to 4
// @entry vf_m03_bits prop=M03 reach=ok time=120 : 0 to 3 strings of 2 bits over the networked plaintext scheduler, 1 to 3 over secret shares || up to 4
// @entry vf_m03_none prop=M03 reach=ok : the placeholder shuffler, 1 to 4 values
// @entry vf_m03_either prop=M03 reach=a0,a1,a2,a3,a4,a5,b0,b1,b2,b3,b4,b5 time=100 : each order of 3 values can be brought about by either party's random bytes alone
#include "netshare.h"
#include "netplain.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/NonShufflerFactory.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::permuter;
using namespace fbpcf::mpc_std_lib::shuffler;
using namespace fbpcf::mpc_std_lib::util;
namespace permuter_dummy = fbpcf::mpc_std_lib::permuter::insecure;
using VB = std::vector<bool>;
struct Any final : engine::util::IPrg { // arbitrary bytes, or zeros
  bool zero;
  explicit Any(bool z = false) : zero(z) {}
  std::vector<bool> getRandomBits(uint32_t n) override { VB r(n); for (uint32_t i = 0; i < n; i++) r[i] = !zero && vf_bool("bit"); return r; }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> r(n); for (auto& x : r) x = zero ? 0 : vf_sym("byte", 8); return r; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { std::vector<uint64_t> r(n); for (auto& x : r) x = zero ? 0 : vf_sym("word", 64); return r; }
};
struct AnyFactory final : engine::util::IPrgFactory {
  bool zero;
  explicit AnyFactory(bool z = false) : zero(z) {}
  std::unique_ptr<engine::util::IPrg> create(__m128i) const override { return std::make_unique<Any>(zero); }
};
extern "C" void vf_m03_draw() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 9 : 6);
  Any prg;
  auto r = secureRandomPermutation(n, prg);
  vf_check(r.size() == n, "as many entries as asked for");
  for (size_t i = 0; i < n; i++) {
    vf_check(r[i] < n, "entries are in range");
    for (size_t j = 0; j < i; j++) vf_check(r[i] != r[j], "entries differ");
  }
  vf_reach("ok");
}
static std::vector<uint32_t> nth(size_t n, size_t k) {
  std::vector<uint32_t> left, r;
  for (size_t i = 0; i < n; i++) left.push_back(i);
  for (; n; n--) { size_t j = k % n; k /= n; r.push_back(left[j]); left.erase(left.begin() + j); }
  return r;
}
extern "C" void vf_m03_all() {
  size_t n = vf_split("n", 2, 4);
  size_t k = vf_split("which", 0, n == 2 ? 1 : n == 3 ? 5 : 23);
  auto want = nth(n, k);
  Any prg;
  auto r = secureRandomPermutation(n, prg);
  bool is = r.size() == n;
  for (size_t i = 0; is && i < n; i++) is &= r[i] == want[i];
  vf_assume(is);
  char name[4] = {(char)('a' + n - 2), (char)(k < 10 ? '0' + k : '0' + k / 10), (char)(k < 10 ? 0 : '0' + k % 10), 0};
  vf_reach(name);
}
template <int id, class T, template <class, int> class F> static std::vector<T> party(const std::vector<T>& in, size_t n, int owner, int reader, bool zero) {
  using A = MpcAdapters<T, id>;
  using S = typename A::SecBatchType;
  auto src = A::processSecretInputs(in, owner);
  auto p = PermuteBasedShufflerFactory<S>(id, 1 - id, std::make_unique<F<T, id>>(id, 1 - id), std::make_unique<AnyFactory>(zero)).create();
  auto r = p->shuffle(src, n);
  return A::openToParty(r, reader);
}
template <class T, template <class, int> class F> static std::vector<T> shuffled(const std::vector<T>& in, size_t n, int owner, int reader, bool zero0 = false, bool zero1 = false) {
  std::vector<T> got;
  auto other = in;
  if (reader == 0) runTwo([&] { got = party<0, T, F>(in, n, owner, reader, zero0); }, [&] { party<1, T, F>(other, n, owner, reader, zero1); });
  else runTwo([&] { party<0, T, F>(other, n, owner, reader, zero0); }, [&] { got = party<1, T, F>(in, n, owner, reader, zero1); });
  return got;
}
// an arbitrary value occurs as often in both
template <class T> static void sameContents(const std::vector<T>& got, const std::vector<T>& in, T any) {
  vf_check(got.size() == in.size(), "as many as before");
  unsigned a = 0, b = 0;
  for (auto& x : got) a += x == any;
  for (auto& x : in) b += x == any;
  vf_check(a == b, "every value comes out as often as it went in");
}
static std::vector<uint8_t> columns(const std::vector<VB>& r) {
  std::vector<uint8_t> o(r[0].size());
  for (size_t w = 0; w < r.size(); w++) for (size_t i = 0; i < o.size(); i++) o[i] |= (uint8_t)r[w][i] << w;
  return o;
}
static void plain() { static auto fac = mkFactories(2); useNetPlain<0>(0, 2, fac); useNetPlain<1>(1, 2, fac); }
extern "C" void vf_m03_values() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 4 : 3);
  int owner = vf_split("owner", 0, 1), kind = vf_split("kind", 0, 2);
  plain();
  if (kind < 2) {
    std::vector<uint32_t> in;
    for (size_t i = 0; i < n; i++) in.push_back(vf_sym("v", 32));
    auto got = kind ? shuffled<uint32_t, permuter_dummy::DummyPermuterFactory>(in, n, owner, n % 2) : shuffled<uint32_t, AsWaksmanPermuterFactory>(in, n, owner, n % 2);
    sameContents<uint32_t>(got, in, vf_sym("any", 32));
  } else {
    std::vector<std::pair<uint32_t, bool>> in;
    for (size_t i = 0; i < n; i++) in.push_back({vf_sym("v", 32), vf_bool("b")});
    auto got = shuffled<std::pair<uint32_t, bool>, AsWaksmanPermuterFactory>(in, n, owner, n % 2);
    sameContents<std::pair<uint32_t, bool>>(got, in, {vf_sym("any", 32), vf_bool("any")});
  }
  vf_reach("ok");
}
extern "C" void vf_m03_bits() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 4 : 3);
  int kind = vf_split("kind", 0, n > 0); // private inputs of a real engine are not empty
  auto fac = mkFactories(2);
  if (kind == 0) plain();
  else {
    em::g_fixedStream = em::g_fixedTuples = true;
    runTwo([&] { useShares<0>(0, 2, fac, true); }, [&] { useShares<1>(1, 2, fac, true); });
  }
  std::vector<VB> in(2);
  for (auto& r : in) for (size_t i = 0; i < n; i++) r.push_back(vf_bool("bit"));
  auto got = shuffled<VB, AsWaksmanPermuterFactory>(in, n, n % 2, 0);
  vf_check(got.size() == 2, "as wide as before");
  sameContents<uint8_t>(columns(got), columns(in), vf_sym("any", 2));
  vf_reach("ok");
}
extern "C" void vf_m03_none() {
  size_t n = vf_split("n", 1, 4);
  usePlaintext<0>();
  using A = MpcAdapters<uint32_t, 0>;
  std::vector<uint32_t> in;
  for (size_t i = 0; i < n; i++) in.push_back(vf_sym("v", 32));
  auto s = A::processSecretInputs(in, 0);
  auto got = A::openToParty(fbpcf::mpc_std_lib::shuffler::insecure::NonShufflerFactory<A::SecBatchType>().create()->shuffle(s, n), 0);
  sameContents<uint32_t>(got, in, vf_sym("any", 32));
  vf_reach("ok");
}
extern "C" void vf_m03_either() {
  int who = vf_split("who", 0, 1);
  size_t k = vf_split("which", 0, 5);
  plain();
  std::vector<uint32_t> in{10, 20, 30};
  auto got = shuffled<uint32_t, AsWaksmanPermuterFactory>(in, 3, 0, 0, who == 1, who == 0);
  auto want = nth(3, k);
  bool is = got.size() == 3;
  for (size_t i = 0; is && i < 3; i++) is &= got[i] == in[want[i]];
  vf_assume(is);
  char name[3] = {(char)('a' + who), (char)('0' + k), 0};
  vf_reach(name);
}
