// M02: permuters, run by both parties over the networked plaintext scheduler and over the real secret share engine.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.cpp
// @entry vf_m02_values prop=M02 reach=ok time=120 : every order of 0 to 5 32-bit values, either party choosing it, all values || 0 to 6
// @entry vf_m02_bits prop=M02 reach=ok time=120 : every order of 0 to 5 bit strings of 1 or 2 bits, either party choosing it, all values || 0 to 6, strings of 1 to 3 bits
// @entry vf_m02_types prop=M02 reach=ok time=120 : every order of 0 to 4 booleans, signed 9-bit integers, pairs of a value and a boolean || 0 to 5
// @entry vf_m02_dummy prop=M02 reach=ok time=120 : the placeholder permuter, every order of 0 to 4 values, booleans and pairs || 0 to 5
// @entry vf_m02_shares prop=M02 reach=ok time=120 : over secret shares, immediate and deferred scheduler, every order of 1 to 4 values and bit strings, all values
// @entry vf_m02_large prop=M02 reach=ok time=120 : 6 to 9 and 16 bit strings and values, reversal, every rotation, and every exchange of two neighbours || sizes 6 to 20
// @entry vf_m02_network prop=M02 reach=ok time=120 : the switch settings of every order of 2 to 6 elements || 2 to 7
// @entry vf_m02_reject prop=M02 reach=ok : every order of 0 to 4 entries whose entries are arbitrary 32-bit numbers
#include "netshare.h"
#include "netplain.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
#include "fbpcf/mpc_std_lib/permuter/DummyPermuterFactory.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::permuter;
using namespace fbpcf::mpc_std_lib::util;
using VB = std::vector<bool>;
using Order = std::vector<uint32_t>;
// one of the n! orders
static Order anyOrder(size_t n) {
  Order left, r;
  for (size_t i = 0; i < n; i++) left.push_back(i);
  while (!left.empty()) {
    size_t k = vf_split("next", 0, left.size() - 1);
    r.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return r;
}
enum class Over { Plain, Eager, Lazy };
static void use(Over o, FactoryList& fac) {
  if (o == Over::Plain) {
    useNetPlain<0>(0, 2, fac);
    useNetPlain<1>(1, 2, fac);
    return;
  }
  em::g_fixedStream = em::g_fixedTuples = true;
  runTwo([&] { useShares<0>(0, 2, fac, o == Over::Lazy); }, [&] { useShares<1>(1, 2, fac, o == Over::Lazy); });
}
template <int id, class T, template <class, int> class F> static std::vector<T> party(const std::vector<T>& in, size_t n, int owner, int chooser, const Order& order, int reader, bool twice) {
  using A = MpcAdapters<T, id>;
  auto src = A::processSecretInputs(in, owner);
  auto p = F<T, id>(id, 1 - id).create();
  auto r = chooser == id ? p->permute(src, n, order) : p->permute(src, n);
  if (twice) r = chooser == id ? p->permute(r, n) : p->permute(r, n, order); // the other party's turn
  auto again = A::openToParty(src, reader);
  auto o = A::openToParty(r, reader);
  if (reader == id) {
    bool same = again.size() == in.size();
    for (size_t i = 0; same && i < in.size(); i++) same &= again[i] == in[i];
    if (owner == id) vf_check(same, "the input is left alone");
  }
  return o;
}
template <class T, template <class, int> class F, class Mk, class Eq> static void permuted(Over over, size_t n, const Order& order, Mk mk, Eq eq, bool twice = false) {
  int chooser = vf_split("chooser", 0, 1);
  auto fac = mkFactories(2);
  use(over, fac);
  std::vector<T> in = mk();
  std::vector<T> got;
  int owner = 1 - chooser, reader = n % 2;
  auto other = in;
  if (reader == 0) runTwo([&] { got = party<0, T, F>(in, n, owner, chooser, order, reader, twice); }, [&] { party<1, T, F>(other, n, owner, chooser, order, reader, twice); });
  else runTwo([&] { party<0, T, F>(other, n, owner, chooser, order, reader, twice); }, [&] { got = party<1, T, F>(in, n, owner, chooser, order, reader, twice); });
  for (size_t i = 0; i < n; i++) eq(got, i, in, twice ? order[order[i]] : order[i]);
  vf_reach("ok");
}
template <class T> static void at(const std::vector<T>& got, size_t i, const std::vector<T>& in, size_t j) {
  vf_check(got.size() == in.size(), "as many as before");
  vf_check(got[i] == in[j], "the element the order asks for");
}
// bit strings: one row per bit position
static void atRow(const std::vector<VB>& got, size_t i, const std::vector<VB>& in, size_t j) {
  vf_check(got.size() == in.size(), "as wide as before");
  for (size_t w = 0; w < got.size(); w++) {
    vf_check(got[w].size() == in[w].size(), "as many as before");
    vf_check(got[w][i] == in[w][j], "the element the order asks for");
  }
}
template <class T> struct Mk;
template <> struct Mk<uint32_t> { static uint32_t one() { return vf_sym("v", 32); } };
template <> struct Mk<bool> { static bool one() { return vf_bool("v"); } };
template <> struct Mk<Intp<true, 9>> { static Intp<true, 9> one() { return Intp<true, 9>((int16_t)((int16_t)(vf_sym("v", 9) << 7) >> 7)); } };
template <class A, class B> struct Mk<std::pair<A, B>> { static std::pair<A, B> one() { return {Mk<A>::one(), Mk<B>::one()}; } };
template <class T> static auto some(size_t n) {
  return [n] { std::vector<T> r; for (size_t i = 0; i < n; i++) r.push_back(Mk<T>::one()); return r; };
}
static auto rows(size_t w, size_t n) {
  return [w, n] { std::vector<VB> r(w); for (auto& x : r) for (size_t i = 0; i < n; i++) x.push_back(vf_bool("bit")); return r; };
}
template <class T, template <class, int> class F> static void values(Over over, size_t n, const Order& o, bool twice = false) { permuted<T, F>(over, n, o, some<T>(n), at<T>, twice); }
template <template <class, int> class F> static void strings(Over over, size_t w, size_t n, const Order& o, bool twice = false) { permuted<VB, F>(over, n, o, rows(w, n), atRow, twice); }
extern "C" void vf_m02_values() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 6 : 5);
  auto o = anyOrder(n);
  values<uint32_t, AsWaksmanPermuterFactory>(Over::Plain, n, o);
}
extern "C" void vf_m02_bits() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 6 : 5);
  size_t w = vf_split("width", 1, VF_THOROUGH ? 3 : 2);
  auto o = anyOrder(n);
  strings<AsWaksmanPermuterFactory>(Over::Plain, w, n, o);
}
extern "C" void vf_m02_types() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 5 : 4);
  int t = vf_split("type", 0, 2);
  auto o = anyOrder(n);
  switch (t) {
    case 0: values<bool, AsWaksmanPermuterFactory>(Over::Plain, n, o); break;
    case 1: values<Intp<true, 9>, AsWaksmanPermuterFactory>(Over::Plain, n, o); break;
    default: values<std::pair<uint32_t, bool>, AsWaksmanPermuterFactory>(Over::Plain, n, o);
  }
}
extern "C" void vf_m02_dummy() {
  using namespace insecure;
  size_t n = vf_split("n", 0, VF_THOROUGH ? 5 : 4);
  int t = vf_split("type", 0, 2);
  auto o = anyOrder(n);
  switch (t) {
    case 0: values<uint32_t, DummyPermuterFactory>(Over::Plain, n, o); break;
    case 1: values<bool, DummyPermuterFactory>(Over::Plain, n, o); break;
    default: values<std::pair<uint32_t, bool>, DummyPermuterFactory>(Over::Plain, n, o);
  }
}
extern "C" void vf_m02_shares() {
  size_t n = vf_split("n", 1, 4);
  int t = vf_split("type", 0, 1);
  Over over = vf_split("deferred", 0, 1) ? Over::Lazy : Over::Eager;
  auto o = anyOrder(n);
  if (t == 0) values<Intp<true, 9>, AsWaksmanPermuterFactory>(over, n, o, true);
  else strings<AsWaksmanPermuterFactory>(over, 2, n, o, true);
}
extern "C" void vf_m02_large() {
  size_t n = vf_split("n", 6, VF_THOROUGH ? 20 : 10);
  if (n == 10 && !VF_THOROUGH) n = 16;
  int t = vf_split("type", 0, 1);
  Order o(n);
  int kind = vf_split("kind", 0, 2);
  size_t k = kind ? vf_split("by", 0, n - 2) : 0;
  for (size_t i = 0; i < n; i++) o[i] = kind == 0 ? n - 1 - i : kind == 1 ? (i + k + 1) % n : i;
  if (kind == 2) std::swap(o[k], o[k + 1]);
  if (t == 0) values<Intp<true, 9>, AsWaksmanPermuterFactory>(Over::Plain, n, o, true);
  else strings<AsWaksmanPermuterFactory>(Over::Plain, 1, n, o, true);
}
extern "C" void vf_m02_network() {
  size_t n = vf_split("n", 2, VF_THOROUGH ? 7 : 6), h = n / 2;
  auto o = anyOrder(n);
  AsWaksmanParameterCalculator c(o);
  auto a = c.getFirstSwapConditions(), b = c.getSecondSwapConditions();
  auto p = c.getFirstSubPermuteOrder(), q = c.getSecondSubPermuteOrder();
  vf_check(a.size() == h && b.size() == n - h - 1 && p.size() == h && q.size() == n - h, "sizes of the network");
  std::vector<uint64_t> in, x, y, u, v, out(n);
  for (size_t i = 0; i < n; i++) in.push_back(vf_sym("v", 64));
  for (size_t i = 0; i < h; i++) { x.push_back(a[i] ? in[i + h] : in[i]); y.push_back(a[i] ? in[i] : in[i + h]); }
  if (n % 2) y.push_back(in[n - 1]);
  for (auto i : p) { vf_check(i < h, "routed within the half"); u.push_back(x[i]); }
  for (auto i : q) { vf_check(i < n - h, "routed within the half"); v.push_back(y[i]); }
  for (size_t i = 0; i < n - h; i++) {
    bool s = i < b.size() && b[i];
    if (i < h) out[i] = s ? v[i] : u[i];
    out[i + h] = s ? u[i] : v[i];
  }
  for (size_t i = 0; i < n; i++) vf_check(out[i] == in[o[i]], "the switches realise the order");
  vf_reach("ok");
}
extern "C" void vf_m02_reject() {
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  size_t n = vf_split("n", 0, 4), m = vf_split("entries", 0, 5);
  Order o(m);
  bool good = m == n;
  for (size_t i = 0; i < m; i++) {
    o[i] = vf_sym("index", 32);
    good = good & (o[i] < n);
    for (size_t j = 0; j < i; j++) good = good & (o[i] != o[j]);
  }
  vf_assume(!good);
  bool bits = vf_split("bits", 0, 1), dummy = vf_split("dummy", 0, 1);
  using Bits = frontend::BitString<true, 0, true>;
  using Val = frontend::Int<false, 32, true, 0, true>;
  std::vector<uint64_t> zero(n);
  if (bits) {
    auto f = AsWaksmanPermuterFactory<VB, 0>(0, 1);
    Bits s(std::vector<VB>(2, VB(n)), 0);
    vf_check(vf_throws([&] { f.create()->permute(s, n, o); }), "not a permutation of that size");
  } else {
    Val s(zero, 0);
    if (dummy) vf_check(vf_throws([&] { insecure::DummyPermuterFactory<uint32_t, 0>(0, 1).create()->permute(s, n, o); }), "not a permutation of that size");
    else vf_check(vf_throws([&] { AsWaksmanPermuterFactory<uint32_t, 0>(0, 1).create()->permute(s, n, o); }), "not a permutation of that size");
  }
  vf_reach("ok");
}
