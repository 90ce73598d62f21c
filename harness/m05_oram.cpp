// M05: oblivious memory, both parties over the networked plaintext scheduler.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/util.cpp fbpcf/mpc_std_lib/util/util.cpp fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp fbpcf/mpc_std_lib/oram/DummySinglePointArrayGenerator.cpp fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculator.cpp
// @entry vf_m05_linear prop=M05 reach=ok time=150 : linear memory of 1 to 5 cells, aggregation records (three lowest bits and the highest of each number), two batches of 1 or 2 writes one of which has any index (beyond the memory too), value and shares || 1 to 9 cells
// @entry vf_m05_masks prop=M05 reach=ok time=150 : linear memory of 1 to 3 cells, one write, all indexes and values, masks with two arbitrary bits, signed 4-bit integers and aggregation records || 1 to 5 cells
// @entry vf_m05_tree prop=M05 reach=ok time=200 : write-only memory of 1 to 4 cells, unsigned 2-bit integers, one write, all indexes, values and shares, an arbitrary cipher || 1 to 5 cells
// @entry vf_m05_fixed prop=M05 reach=ok time=150 : write-only memory of 1, 2, 3 and 5 cells with a fixed cipher, three writes in two batches one of which has any index, value and shares, aggregation records (three lowest bits and the highest of each number) and unsigned 5-bit integers || 1 to 9, 16 and 17 cells
// @entry vf_m05_dummies prop=M05 reach=ok time=150 : likewise for 1 to 3 cells with each placeholder component in place of the real one, indexes within the memory || 1 to 5 cells
// @entry vf_m05_wide prop=M05 reach=ok time=100 : indexes with one or two bits more than the memory needs, linear and write-only memory of 1 to 4 cells
// @entry vf_m05_difference prop=M05 reach=ok time=100 : the difference of two parties' shares where the indicators differ by one, all shares, batches of 1 and 2; real and placeholder
// @entry vf_m05_reject prop=M05 reach=ok : reading beyond the memory, index too narrow, no values, ragged batches
#include "aes_model.h"
#include "openssl_model.h"
#include "netplain.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyDifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::oram;
using namespace fbpcf::mpc_std_lib::util;
using VB = std::vector<bool>;
using S4 = Intp<true, 4>;
using U2 = Intp<false, 2>;
using U5 = Intp<false, 5>;
using Agg = AggregationValue;
static bool g_anyMask = false;
struct Mask final : engine::util::IPrg { // masks, their two lowest bits arbitrary where asked for
  VB getRandomBits(uint32_t n) override { VB r(n); for (uint32_t i = 0; i < n; i++) r[i] = vf_bool("mask"); return r; }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { std::vector<unsigned char> r(n); for (uint32_t i = 0; i < n; i++) r[i] = i % 4 ? i * 53 + 7 : (g_anyMask ? vf_sym("mask", 2) : 2) | 0x94; return r; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { std::vector<uint64_t> r(n); for (auto& x : r) x = (g_anyMask ? vf_sym("mask", 2) | vf_sym("mask", 2) << 32 : 2) | 0x9123456781234560; return r; }
};
struct MaskFactory final : engine::util::IPrgFactory { std::unique_ptr<engine::util::IPrg> create(__m128i) const override { return std::make_unique<Mask>(); } };
enum class How { Linear, Tree, DummyDelta, DummyArray, DummyDifference, AllDummy };
template <class T, int id> std::unique_ptr<IWriteOnlyOram<T>> mk(How how, size_t size, FactoryList& fac) {
  constexpr auto A = IWriteOnlyOram<T>::Role::Alice, B = IWriteOnlyOram<T>::Role::Bob;
  if (how == How::Linear) return LinearOramFactory<T, id>(id ? B : A, id, 1 - id, *fac[id], std::make_unique<MaskFactory>()).create(size);
  if (how == How::Tree) return getSecureWriteOnlyOramFactory<T, 12, id>(id == 0, 0, 1, *fac[id])->create(size);
  std::unique_ptr<ISinglePointArrayGeneratorFactory> g;
  std::unique_ptr<IDifferenceCalculatorFactory<T>> d;
  if (how == How::DummyArray || how == How::AllDummy) g = std::make_unique<insecure::DummySinglePointArrayGeneratorFactory>(id == 0, 1 - id, *fac[id]);
  else {
    std::unique_ptr<IObliviousDeltaCalculatorFactory> x;
    if (how == How::DummyDelta) x = std::make_unique<insecure::DummyObliviousDeltaCalculatorFactory>(1 - id, *fac[id]);
    else x = std::make_unique<ObliviousDeltaCalculatorFactory<id>>(id == 0, 0, 1);
    g = std::make_unique<SinglePointArrayGeneratorFactory>(id == 0, std::move(x));
  }
  if (how == How::DummyDifference || how == How::AllDummy) d = std::make_unique<insecure::DummyDifferenceCalculatorFactory<T, 12>>(id == 0, 1 - id, *fac[id]);
  else d = std::make_unique<DifferenceCalculatorFactory<T, 12, id>>(id == 0, 0, 1);
  return WriteOnlyOramFactory<T>(id ? B : A, 1 - id, *fac[id], std::move(g), std::move(d)).create(size);
}
struct Batch { std::vector<VB> index, value; };
// values as numbers: the parts of a record, and how many bits of each count
template <class T> struct Raw;
template <> struct Raw<S4> {
  static S4 any() { return S4((int8_t)((int8_t)(vf_sym("v", 4) << 4) >> 4)); }
  static std::vector<uint32_t> parts(const S4& v) { return {(uint32_t)(int8_t)v & 15}; }
  static S4 some(int n) { return S4((int8_t)(n % 2 ? -n : n)); }
  static constexpr uint32_t mask = 15;
};
template <> struct Raw<U5> {
  static U5 any() { return U5((uint8_t)vf_sym("v", 5)); }
  static std::vector<uint32_t> parts(const U5& v) { return {(uint32_t)(uint8_t)v}; }
  static U5 some(int n) { return U5((uint8_t)(n * 11 % 32)); }
  static constexpr uint32_t mask = 31;
};
template <> struct Raw<U2> {
  static U2 any() { return U2((uint8_t)vf_sym("v", 2)); }
  static U2 some(int n) { return U2((uint8_t)(n % 4)); }
  static std::vector<uint32_t> parts(const U2& v) { return {(uint32_t)(uint8_t)v}; }
  static constexpr uint32_t mask = 3;
};
template <> struct Raw<Agg> {
  static Agg any() { auto w = [] { return (uint32_t)(vf_sym("v", 3) | vf_sym("top", 1) << 31); }; uint32_t c = w(); return Agg(c, w()); }
  static std::vector<uint32_t> parts(const Agg& v) { return {v.conversionCount, v.conversionValue}; }
  static Agg some(int n) { return Agg(n * 0x9e3779b9, n * 0x85ebca6b); }
  static constexpr uint32_t mask = ~0u;
};
template <class T> static bool is(const T& got, const std::vector<uint32_t>& want) {
  auto p = Raw<T>::parts(got);
  bool ok = p.size() == want.size();
  for (size_t i = 0; i < p.size(); i++) ok = ok & (p[i] == (want[i] & Raw<T>::mask));
  return ok;
}
// writes: for every batch, its indexes (symbolic or not)
template <class T> void history(How how, size_t size, size_t w, const std::vector<std::vector<uint64_t>>& writes, bool fixShares = false, int which = -1) {
  int nth = 0;
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  useNetPlain<1>(1, 2, fac);
  std::vector<std::vector<uint32_t>> want(size, std::vector<uint32_t>(Raw<T>::parts(T(0)).size()));
  std::vector<Batch> in[2];
  for (auto& idx : writes) {
    Batch a, b;
    size_t width = Adapters<T>::convertToBits(T(0)).size();
    a.index.assign(w, VB(idx.size())), b.index = a.index;
    a.value.assign(width, VB(idx.size())), b.value = a.value;
    for (size_t k = 0; k < idx.size(); k++) {
      bool sym = which < 0 || which == nth;
      T v = sym ? Raw<T>::any() : Raw<T>::some(++nth);
      if (sym) nth++;
      auto bits = Adapters<T>::convertToBits(v);
      for (size_t i = 0; i < w; i++) { bool s = sym ? vf_bool("share") : (i + k) % 2; a.index[i][k] = s; b.index[i][k] = s ^ (idx[k] >> i & 1); }
      for (size_t i = 0; i < width; i++) { bool s = fixShares || !sym ? (i * 7 + k) % 3 == 0 : vf_bool("share"); a.value[i][k] = s; b.value[i][k] = s ^ bits[i]; }
      auto parts = Raw<T>::parts(v);
      for (size_t i = 0; i < size; i++)
        for (size_t q = 0; q < parts.size(); q++) want[i][q] += parts[q] & (0 - (uint32_t)(idx[k] == i));
    }
    in[0].push_back(a);
    in[1].push_back(b);
  }
  std::vector<T> pub[2], sec[2];
  auto go = [&](auto o, int p) {
    for (auto& b : in[p]) o->obliviousAddBatch(b.index, b.value);
    for (size_t i = 0; i < size; i++) {
      sec[p].push_back(o->secretRead(i));
      pub[p].push_back(o->publicRead(i, i % 2 ? IWriteOnlyOram<T>::Role::Alice : IWriteOnlyOram<T>::Role::Bob));
    }
  };
  runTwo([&] { go(mk<T, 0>(how, size, fac), 0); }, [&] { go(mk<T, 1>(how, size, fac), 1); });
  for (size_t i = 0; i < size; i++) {
    vf_check(is<T>(sec[0][i] + sec[1][i], want[i]), "the shares of a cell add up to what was written");
    vf_check(is<T>(pub[i % 2 ? 0 : 1][i], want[i]), "the opened cell holds what was written");
    vf_check(is<T>(pub[i % 2 ? 1 : 0][i], Raw<T>::parts(T(0))), "the other party learns nothing");
  }
}
static size_t widthOf(size_t size) { size_t w = 1; while ((1u << w) < size) w++; return w; }
static std::vector<uint64_t> choose(size_t n, size_t w, size_t below = 0) {
  std::vector<uint64_t> r;
  for (size_t i = 0; i < n; i++) r.push_back(vf_split("index", 0, (below ? below : 1u << w) - 1));
  return r;
}
extern "C" void vf_m05_linear() {
  size_t size = vf_split("size", 1, VF_THOROUGH ? 9 : 5), w = widthOf(size), n = vf_split("writes", 1, 2), which = vf_split("which", 0, 2);
  std::vector<uint64_t> a, b;
  for (size_t i = 0; i < n; i++) a.push_back(i == which ? vf_sym("index", w) : i);
  for (size_t i = 0; i < 3 - n; i++) b.push_back(n + i == which ? vf_sym("index", w) : size - 1);
  history<Agg>(How::Linear, size, w, {a, b}, false, which);
  vf_reach("ok");
}
extern "C" void vf_m05_masks() {
  size_t size = vf_split("size", 1, VF_THOROUGH ? 5 : 3), w = widthOf(size);
  g_anyMask = true;
  if (vf_split("type", 0, 1)) history<S4>(How::Linear, size, w, {{vf_sym("index", w)}});
  else history<Agg>(How::Linear, size, w, {{vf_sym("index", w)}});
  vf_reach("ok");
}
extern "C" void vf_m05_tree() {
  size_t size = vf_split("size", 1, VF_THOROUGH ? 5 : 4), w = widthOf(size);
  history<U2>(How::Tree, size, w, {choose(1, w)});
  vf_reach("ok");
}
template <class T> static void fixedTree(How how, size_t size, bool beyond) {
  size_t w = widthOf(size), which = vf_split("which", 0, 2);
  std::vector<uint64_t> a{size - 1}, b{0, size / 2};
  (which ? b[which - 1] : a[0]) = vf_split("index", 0, (beyond ? 1u << w : size) - 1);
  history<T>(how, size, w, {a, b}, false, which);
}
extern "C" void vf_m05_fixed() {
  static const size_t sizes[] = {1, 2, 3, 5, 4, 6, 7, 8, 9, 16, 17};
  aesm::g_mix = fixedSeeds = true;
  size_t size = sizes[vf_split("size", 0, VF_THOROUGH ? 10 : 3)];
  if (vf_split("type", 0, 1)) fixedTree<Agg>(How::Tree, size, true); else fixedTree<U5>(How::Tree, size, true);
  vf_reach("ok");
}
extern "C" void vf_m05_dummies() {
  aesm::g_mix = fixedSeeds = true;
  size_t size = vf_split("size", 1, VF_THOROUGH ? 5 : 3);
  How how = (How)vf_split("how", 2, 5);
  if (vf_split("type", 0, 1)) fixedTree<Agg>(how, size, false); else fixedTree<U5>(how, size, false);
  vf_reach("ok");
}
extern "C" void vf_m05_wide() {
  aesm::g_mix = fixedSeeds = true;
  size_t size = vf_split("size", 1, 4), w = widthOf(size) + vf_split("more", 1, 2);
  history<Agg>(vf_split("linear", 0, 1) ? How::Linear : How::Tree, size, w, {choose(1, w), {0}}, false, 0);
  vf_reach("ok");
}
extern "C" void vf_m05_difference() {
  size_t n = vf_split("n", 1, 2);
  bool dummy = vf_split("dummy", 0, 1);
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  useNetPlain<1>(1, 2, fac);
  std::vector<uint32_t> ind[2];
  std::vector<VB> minu[2] = {std::vector<VB>(4), std::vector<VB>(4)};
  std::vector<S4> sub[2], want;
  for (size_t i = 0; i < n; i++) {
    uint32_t base = vf_sym("indicators", 12);
    vf_assume(base < 4095);
    bool minus = vf_split("minus", 0, 1);
    ind[0].push_back(base + !minus);
    ind[1].push_back(base + minus);
    S4 m = Raw<S4>::any(), x = Raw<S4>::any(), y = Raw<S4>::any();
    auto b = Adapters<S4>::convertToBits(m);
    for (size_t k = 0; k < 4; k++) { bool s = vf_bool("share"); minu[0][k].push_back(s); minu[1][k].push_back(s ^ b[k]); }
    sub[0].push_back(x);
    sub[1].push_back(y);
    want.push_back(minus ? x - y - m : m - (x - y));
  }
  std::vector<S4> r[2];
  auto go = [&](auto c, int p) { r[p] = c->calculateDifferenceBatch(ind[p], minu[p], sub[p]); };
  if (dummy) runTwo([&] { go(insecure::DummyDifferenceCalculatorFactory<S4, 12>(true, 1, *fac[0]).create(), 0); }, [&] { go(insecure::DummyDifferenceCalculatorFactory<S4, 12>(false, 0, *fac[1]).create(), 1); });
  else runTwo([&] { go(DifferenceCalculatorFactory<S4, 12, 0>(true, 0, 1).create(), 0); }, [&] { go(DifferenceCalculatorFactory<S4, 12, 1>(false, 0, 1).create(), 1); });
  for (int p = 0; p < 2; p++) {
    vf_check(r[p].size() == n, "one difference each");
    for (size_t i = 0; i < n; i++) vf_check(r[p][i] == want[i], "the difference, with the sign of the indicator");
  }
  vf_reach("ok");
}
extern "C" void vf_m05_reject() {
  auto fac = mkFactories(2);
  usePlaintext<0>();
  bool linear = vf_split("linear", 0, 1);
  How how = linear ? How::Linear : How::Tree;
  for (size_t size : {1, 4, 5}) {
    auto o = mk<S4, 0>(how, size, fac);
    size_t i = vf_sym("index", 64);
    vf_assume(i >= size);
    vf_check(vf_throws([&] { o->secretRead(i); }), "reading beyond the memory");
    vf_check(vf_throws([&] { o->publicRead(i, IWriteOnlyOram<S4>::Role::Alice); }), "reading beyond the memory");
    vf_check(vf_throws([&] { o->publicRead(i, IWriteOnlyOram<S4>::Role::Bob); }), "reading beyond the memory");
    size_t w = widthOf(size);
    if (size > 2) vf_check(vf_throws([&] { o->obliviousAddBatch(std::vector<VB>(w - 1, VB(1)), std::vector<VB>(4, VB(1))); }), "the index is too narrow");
    vf_check(vf_throws([&] { o->obliviousAddBatch({}, std::vector<VB>(4, VB(1))); }), "no index");
    vf_check(vf_throws([&] { o->obliviousAddBatch(std::vector<VB>(w, VB(1)), {}); }), "no value");
    if (w > 1) { std::vector<VB> x(w, VB(2)); x[w - 1].pop_back(); vf_check(vf_throws([&] { o->obliviousAddBatch(x, std::vector<VB>(4, VB(2))); }), "ragged indexes"); }
    if (!linear) { std::vector<VB> x(4, VB(2)); x[2].pop_back(); vf_check(vf_throws([&] { o->obliviousAddBatch(std::vector<VB>(w, VB(2)), x); }), "ragged values"); }
  }
  vf_reach("ok");
}
