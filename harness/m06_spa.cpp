// M06: single-point arrays, both parties, the cipher an arbitrary function.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/util.cpp fbpcf/mpc_std_lib/util/util.cpp fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp fbpcf/mpc_std_lib/oram/DummySinglePointArrayGenerator.cpp fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculator.cpp
// @entry vf_m06_arrays prop=M06 reach=ok,differ time=150 : indexes of 1 and 2 bits and every length up to 4, every index (beyond the length too), all shares of it, all seeds, an arbitrary cipher; the real and the placeholder correction || 1 to 3 bits, lengths up to 8
// @entry vf_m06_batch prop=M06 reach=ok time=150 : two indexes of 1 or 2 bits at once, lengths 2 and 3, all shares and seeds
// @entry vf_m06_long prop=M06 reach=ok time=150 : indexes of 3 and 4 bits and lengths 3 to 16 with a fixed cipher and fixed seeds, every index, all shares || up to 5 bits and length 24
// @entry vf_m06_dummy prop=M06 reach=ok : the placeholder generator, indexes of 1 to 3 bits, lengths up to 8, every index below the length, two at once
// @entry vf_m06_delta prop=M06 reach=ok time=100 : corrections of batches of 1 and 2, all values and choices, the real and the placeholder calculator
// @entry vf_m06_reject prop=M06 reach=ok : no index bits, 64 index bits, an empty batch
#include "aes_model.h"
#include "openssl_model.h"
#include "netplain.h"
#include "aes_ref.h"
#include "fbpcf/mpc_std_lib/oram/DummyObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/DummySinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/util/util.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::oram;
using VB = std::vector<bool>;
using Arrays = std::vector<std::pair<VB, std::vector<__m128i>>>;
enum class How { Real, DummyDelta, Dummy };
template <int id> std::unique_ptr<ISinglePointArrayGenerator> mk(How how, FactoryList& fac) {
  if (how == How::Dummy) return insecure::DummySinglePointArrayGeneratorFactory(id == 0, 1 - id, *fac[id]).create();
  std::unique_ptr<IObliviousDeltaCalculatorFactory> d;
  if (how == How::Real) d = std::make_unique<ObliviousDeltaCalculatorFactory<id>>(id == 0, 0, 1);
  else d = std::make_unique<insecure::DummyObliviousDeltaCalculatorFactory>(1 - id, *fac[id]);
  return SinglePointArrayGeneratorFactory(id == 0, std::move(d)).create();
}
static void arrays(How how, size_t w, size_t len, const std::vector<size_t>& index, Arrays& a, Arrays& b) {
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  useNetPlain<1>(1, 2, fac);
  std::vector<VB> s(w), t(w);
  for (size_t i = 0; i < w; i++)
    for (auto x : index) {
      bool share = vf_bool("share");
      s[i].push_back(share);
      t[i].push_back(share ^ (x >> i & 1));
    }
  runTwo([&] { a = mk<0>(how, fac)->generateSinglePointArrays(s, len); }, [&] { b = mk<1>(how, fac)->generateSinglePointArrays(t, len); });
  vf_check(a.size() == index.size() && b.size() == index.size(), "one array for every index");
  for (size_t k = 0; k < index.size(); k++) {
    vf_check(a[k].first.size() == len && b[k].first.size() == len && a[k].second.size() == len && b[k].second.size() == len, "arrays of the requested length");
    for (size_t i = 0; i < len; i++) {
      bool x = a[k].first[i], y = b[k].first[i];
      if (i == index[k]) vf_check(x != y, "the indicators differ at the index");
      else {
        vf_check(x == y, "the indicators agree elsewhere");
        vf_check(same(a[k].second[i], fromM(b[k].second[i])), "the keys agree elsewhere");
      }
    }
  }
}
extern "C" void vf_m06_arrays() {
  size_t w = vf_split("width", 1, VF_THOROUGH ? 3 : 2), len = vf_split("length", 1, 1 << w), x = vf_split("index", 0, (1 << w) - 1);
  How how = vf_split("dummy", 0, 1) ? How::DummyDelta : How::Real;
  Arrays a, b;
  arrays(how, w, len, {x}, a, b);
  vf_reach("ok");
  if (w == 1 && x < len) { // the two keys at the index are not the same for every seed
    vf_assume(!same(a[0].second[x], fromM(b[0].second[x])));
    vf_reach("differ");
  }
}
extern "C" void vf_m06_batch() {
  size_t w = vf_split("width", 1, 2), len = vf_split("length", 2, w + 1), x = vf_split("index", 0, (1 << w) - 1), y = vf_split("other", 0, (1 << w) - 1);
  Arrays a, b;
  arrays(How::Real, w, len, {x, y}, a, b);
  vf_reach("ok");
}
extern "C" void vf_m06_long() {
  static const size_t lens[] = {3, 4, 5, 7, 8, 9, 13, 15, 16, 17, 24};
  aesm::g_mix = true;
  size_t w = vf_split("width", 3, VF_THOROUGH ? 5 : 4), len = lens[vf_split("length", 0, VF_THOROUGH ? 10 : 8)];
  if (len > (1u << w)) len = 1u << w;
  size_t x = vf_split("index", 0, (1 << w) - 1);
  Arrays a, b;
  fixedSeeds = true;
  arrays(How::Real, w, len, {x}, a, b);
  vf_reach("ok");
}
extern "C" void vf_m06_dummy() {
  size_t w = vf_split("width", 1, 3), len = vf_split("length", 1, 1 << w), x = vf_split("index", 0, len - 1);
  Arrays a, b;
  arrays(How::Dummy, w, len, {x, len - 1 - x}, a, b);
  vf_reach("ok");
}
extern "C" void vf_m06_delta() {
  size_t n = vf_split("n", 1, 2);
  bool dummy = vf_split("dummy", 0, 1);
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  useNetPlain<1>(1, 2, fac);
  std::vector<__m128i> d[2][2];
  VB al[2];
  auto any = [] { Blk b; for (auto& x : b) x = vf_sym("delta", 8); return toM(b); };
  for (int p = 0; p < 2; p++)
    for (size_t i = 0; i < n; i++) { d[p][0].push_back(any()); d[p][1].push_back(any()); al[p].push_back(vf_bool("choice")); }
  using R = std::tuple<std::vector<__m128i>, VB, VB>;
  R r[2];
  auto go = [&](auto f, int p) { r[p] = f->calculateDelta(d[p][0], d[p][1], al[p]); };
  if (dummy) runTwo([&] { go(insecure::DummyObliviousDeltaCalculatorFactory(1, *fac[0]).create(), 0); }, [&] { go(insecure::DummyObliviousDeltaCalculatorFactory(0, *fac[1]).create(), 1); });
  else runTwo([&] { go(ObliviousDeltaCalculatorFactory<0>(true, 0, 1).create(), 0); }, [&] { go(ObliviousDeltaCalculatorFactory<1>(false, 0, 1).create(), 1); });
  for (int p = 0; p < 2; p++) {
    auto& [delta, t0, t1] = r[p];
    vf_check(delta.size() == n && t0.size() == n && t1.size() == n, "one correction each");
    for (size_t i = 0; i < n; i++) {
      __m128i x = _mm_xor_si128(d[0][0][i], d[1][0][i]), y = _mm_xor_si128(d[0][1][i], d[1][1][i]);
      bool alpha = al[0][i] ^ al[1][i];
      auto want = fromM(x), alt = fromM(y);
      for (int k = 0; k < 16; k++) want[k] = alpha ? want[k] : alt[k];
      vf_check(same(delta[i], want), "the difference of the side not taken");
      vf_check(t0[i] == ((fromM(x)[0] & 1) ^ !alpha), "correction of the first bit");
      vf_check(t1[i] == ((fromM(y)[0] & 1) ^ alpha), "correction of the second bit");
    }
  }
  vf_reach("ok");
}
extern "C" void vf_m06_reject() {
  auto fac = mkFactories(2);
  useNetPlain<0>(0, 2, fac);
  vf_check(vf_throws([&] { mk<0>(How::Real, fac)->generateSinglePointArrays({}, 4); }), "no index");
  vf_check(vf_throws([&] { mk<0>(How::Real, fac)->generateSinglePointArrays(std::vector<VB>(64, VB(1)), 4); }), "too wide an index");
  vf_check(vf_throws([&] { mk<0>(How::Real, fac)->generateSinglePointArrays(std::vector<VB>(2), 4); }), "nothing to do");
  vf_reach("ok");
}
