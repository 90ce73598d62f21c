// E04: correlated tuples and product shares.
// @src fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp fbpcf/engine/tuple_generator/TupleGenerator.cpp fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.cpp fbpcf/engine/tuple_generator/ProductShareGenerator.cpp fbpcf/engine/tuple_generator/DummyProductShareGenerator.cpp fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransfer.cpp fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/util.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp
// @entry vf_e04_products_bool prop=E04 reach=ok : two calls of 0 to 3 products, both generators; all inputs and random streams
// @entry vf_e04_products_int prop=E04 reach=ok : one product of 64-bit integers through 64 transfers; every value of one factor, of the other every window of 2 bits at every place over a background of zeros or ones, both orders; all random streams || every window of 4 bits
// @entry vf_e04_products_plain prop=E04 reach=ok : the insecure integer product generator, two calls of 0 to 2 products, all inputs
// @entry vf_e04_general prop=E04 reach=ok : 2 and 3 parties, boolean tuples over product shares, buffers of 1 to 3, two requests of 0 to 3; all random streams
// @entry vf_e04_arithmetic prop=E04 reach=ok : 2 and 3 parties, integer tuples over product shares, buffers of 1 and 2, two requests of 0 to 2; all random streams
// @entry vf_e04_two prop=E04 reach=ok time=300: two-party generator over arbitrary correlated blocks, buffers of 1 and 2; histories of two requests (of 0 to 2 tuples, composite tuples of 0 to 130 products each, or both); every correlation, block and choice bit || three requests
// @entry vf_e04_factory prop=E04 reach=ok : two-party generators made by the factory, one request
// @entry vf_e04_schedules prop=E04 reach=ok time=300: two-party generator, buffers of 1, concrete blocks: a request of normal and composite tuples under every schedule with up to 1 preemption || up to 2
// @entry vf_e04_trivial prop=E04 reach=ok : the insecure generators and the generators that are not configured
#include "engine_model.h"
#include "aes_model.h"
#include "ot_model.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/NullArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/NullTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransferFactory.h"
namespace tg = fbpcf::engine::tuple_generator;
namespace ot = tg::oblivious_transfer;
using em::BT;
using em::CT;
using em::IT;
using Fac = fbpcf::engine::communication::IPartyCommunicationAgentFactory;
static __m128i key(int party, int what) { return _mm_set_epi64x(1000 + party, what); }
// ---- product shares ----
static std::unique_ptr<tg::IProductShareGenerator> products(bool dummy, int me, Fac& f) {
  if (dummy) return tg::insecure::DummyProductShareGeneratorFactory(f).create(1 - me);
  return std::make_unique<tg::ProductShareGenerator>(
      std::make_unique<em::Prg>(key(me, 2)), ot::insecure::DummyBidirectionObliviousTransferFactory(f).create(1 - me));
}
template <class T> T sym(const char* n) { if constexpr (sizeof(T) == 1) return vf_bool(n); else return vf_sym(n, 64); }
template <class T, class F> static void runProducts(bool dummy, std::vector<std::vector<T>> l[2], std::vector<std::vector<T>> r[2], F check) {
  auto fac = mkFactories(2);
  std::vector<std::vector<T>> out[2];
  auto party = [&](int me) {
    auto g = products(dummy, me, *fac[me]);
    for (size_t k = 0; k < l[me].size(); k++) {
      if constexpr (sizeof(T) == 1) out[me].push_back(g->generateBooleanProductShares(l[me][k], r[me][k]));
      else out[me].push_back(g->generateIntegerProductShares(l[me][k], r[me][k]));
      if (l[me][k].size() == 1) vf_check(vf_throws([&] {
        if constexpr (sizeof(T) == 1) g->generateBooleanProductShares(l[me][k], {}); else g->generateIntegerProductShares(l[me][k], {});
      }), "factors of different lengths are refused");
    }
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  for (size_t k = 0; k < l[0].size(); k++) {
    vf_check(out[0][k].size() == l[0][k].size() && out[1][k].size() == l[0][k].size(), "one share per product");
    for (size_t i = 0; i < l[0][k].size(); i++) check(k, i, out[0][k][i], out[1][k][i]);
  }
  vf_reach("ok");
}
extern "C" void vf_e04_products_bool() {
  bool dummy = vf_split("dummy", 0, 1);
  std::vector<std::vector<bool>> l[2], r[2];
  for (int k = 0; k < 2; k++) {
    size_t n = vf_split("n", 0, 3);
    for (int p = 0; p < 2; p++) {
      l[p].emplace_back(n), r[p].emplace_back(n);
      for (size_t i = 0; i < n; i++) l[p][k][i] = vf_bool("left"), r[p][k][i] = vf_bool("right");
    }
  }
  runProducts<bool>(dummy, l, r, [&](size_t k, size_t i, bool a, bool b) {
    // share of the cross products: left of each times right of the other
    vf_check((a ^ b) == ((l[0][k][i] && r[1][k][i]) ^ (l[1][k][i] && r[0][k][i])), "the shares add up to the cross products");
  });
}
extern "C" void vf_e04_products_int() {
  const int W = VF_THOROUGH ? 4 : 2;
  uint64_t base = vf_split("background", 0, 1) ? ~0ull : 0, pos = vf_split("place", 0, 64 / W - 1) * W;
  uint64_t rr[2], ll[2];
  for (int p = 0; p < 2; p++) {
    ll[p] = vf_sym("left", 64);
    rr[p] = base ^ (uint64_t)vf_split("window", 0, p ? 0 : (1 << W) - 1) << pos;
  }
  if (vf_split("swap", 0, 1)) std::swap(rr[0], rr[1]);
  std::vector<std::vector<uint64_t>> l[2] = {{{ll[0]}}, {{ll[1]}}}, r[2] = {{{rr[0]}}, {{rr[1]}}};
  runProducts<uint64_t>(false, l, r, [&](size_t, size_t, uint64_t a, uint64_t b) {
    uint64_t diff = a + b - (ll[0] * rr[1] + ll[1] * rr[0]);
    vf_check(!vf_concrete(diff != 0), "the shares add up to the cross products");
  });
}
extern "C" void vf_e04_products_plain() {
  std::vector<std::vector<uint64_t>> l[2], r[2];
  for (int k = 0; k < 2; k++) {
    size_t n = vf_split("n", 0, 2);
    for (int p = 0; p < 2; p++) {
      l[p].emplace_back(n), r[p].emplace_back(n);
      for (size_t i = 0; i < n; i++) l[p][k][i] = vf_sym("left", 64), r[p][k][i] = vf_sym("right", 64);
    }
  }
  runProducts<uint64_t>(true, l, r, [&](size_t k, size_t i, uint64_t a, uint64_t b) {
    uint64_t diff = a + b - (l[0][k][i] * r[1][k][i] + l[1][k][i] * r[0][k][i]);
    vf_check(!vf_concrete(diff != 0), "the shares add up to the cross products");
  });
}
// ---- tuples of any number of parties ----
extern "C" void vf_e04_general() {
  int p = vf_split("parties", 2, 3);
  bool dummy = vf_split("dummy", 0, 1);
  size_t buffer = vf_split("buffer", 1, 3), n[2] = {(size_t)vf_split("n", 0, 3), (size_t)vf_split("n", 0, 3)};
  auto fac = mkFactories(p);
  std::vector<std::vector<BT>> t(p);
  std::vector<std::function<void()>> fs;
  for (int me = 0; me < p; me++)
    fs.push_back([&, me] {
      std::shared_ptr<tg::IProductShareGeneratorFactory> pf;
      if (dummy) pf = std::make_shared<tg::insecure::DummyProductShareGeneratorFactory>(*fac[me]);
      else pf = std::make_shared<tg::ProductShareGeneratorFactory>(std::make_unique<em::PrgFactory>(), std::make_unique<ot::insecure::DummyBidirectionObliviousTransferFactory>(*fac[me]));
      auto g = tg::TupleGeneratorFactory(pf, std::make_unique<em::PrgFactory>(), buffer, me, p, std::make_shared<fbpcf::util::MetricCollector>("m")).create();
      vf_check(!g->supportsCompositeTupleGeneration(), "no composite tuples");
      for (int k = 0; k < 2; k++) {
        auto r = g->getBooleanTuple(n[k]);
        vf_check(r.size() == n[k], "as many tuples as requested");
        t[me].insert(t[me].end(), r.begin(), r.end());
      }
      vf_check(vf_throws([&] { g->getCompositeTuple({{2, 1}}); }), "composite tuples are refused");
    });
  runParties(fs);
  for (size_t i = 0; i < n[0] + n[1]; i++) {
    bool a = false, b = false, c = false;
    for (int q = 0; q < p; q++) a ^= t[q][i].getA(), b ^= t[q][i].getB(), c ^= t[q][i].getC();
    vf_check(c == (a && b), "the shares of the product");
  }
  vf_reach("ok");
}
extern "C" void vf_e04_arithmetic() {
  int p = vf_split("parties", 2, 3);
  size_t buffer = vf_split("buffer", 1, 2), n[2] = {(size_t)vf_split("n", 0, 2), (size_t)vf_split("n", 0, 2)};
  auto fac = mkFactories(p);
  std::vector<std::vector<IT>> t(p);
  std::vector<std::function<void()>> fs;
  for (int me = 0; me < p; me++)
    fs.push_back([&, me] {
      auto g = tg::ArithmeticTupleGeneratorFactory(std::make_shared<tg::insecure::DummyProductShareGeneratorFactory>(*fac[me]), std::make_unique<em::PrgFactory>(), buffer, me, p).create();
      for (int k = 0; k < 2; k++) {
        auto r = g->getIntegerTuple(n[k]);
        vf_check(r.size() == n[k], "as many tuples as requested");
        t[me].insert(t[me].end(), r.begin(), r.end());
      }
    });
  runParties(fs);
  for (size_t i = 0; i < n[0] + n[1]; i++) {
    uint64_t a = 0, b = 0, c = 0;
    for (int q = 0; q < p; q++) a += t[q][i].getA(), b += t[q][i].getB(), c += t[q][i].getC();
    uint64_t diff = c - a * b;
    vf_check(!vf_concrete(diff != 0), "the shares of the product");
  }
  vf_reach("ok");
}
// ---- two parties ----
struct Req { size_t normal; std::map<size_t, uint32_t> comp; };
static std::unique_ptr<tg::TwoPartyTupleGenerator> twoParty(int me, size_t buffer) {
  return std::make_unique<tg::TwoPartyTupleGenerator>(std::make_unique<otm::Rcot>(me, true), std::make_unique<otm::Rcot>(1 - me, false), otm::dir(me).delta,
      std::make_shared<tg::TuplesMetricRecorder>(), buffer);
}
using Composite = std::map<size_t, std::vector<CT>>;
static void runTwoParty(size_t buffer, std::vector<Req> reqs, std::function<std::unique_ptr<tg::ITupleGenerator>(int)> mk, int explore = 0) {
  std::vector<BT> t[2];
  std::vector<Composite> c[2];
  auto party = [&](int me) {
    auto g = mk(me);
    vf_check(g->supportsCompositeTupleGeneration(), "composite tuples");
    for (auto& q : reqs) {
      std::vector<BT> r;
      if (q.comp.empty()) r = g->getBooleanTuple(q.normal), c[me].push_back({});
      else if (q.normal == 9) c[me].push_back(g->getCompositeTuple(q.comp));
      else {
        auto x = g->getNormalAndCompositeBooleanTuples(q.normal, q.comp);
        r = x.first;
        c[me].push_back(x.second);
      }
      if (q.normal != 9) vf_check(r.size() == q.normal, "as many tuples as requested");
      t[me].insert(t[me].end(), r.begin(), r.end());
    }
  };
  if (otm::g_byFactory) runTwo([&] { party(0); }, [&] { party(1); });
  else { // the correlated blocks are there: the parties do not wait for each other
    party(0);
    if (explore) vf_explore_schedules(explore);
    party(1);
  }
  for (size_t i = 0; i < t[0].size(); i++)
    vf_check((t[0][i].getC() ^ t[1][i].getC()) == ((t[0][i].getA() ^ t[1][i].getA()) && (t[0][i].getB() ^ t[1][i].getB())), "the shares of the product");
  for (size_t k = 0; k < reqs.size(); k++) {
    vf_check(c[0][k].size() == reqs[k].comp.size() && c[1][k].size() == reqs[k].comp.size(), "one list of tuples per size");
    for (auto& [size, count] : reqs[k].comp) {
      auto& x = c[0][k].at(size);
      auto& y = c[1][k].at(size);
      vf_check(x.size() == count && y.size() == count, "as many composite tuples as requested");
      for (size_t i = 0; i < count; i++) {
        auto xb = x[i].getB(), yb = y[i].getB(), xc = x[i].getC(), yc = y[i].getC();
        vf_check(xb.size() == size && yb.size() == size && xc.size() == size && yc.size() == size, "as many products as requested");
        bool a = x[i].getA() ^ y[i].getA();
        for (size_t j = 0; j < size; j++) vf_check((xc[j] ^ yc[j]) == (a && (xb[j] ^ yb[j])), "the shares of the products");
      }
    }
  }
  vf_reach("ok");
}
extern "C" void vf_e04_two() {
  size_t buffer = vf_split("buffer", 1, 2);
  std::vector<Req> reqs;
  // each request: tuples, composite ones, or both
  static const Req kinds[] = {{1, {}}, {2, {}}, {0, {}}, {9, {{2, 1}}}, {9, {{1, 2}, {128, 1}}}, {9, {{0, 1}, {129, 1}}}, {1, {{3, 1}}}, {0, {{130, 1}}}, {1, {{2, 0}}}};
  for (int k = 0; k < (VF_THOROUGH ? 3 : 2); k++) reqs.push_back(kinds[vf_split("request", 0, 8)]);
  static const int patterns[] = {5, 6, 9, 10}; // every pair of choice bits for every place
  otm::g_fixedChoices = patterns[vf_split("choices", 0, 3)];
  for (int s = 0; s < 2; s++) otm::dir(s);
  runTwoParty(buffer, reqs, [&](int me) { return twoParty(me, buffer); });
}
extern "C" void vf_e04_factory() {
  static const int patterns[] = {5, 6, 9, 10}; // every pair of choice bits for every place
  otm::g_fixedChoices = patterns[vf_split("choices", 0, 3)];
  otm::g_byFactory = true;
  auto fac = mkFactories(2);
  runTwoParty(2, {{1, {{2, 1}}}}, [&](int me) {
    return tg::TwoPartyTupleGeneratorFactory(std::make_shared<otm::RcotFactory>(me), *fac[me], me, 2, std::make_shared<fbpcf::util::MetricCollector>("m")).create();
  });
}
extern "C" void vf_e04_schedules() {
  otm::g_concrete = aesm::g_mix = true;
  otm::g_fixedChoices = 6;
  for (int s = 0; s < 2; s++) otm::dir(s);
  runTwoParty(1, {{1, {{2, 1}}}}, [&](int me) { return twoParty(me, 1); }, VF_THOROUGH ? 2 : 1);
}
extern "C" void vf_e04_trivial() {
  auto m = std::make_shared<fbpcf::util::MetricCollector>("m");
  size_t n = vf_split("n", 0, 2), c = vf_split("c", 0, 2), size = vf_split("size", 1, 2);
  auto zero = [&](const std::vector<BT>& t) { vf_check(t.size() == n, "as many as requested"); for (auto& x : t) vf_check(!x.getA() && !x.getB() && !x.getC(), "zero"); };
  auto zeroC = [&](Composite t) {
    vf_check(t.size() == 1 && t.at(size).size() == c, "as many as requested");
    for (auto& x : t.at(size)) {
      auto xb = x.getB(), xc = x.getC();
      vf_check(!x.getA() && xb == std::vector<bool>(size) && xc == std::vector<bool>(size), "zero");
    }
  };
  auto g = tg::insecure::DummyTupleGeneratorFactory(m).create();
  zero(g->getBooleanTuple(n));
  zeroC(g->getCompositeTuple({{size, c}}));
  auto x = g->getNormalAndCompositeBooleanTuples(n, {{size, c}});
  zero(x.first), zeroC(x.second);
  auto i = tg::insecure::DummyArithmeticTupleGeneratorFactory().create()->getIntegerTuple(n);
  vf_check(i.size() == n, "as many as requested");
  for (auto& y : i) vf_check(y.getA() * y.getB() == y.getC(), "product");
  auto none = tg::NullTupleGeneratorFactory(m).create();
  auto nonei = tg::NullArithmeticTupleGeneratorFactory().create();
  vf_check(vf_throws([&] { vf_check(none->getBooleanTuple(n).empty(), "nothing"); }) == (n > 0), "refused unless nothing is asked for");
  vf_check(vf_throws([&] { vf_check(nonei->getIntegerTuple(n).empty(), "nothing"); }) == (n > 0), "refused unless nothing is asked for");
  vf_check(vf_throws([&] { none->getNormalAndCompositeBooleanTuples(n, {}); }) == (n > 0), "refused unless nothing is asked for");
  vf_check(vf_throws([&] { none->getCompositeTuple({{size, c}}); }), "refused");
  vf_reach("ok");
}
