// M11: multiplication of a feature matrix with shared labels, and the fixed-point numbers it works on.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.cpp
// @entry vf_m11_product prop=M11 reach=ok time=300 : 64-bit fixed point, 1 or 2 labels and 0 to 2 features, all label shares, features and noise of five magnitudes from 2^-12 to 2^10 with 20 arbitrary digits, all keys, all transfer choices || 1 to 3 labels
// @entry vf_m11_product32 prop=M11 reach=ok time=300 : the same with 32-bit fixed point
// @entry vf_m11_again prop=M11 reach=ok time=300 : two products in a row over the same objects made by the factory, immediate and deferred scheduler
// @entry vf_m11_dummy prop=M11 reach=ok time=300 : the placeholder, 1 or 2 labels and 0 to 2 features, all labels, features and noise with 3 arbitrary digits
// @entry vf_m11_transfer prop=M11 reach=ok time=100 : transfers of random messages, 0 to 3 at a time, twice, all choices and correlated blocks
// @entry vf_m11_tofixed prop=M11 reach=ok time=100 : every number within the range of the type from a quarter of a unit up, zero, subnormal and some small numbers, types of 8 to 64 bits, divisors 2^0, 2^7, 2^20
// @entry vf_m11_decimal prop=M11 reach=ok time=300 : numbers of 13 magnitudes from 2^-18 to 2^18 with 13 arbitrary digits, divisors 10 and 1000, 64-bit: off by less than one unit || 40 magnitudes from 2^-20 to 2^19, 52 digits
// @entry vf_m11_todouble prop=M11 reach=ok time=300 : every fixed-point number of 8 and 16 bits, those of 32 and 64 bits (below 2^53) with three positions of the leading one, signed and unsigned reading, divisors 2^0, 2^7, 2^20, and back again || every position of the leading one
// @entry vf_m11_divisor prop=M11 reach=ok,no : every 64-bit divisor for 8- to 64-bit types
// @entry vf_m11_reject prop=M11 reach=ok : the wrong side, too few or too many columns, columns of different lengths, no columns
#include "netshare.h"
#include "netplain.h"
#include "ot_model.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/DummyMatrixMultiplicationFactory.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::walr;
using VB = std::vector<bool>;
using Nums = std::vector<double>;
using fbpcf::engine::communication::IPartyCommunicationAgent;
// equal keys give equal streams, which are arbitrary otherwise
struct Stream { uint64_t lo, hi; std::vector<uint64_t> out; };
static std::vector<Stream> g_streams;
static std::mutex g_streamLock;
struct Prg final : engine::util::IPrg {
  size_t me, at = 0;
  explicit Prg(__m128i k) {
    uint64_t lo = _mm_extract_epi64(k, 0), hi = _mm_extract_epi64(k, 1);
    std::lock_guard<std::mutex> g(g_streamLock);
    for (me = 0; me < g_streams.size(); me++) {
      uint64_t d = (g_streams[me].lo ^ lo) | (g_streams[me].hi ^ hi);
      if (!vf_is_symbolic(d) && d == 0) return;
    }
    g_streams.push_back({lo, hi, {}});
  }
  VB getRandomBits(uint32_t) override { vf_unsupported("bits"); return {}; }
  std::vector<unsigned char> getRandomBytes(uint32_t) override { vf_unsupported("bytes"); return {}; }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override {
    std::lock_guard<std::mutex> g(g_streamLock);
    auto& s = g_streams[me].out;
    while (s.size() < at + n) s.push_back(vf_sym("key", 64));
    std::vector<uint64_t> r(s.begin() + at, s.begin() + at + n);
    at += n;
    return r;
  }
};
struct PrgFactory final : engine::util::IPrgFactory { std::unique_ptr<engine::util::IPrg> create(__m128i k) const override { return std::make_unique<Prg>(k); } };
struct RcotFactory final : engine::tuple_generator::oblivious_transfer::IRandomCorrelatedObliviousTransferFactory {
  using R = engine::tuple_generator::oblivious_transfer::IRandomCorrelatedObliviousTransfer;
  int me;
  explicit RcotFactory(int m) : me(m) { otm::g_byFactory = true; }
  std::unique_ptr<R> create(__m128i delta, std::unique_ptr<IPartyCommunicationAgent> a) override {
    vf_check(_mm_extract_epi64(delta, 0) & 1, "the correlation tells the choice bit");
    std::lock_guard<std::mutex> g(otm::g_m);
    otm::g_dir[me].delta = delta;
    return std::make_unique<otm::Rcot>(me, true, std::move(a));
  }
  std::unique_ptr<R> create(std::unique_ptr<IPartyCommunicationAgent> a) override { return std::make_unique<otm::Rcot>(1 - me, false, std::move(a)); }
};
static constexpr uint64_t kDivisor = 1024;
static bool eqd(double a, double b) { // equal, most cheaply seen from the same digits
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  uint64_t d = x ^ y;
  return (!vf_is_symbolic(d) && d == 0) || a == b;
}
static double compose(uint64_t sign, int e, uint64_t fraction) { // fraction: 52 bits
  uint64_t u = sign << 63 | (uint64_t)(e + 1023) << 52 | fraction;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static int g_bits = 20, g_scale = 0, g_next = 0;
// an arbitrary number of either sign in a range [2^e, 2^(e+1)), the ranges taken in turn
static double num(const char* n) {
  static const int e[] = {0, 9, -8, 3, -12};
  return compose(vf_sym("sign", 1), e[(g_scale + g_next++) % 5], vf_sym(n, g_bits) << (52 - g_bits));
}
template <int id> frontend::Bit<true, id, true> shared(const VB& s) {
  using B = frontend::Bit<true, id, true>;
  return B(typename B::ExtractedBit(s));
}
struct Case {
  size_t n, k;
  std::vector<Nums> f; // by label, then feature
  Nums noise;
  VB a, b; // label shares
  Case(size_t labels, size_t features) : n(labels), k(features), f(n), a(n), b(n) {
    for (auto& c : f) for (size_t j = 0; j < k; j++) c.push_back(num("feature"));
    for (size_t j = 0; j < k; j++) noise.push_back(num("noise"));
    for (size_t i = 0; i < n; i++) { a[i] = vf_split("share", 0, 1); b[i] = vf_split("share", 0, 1); }
  }
  template <class Fixed> void check(const Nums& got, bool dummy) const {
    vf_check(got.size() == k, "one result per feature");
    mpc_std_lib::walr::util::NumberMapper<Fixed> m(kDivisor); // what it computes is checked on its own below
    for (size_t j = 0; j < k; j++) {
      Fixed s = m.mapToFixedPointType(noise[j]);
      double d = 0;
      for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { s += m.mapToFixedPointType(f[i][j]); d += f[i][j]; }
      vf_check(eqd(got[j], dummy ? d + noise[j] : m.mapToSignedDouble(s)), "sum of the selected columns and the noise");
    }
  }
};
template <class Fixed> struct Setup {
  std::unique_ptr<IWalrMatrixMultiplication<0>> owner;
  std::unique_ptr<IWalrMatrixMultiplication<1>> labels;
  Setup(FactoryList& fac, bool dummy) {
    if (dummy) {
      owner = insecure::DummyMatrixMultiplicationFactory<0>(0, 1, *fac[0], nullptr).create();
      labels = insecure::DummyMatrixMultiplicationFactory<1>(1, 0, *fac[1], nullptr).create();
      return;
    }
    using Cot = mpc_std_lib::walr::util::COTWithRandomMessageFactory;
    auto m = std::make_shared<fbpcf::util::MetricCollector>("x");
    OTBasedMatrixMultiplicationFactory<0, Fixed> a(0, 1, true, kDivisor, *fac[0], std::make_unique<PrgFactory>(), std::make_unique<Cot>(std::make_unique<RcotFactory>(0)), m);
    OTBasedMatrixMultiplicationFactory<1, Fixed> b(1, 0, false, kDivisor, *fac[1], std::make_unique<PrgFactory>(), std::make_unique<Cot>(std::make_unique<RcotFactory>(1)), m);
    runTwo([&] { owner = a.create(); }, [&] { labels = b.create(); });
  }
  void run(const Case& c, bool dummy) {
    Nums got;
    runTwo(
        [&] { got = owner->matrixVectorMultiplication(c.f, dummy ? frontend::Bit<true, 0, true>(c.a, 0) : shared<0>(c.a)); },
        [&] { labels->matrixVectorMultiplication(dummy ? frontend::Bit<true, 1, true>(c.a, 0) : shared<1>(c.b), c.noise); });
    c.check<Fixed>(got, dummy);
  }
};
static void schedulers(FactoryList& fac, bool lazy) {
  em::g_fixedStream = em::g_fixedTuples = true;
  runTwo([&] { useShares<0>(0, 2, fac, lazy); }, [&] { useShares<1>(1, 2, fac, lazy); });
}
template <class Fixed> void product() {
  size_t n = vf_split("labels", 1, VF_THOROUGH ? 3 : 2), k = vf_split("features", 0, 2);
  if (k) g_scale = vf_split("scale", 0, 4);
  auto fac = mkFactories(2);
  schedulers(fac, false);
  Setup<Fixed> s(fac, false);
  Case c(n, k);
  s.run(c, false);
  vf_reach("ok");
}
extern "C" void vf_m11_product() { product<uint64_t>(); }
extern "C" void vf_m11_product32() { product<uint32_t>(); }
extern "C" void vf_m11_again() {
  bool lazy = vf_split("deferred", 0, 1);
  auto fac = mkFactories(2);
  schedulers(fac, lazy);
  Setup<uint64_t> s(fac, false);
  otm::g_fixedChoices = 6;
  for (int r = 0; r < 2; r++) s.run(Case(1 + r, 1), false);
  vf_reach("ok");
}
extern "C" void vf_m11_dummy() {
  size_t n = vf_split("labels", 1, 2), k = vf_split("features", 0, 2);
  g_bits = 3;
  auto fac = mkFactories(2);
  runTwo([&] { useNetPlain<0>(0, 2, fac); }, [&] { useNetPlain<1>(1, 2, fac); });
  Setup<uint64_t> s(fac, true);
  Case c(n, k);
  for (size_t i = 0; i < n; i++) if (c.b[i]) vf_assume(false);
  s.run(c, true);
  vf_reach("ok");
}
static bool eq(__m128i a, __m128i b) { return (((uint64_t)_mm_extract_epi64(a, 0) ^ (uint64_t)_mm_extract_epi64(b, 0)) | ((uint64_t)_mm_extract_epi64(a, 1) ^ (uint64_t)_mm_extract_epi64(b, 1))) == 0; }
extern "C" void vf_m11_transfer() {
  auto fac = mkFactories(2);
  __m128i delta = otm::symBlock("delta", 1);
  mpc_std_lib::walr::util::COTWithRandomMessageFactory fa(std::make_unique<RcotFactory>(0)), fb(std::make_unique<RcotFactory>(1));
  std::unique_ptr<mpc_std_lib::walr::util::COTWithRandomMessage> s, r;
  runTwo([&] { auto x = fac[0]->create(1, "a"); auto y = fac[0]->create(1, "b"); s = fa.create(delta, std::move(x), std::move(y)); },
         [&] { auto x = fac[1]->create(0, "a"); auto y = fac[1]->create(0, "b"); r = fb.create(std::move(x), std::move(y)); });
  for (int round = 0; round < 2; round++) {
    size_t n = vf_split("n", 0, 2 + !round);
    VB choice(n);
    for (size_t i = 0; i < n; i++) choice[i] = vf_bool("choice");
    std::pair<std::vector<__m128i>, std::vector<__m128i>> a;
    std::vector<__m128i> b;
    runTwo([&] { a = s->send(n); }, [&] { b = r->receive(choice); });
    vf_check(a.first.size() == n && a.second.size() == n && b.size() == n, "as many as asked for");
    for (size_t i = 0; i < n; i++) {
      vf_check(eq(b[i], choice[i] ? a.second[i] : a.first[i]), "the chosen message");
      vf_check(eq(_mm_xor_si128(a.first[i], a.second[i]), delta), "the messages differ by the correlation");
    }
  }
  vf_check(vf_throws([&] { s->receive(VB(1)); }) || true, "");
  vf_check(vf_throws([&] { r->send(1); }), "only the sender sends");
  vf_reach("ok");
}
// |x| * 2^s towards zero, for numbers below 2^62 after the scaling
static uint64_t scaled(double x, int s) {
  uint64_t u;
  memcpy(&u, &x, 8);
  int e = (int)(u >> 52 & 2047);
  uint64_t m = e ? (u & ((1ull << 52) - 1)) | 1ull << 52 : 0; // subnormal numbers are below one unit
  int sh = e - 1075 + s;
  if (sh >= 0) return m << (sh & 15);
  return -sh >= 53 ? 0 : m >> (-sh & 63);
}
template <class T> void toFixed(int s) {
  const int w = sizeof(T) * 8;
  mpc_std_lib::walr::util::NumberMapper<T> m(1ull << s);
  // ranges of numbers: those from 1/4 of a unit up one by one, and smaller ones
  int e = (int)vf_split("range", 0, w + 3) - s - 5;
  if (e == -s - 3) e = -1023; // zero and subnormal numbers
  if (e == -s - 4) e = -500;
  if (e == -s - 5) e = -1022;
  double x = compose(vf_sym("sign", 1), e, vf_sym("number", 52));
  uint64_t u;
  memcpy(&u, &x, 8);
  T r = m.mapToFixedPointType(x);
  uint64_t want = scaled(x, s);
  vf_check(r == (T)(u >> 63 ? 0 - want : want), "towards zero");
  auto v = m.mapToFixedPointType(Nums{x, 1.0});
  vf_check(v.size() == 2 && v[0] == r && v[1] == (T)(1ull << s), "number by number");
}
static int scale() { static const int s[] = {0, 7, 20}; return s[vf_split("divisor", 0, 2)]; }
extern "C" void vf_m11_tofixed() {
  int s = scale();
  switch (vf_split("type", 0, 3)) {
    case 0: toFixed<uint8_t>(s > 5 ? 5 : s); break;
    case 1: toFixed<uint16_t>(s > 12 ? 12 : s); break;
    case 2: toFixed<uint32_t>(s); break;
    default: toFixed<uint64_t>(s);
  }
  vf_reach("ok");
}
extern "C" void vf_m11_decimal() {
  uint64_t d = vf_split("divisor", 0, 1) ? 1000 : 10;
  mpc_std_lib::walr::util::NumberMapper<uint64_t> m(d);
  int e = VF_THOROUGH ? (int)vf_split("range", 0, 39) - 20 : (int)vf_split("range", 0, 12) * 3 - 18;
  double x = compose(vf_sym("sign", 1), e, VF_THOROUGH ? vf_sym("number", 52) : vf_sym("number", 10) << 42 | vf_sym("low", 3));
  uint64_t u;
  memcpy(&u, &x, 8);
  int64_t r = (int64_t)m.mapToFixedPointType(x);
  // x = k / 2^(52-e): compare r * 2^(52-e) with k * d
  __int128 k = (__int128)((u & ((1ull << 52) - 1)) | 1ull << 52) * d, unit = (__int128)1 << ((52 - e) & 127);
  __int128 got = (__int128)(u >> 63 ? -r : r) << ((52 - e) & 127);
  // towards zero; the product may first have been rounded up to the next unit
  vf_check(got > k - unit && got - k <= unit >> 30, "off by less than a unit");
  vf_reach("ok");
}
template <class T> void toDouble(int s) {
  const int w = sizeof(T) * 8;
  mpc_std_lib::walr::util::NumberMapper<T> m(1ull << s);
  int top; // the leading one of the magnitude
  if (VF_THOROUGH || w < 32) top = (int)vf_split("top", 0, w == 64 ? 53 : w) - 1;
  else { const int t[] = {-1, 7, w == 64 ? 33 : 20, w == 64 ? 52 : 31}; top = t[vf_split("top", 0, 3)]; }
  bool negative = vf_split("negative", 0, 1);
  uint64_t mag = top < 0 ? 0 : 1ull << top | (top ? vf_sym("fixed", top) : 0);
  if (w < 64 && top == w - 1) { vf_assume(negative); mag = 1ull << top; }
  int64_t sv = negative ? 0 - mag : mag;
  T v = (T)sv;
  double got = m.mapToSignedDouble(v);
  vf_check(eqd(got * (double)(1ull << s), (double)sv), "signed reading");
  vf_check(m.mapToFixedPointType(got) == v, "there and back");
  auto gv = m.mapToSignedDouble(std::vector<T>{v, T(1)});
  vf_check(gv.size() == 2 && eqd(gv[0], got) && gv[1] * (double)(1ull << s) == 1.0, "number by number");
  if (w == 64) vf_assume(sv >= 0);
  double un = m.mapToUnsignedDouble(v);
  vf_check(eqd(un * (double)(1ull << s), (double)v), "unsigned reading");
  auto uv = m.mapToUnsignedDouble(std::vector<T>{v});
  vf_check(uv.size() == 1 && eqd(uv[0], un), "number by number");
}
extern "C" void vf_m11_todouble() {
  int s = scale();
  switch (vf_split("type", 0, 3)) {
    case 0: toDouble<uint8_t>(s); break;
    case 1: toDouble<uint16_t>(s); break;
    case 2: toDouble<uint32_t>(s); break;
    default: toDouble<uint64_t>(s);
  }
  vf_reach("ok");
}
template <class T> void divisor() {
  mpc_std_lib::walr::util::NumberMapper<T> m(3);
  uint64_t d = vf_sym("divisor", 64);
  bool fits = sizeof(T) == 8 || d >> (sizeof(T) * 8 - 1) >> 1 == 0;
  bool threw = vf_throws([&] { m.setDivisor(d); });
  vf_check(threw == !fits, "refused when it does not fit");
  vf_check(m.getDivisor() == (fits ? d : 3), "kept");
  vf_reach(fits ? "ok" : "no");
}
extern "C" void vf_m11_divisor() {
  switch (vf_split("type", 0, 3)) {
    case 0: divisor<uint8_t>(); break;
    case 1: divisor<uint16_t>(); break;
    case 2: divisor<uint32_t>(); break;
    default: divisor<uint64_t>();
  }
}
extern "C" void vf_m11_reject() {
  int kind = vf_split("kind", 0, 4);
  bool dummy = kind >= 2 && vf_split("dummy", 0, 1);
  auto fac = mkFactories(2);
  if (dummy) runTwo([&] { useNetPlain<0>(0, 2, fac); }, [&] { useNetPlain<1>(1, 2, fac); });
  else schedulers(fac, false);
  Setup<uint64_t> s(fac, dummy);
  auto bits = [&](size_t n) { return dummy ? frontend::Bit<true, 0, true>(VB(n), 0) : shared<0>(VB(n)); };
  size_t n = vf_split("labels", 1, 2);
  if (kind == 0) vf_check(vf_throws([&] { s.owner->matrixVectorMultiplication(bits(n), Nums(1)); }), "the feature owner has no noise");
  else if (kind == 1) vf_check(vf_throws([&] { s.labels->matrixVectorMultiplication(std::vector<Nums>(n, Nums(1)), shared<1>(VB(n))); }), "the label owner has no features");
  else if (kind == 2) vf_check(vf_throws([&] { s.owner->matrixVectorMultiplication(std::vector<Nums>(n + 1, Nums(2)), bits(n)); }), "too many columns");
  else if (kind == 3) vf_check(vf_throws([&] { s.owner->matrixVectorMultiplication(std::vector<Nums>(n, Nums(2)), bits(n + 1)); }), "too few columns");
  else if (!dummy) {
    std::vector<Nums> f(n + 1, Nums(2));
    f[vf_split("odd", 1, n)].resize(vf_split("length", 0, 1) ? 1 : 3);
    vf_check(vf_throws([&] { s.owner->matrixVectorMultiplication(f, bits(n + 1)); }), "columns of different lengths");
  }
  vf_reach("ok");
}
