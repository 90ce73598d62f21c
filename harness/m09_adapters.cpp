// M09: conversions between native data and secret bits, and the adapters' vector operations.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/mpc_std_lib/util/util.cpp
// @entry vf_m09_uint32 prop=M09 reach=ok : every 32-bit value; bit vectors of 0 to 33 bits
// @entry vf_m09_intp prop=M09 reach=ok : Intp of widths 1, 9, 31, 32, 63, 64, signed and unsigned, every value; every key
// @entry vf_m09_aggregation prop=M09 reach=ok : every aggregation record; bit vectors of the right and of wrong lengths
// @entry vf_m09_blocks prop=M09 reach=ok,reject : batches of 0 to 3 arbitrary 128-bit blocks || 0 to 8 blocks
// @entry vf_m09_swap_uint32 prop=M09 reach=ok : batches of 1 to 2 arbitrary 32-bit values, every swap choice, opening, batching and share recovery
// @entry vf_m09_swap_intp prop=M09 reach=ok : likewise for signed 9-bit and unsigned 7-bit Intp
// @entry vf_m09_swap_bits prop=M09 reach=ok : likewise for booleans and bit strings of 0 to 3 bits
// @entry vf_m09_swap_pair prop=M09 reach=ok : likewise for pairs of 32-bit values and of a value and a boolean
// @entry vf_m09_swap_aggregation prop=M09 reach=ok : likewise for aggregation records (no batching), mux and subtraction
#include "sched.h"
#include "aes_ref.h"
#include "fbpcf/frontend/mpcGame.h"
#include "fbpcf/mpc_std_lib/util/util.h"
using namespace fbpcf;
using namespace fbpcf::mpc_std_lib::util;
static const int N = VF_THOROUGH ? 4 : 2;
static bool bitsAre(const std::vector<bool>& b, size_t off, uint64_t v, int w) {
  bool ok = true;
  for (int i = 0; i < w; i++) ok &= b[off + i] == (v >> i & 1);
  return ok;
}
extern "C" void vf_m09_uint32() {
  using A = Adapters<uint32_t>;
  uint32_t v = vf_sym("v", 32);
  auto b = A::convertToBits(v);
  vf_check(b.size() == 32 && bitsAre(b, 0, v, 32), "bits of the value, least significant first");
  vf_check(A::convertFromBits(b) == v, "round trip");
  size_t n = vf_split("bits", 0, 33);
  std::vector<bool> s(n);
  uint64_t e = 0;
  for (size_t i = 0; i < n; i++) { bool x = vf_bool("bit"); s[i] = x; e |= (uint64_t)x << i; }
  uint32_t got = 0;
  bool threw = vf_throws([&] { got = A::convertFromBits(s); });
  vf_check(threw == (n > 32), "too many bits are rejected");
  if (!threw) vf_check(got == (uint32_t)e, "value of the bits");
  Blk k;
  for (auto& x : k) x = vf_sym("key", 8);
  vf_check(A::generateFromKey(toM(k)) == (k[0] | k[1] << 8 | k[2] << 16 | (uint32_t)k[3] << 24), "generated from the key");
  vf_reach("ok");
}
template <bool S, int W> uint64_t norm(uint64_t x) {
  if (W < 64) x &= (1ull << (W & 63)) - 1;
  if (S && W < 64 && (x >> (W - 1) & 1)) x |= ~0ull << (W & 63);
  return x;
}
template <bool S, int8_t W> uint64_t raw(const Intp<S, W>& x) { return (uint64_t)(typename Intp<S, W>::NativeType)x; }
template <bool S, int8_t W> void intp() {
  using I = Intp<S, W>;
  using A = Adapters<I>;
  uint64_t v = norm<S, W>(vf_sym("v", W));
  auto b = A::convertToBits(I((typename I::NativeType)v));
  vf_check(b.size() == W && bitsAre(b, 0, v, W), "bits of the value, least significant first");
  vf_check(raw<S, W>(A::convertFromBits(b)) == v, "round trip");
  std::vector<bool> s(W + 1, true);
  vf_check(vf_throws([&] { A::convertFromBits(s); }), "too many bits are rejected");
  std::vector<bool> c;
  uint64_t e = 0;
  for (size_t i = 0; i < W; i++) { bool x = vf_bool("bit"); c.push_back(x); e |= (uint64_t)x << i; }
  vf_check(raw<S, W>(A::convertFromBits(c)) == norm<S, W>(e), "value of the bits");
  Blk k;
  for (auto& x : k) x = vf_sym("key", 8);
  uint64_t key = 0;
  for (int i = 0; i < 8; i++) key |= (uint64_t)k[i] << 8 * i;
  vf_check(raw<S, W>(A::generateFromKey(toM(k))) == norm<S, W>(key), "generated from the key");
}
extern "C" void vf_m09_intp() {
  switch (vf_split("type", 0, 11)) {
    case 0: intp<true, 1>(); break;
    case 1: intp<false, 1>(); break;
    case 2: intp<true, 9>(); break;
    case 3: intp<false, 9>(); break;
    case 4: intp<true, 31>(); break;
    case 5: intp<false, 31>(); break;
    case 6: intp<true, 32>(); break;
    case 7: intp<false, 32>(); break;
    case 8: intp<true, 63>(); break;
    case 9: intp<false, 63>(); break;
    case 10: intp<true, 64>(); break;
    default: intp<false, 64>(); break;
  }
  vf_reach("ok");
}
extern "C" void vf_m09_aggregation() {
  using A = Adapters<AggregationValue>;
  AggregationValue v(vf_sym("count", 32), vf_sym("value", 32)), w(vf_sym("count", 32), vf_sym("value", 32));
  auto b = A::convertToBits(v);
  vf_check(b.size() == 64 && bitsAre(b, 0, v.conversionCount, 32) && bitsAre(b, 32, v.conversionValue, 32), "bits of the record");
  vf_check(A::convertFromBits(b) == v, "round trip");
  vf_check(vf_throws([&] { A::convertFromBits(std::vector<bool>(63)); }) && vf_throws([&] { A::convertFromBits(std::vector<bool>(65)); }) && vf_throws([&] { A::convertFromBits({}); }), "wrong number of bits is rejected");
  auto s = v + w, d = v - w, n = -v, t = v;
  t += w;
  vf_check(s.conversionCount == (uint32_t)(v.conversionCount + w.conversionCount) && s.conversionValue == (uint32_t)(v.conversionValue + w.conversionValue), "sum");
  vf_check(t == s, "accumulation");
  vf_check(d.conversionCount == (uint32_t)(v.conversionCount - w.conversionCount) && d.conversionValue == (uint32_t)(v.conversionValue - w.conversionValue), "difference");
  vf_check(n.conversionCount == (uint32_t)-v.conversionCount && n.conversionValue == (uint32_t)-v.conversionValue, "negation");
  vf_check((v == w) == (v.conversionCount == w.conversionCount && v.conversionValue == w.conversionValue), "equality");
  Blk k;
  for (auto& x : k) x = vf_sym("key", 8);
  auto g = A::generateFromKey(toM(k));
  auto word = [&](int i) { return k[i] | k[i + 1] << 8 | k[i + 2] << 16 | (uint32_t)k[i + 3] << 24; };
  vf_check(g.conversionCount == word(4) && g.conversionValue == word(0), "generated from the key");
  vf_reach("ok");
}
extern "C" void vf_m09_blocks() {
  size_t n = vf_split("n", 0, VF_THOROUGH ? 8 : 3);
  std::vector<Blk> p(n);
  std::vector<__m128i> v(n);
  for (size_t i = 0; i < n; i++) { for (auto& x : p[i]) x = vf_sym("byte", 8); v[i] = toM(p[i]); }
  auto b = convertToBits(v);
  vf_check(b.size() == 128, "one row per bit");
  for (int j = 0; j < 128; j++) {
    bool ok = b[j].size() == n;
    for (size_t i = 0; ok && i < n; i++) ok &= b[j][i] == (p[i][j / 8] >> j % 8 & 1);
    vf_check(ok, "bit j of every block in order");
  }
  auto r = convertFromBits(b);
  vf_check(r.size() == n, "number of blocks");
  for (size_t i = 0; i < n; i++) vf_check(same(r[i], p[i]), "round trip");
  vf_check(vf_throws([&] { convertFromBits(std::vector<std::vector<bool>>(127, std::vector<bool>(1))); }) && vf_throws([&] { convertFromBits({}); }), "wrong number of rows is rejected");
  vf_reach(n ? "ok" : "reject");
}

// the vector operations; M gives arbitrary values, E compares them, B is the bits for share recovery (or nothing)
template <class T, class M, class E, bool batching> void vectorOps(M mk, E eq) {
  using A = MpcAdapters<T, 0>;
  usePlaintext<0>();
  size_t n = vf_split("n", 1, N);
  std::vector<T> a(n), b(n);
  std::vector<bool> c(n);
  for (size_t i = 0; i < n; i++) { a[i] = mk(); b[i] = mk(); c[i] = vf_bool("swap"); }
  auto sa = A::processSecretInputs(a, 0), sb = A::processSecretInputs(b, 0);
  auto oa = A::openToParty(sa, 0);
  vf_check(oa.size() == n, "number of opened values");
  for (size_t i = 0; i < n; i++) vf_check(eq(oa[i], a[i]), "opened input");
  auto [s1, s2] = A::obliviousSwap(sa, sb, frontend::Bit<true, 0, true>(c, 0));
  auto o1 = A::openToParty(s1, 0), o2 = A::openToParty(s2, 0);
  for (size_t i = 0; i < n; i++) {
    vf_check(c[i] ? eq(o1[i], b[i]) : eq(o1[i], a[i]), "first output of the swap");
    vf_check(c[i] ? eq(o2[i], a[i]) : eq(o2[i], b[i]), "second output of the swap");
  }
  oa = A::openToParty(sa, 0);
  for (size_t i = 0; i < n; i++) vf_check(eq(oa[i], a[i]), "operand unchanged");
  if constexpr (batching) {
    auto j = A::batchingWith(sa, {sb, s1});
    auto oj = A::openToParty(j, 0);
    vf_check(oj.size() == 3 * n, "length of the joined batch");
    for (size_t i = 0; i < n; i++) vf_check(eq(oj[i], a[i]) && eq(oj[n + i], b[i]) && eq(oj[2 * n + i], o1[i]), "joined batch in order");
    auto sp = A::unbatching(j, std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{(uint32_t)n, (uint32_t)(n + 1), (uint32_t)(n - 1)}));
    vf_check(sp.size() == 3, "number of parts");
    auto p0 = A::openToParty(sp[0], 0), p1 = A::openToParty(sp[1], 0), p2 = A::openToParty(sp[2], 0);
    bool ok = p0.size() == n && p1.size() == n + 1 && p2.size() == n - 1;
    for (size_t i = 0; ok && i < 3 * n; i++) ok &= eq(oj[i], i < n ? p0[i] : i < 2 * n + 1 ? p1[i - n] : p2[i - 2 * n - 1]);
    vf_check(ok, "parts of the batch");
  }
}
template <class T, class V> void recovery(V want, int w) { // want(i, j): bit i of element j
  using A = MpcAdapters<T, 0>;
  size_t n = vf_split("n", 0, N);
  std::vector<std::vector<bool>> bits(w, std::vector<bool>(n));
  for (auto& r : bits) for (size_t j = 0; j < n; j++) r[j] = vf_bool("share");
  auto o = A::openToParty(A::recoverBatchSharedSecrets(bits), 0);
  vf_check(o.size() == n, "number of recovered values");
  for (size_t j = 0; j < n; j++) {
    bool ok = true;
    for (int i = 0; i < w; i++) ok &= want(o[j], i) == bits[i][j];
    vf_check(ok, "recovered value");
  }
}
extern "C" void vf_m09_swap_uint32() {
  auto eq = [](uint32_t a, uint32_t b) { return a == b; };
  auto mk = [] { return (uint32_t)vf_sym("v", 32); };
  vectorOps<uint32_t, decltype(mk), decltype(eq), true>(mk, eq);
  recovery<uint32_t>([](uint32_t v, int i) { return (bool)(v >> i & 1); }, 32);
  vf_reach("ok");
}
template <bool S, int8_t W> void swapIntp() {
  using I = Intp<S, W>;
  auto eq = [](I a, I b) { return raw<S, W>(a) == raw<S, W>(b); };
  auto mk = [] { return I((typename I::NativeType)norm<S, W>(vf_sym("v", W))); };
  vectorOps<I, decltype(mk), decltype(eq), true>(mk, eq);
  recovery<I>([](I v, int i) { return (bool)(raw<S, W>(v) >> i & 1); }, W);
}
extern "C" void vf_m09_swap_intp() {
  if (vf_split("signed", 0, 1)) swapIntp<true, 9>();
  else swapIntp<false, 7>();
  vf_reach("ok");
}
extern "C" void vf_m09_swap_bits() {
  auto eqb = [](bool a, bool b) { return a == b; };
  auto mkb = [] { return vf_bool("v"); };
  if (vf_split("string", 0, 1) == 0) {
    vectorOps<bool, decltype(mkb), decltype(eqb), true>(mkb, eqb);
  } else {
    // for a bit string the outer vector is the bits, the inner one the batch
    using A = MpcAdapters<std::vector<bool>, 0>;
    usePlaintext<0>();
    size_t w = vf_split("width", 0, 3), n = vf_split("n", 1, N);
    using M = std::vector<std::vector<bool>>;
    M a(w, std::vector<bool>(n)), b = a;
    std::vector<bool> c(n);
    for (size_t j = 0; j < n; j++) { c[j] = vf_bool("swap"); for (size_t i = 0; i < w; i++) { a[i][j] = vf_bool("v"); b[i][j] = vf_bool("v"); } }
    auto sa = A::processSecretInputs(a, 0), sb = A::processSecretInputs(b, 0);
    vf_check(A::openToParty(sa, 0) == a, "opened input");
    if (w) {
      auto [s1, s2] = A::obliviousSwap(sa, sb, frontend::Bit<true, 0, true>(c, 0));
      auto o1 = A::openToParty(s1, 0), o2 = A::openToParty(s2, 0);
      bool ok = o1.size() == w && o2.size() == w;
      for (size_t i = 0; ok && i < w; i++) for (size_t j = 0; j < n; j++) ok &= o1[i][j] == (c[j] ? b[i][j] : a[i][j]) && o2[i][j] == (c[j] ? a[i][j] : b[i][j]);
      vf_check(ok, "swapped bit strings");
      auto j = A::batchingWith(sa, {sb});
      auto sp = A::unbatching(j, std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{(uint32_t)n, (uint32_t)n}));
      vf_check(sp.size() == 2 && A::openToParty(sp[0], 0) == a && A::openToParty(sp[1], 0) == b, "joined and split again");
    }
  }
  vf_reach("ok");
}
extern "C" void vf_m09_swap_pair() {
  if (vf_split("type", 0, 1)) {
    using P = std::pair<uint32_t, uint32_t>;
    auto eq = [](const P& a, const P& b) { return a.first == b.first && a.second == b.second; };
    auto mk = [] { uint32_t x = vf_sym("v", 32), y = vf_sym("w", 32); return P(x, y); };
    vectorOps<P, decltype(mk), decltype(eq), true>(mk, eq);
  } else {
    using P = std::pair<uint32_t, bool>;
    auto eq = [](const P& a, const P& b) { return a.first == b.first && a.second == b.second; };
    auto mk = [] { uint32_t x = vf_sym("v", 32); return P(x, vf_bool("w")); };
    vectorOps<P, decltype(mk), decltype(eq), true>(mk, eq);
  }
  vf_reach("ok");
}
extern "C" void vf_m09_swap_aggregation() {
  using V = AggregationValue;
  auto eq = [](const V& a, const V& b) { return a == b; };
  auto mk = [] { uint32_t x = vf_sym("count", 32), y = vf_sym("value", 32); return V(x, y); };
  vectorOps<V, decltype(mk), decltype(eq), false>(mk, eq);
  recovery<V>([](const V& v, int i) { return (bool)((i < 32 ? v.conversionCount >> i : v.conversionValue >> (i - 32)) & 1); }, 64);
  std::vector<V> a{mk()}, b{mk()};
  bool c = vf_bool("choice");
  SecretAggregationValue<0> x(a, 0), y(b, 0);
  auto d = MpcAdapters<V, 0>::openToParty(x - y, 0), m = MpcAdapters<V, 0>::openToParty(x.mux(frontend::Bit<true, 0, true>(std::vector<bool>{c}, 0), y), 0);
  vf_check(eq(d[0], a[0] - b[0]), "difference of secret records");
  vf_check(c ? eq(m[0], b[0]) : eq(m[0], a[0]), "selection between secret records");
  vf_reach("ok");
}
