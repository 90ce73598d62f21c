// F01: integers of the MPC language against fixed-width arithmetic.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp
// @entry vf_f01_w1 prop=F01 reach=ok : width 1, signed and unsigned, all operators, all operand values, secret and secret
// @entry vf_f01_w2 prop=F01 reach=ok : width 2, signed and unsigned, all operators, all operand values, secret and secret
// @entry vf_f01_w7 prop=F01 reach=ok : width 7, likewise, and every public/secret mix
// @entry vf_f01_w32 prop=F01 reach=ok : width 32, likewise
// @entry vf_f01_w64 prop=F01 reach=ok : width 64, likewise
// @entry vf_f01_input prop=F01 reach=accept,reject : construction from every 64-bit value at widths 1, 5, 32, 63, 64
// @entry vf_f01_cast prop=F01 reach=ok : casts between widths 1, 4, 9 and 64, every value
// @entry vf_f01_batch prop=F01 reach=ok : batches of 1 to 3 elements of width 5, all operators, every value
// @entry vf_f01_mismatch prop=F01 reach=ok : binary operators and selection on batches of sizes 0..3 that differ
#include "sched.h"
#include "fbpcf/frontend/Int.h"
#include "fbpcf/frontend/mpcGame.h"
using namespace fbpcf;
using namespace fbpcf::frontend;
template <bool S> using U = std::conditional_t<S, int64_t, uint64_t>;
// the value of the low w bits of x as a w-bit number
template <bool S> U<S> norm(uint64_t x, int w) {
  if (w < 64) x &= (1ull << w) - 1;
  if (S && w < 64 && (x >> (w - 1) & 1)) x |= ~0ull << w;
  return (U<S>)x;
}
template <class T> auto opened(const T& v, int) { return v; }
template <bool S, int8_t W, bool Sec, bool B> auto val(const Int<S, W, Sec, 0, B>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
template <bool Sec, bool B> auto val(const Bit<Sec, 0, B>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
template <bool S, int8_t W, bool Sec> Int<S, W, Sec, 0> mkInt(U<S> v) {
  if constexpr (Sec) return Int<S, W, true, 0>(v, 0);
  else return Int<S, W, false, 0>(v);
}
template <bool Sec> Bit<Sec, 0> mkBit(bool v) {
  if constexpr (Sec) return Bit<true, 0>(v, 0);
  else return Bit<false, 0>(v);
}
template <bool S, int8_t W, bool SA, bool SB, bool SC> void ops() {
  U<S> a = norm<S>(vf_sym("a", W), W), b = norm<S>(vf_sym("b", W), W);
  bool c = vf_bool("c");
  auto x = mkInt<S, W, SA>(a);
  auto y = mkInt<S, W, SB>(b);
  vf_check(val(x) == a, "value of an input");
  vf_check(val(x + y) == norm<S>((uint64_t)a + (uint64_t)b, W), "a + b");
  vf_check(val(x - y) == norm<S>((uint64_t)a - (uint64_t)b, W), "a - b");
  vf_check(val(x < y) == (a < b), "a < b");
  vf_check(val(x <= y) == (a <= b), "a <= b");
  vf_check(val(x > y) == (a > b), "a > b");
  vf_check(val(x >= y) == (a >= b), "a >= b");
  vf_check(val(x == y) == (a == b), "a == b");
  vf_check(val(x.mux(mkBit<SC>(c), y)) == (c ? b : a), "selection");
  vf_check(val(max(x, y)) == (a < b ? b : a), "maximum");
  vf_check(val(min(x, y)) == (a < b ? a : b), "minimum");
  if constexpr (S) {
    vf_check(val(-x) == norm<S>(0 - (uint64_t)a, W), "-a");
    vf_check(val(abs(x)) == (a < 0 ? norm<S>(0 - (uint64_t)a, W) : a), "absolute value");
  }
  vf_check(val(x) == a && val(y) == b, "operands unchanged");
}
template <int8_t W> void both() {
  usePlaintext<0>();
  ops<true, W, true, true, true>();
  ops<false, W, true, true, true>();
  vf_reach("ok");
}
extern "C" void vf_f01_w1() { both<1>(); }
extern "C" void vf_f01_w2() { both<2>(); }
extern "C" void vf_f01_w7() {
  both<7>();
  ops<true, 7, true, false, false>();
  ops<true, 7, false, true, true>();
  ops<true, 7, false, false, true>();
  ops<false, 7, false, false, false>();
  ops<false, 7, true, false, true>();
  ops<false, 7, false, true, false>();
}
extern "C" void vf_f01_w32() { both<32>(); }
extern "C" void vf_f01_w64() { both<64>(); }
template <bool S, int8_t W> void input() {
  U<S> v = (U<S>)vf_sym("v", 64);
  bool fits = v == norm<S>((uint64_t)v, W);
  bool threw = false;
  try {
    Int<S, W, true, 0> x(v, 0);
    vf_check(val(x) == v, "secret value as constructed");
  } catch (const std::runtime_error&) {
    threw = true;
  }
  vf_check(threw == !fits, "secret input rejected exactly when it does not fit");
  threw = false;
  try {
    Int<S, W, false, 0> x(v);
    vf_check(val(x) == v, "public value as constructed");
  } catch (const std::runtime_error&) {
    threw = true;
  }
  vf_check(threw == !fits, "public input rejected exactly when it does not fit");
  if (threw) vf_reach("reject"); else vf_reach("accept");
}
extern "C" void vf_f01_input() {
  usePlaintext<0>();
  switch (vf_split("case", 0, 9)) {
    case 0: input<true, 1>(); break;
    case 1: input<false, 1>(); break;
    case 2: input<true, 5>(); break;
    case 3: input<false, 5>(); break;
    case 4: input<true, 32>(); break;
    case 5: input<false, 32>(); break;
    case 6: input<true, 63>(); break;
    case 7: input<false, 63>(); break;
    case 8: input<true, 64>(); break;
    default: input<false, 64>(); break;
  }
}
template <bool S, int8_t W, int8_t N, bool Sec> void cast1() {
  U<S> a = norm<S>(vf_sym("a", W), W);
  auto x = mkInt<S, W, Sec>(a);
  vf_check(val(x.template cast<N>()) == norm<S>((uint64_t)a, N), "cast");
}
template <bool S, int8_t W> void castFrom() {
  cast1<S, W, 1, true>(); cast1<S, W, 4, true>(); cast1<S, W, 9, true>(); cast1<S, W, 64, true>();
}
extern "C" void vf_f01_cast() {
  usePlaintext<0>();
  castFrom<true, 1>(); castFrom<true, 4>(); castFrom<true, 9>(); castFrom<true, 64>();
  castFrom<false, 1>(); castFrom<false, 4>(); castFrom<false, 9>(); castFrom<false, 64>();
  cast1<true, 4, 9, false>(); cast1<false, 4, 9, false>(); cast1<false, 9, 4, false>();
  vf_reach("ok");
}
template <bool S, bool Sec> auto mkBatch(const std::vector<U<S>>& v) {
  if constexpr (Sec) return Int<S, 5, true, 0, true>(v, 0);
  else return Int<S, 5, false, 0, true>(v);
}
template <bool Sec> auto mkBitBatch(const std::vector<bool>& v) {
  if constexpr (Sec) return Bit<true, 0, true>(v, 0);
  else return Bit<false, 0, true>(v);
}
template <bool S, bool SA, bool SB, bool SC> void batch(size_t n) {
  std::vector<U<S>> a(n), b(n);
  std::vector<bool> c(n);
  for (size_t i = 0; i < n; i++) { a[i] = norm<S>(vf_sym("a", 5), 5); b[i] = norm<S>(vf_sym("b", 5), 5); c[i] = vf_bool("c"); }
  auto x = mkBatch<S, SA>(a);
  auto y = mkBatch<S, SB>(b);
  auto z = mkBitBatch<SC>(c);
  auto s = val(x + y), d = val(x - y), mx = val(max(x, y)), mn = val(min(x, y)), mu = val(x.mux(z, y)), ca = val(x.template cast<3>()), cb = val(x.template cast<11>());
  auto lt = val(x < y), le = val(x <= y), gt = val(x > y), ge = val(x >= y), eq = val(x == y);
  vf_check(x.getBatchSize() == n && s.size() == n && d.size() == n && mu.size() == n && lt.size() == n && eq.size() == n && cb.size() == n, "batch size");
  for (size_t i = 0; i < n; i++) {
    vf_check(s[i] == norm<S>((uint64_t)a[i] + (uint64_t)b[i], 5), "a + b");
    vf_check(d[i] == norm<S>((uint64_t)a[i] - (uint64_t)b[i], 5), "a - b");
    vf_check(lt[i] == (a[i] < b[i]) && le[i] == (a[i] <= b[i]) && gt[i] == (a[i] > b[i]) && ge[i] == (a[i] >= b[i]) && eq[i] == (a[i] == b[i]), "comparisons");
    vf_check(mx[i] == std::max(a[i], b[i]) && mn[i] == std::min(a[i], b[i]), "maximum and minimum");
    vf_check(mu[i] == (c[i] ? b[i] : a[i]), "selection");
    vf_check(ca[i] == norm<S>((uint64_t)a[i], 3) && cb[i] == a[i], "casts");
  }
  if constexpr (S) {
    auto ng = val(-x), ab = val(abs(x));
    for (size_t i = 0; i < n; i++) {
      vf_check(ng[i] == norm<S>(0 - (uint64_t)a[i], 5), "-a");
      vf_check(ab[i] == (a[i] < 0 ? norm<S>(0 - (uint64_t)a[i], 5) : a[i]), "absolute value");
    }
  }
}
extern "C" void vf_f01_batch() {
  usePlaintext<0>();
  size_t n = vf_split("n", 1, 3);
  batch<true, true, true, true>(n);
  batch<false, true, false, true>(n);
  batch<false, false, true, false>(n);
  batch<true, true, true, false>(n);
  vf_reach("ok");
}
extern "C" void vf_f01_mismatch() {
  usePlaintext<0>();
  size_t n = vf_split("n", 0, 3), m = vf_split("m", 0, 3);
  vf_assume(n != m);
  std::vector<int64_t> a(n, 1), b(m, 2);
  auto x = mkBatch<true, true>(a);
  auto y = mkBatch<true, true>(b);
  auto p = mkBatch<true, false>(b);
  auto z = mkBitBatch<true>(std::vector<bool>(m, true));
  switch (vf_split("op", 0, 6)) {
    case 0: vf_check(vf_throws([&] { val(x + y); }), "sum of batches of different sizes is rejected"); break;
    case 1: vf_check(vf_throws([&] { val(x < y); }), "comparison of batches of different sizes is rejected"); break;
    case 2: vf_check(vf_throws([&] { val(x == y); }), "equality of batches of different sizes is rejected"); break;
    case 3: vf_check(vf_throws([&] { val(x.mux(z, x)); }), "selection with a choice batch of another size is rejected"); break;
    case 4: vf_check(vf_throws([&] { val(x - p); }), "secret - public of different sizes is rejected"); break;
    case 5: vf_check(vf_throws([&] { val(p + x); }), "public + secret of different sizes is rejected"); break;
    default: vf_check(vf_throws([&] { val(max(x, y)); }), "maximum of batches of different sizes is rejected"); break;
  }
  vf_reach("ok");
}
