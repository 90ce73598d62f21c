// F02: bits and bit strings as boolean algebra.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
// @entry vf_f02_bits prop=F02 reach=ok : every operator on bits, the four public/secret mixes, on the three schedulers, every value, and every expression of two operators
// @entry vf_f02_batch prop=F02 reach=ok : the same on batches of 1 to 3 elements || 1 to 6 elements
// @entry vf_f02_composite prop=F02 reach=ok : one bit with arrays and vectors of 1 to 4 bits, four public/secret mixes, three schedulers, single values and batches of 1 to 3 || up to 8 bits
// @entry vf_f02_strings prop=F02 reach=ok : bit strings of 0 to 4 bits, all operators and selection, eight public/secret mixes, three schedulers, every value || 0 to 8 bits
// @entry vf_f02_stringbatch prop=F02 reach=ok : bit strings of 1 to 3 bits in batches of 1 to 3 || 1 to 4 bits, batches of 1 to 5
// @entry vf_f02_reject prop=F02 reach=ok : operands of different lengths (0 to 3) or batch sizes (1 to 3), every operator
#include "schedulers.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
using namespace fbpcf::frontend;
using VB = std::vector<bool>;
static Kind pickKind() { int i = vf_split("scheduler", 0, 2); return i == 0 ? Kind::Plain : i == 1 ? Kind::Eager : Kind::Lazy; }
template <bool Bt> using BT = std::conditional_t<Bt, VB, bool>;
template <bool Sec, bool Bt> Bit<Sec, 0, Bt> mk(const BT<Bt>& v) {
  if constexpr (Sec) return Bit<true, 0, Bt>(v, 0);
  else return Bit<false, 0, Bt>(v);
}
template <bool Sec, bool Bt> BT<Bt> val(const Bit<Sec, 0, Bt>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
template <bool Sec, bool Bt> BitString<Sec, 0, Bt> mkS(const std::vector<BT<Bt>>& v) {
  if constexpr (Sec) return BitString<true, 0, Bt>(v, 0);
  else return BitString<false, 0, Bt>(v);
}
template <bool Sec, bool Bt> std::vector<BT<Bt>> val(const BitString<Sec, 0, Bt>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
static VB operator!(VB a) { a.flip(); return a; }
template <class F> static VB zip(const VB& a, const VB& b, F f) { VB r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = f((bool)a[i], (bool)b[i]); return r; }
static bool And(bool a, bool b) { return a & b; }
static bool Xor(bool a, bool b) { return a ^ b; }
static bool Or(bool a, bool b) { return a | b; }
static VB And(const VB& a, const VB& b) { return zip(a, b, [](bool x, bool y) { return x & y; }); }
static VB Xor(const VB& a, const VB& b) { return zip(a, b, [](bool x, bool y) { return x ^ y; }); }
static VB Or(const VB& a, const VB& b) { return zip(a, b, [](bool x, bool y) { return x | y; }); }
template <bool Bt> BT<Bt> input(size_t n, const char* nm) {
  if constexpr (Bt) {
    VB v(n);
    for (size_t i = 0; i < n; i++) v[i] = vf_bool(nm);
    return v;
  } else return vf_bool(nm);
}
template <bool SA, bool SB, bool Bt> void bitOps(size_t n) {
  auto a = input<Bt>(n, "a"), b = input<Bt>(n, "b"), c = input<Bt>(n, "c");
  auto x = mk<SA, Bt>(a);
  auto y = mk<SB, Bt>(b);
  auto z = mk<true, Bt>(c);
  vf_check(val(!x) == !a, "not");
  vf_check(val(x & y) == And(a, b), "and");
  vf_check(val(x ^ y) == Xor(a, b), "xor");
  vf_check(val(x | y) == Or(a, b), "or");
  vf_check(val(((x & y) ^ z) | !x) == Or(Xor(And(a, b), c), !a), "expression");
  vf_check(val((x | y) & (x ^ z) & z) == And(And(Or(a, b), Xor(a, c)), c), "expression of the same operands");
  vf_check(val(x) == a && val(y) == b && val(z) == c, "operands unchanged");
  vf_check(val(x & x) == a && val(x | x) == a && val(x ^ x) == And(a, !a), "an operand with itself");
  if constexpr (SA) {
    auto e = x.extractBit();
    vf_check(val(Bit<true, 0, Bt>(std::move(e))) == a, "recovering an extracted share");
  }
  if constexpr (Bt) vf_check(x.getBatchSize() == n && (x & y).getBatchSize() == n && (!x).getBatchSize() == n, "batch size");
}
template <bool Bt> void bitMix(size_t n) {
  useScheduler<0>(pickKind());
  switch (vf_split("mix", 0, 3)) {
    case 0: bitOps<false, false, Bt>(n); break;
    case 1: bitOps<false, true, Bt>(n); break;
    case 2: bitOps<true, false, Bt>(n); break;
    default: bitOps<true, true, Bt>(n);
  }
  vf_reach("ok");
}
extern "C" void vf_f02_bits() { bitMix<false>(1); }
extern "C" void vf_f02_batch() { bitMix<true>(vf_split("n", 1, VF_THOROUGH ? 6 : 3)); }
template <bool SA, bool SB, bool Bt, size_t W> void arr(const Bit<SA, 0, Bt>& x, const BT<Bt>& a, size_t n) {
  std::array<Bit<SB, 0, Bt>, W> ys;
  std::vector<BT<Bt>> b(W);
  for (size_t i = 0; i < W; i++) { b[i] = input<Bt>(n, "b"); ys[i] = mk<SB, Bt>(b[i]); }
  auto r = x & ys;
  for (size_t i = 0; i < W; i++) vf_check(val(r[i]) == And(a, b[i]) && val(ys[i]) == b[i], "one bit with an array");
  vf_check(val(x) == a, "operand unchanged");
}
template <bool SA, bool SB, bool Bt> void composite(size_t n) {
  auto a = input<Bt>(n, "a");
  auto x = mk<SA, Bt>(a);
  size_t w = vf_split("width", 1, VF_THOROUGH ? 8 : 4);
  std::vector<Bit<SB, 0, Bt>> ys;
  std::vector<BT<Bt>> b(w);
  for (size_t i = 0; i < w; i++) { b[i] = input<Bt>(n, "b"); ys.push_back(mk<SB, Bt>(b[i])); }
  auto r = x & ys;
  vf_check(r.size() == w, "number of results");
  for (size_t i = 0; i < w; i++) vf_check(val(r[i]) == And(a, b[i]) && val(ys[i]) == b[i], "one bit with a vector");
  arr<SA, SB, Bt, 1>(x, a, n);
  arr<SA, SB, Bt, 3>(x, a, n);
}
template <bool Bt> void compositeMix(size_t n) {
  switch (vf_split("mix", 0, 3)) {
    case 0: composite<false, false, Bt>(n); break;
    case 1: composite<false, true, Bt>(n); break;
    case 2: composite<true, false, Bt>(n); break;
    default: composite<true, true, Bt>(n);
  }
}
extern "C" void vf_f02_composite() {
  useScheduler<0>(pickKind());
  size_t n = vf_split("n", 0, 3);
  if (n) compositeMix<true>(n); else compositeMix<false>(1);
  vf_reach("ok");
}
template <bool SA, bool SB, bool SC, bool Bt> void stringOps(size_t w, size_t n) {
  std::vector<BT<Bt>> a(w), b(w), r(w);
  for (size_t i = 0; i < w; i++) { a[i] = input<Bt>(n, "a"); b[i] = input<Bt>(n, "b"); }
  auto c = input<Bt>(n, "c");
  auto x = mkS<SA, Bt>(a);
  auto y = mkS<SB, Bt>(b);
  auto z = mk<SC, Bt>(c);
  auto put = [&](auto f) { for (size_t i = 0; i < w; i++) r[i] = f(i); return r; };
  vf_check(x.size() == w, "length");
  vf_check(val(!x) == put([&](int i) -> BT<Bt> { return !(BT<Bt>)a[i]; }), "not");
  vf_check(val(x & y) == put([&](int i) -> BT<Bt> { return And((BT<Bt>)a[i], (BT<Bt>)b[i]); }), "and");
  vf_check(val(x ^ y) == put([&](int i) -> BT<Bt> { return Xor((BT<Bt>)a[i], (BT<Bt>)b[i]); }), "xor");
  auto m = put([&](int i) -> BT<Bt> { return Or(And((BT<Bt>)a[i], !c), And((BT<Bt>)b[i], c)); });
  // selecting between two empty strings may be refused
  if (w) vf_check(val(x.mux(z, y)) == m, "selection");
  vf_check(val(x) == a && val(y) == b && val(z) == c, "operands unchanged");
  if constexpr (SA) {
    auto e = x.extractStringShare();
    vf_check(e.size() == w && val(BitString<true, 0, Bt>(std::move(e))) == a, "recovering extracted shares");
  }
  if constexpr (Bt) vf_check(x.getBatchSize() == n, "batch size");
  for (size_t i = 0; i < w; i++) vf_check(val(x.at(i)) == a[i] && val(x[i]) == a[i], "element access");
  auto l = x;
  l.resize(w + 2);
  vf_check(l.size() == w + 2, "lengthened");
  for (size_t i = 0; i < w; i++) vf_check(val(l.at(i)) == a[i], "elements kept when lengthened");
}
template <bool Bt> void stringMix(size_t w, size_t n) {
  useScheduler<0>(pickKind());
  switch (vf_split("mix", 0, 7)) {
    case 0: stringOps<false, false, false, Bt>(w, n); break;
    case 1: stringOps<false, true, false, Bt>(w, n); break;
    case 2: stringOps<true, false, false, Bt>(w, n); break;
    case 3: stringOps<true, true, false, Bt>(w, n); break;
    case 4: stringOps<false, false, true, Bt>(w, n); break;
    case 5: stringOps<false, true, true, Bt>(w, n); break;
    case 6: stringOps<true, false, true, Bt>(w, n); break;
    default: stringOps<true, true, true, Bt>(w, n);
  }
  vf_reach("ok");
}
extern "C" void vf_f02_strings() { stringMix<false>(vf_split("width", 0, VF_THOROUGH ? 8 : 4), 1); }
extern "C" void vf_f02_stringbatch() { size_t w = vf_split("width", 1, VF_THOROUGH ? 4 : 3); stringMix<true>(w, vf_split("n", 1, VF_THOROUGH ? 5 : 3)); }
template <bool SA, bool SB> void rejectBits(size_t n, size_t m, int op) {
  auto x = mk<SA, true>(VB(n, true));
  auto y = mk<SB, true>(VB(m, true));
  bool t = vf_throws([&] {
    switch (op) {
      case 0: val(x & y); break;
      case 1: val(x ^ y); break;
      case 2: val(x | y); break;
      case 3: val((x & std::vector<Bit<SB, 0, true>>{y}).at(0)); break;
      case 4: val((x & std::array<Bit<SB, 0, true>, 1>{y}).at(0)); break;
      case 5: { auto s = mkS<SA, true>({VB(n, true)}); auto q = mkS<SB, true>({VB(m, true)}); val(s & q); } break;
      case 6: { auto s = mkS<SA, true>({VB(n, true)}); auto q = mkS<SB, true>({VB(m, true)}); val(s ^ q); } break;
      case 7: { auto s = mkS<SA, true>({VB(n, true)}); auto q = mkS<SA, true>({VB(n, false)}); val(s.mux(y, q)); } break;
      default: { BitString<true, 0, true>::ExtractedString e({VB(n, true), VB(m, false)}); }
    }
  });
  vf_check(t, "batches of different sizes are rejected");
}
template <bool SA, bool SB> void rejectStrings(size_t n, size_t m, int op) {
  auto x = mkS<SA, false>(VB(n, true));
  auto y = mkS<SB, false>(VB(m, true));
  bool t = vf_throws([&] {
    switch (op) {
      case 0: val(x & y); break;
      case 1: val(x ^ y); break;
      case 2: val(x.mux(Bit<true, 0>(true, 0), y)); break;
      default: val(x.mux(Bit<false, 0>(true), y));
    }
  });
  vf_check(t, "strings of different lengths are rejected");
}
extern "C" void vf_f02_reject() {
  useScheduler<0>(pickKind());
  bool strings = vf_split("strings", 0, 1);
  size_t n = vf_split("n", strings ? 0 : 1, 3), m = vf_split("m", strings ? 0 : 1, 3);
  if (n == m) vf_end_path();
  int op = vf_split("op", 0, strings ? 3 : 8), mix = vf_split("mix", 0, 3);
  if (strings) {
    if (mix == 0) rejectStrings<false, false>(n, m, op);
    else if (mix == 1) rejectStrings<false, true>(n, m, op);
    else if (mix == 2) rejectStrings<true, false>(n, m, op);
    else rejectStrings<true, true>(n, m, op);
  } else {
    if (mix == 0) rejectBits<false, false>(n, m, op);
    else if (mix == 1) rejectBits<false, true>(n, m, op);
    else if (mix == 2) rejectBits<true, false>(n, m, op);
    else rejectBits<true, true>(n, m, op);
  }
  vf_reach("ok");
}
