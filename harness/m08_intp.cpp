// M08: fixed-width native integers.
// @entry vf_m08_signed_lo prop=M08 reach=ok : every signed width 1 to 20, every pair of operands
// @entry vf_m08_signed_mid prop=M08 reach=ok : every signed width 21 to 40, every pair of operands
// @entry vf_m08_signed_hi prop=M08 reach=ok : every signed width 41 to 64, every pair of operands
// @entry vf_m08_unsigned prop=M08 reach=ok : every unsigned width 1 to 64, every pair of operands
// @entry vf_m08_construct prop=M08 reach=accept,reject : every width, signed and unsigned, every value of the native type
#include "vf.h"
#include <stdexcept>
#include "fbpcf/mpc_std_lib/util/util.h"
using fbpcf::mpc_std_lib::util::Intp;
template <bool S, int W> uint64_t norm(uint64_t x) {
  if (W < 64) x &= (1ull << (W & 63)) - 1;
  if (S && W < 64 && (x >> (W - 1) & 1)) x |= ~0ull << (W & 63);
  return x;
}
template <bool S, int W> uint64_t raw(const Intp<S, W>& x) { return (uint64_t)(typename Intp<S, W>::NativeType)x; }
template <bool S, int W> void ops() {
  using I = Intp<S, W>;
  using N = typename I::NativeType;
  uint64_t a = norm<S, W>(vf_sym("a", W)), b = norm<S, W>(vf_sym("b", W));
  vf_check(raw<S, W>(I()) == 0, "default value");
  I x((N)a), y((N)b);
  vf_check(raw<S, W>(x) == a, "value");
  vf_check(raw<S, W>(x + y) == norm<S, W>(a + b), "sum reduced to the width");
  vf_check(raw<S, W>(x - y) == norm<S, W>(a - b), "difference reduced to the width");
  bool least = vf_concrete(S && a == norm<S, W>(1ull << (W - 1)));
  vf_check(raw<S, W>(-x) == (least ? a : norm<S, W>(0 - a)), "negation reduced to the width");
  vf_check(raw<S, W>(x) == a && raw<S, W>(y) == b, "operands unchanged");
}
template <bool S, int W> void construct() {
  using N = typename Intp<S, W>::NativeType;
  N v = (N)vf_sym("v", sizeof(N) * 8);
  bool fits = (N)norm<S, W>((uint64_t)v) == v;
  uint64_t got = 0;
  bool threw = vf_throws([&] { got = raw<S, W>(Intp<S, W>(v)); });
  vf_check(threw == !fits, "exactly the representable values are accepted");
  if (!threw) vf_check(got == (uint64_t)v, "accepted value unchanged");
  vf_reach(threw ? "reject" : "accept");
}
template <bool S, int W> void nth(int w, int what) {
  if (w == W) { if (what) construct<S, W>(); else ops<S, W>(); return; }
  if constexpr (W < 64) nth<S, W + 1>(w, what);
}
static void signedWidths(int lo, int hi) {
  nth<true, 1>(vf_split("width", lo, hi), 0);
  vf_reach("ok");
}
extern "C" void vf_m08_signed_lo() { signedWidths(1, 20); }
extern "C" void vf_m08_signed_mid() { signedWidths(21, 40); }
extern "C" void vf_m08_signed_hi() { signedWidths(41, 64); }
extern "C" void vf_m08_unsigned() {
  nth<false, 1>(vf_split("width", 1, 64), 0);
  vf_reach("ok");
}
extern "C" void vf_m08_construct() {
  int w = vf_split("width", 1, 64);
  if (vf_split("signed", 0, 1)) nth<true, 1>(w, 1);
  else nth<false, 1>(w, 1);
}
