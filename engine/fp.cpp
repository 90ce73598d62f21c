// IEEE-754 arithmetic on literal arrays: round to nearest even, subnormals included, one quiet NaN.
#include "bits.h"
#include "fp.h"
#include <vector>
typedef std::vector<Lit> V;
static inline Lit AND(Lit a, Lit b) { return G.land(a, b); }
static inline Lit XOR(Lit a, Lit b) { return G.lxor(a, b); }
static inline Lit OR(Lit a, Lit b) { return G.lor(a, b); }
static V cst(int64_t c, uint32_t w) { V r(w); for (uint32_t i = 0; i < w; i++) r[i] = (i < 64 ? c >> i : c >> 63) & 1; return r; }
static V mux(Lit c, const V& t, const V& f) { V r(t.size()); for (size_t i = 0; i < t.size(); i++) r[i] = G.mux(c, t[i], f[i]); return r; }
static V add(const V& a, const V& b, Lit c = 0) { V r(a.size()); bvAdd(a.data(), b.data(), c, a.size(), r.data()); return r; }
static V inv(const V& a) { V r(a); for (auto& l : r) l ^= 1; return r; }
static V sub(const V& a, const V& b) { return add(a, inv(b), 1); }
static V neg(const V& a) { return add(cst(0, a.size()), inv(a), 1); }
static V sx(const V& a, uint32_t w) { V r(a); r.resize(w, a.back()); return r; }
static V zx(const V& a, uint32_t w) { V r(a); r.resize(w, 0); return r; }
static Lit any(const V& a) { Lit r = 0; for (Lit l : a) r = OR(r, l); return r; }
static Lit all(const V& a) { Lit r = 1; for (Lit l : a) r = AND(r, l); return r; }
static V shl(const V& a, const V& s) { // by an unsigned amount
  V r(a), n(a.size());
  for (size_t k = 0; k < s.size(); k++) {
    if (s[k] == 0) continue;
    uint64_t d = k < 20 ? 1ull << k : 1ull << 20;
    for (size_t i = 0; i < a.size(); i++) n[i] = G.mux(s[k], i >= d ? r[i - d] : 0, r[i]);
    r.swap(n);
  }
  return r;
}
static V shrSticky(const V& a, const V& s) { // what falls off stays visible in the lowest bit
  V r(a), n(a.size());
  for (size_t k = 0; k < s.size(); k++) {
    if (s[k] == 0) continue;
    uint64_t d = k < 20 ? 1ull << k : 1ull << 20;
    Lit lost = 0;
    for (size_t i = 0; i < a.size() && i <= d; i++) if (i < d) lost = OR(lost, r[i]);
    for (size_t i = 0; i < a.size(); i++) n[i] = G.mux(s[k], i + d < a.size() ? r[i + d] : 0, r[i]);
    n[0] = OR(n[0], AND(s[k], lost));
    r.swap(n);
  }
  return r;
}
static const uint32_t EW = 14; // signed exponents inside
struct F { Lit s, nan, inf, zero; V e, m; }; // value m * 2^(e - (m.size()-1)), top bit of m set unless zero
static void normalise(V& m, V& e) { // shifts the leading one to the top
  size_t k = 0;
  while ((1ull << (k + 1)) < m.size()) k++;
  for (int i = (int)k; i >= 0; i--) {
    size_t d = 1ull << i;
    if (d >= m.size()) continue;
    Lit z = 1;
    for (size_t j = m.size() - d; j < m.size(); j++) z = AND(z, m[j] ^ 1);
    V n(m.size());
    for (size_t j = 0; j < m.size(); j++) n[j] = G.mux(z, j >= d ? m[j - d] : 0, m[j]);
    m = n;
    e = mux(z, sub(e, cst(d, EW)), e);
  }
}
static F unpack(const Lit* x, FpFormat f) {
  F r;
  r.s = x[f.mb + f.eb];
  V frac(x, x + f.mb), ex(x + f.mb, x + f.mb + f.eb);
  Lit ones = all(ex), sub0 = any(ex) ^ 1, fz = any(frac) ^ 1;
  r.nan = AND(ones, fz ^ 1);
  r.inf = AND(ones, fz);
  r.zero = AND(sub0, fz);
  r.m = frac;
  r.m.push_back(sub0 ^ 1);
  int bias = (1 << (f.eb - 1)) - 1;
  r.e = sub(zx(ex, EW), cst(bias, EW));
  r.e = mux(sub0, cst(1 - bias, EW), r.e);
  if (sub0 != 0) normalise(r.m, r.e);
  return r;
}
static void pack(Lit s, Lit nan, Lit inf, Lit zero, V e, V m, FpFormat f, Lit* o) { // m: top bit set, lowest bits may be sticky
  int bias = (1 << (f.eb - 1)) - 1;
  if (m.size() < f.mb + 4) { V t(f.mb + 4 - m.size(), 0); t.insert(t.end(), m.begin(), m.end()); m = t; }
  // below the normal range: shift right
  V low = sub(cst(1 - bias, EW), e);
  Lit tiny = AND(low.back() ^ 1, any(low));
  V amount = mux(tiny, low, cst(0, EW));
  amount.pop_back();
  m = shrSticky(m, amount);
  V be = mux(tiny, cst(0, EW), add(e, cst(bias, EW)));
  size_t cut = m.size() - (f.mb + 1);
  V keep(m.begin() + cut, m.end()), rest(m.begin(), m.begin() + cut - 1);
  Lit half = m[cut - 1], up = AND(half, OR(any(rest), keep[0]));
  V packed(keep.begin(), keep.end() - 1); // fraction, then the exponent: carries run through
  packed.insert(packed.end(), be.begin(), be.end());
  packed = add(packed, cst(0, packed.size()), up);
  V pe(packed.begin() + f.mb, packed.end());
  // too large
  V top = sub(pe, cst((1 << f.eb) - 1, EW));
  Lit over = top.back() ^ 1;
  inf = OR(inf, AND(over, zero ^ 1));
  for (uint32_t i = 0; i < f.mb; i++) o[i] = AND(packed[i], OR(inf, zero) ^ 1);
  for (uint32_t i = 0; i < f.eb; i++) o[f.mb + i] = OR(inf, AND(pe[i], zero ^ 1));
  o[f.mb + f.eb] = s;
  for (uint32_t i = 0; i < f.mb; i++) o[i] = G.mux(nan, i + 1 == f.mb, o[i]);
  for (uint32_t i = 0; i < f.eb; i++) o[f.mb + i] = OR(nan, o[f.mb + i]);
  o[f.mb + f.eb] = AND(o[f.mb + f.eb], nan ^ 1);
}
void fpMul(const Lit* x, const Lit* y, FpFormat f, Lit* o) {
  F a = unpack(x, f), b = unpack(y, f);
  uint32_t n = f.mb + 1;
  V p(2 * n), ma = zx(a.m, 2 * n), mb = zx(b.m, 2 * n);
  bvMul(ma.data(), mb.data(), 2 * n, p.data());
  V e = add(add(a.e, b.e), cst(1, EW));
  Lit top = p[2 * n - 1];
  V sh(2 * n);
  for (uint32_t i = 0; i < 2 * n; i++) sh[i] = i ? p[i - 1] : 0;
  p = mux(top, p, sh);
  e = mux(top, e, sub(e, cst(1, EW)));
  Lit inf = OR(a.inf, b.inf), zero = OR(a.zero, b.zero);
  Lit nan = OR(OR(a.nan, b.nan), AND(inf, zero));
  pack(XOR(a.s, b.s), nan, inf, zero, e, p, f, o);
}
void fpDiv(const Lit* x, const Lit* y, FpFormat f, Lit* o) {
  { // by a constant power of two whose reciprocal is exact: a multiplication
    bool cst = true;
    uint32_t e = 0;
    for (uint32_t i = 0; i < f.mb; i++) cst &= y[i] == 0;
    for (uint32_t i = 0; i < f.eb; i++) { cst &= y[f.mb + i] < 2; e |= (y[f.mb + i] & 1) << i; }
    uint32_t bias = (1u << (f.eb - 1)) - 1;
    if (cst && e > 0 && e < 2 * bias) {
      uint32_t r = 2 * bias - e;
      V c(f.mb + f.eb + 1, 0);
      for (uint32_t i = 0; i < f.eb; i++) c[f.mb + i] = r >> i & 1;
      c[f.mb + f.eb] = y[f.mb + f.eb];
      return fpMul(x, c.data(), f, o);
    }
  }
  F a = unpack(x, f), b = unpack(y, f);
  uint32_t n = f.mb + 1, k = f.mb + 4, w = n + k;
  V num(w, 0), den = zx(b.m, w), q(w), r(w);
  for (uint32_t i = 0; i < n; i++) num[k + i] = a.m[i];
  bvUdivrem(num.data(), den.data(), w, q.data(), r.data());
  // q is in (2^(k-1), 2^(k+1)): keep k+2 bits and the sticky one
  V m(k + 2);
  m[0] = any(r);
  for (uint32_t i = 0; i <= k; i++) m[i + 1] = q[i];
  V e = sub(a.e, b.e);
  Lit top = m[k + 1];
  V sh(k + 2);
  for (uint32_t i = 0; i < k + 2; i++) sh[i] = i ? m[i - 1] : 0;
  V mm = mux(top, m, sh);
  e = mux(top, e, sub(e, cst(1, EW)));
  Lit nan = OR(OR(a.nan, b.nan), OR(AND(a.inf, b.inf), AND(a.zero, b.zero)));
  pack(XOR(a.s, b.s), nan, OR(a.inf, b.zero), OR(a.zero, b.inf), e, mm, f, o);
}
void fpAdd(const Lit* x, const Lit* y, FpFormat f, bool minus, Lit* o) {
  F a = unpack(x, f), b = unpack(y, f);
  b.s = XOR(b.s, minus);
  uint32_t n = f.mb + 1, w = n + 4; // three guard bits and one for the carry
  V lowest = cst(-(1 << (EW - 2)), EW);
  V ea = mux(a.zero, lowest, a.e), eb = mux(b.zero, lowest, b.e);
  V d = sub(ea, eb);
  Lit swap = d.back();
  V e = mux(swap, eb, ea), ma = zx(mux(swap, b.m, a.m), w), mb = zx(mux(swap, a.m, b.m), w);
  Lit za = G.mux(swap, b.zero, a.zero), zb = G.mux(swap, a.zero, b.zero);
  for (auto& l : ma) l = AND(l, za ^ 1);
  for (auto& l : mb) l = AND(l, zb ^ 1);
  Lit sa = G.mux(swap, b.s, a.s), sb = G.mux(swap, a.s, b.s);
  V dist = mux(swap, neg(d), d);
  dist.pop_back();
  auto up = [&](const V& v) { V r(w, 0); for (uint32_t i = 3; i < w; i++) r[i] = v[i - 3]; return r; };
  ma = up(ma);
  mb = shrSticky(up(mb), dist);
  Lit diff = XOR(sa, sb);
  V s = add(ma, mux(diff, inv(mb), mb), diff);
  s.push_back(AND(s[w - 1], diff)); // sign of the difference
  V wide = s;
  Lit negative = wide.back();
  V mag(wide.begin(), wide.end() - 1);
  mag = mux(negative, neg(mag), mag);
  Lit isZero = any(mag) ^ 1;
  V em = add(e, cst(1, EW)); // the top bit of mag is the carry
  normalise(mag, em);
  Lit sign = XOR(sa, negative);
  sign = G.mux(isZero, AND(a.s, b.s), sign);
  Lit nan = OR(OR(a.nan, b.nan), AND(AND(a.inf, b.inf), XOR(a.s, b.s)));
  Lit inf = OR(a.inf, b.inf);
  sign = G.mux(a.inf, a.s, G.mux(b.inf, b.s, sign));
  pack(sign, nan, inf, AND(isZero, inf ^ 1), em, mag, f, o);
}
void fpConvert(const Lit* x, FpFormat from, FpFormat to, Lit* o) {
  F a = unpack(x, from);
  pack(a.s, a.nan, a.inf, a.zero, a.e, a.m, to, o);
}
void fpFromInt(const Lit* x, uint32_t w, bool isSigned, FpFormat f, Lit* o) {
  V v(x, x + w);
  Lit s = isSigned ? v.back() : 0;
  if (isSigned) v = mux(s, neg(v), v);
  Lit zero = any(v) ^ 1;
  V e = cst(w - 1, EW);
  normalise(v, e);
  pack(s, 0, 0, zero, e, v, f, o);
}
// towards zero; beyond the range: the value x86 gives (only the lowest bit pattern 1000..0)
void fpToInt(const Lit* x, FpFormat f, bool isSigned, uint32_t w, Lit* o, Lit* bad) {
  F a = unpack(x, f);
  uint32_t n = f.mb + 1, W = w + 1 + n;
  // value = m * 2^(e-mb); left shift by e (0 <= e <= w), fraction is the lowest mb bits
  V wide = zx(a.m, W), e = a.e;
  Lit negE = e.back(), small = OR(negE, a.zero);
  V lim = sub(e, cst(w + 1, EW));
  Lit big = AND(lim.back() ^ 1, negE ^ 1);
  uint32_t bits = 1;
  while ((1u << bits) <= w) bits++;
  V amount(e.begin(), e.begin() + bits);
  V sh = shl(wide, amount);
  V mag(w + 1);
  for (uint32_t i = 0; i <= w; i++) mag[i] = AND(sh[f.mb + i], small ^ 1);
  Lit over;
  if (isSigned) {
    V lowBits(mag.begin(), mag.begin() + w - 1);
    Lit isMin = AND(mag[w - 1], any(lowBits) ^ 1);
    over = OR(mag[w], AND(mag[w - 1], AND(a.s, isMin) ^ 1));
  } else over = OR(mag[w], AND(a.s, any(mag)));
  over = OR(OR(over, AND(big, a.zero ^ 1)), OR(a.nan, a.inf));
  V r(mag.begin(), mag.begin() + w);
  r = mux(a.s, neg(r), r);
  for (uint32_t i = 0; i < w; i++) o[i] = G.mux(over, i + 1 == w, r[i]);
  *bad = over;
}
Lit fpLess(const Lit* x, const Lit* y, FpFormat f, Lit* eq, Lit* unordered) {
  uint32_t n = f.mb + f.eb;
  V a(x, x + n), b(y, y + n);
  auto nan = [&](const Lit* l) { return AND(all(V(l + f.mb, l + n)), any(V(l, l + f.mb))); };
  *unordered = OR(nan(x), nan(y));
  Lit bothZero = AND(any(a) ^ 1, any(b) ^ 1), same = AND(bvEq(a.data(), b.data(), n), XOR(x[n], y[n]) ^ 1);
  *eq = AND(OR(bothZero, same), *unordered ^ 1);
  Lit lt = bvUlt(a.data(), b.data(), n), gt = bvUlt(b.data(), a.data(), n);
  Lit r = G.mux(x[n], G.mux(y[n], gt, bothZero ^ 1), G.mux(y[n], 0, lt));
  return AND(r, *unordered ^ 1);
}
