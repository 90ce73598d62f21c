#include "bits.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
static inline Lit AND(Lit a, Lit b) { return G.land(a, b); }
static inline Lit XOR(Lit a, Lit b) { return G.lxor(a, b); }
static inline Lit OR(Lit a, Lit b) { return G.lor(a, b); }

void bvAdd(const Lit* a, const Lit* b, Lit c, uint32_t w, Lit* o, Lit* cout) {
  for (uint32_t i = 0; i < w; i++) {
    Lit x = XOR(a[i], b[i]);
    Lit ac = XOR(a[i], c), bc = XOR(b[i], c);
    Lit s = XOR(x, c);
    Lit nc = XOR(AND(ac, bc), c); // majority
    o[i] = s;
    c = nc;
  }
  if (cout) *cout = c;
}
void bvNot(const Lit* a, uint32_t w, Lit* o) { for (uint32_t i = 0; i < w; i++) o[i] = a[i] ^ 1; }
void bvMul(const Lit* a, const Lit* b, uint32_t w, Lit* o) {
  // put the more constant operand as multiplier
  int ca = 0, cb = 0;
  for (uint32_t i = 0; i < w; i++) { ca += a[i] < 2; cb += b[i] < 2; }
  if (ca > cb || (ca == cb && std::lexicographical_compare(b, b + w, a, a + w))) std::swap(a, b);
  if ((ca > cb ? ca : cb) == (int)w) { // constant: multiply by its negation when that has fewer ones
    std::vector<Lit> nb(w);
    Lit c = 1;
    int p = 0, n = 0;
    for (uint32_t i = 0; i < w; i++) { Lit k = b[i] ^ 1; nb[i] = k ^ c; c &= k; p += b[i]; n += nb[i]; }
    if (n + 1 < p) {
      std::vector<Lit> r(w), z(w, 0);
      bvMul(nb.data(), a, w, r.data());
      for (auto& l : r) l ^= 1;
      bvAdd(z.data(), r.data(), 1, w, o);
      return;
    }
  }
  std::vector<Lit> acc(w, 0), t(w);
  for (uint32_t i = 0; i < w; i++) {
    if (b[i] == 0) continue;
    for (uint32_t j = 0; j < w; j++) t[j] = j < i ? 0 : AND(a[j - i], b[i]);
    std::vector<Lit> r(w);
    bvAdd(acc.data(), t.data(), 0, w, r.data());
    acc.swap(r);
  }
  memcpy(o, acc.data(), w * sizeof(Lit));
}

// ---- word-level ring identities: values of add/sub/mul/shl are identified by their polynomial modulo 2^w over
// the words they are built from, so that two terms with the same polynomial are the same bits
#include <map>
#include <unordered_map>
namespace {
typedef std::vector<uint32_t> Mono; // sorted atoms
typedef std::map<Mono, uint64_t> Poly;
struct VH { size_t operator()(const std::vector<Lit>& v) const { uint64_t h = v.size(); for (Lit l : v) h = (h ^ l) * 0x9e3779b97f4a7c15ull, h ^= h >> 29; return h; } };
struct Ring {
  std::unordered_map<std::vector<Lit>, Poly, VH> of; // bits -> polynomial
  std::map<Poly, std::vector<Lit>> rep;             // polynomial -> bits
  uint32_t atoms = 0;
};
std::map<uint32_t, Ring> rings;
const size_t MAXTERMS = 200, MAXDEG = 5, MAXREP = 200000;
void norm(Poly& p, uint32_t w) {
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  for (auto it = p.begin(); it != p.end();) { it->second &= m; if (!it->second) it = p.erase(it); else ++it; }
}
const Poly get(Ring& R, const Lit* a, uint32_t w) {
  bool cst = true;
  uint64_t v = 0;
  for (uint32_t i = 0; i < w; i++) { if (a[i] > 1) { cst = false; break; } v |= (uint64_t)a[i] << i; }
  Poly p;
  if (cst) { if (v) p[{}] = v; return p; }
  std::vector<Lit> k(a, a + w);
  auto it = R.of.find(k);
  if (it != R.of.end()) return it->second;
  std::vector<Lit> n = k;
  for (auto& l : n) l ^= 1;
  auto in = R.of.find(n);
  if (in != R.of.end()) {
    for (auto& t : in->second) p[t.first] = 0 - t.second;
    p[{}] -= 1;
    norm(p, w);
  } else {
    p[{R.atoms++}] = 1;
    R.rep.emplace(p, k);
  }
  R.of.emplace(k, p);
  return p;
}
} // namespace
void bvRingAlias(char op, const Lit* a, const Lit* b, uint32_t w, const Lit* bits, Lit* o) {
  auto plain = [&] {
    if (bits) memcpy(o, bits, w * sizeof(Lit));
    else if (op == '*') bvMul(a, b, w, o);
    else if (op == '+') bvAdd(a, b, 0, w, o);
    else { std::vector<Lit> n(w); bvNot(b, w, n.data()); bvAdd(a, n.data(), 1, w, o); }
  };
  bool ca = true, cb = true;
  for (uint32_t i = 0; i < w; i++) { ca &= a[i] < 2; cb &= b[i] < 2; }
  if (w < 16 || w > 64 || (ca && cb)) return plain();
  Ring& R = rings[w];
  if (R.of.size() > MAXREP) return plain();
  Poly p = get(R, a, w), q = get(R, b, w), r;
  if (op == '*') {
    if (p.size() * q.size() > 160) return plain();
    for (auto& x : p) for (auto& y : q) {
      Mono m = x.first;
      m.insert(m.end(), y.first.begin(), y.first.end());
      if (m.size() > MAXDEG) return plain();
      std::sort(m.begin(), m.end());
      r[m] += x.second * y.second;
    }
  } else {
    r = p;
    for (auto& y : q) r[y.first] += op == '+' ? y.second : 0 - y.second;
  }
  norm(r, w);
  if (r.size() > MAXTERMS) return plain();
  if (r.empty() || (r.size() == 1 && r.begin()->first.empty())) {
    uint64_t v = r.empty() ? 0 : r.begin()->second;
    for (uint32_t i = 0; i < w; i++) o[i] = v >> i & 1;
    return;
  }
  auto it = R.rep.find(r);
  if (it != R.rep.end()) { memcpy(o, it->second.data(), w * sizeof(Lit)); return; }
  plain();
  std::vector<Lit> k(o, o + w);
  R.rep.emplace(r, k);
  R.of.emplace(k, r);
}
void bvRing(char op, const Lit* a, const Lit* b, uint32_t w, Lit* o) { bvRingAlias(op, a, b, w, nullptr, o); }
Lit bvUlt(const Lit* a, const Lit* b, uint32_t w) {
  Lit r = 0;
  for (uint32_t i = 0; i < w; i++) r = G.mux(XOR(a[i], b[i]), b[i], r);
  return r;
}
Lit bvSlt(const Lit* a, const Lit* b, uint32_t w) {
  Lit r = 0;
  for (uint32_t i = 0; i + 1 < w; i++) r = G.mux(XOR(a[i], b[i]), b[i], r);
  return G.mux(XOR(a[w - 1], b[w - 1]), a[w - 1], r);
}
Lit bvEq(const Lit* a, const Lit* b, uint32_t w) {
  Lit r = 1;
  for (uint32_t i = 0; i < w; i++) { r = AND(r, XOR(a[i], b[i]) ^ 1); if (r == 0) return 0; }
  return r;
}
void bvMux(Lit c, const Lit* t, const Lit* f, uint32_t w, Lit* o) { for (uint32_t i = 0; i < w; i++) o[i] = G.mux(c, t[i], f[i]); }
void bvUdivrem(const Lit* a, const Lit* b, uint32_t w, Lit* q, Lit* r) {
  // power-of-two divisor
  int ones = 0, sym = 0, pos = -1;
  for (uint32_t i = 0; i < w; i++) { if (b[i] == 1) { ones++; pos = i; } else if (b[i] != 0) sym++; }
  std::vector<Lit> Q(w, 0), R(w, 0);
  if (!sym && ones == 1) {
    for (uint32_t i = 0; i < w; i++) { Q[i] = i + pos < w ? a[i + pos] : 0; R[i] = (int)i < pos ? a[i] : 0; }
  } else {
    std::vector<Lit> rem(w + 1, 0), d(w + 1), nb(w + 1);
    for (uint32_t i = 0; i < w; i++) nb[i] = b[i] ^ 1;
    nb[w] = 1;
    for (int i = (int)w - 1; i >= 0; i--) {
      for (int j = w; j > 0; j--) rem[j] = rem[j - 1];
      rem[0] = a[i];
      Lit co;
      bvAdd(rem.data(), nb.data(), 1, w + 1, d.data(), &co); // rem - b, carry = no borrow
      Q[i] = co;
      for (uint32_t j = 0; j <= w; j++) rem[j] = G.mux(co, d[j], rem[j]);
    }
    for (uint32_t j = 0; j < w; j++) R[j] = rem[j];
  }
  if (q) memcpy(q, Q.data(), w * sizeof(Lit));
  if (r) memcpy(r, R.data(), w * sizeof(Lit));
}
void bvShift(int kind, const Lit* a, const Lit* sh, uint32_t w, Lit* o) {
  std::vector<Lit> cur(a, a + w), nx(w);
  Lit fill = kind == 2 ? a[w - 1] : 0;
  Lit big = 0;
  for (uint32_t k = 0; k < w; k++) {
    if (sh[k] == 0) continue;
    if (k >= 31 || (1u << k) >= w) { big = OR(big, sh[k]); continue; }
    uint32_t s = 1u << k;
    for (uint32_t i = 0; i < w; i++) {
      Lit v;
      if (kind == 0) v = i >= s ? cur[i - s] : 0;
      else v = i + s < w ? cur[i + s] : fill;
      nx[i] = G.mux(sh[k], v, cur[i]);
    }
    cur.swap(nx);
  }
  for (uint32_t i = 0; i < w; i++) o[i] = G.mux(big, fill, cur[i]);
}

// ---------------------------------------------------------------- AES
// tower field GF(((2^2)^2)^2): GF4 = {1,W}, W^2=W+1; GF16 = GF4[z]/(z^2+z+W); GF256 = GF16[y]/(y^2+y+N)
static unsigned m4(unsigned a, unsigned b) {
  unsigned ah = a >> 1, al = a & 1, bh = b >> 1, bl = b & 1;
  unsigned hh = ah & bh, ll = al & bl, x = (ah ^ al) & (bh ^ bl);
  return ((x ^ ll) << 1) | (ll ^ hh);
}
static unsigned m16(unsigned a, unsigned b) {
  unsigned ah = a >> 2, al = a & 3, bh = b >> 2, bl = b & 3;
  unsigned hh = m4(ah, bh), ll = m4(al, bl), x = m4(ah ^ al, bh ^ bl);
  return ((x ^ ll) << 2) | (ll ^ m4(hh, 2));
}
static unsigned NN = 0;
static unsigned m256(unsigned a, unsigned b) {
  unsigned ah = a >> 4, al = a & 15, bh = b >> 4, bl = b & 15;
  unsigned hh = m16(ah, bh), ll = m16(al, bl), x = m16(ah ^ al, bh ^ bl);
  return ((x ^ ll) << 4) | (ll ^ m16(hh, NN));
}
static uint8_t toT[8], fromT[8]; // column images
static uint8_t SB[256], ISB[256];
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; for (int i = 0; i < 8; i++) { if (b & 1) r ^= a; b >>= 1; a = (a << 1) ^ ((a & 0x80) ? 0x1b : 0); } return r; }
static uint8_t aff(uint8_t s) { uint8_t r = 0x63; for (int k = 0; k < 5; k++) r ^= (uint8_t)((s << k) | (s >> (8 - k))); return r; }
static bool inited = false;
static void init() {
  if (inited) return;
  inited = true;
  for (int x = 0; x < 256; x++) {
    uint8_t inv = 0;
    for (int y = 0; y < 256; y++) if (gmul(x, y) == 1) inv = y;
    uint8_t s = inv;
    uint8_t r = 0x63;
    for (int k = 0; k < 5; k++) r ^= k ? (uint8_t)((s << k) | (s >> (8 - k))) : s;
    SB[x] = r; ISB[r] = x;
  }
  for (NN = 1; NN < 16; NN++) { // y^2+y+N irreducible
    bool root = false;
    for (unsigned t = 0; t < 16; t++) if ((m16(t, t) ^ t) == NN) root = true;
    if (!root) break;
  }
  for (unsigned g = 2; g < 256; g++) {
    unsigned p[9]; p[0] = 1;
    for (int i = 1; i < 9; i++) p[i] = m256(p[i - 1], g);
    if ((p[8] ^ p[4] ^ p[3] ^ p[1] ^ p[0]) == 0) { for (int i = 0; i < 8; i++) toT[i] = p[i]; break; }
  }
  uint8_t inv[256];
  for (int x = 0; x < 256; x++) { uint8_t r = 0; for (int i = 0; i < 8; i++) if (x >> i & 1) r ^= toT[i]; inv[r] = x; }
  for (int i = 0; i < 8; i++) fromT[i] = inv[1 << i];
}
typedef std::vector<Lit> V;
static V lin(const uint8_t* cols, const V& in) {
  V o(8, 0);
  for (int i = 0; i < 8; i++) for (int b = 0; b < 8; b++) if (cols[i] >> b & 1) o[b] = XOR(o[b], in[i]);
  return o;
}
static V vx(const V& a, const V& b) { V o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = XOR(a[i], b[i]); return o; }
static V sub(const V& a, int s, int n) { return V(a.begin() + s, a.begin() + s + n); }
static V cat(const V& lo, const V& hi) { V o(lo); o.insert(o.end(), hi.begin(), hi.end()); return o; }
static V M4(const V& a, const V& b) {
  Lit hh = AND(a[1], b[1]), ll = AND(a[0], b[0]), x = AND(XOR(a[1], a[0]), XOR(b[1], b[0]));
  return {XOR(ll, hh), XOR(x, ll)};
}
static V M4W(const V& a) { return {a[1], XOR(a[0], a[1])}; } // times W: (al + ah W)W = ah + (al+ah)W
static V S4(const V& a) { return {XOR(a[0], a[1]), a[1]}; }
static V M16(const V& a, const V& b) {
  V ah = sub(a, 2, 2), al = sub(a, 0, 2), bh = sub(b, 2, 2), bl = sub(b, 0, 2);
  V hh = M4(ah, bh), ll = M4(al, bl), x = M4(vx(ah, al), vx(bh, bl));
  return cat(vx(ll, M4W(hh)), vx(x, ll));
}
static V linM16(unsigned k, const V& a, bool square) {
  V o(4, 0);
  for (int i = 0; i < 4; i++) { unsigned e = 1u << i; unsigned v = m16(k, square ? m16(e, e) : e); for (int b = 0; b < 4; b++) if (v >> b & 1) o[b] = XOR(o[b], a[i]); }
  return o;
}
static V INV16(const V& a) {
  V h = sub(a, 2, 2), l = sub(a, 0, 2);
  V d = vx(vx(M4W(S4(h)), M4(h, l)), S4(l));
  V di = S4(d); // inverse in GF4 = square
  return cat(M4(vx(h, l), di), M4(h, di));
}
static V INV256(const V& a) {
  V h = sub(a, 4, 4), l = sub(a, 0, 4);
  V d = vx(vx(linM16(NN, h, true), M16(h, l)), linM16(1, l, true));
  V di = INV16(d);
  return cat(M16(vx(h, l), di), M16(h, di));
}
void aesSbox(const Lit* in, Lit* out, bool inv) {
  init();
  V x(in, in + 8);
  if (inv) {
    V y(8);
    for (int i = 0; i < 8; i++) x[i] ^= (0x63 >> i) & 1;
    for (int i = 0; i < 8; i++) y[i] = XOR(XOR(x[(i + 2) & 7], x[(i + 5) & 7]), x[(i + 7) & 7]);
    x = y;
  }
  V r = lin(fromT, INV256(lin(toT, x)));
  if (!inv) {
    for (int i = 0; i < 8; i++) {
      Lit s = r[i];
      for (int k = 1; k < 5; k++) s = XOR(s, r[(i - k + 8) & 7]);
      out[i] = s ^ ((0x63 >> i) & 1);
    }
  } else
    memcpy(out, r.data(), 8 * sizeof(Lit));
}
static void mulc(const Lit* a, unsigned k, Lit* o) {
  V r(8, 0);
  for (int i = 0; i < 8; i++) { uint8_t v = gmul(1 << i, k); for (int b = 0; b < 8; b++) if (v >> b & 1) r[b] = XOR(r[b], a[i]); }
  memcpy(o, r.data(), 8 * sizeof(Lit));
}
static void mix(const Lit* in, Lit* out, const unsigned k[4]) {
  for (int c = 0; c < 4; c++)
    for (int r = 0; r < 4; r++) {
      V acc(8, 0);
      for (int j = 0; j < 4; j++) { Lit t[8]; mulc(in + (c * 4 + j) * 8, k[(j - r + 4) & 3], t); for (int b = 0; b < 8; b++) acc[b] = XOR(acc[b], t[b]); }
      memcpy(out + (c * 4 + r) * 8, acc.data(), 8 * sizeof(Lit));
    }
}
static const unsigned ME[4] = {2, 3, 1, 1}, MD[4] = {14, 11, 13, 9};
void aesImc(const Lit* in, Lit* out) { Lit t[128]; mix(in, t, MD); memcpy(out, t, sizeof t); }
void aesRound(int kind, const Lit* st, const Lit* key, Lit* out) {
  bool dec = kind >= 2;
  Lit s[128], t[128];
  for (int c = 0; c < 4; c++)
    for (int r = 0; r < 4; r++) {
      int src = dec ? ((c - r + 4) & 3) : ((c + r) & 3);
      aesSbox(st + (src * 4 + r) * 8, s + (c * 4 + r) * 8, dec);
    }
  if (kind == 0) mix(s, t, ME);
  else if (kind == 2) mix(s, t, MD);
  else memcpy(t, s, sizeof t);
  for (int i = 0; i < 128; i++) out[i] = XOR(t[i], key[i]);
}
void aesKeygen(const Lit* in, uint8_t rcon, Lit* out) {
  Lit o[128];
  for (int w = 0; w < 2; w++) {
    const Lit* src = in + (w * 2 + 1) * 32;
    Lit sb[32];
    for (int b = 0; b < 4; b++) aesSbox(src + b * 8, sb + b * 8, false);
    memcpy(o + w * 64, sb, sizeof sb);
    for (int i = 0; i < 32; i++) o[w * 64 + 32 + i] = sb[(i + 8) & 31] ^ (i < 8 ? (rcon >> i) & 1 : 0);
  }
  memcpy(out, o, sizeof o);
}
void aesSelfTest() {
  init();
  for (int x = 0; x < 256; x++) {
    Lit in[8], o[8];
    for (int i = 0; i < 8; i++) in[i] = x >> i & 1;
    aesSbox(in, o, false);
    int v = 0; for (int i = 0; i < 8; i++) v |= (o[i] & 1) << i;
    if (v != SB[x]) { fprintf(stderr, "engine: sbox self test failed at %d\n", x); exit(3); }
    aesSbox(in, o, true);
    v = 0; for (int i = 0; i < 8; i++) v |= (o[i] & 1) << i;
    if (v != ISB[x]) { fprintf(stderr, "engine: inverse sbox self test failed at %d\n", x); exit(3); }
  }
  if (SB[0] != 0x63 || SB[0x53] != 0xed) { fprintf(stderr, "engine: sbox table\n"); exit(3); }
}
