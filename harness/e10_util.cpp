// E10: bit, block, masking and big-number helpers.
// @src fbpcf/engine/util/util.cpp fbpcf/engine/util/aes.cpp
// @entry vf_e10_bits prop=E10 reach=ok : every 128-bit block
// @entry vf_e10_shift prop=E10 reach=ok : every block, every shift of 0 to 127 bits
// @entry vf_e10_extract prop=E10 reach=ok,reject : every block, vectors of 0 to 130 bits
// @entry vf_e10_build prop=E10 reach=ok : every 16 bytes; blocks from system randomness, all random bytes
// @entry vf_e10_mod prop=E10 reach=ok : big numbers of 0 to 3 bytes, every value, moduli 1 to 9, 255, 256, 257, 65521
// @entry vf_e10_masker prop=E10 reach=ok : every source, key, choice and pair of corrections, booleans and 64-bit integers
// @entry vf_e10_expander prop=E10 reach=ok : every index, every vector of 1 to 3 keys || 1 to 6 keys
#include "openssl_model.h"
#include "aes_ref.h"
#include "fbpcf/engine/util/Masker.h"
#include "fbpcf/engine/util/util.h"
using namespace fbpcf::engine::util;
static Blk symBlk(const char* n) {
  Blk b;
  for (auto& x : b) x = vf_sym(n, 8);
  return b;
}
static bool bit(const Blk& b, int i) { return b[i / 8] >> i % 8 & 1; }
extern "C" void vf_e10_bits() {
  Blk b = symBlk("b");
  __m128i x = toM(b);
  vf_check(getLsb(x) == (b[0] & 1), "least significant bit");
  vf_check(getMsb(x) == (b[15] >> 7), "most significant bit");
  uint64_t lo = 0;
  for (int i = 0; i < 8; i++) lo |= (uint64_t)b[i] << 8 * i;
  vf_check(getLast64Bits(x) == lo, "last 64 bits");
  __m128i y = x, z = x;
  setLsbTo0(y);
  setLsbTo1(z);
  Blk c = b, d = b;
  c[0] &= 0xfe;
  d[0] |= 1;
  vf_check(same(y, c), "bit cleared, others unchanged");
  vf_check(same(z, d), "bit set, others unchanged");
  vf_check(same(x, b), "operand unchanged");
  vf_reach("ok");
}
extern "C" void vf_e10_shift() {
  Blk b = symBlk("b"), e{};
  int k = vf_split("offset", 0, 127);
  for (int i = k; i < 128; i++) e[i / 8] |= bit(b, i - k) << i % 8;
  __m128i x = toM(b);
  lShiftByBitsInPlace(x, k);
  vf_check(same(x, e), "shifted left");
  vf_reach("ok");
}
extern "C" void vf_e10_extract() {
  Blk b = symBlk("b");
  size_t n = vf_split("n", 0, 130);
  std::vector<bool> v(n);
  bool threw = vf_throws([&] { extractLnbToVector(toM(b), v); });
  vf_check(threw == (n > 128), "more than 128 bits are rejected");
  if (threw) { vf_reach("reject"); return; }
  bool ok = v.size() == n;
  for (size_t i = 0; i < n; i++) ok &= v[i] == bit(b, i);
  vf_check(ok, "bits from the least significant");
  vf_reach("ok");
}
extern "C" void vf_e10_build() {
  Blk b = symBlk("b");
  vf_check(same(buildM128i(std::vector<unsigned char>(b.begin(), b.end())), b), "block from bytes");
  auto r = getRandomM128iFromSystemNoise(), s = getRandomM128iFromSystemNoise();
  vf_check(g_randLog.size() == 32, "each block takes sixteen fresh random bytes");
  Blk c, d;
  for (int i = 0; i < 16; i++) { c[i] = g_randLog[i]; d[i] = g_randLog[16 + i]; }
  vf_check(same(r, c) && same(s, d), "random blocks are the random bytes");
  vf_reach("ok");
}
extern "C" void vf_e10_mod() {
  static const uint32_t mods[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 257, 65521};
  uint32_t m = mods[vf_split("modulus", 0, 12)];
  size_t n = vf_split("n", 0, 3);
  std::vector<unsigned char> d(n);
  uint32_t v = 0;
  for (size_t i = 0; i < n; i++) { d[i] = vf_sym("byte", 8); v |= d[i] << 8 * i; }
  BN_CTX* ctx = BN_CTX_new();
  uint32_t r = mod(d, m, ctx), r2 = mod(d, m, ctx);
  BN_CTX_free(ctx);
  // bitwise reduction of the little-endian value
  uint32_t e = 0, mask = 1;
  while (mask < 2 * m) mask = mask << 1 | 1;
  for (int i = 31; i >= 0; i--) { e = (e << 1 | (v >> i & 1)) & mask; e = e >= m ? e - m : e; }
  vf_check(r == e, "little-endian value reduced by the modulus");
  vf_check(r2 == e, "the working number is fresh in every call");
  vf_reach("ok");
}
extern "C" void vf_e10_masker() {
  Blk k0 = symBlk("k0"), k1 = symBlk("k1");
  bool c = vf_bool("choice");
  // the receiver knows the key of its choice and gets both masked values
  {
    bool m0 = vf_bool("m0"), m1 = vf_bool("m1");
    bool c0 = Masker<bool>::mask(m0, toM(k0)), c1 = Masker<bool>::mask(m1, toM(k1));
    vf_check(Masker<bool>::unmask(toM(c ? k1 : k0), c, c0, c1) == (c ? m1 : m0), "unmasking recovers the chosen bit");
    vf_check(c0 == (m0 ^ (k0[0] & 1)), "one-time pad of the bit");
  }
  {
    // mask(m, k) = m - k and unmask = k + the chosen correction, so unmasking inverts masking
    uint64_t m0 = vf_sym("m0", 64), c0 = vf_sym("c0", 64), c1 = vf_sym("c1", 64), kk = 0;
    for (int i = 0; i < 8; i++) kk |= (uint64_t)k0[i] << 8 * i;
    bool cc = vf_concrete(c);
    vf_check(Masker<uint64_t>::mask(m0, toM(k0)) == m0 - kk, "one-time pad of the integer");
    vf_check(Masker<uint64_t>::unmask(toM(k0), cc, c0, c1) == kk + (cc ? c1 : c0), "unmasking adds the key to the chosen integer");
  }
  vf_reach("ok");
}
extern "C" void vf_e10_expander() {
  int64_t idx = vf_sym("index", 64);
  size_t n = vf_split("n", 1, VF_THOROUGH ? 6 : 3);
  std::vector<Blk> k(n);
  std::vector<__m128i> v(n);
  for (size_t i = 0; i < n; i++) { k[i] = symBlk("key"); v[i] = toM(k[i]); }
  auto r = Expander(idx).expand(std::move(v));
  vf_check(r.size() == 2 * n, "twice as many keys");
  Blk a{}, b{};
  uint64_t i2 = (uint64_t)idx << 1;
  for (int i = 0; i < 8; i++) { a[i] = i2 >> 8 * i; b[8 + i] = (i2 + 1) >> 8 * i; }
  auto ka = refKeys(a), kb = refKeys(b);
  for (size_t i = 0; i < n; i++) {
    Blk x = refEncrypt(ka, k[i]), y = refEncrypt(kb, k[i]);
    for (int j = 0; j < 16; j++) { x[j] ^= k[i][j]; y[j] ^= k[i][j]; }
    vf_check(same(r[2 * i], x), "left child of its key only");
    vf_check(same(r[2 * i + 1], y), "right child of its key only");
  }
  vf_reach("ok");
}
