// M01: the AES circuit against FIPS-197.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp
// @entry vf_m01_encrypt prop=M01 reach=ok : native bits: every block and every 11 round keys, one block; 0 to 2 blocks, any one of them arbitrary, with one key || up to 4 blocks
// @entry vf_m01_decrypt prop=M01 reach=ok : native bits: every block and every 11 inverse round keys, one block; 0 to 2 blocks, any one of them arbitrary, || up to 4 blocks
// @entry vf_m01_ctr prop=M01 reach=ok : counter mode over the circuit and the pass-through circuit: 0 to 2 blocks of any data, counters and round keys
// @entry vf_m01_sizes prop=M01 reach=ok : every data length of 0 to 130, 255 to 257 bits, key lengths around 1408
// @entry vf_m01_mpc prop=M01 reach=ok : secret bits on the plaintext scheduler, single and batches of 1 and 2 rows, 1 and 2 blocks: fixed data, last round key of any value in every row
#include "sched.h"
#include "aes_ref.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/DummyAesCircuitFactory.h"
using namespace fbpcf::mpc_std_lib::aes_circuit;
using VB = std::vector<bool>;
// a bit for the circuit; every result is offered to the solver for comparison with the reference's intermediate values
struct Bit1 {
  bool v = false;
  Bit1() = default;
  Bit1(bool x) : v(x) {}
  static Bit1 of(uint64_t x) { Bit1 r; r.v = vf_canon(x) & 1; return r; }
  Bit1 operator^(const Bit1& o) const { return of(v ^ o.v); }
  Bit1 operator&(const Bit1& o) const { return of(v & o.v); }
  Bit1 operator!() const { return of(v ^ 1); }
};
using VC = std::vector<Bit1>;
static VC cb(const VB& v) { return VC(v.begin(), v.end()); }
static VB vb(const VC& v) { VB r; for (auto& b : v) r.push_back(b.v); return r; }
static Blk symBlk(const char* n) { Blk b; for (auto& x : b) x = vf_sym(n, 8); return b; }
static void put(VB& v, const Blk& b) { for (auto x : b) for (int i = 7; i >= 0; i--) v.push_back(x >> i & 1); }
static VB bits(const std::vector<Blk>& bs) { VB v; for (auto& b : bs) put(v, b); return v; }
static void equal(const VB& got, const std::vector<Blk>& want, const char* what) {
  VB w = bits(want);
  vf_check(got.size() == w.size(), "size of the result");
  for (size_t i = 0; i < w.size(); i++) vf_check(got[i] == w[i], what);
}
// n blocks of which one, picked per path, is arbitrary
static std::vector<Blk> oneOf(size_t n, const char* name) {
  std::vector<Blk> v(n);
  for (size_t b = 0; b < n; b++) for (int i = 0; i < 16; i++) v[b][i] = 37 * i + 91 * b + 5;
  if (n) v[vf_split("which", 0, n - 1)] = symBlk(name);
  return v;
}
static VB keyBits(const std::array<Blk, 11>& k) { VB v; for (auto& b : k) put(v, b); return v; }
static std::array<Blk, 11> symKeys() { std::array<Blk, 11> k; for (auto& b : k) b = symBlk("key"); return k; }
static std::array<Blk, 11> fixedKeys() { Blk k; for (int i = 0; i < 16; i++) k[i] = 17 * i + 3; return refKeys(k); }
// FIPS-197 with cut points around every S-box
static void cut(Blk& b) { for (auto& x : b) x = vf_cut(x); }
static Blk encRef(const std::array<Blk, 11>& k, Blk s) {
  for (int i = 0; i < 16; i++) s[i] ^= k[0][i];
  for (int round = 1; round <= 10; round++) {
    cut(s);
    refSub(s.data(), 16);
    cut(s);
    Blk t;
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[c * 4 + r] = s[((c + r) % 4) * 4 + r];
    if (round < 10) t = refMix(t);
    for (int i = 0; i < 16; i++) s[i] = t[i] ^ k[round][i];
  }
  return s;
}
static Blk invRef(const std::array<Blk, 11>& dk, Blk s) { // the equivalent inverse cipher
  auto sub = [&](uint8_t x) { // the inverse S-box: AESDECLAST, whose row 0 is not shifted
    Blk b{};
    b[0] = x;
    return fromM(_mm_aesdeclast_si128(toM(b), _mm_setzero_si128()))[0];
  };
  for (int i = 0; i < 16; i++) s[i] ^= dk[0][i];
  for (int round = 1; round <= 10; round++) {
    Blk t;
    cut(s);
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[((c + r) % 4) * 4 + r] = sub(s[c * 4 + r]);
    cut(t);
    if (round < 10) t = refInvMix(t);
    for (int i = 0; i < 16; i++) s[i] = t[i] ^ dk[round][i];
  }
  return s;
}
static std::array<Blk, 11> inverseKeys(const std::array<Blk, 11>& k) {
  std::array<Blk, 11> d;
  for (int i = 0; i < 11; i++) d[i] = i == 0 || i == 10 ? k[10 - i] : refInvMix(k[10 - i]);
  return d;
}
extern "C" void vf_m01_encrypt() {
  auto c = AesCircuitFactory<Bit1>().create();
  size_t n = vf_split("blocks", 0, VF_THOROUGH ? 4 : 2);
  auto k = n == 1 ? symKeys() : fixedKeys();
  std::vector<Blk> p = oneOf(n, "plain"), e;
  for (auto& x : p) e.push_back(encRef(k, x));
  equal(vb(c->encrypt(cb(bits(p)), cb(keyBits(k)))), e, "encrypted block");
  vf_reach("ok");
}
extern "C" void vf_m01_decrypt() {
  auto c = AesCircuitFactory<Bit1>().create();
  size_t n = vf_split("blocks", 0, VF_THOROUGH ? 4 : 2);
  {
    auto k = n == 1 ? symKeys() : inverseKeys(fixedKeys());
    std::vector<Blk> p = oneOf(n, "cipher"), e;
    for (auto& x : p) e.push_back(invRef(k, x));
    equal(vb(c->decrypt(cb(bits(p)), cb(keyBits(k)))), e, "decrypted block");
  }
  vf_reach("ok");
}
extern "C" void vf_m01_ctr() {
  size_t n = vf_split("blocks", 0, 2);
  bool dummy = vf_split("dummy", 0, 1);
  std::unique_ptr<IAesCircuitCtr<Bit1>> c;
  if (dummy) c = std::make_unique<AesCircuitCtr<Bit1>>(insecure::DummyAesCircuitFactory<Bit1>().create()); else c = AesCircuitCtrFactory<Bit1>().create();
  auto k = n < 2 || dummy ? symKeys() : fixedKeys();
  std::vector<Blk> p, m, e;
  for (size_t i = 0; i < n; i++) {
    p.push_back(symBlk("plain"));
    m.push_back(symBlk("counter"));
    Blk x = dummy ? m[i] : encRef(k, m[i]);
    for (int j = 0; j < 16; j++) x[j] ^= p[i][j];
    e.push_back(x);
  }
  auto got = c->encrypt(cb(bits(p)), cb(keyBits(k)), cb(bits(m)));
  equal(vb(got), e, "data xor encrypted counter");
  equal(vb(c->decrypt(got, cb(keyBits(k)), cb(bits(m)))), p, "decryption undoes encryption");
  vf_reach("ok");
}
extern "C" void vf_m01_sizes() {
  auto c = AesCircuitFactory<Bit1>().create();
  auto ctr = AesCircuitCtrFactory<Bit1>().create();
  VC k = cb(keyBits(fixedKeys()));
  size_t n = vf_split("n", 0, 133);
  if (n > 130) n += 255 - 131;
  bool ok = n % 128 == 0;
  vf_check(ok != vf_throws([&] { vf_check(c->encrypt(VC(n), k).size() == n, "size of the result"); }), "whole blocks are encrypted, anything else is refused");
  vf_check(ok != vf_throws([&] { vf_check(c->decrypt(VC(n), k).size() == n, "size of the result"); }), "whole blocks are decrypted, anything else is refused");
  vf_check(ok != vf_throws([&] { vf_check(ctr->encrypt(VC(n), k, VC(n)).size() == n, "size of the result"); }), "whole blocks are encrypted, anything else is refused");
  if (n <= 128) vf_check(vf_throws([&] { ctr->encrypt(VC(256), k, VC(n)); }), "one counter for every block");
  if (n == 128)
    for (int d : {-1408, -128, -1, 1, 128, 1408}) {
      VC x(1408 + d);
      vf_check(vf_throws([&] { c->encrypt(VC(n), x); }) && vf_throws([&] { c->decrypt(VC(n), x); }) && vf_throws([&] { ctr->encrypt(VC(n), x, VC(n)); }), "11 round keys");
    }
  vf_reach("ok");
}
template <class Bit, class Make, class Open> void onScheduler(size_t rows, Make make, Open open) {
  size_t n = vf_split("blocks", 1, 2);
  bool dec = vf_split("decrypt", 0, 1);
  std::vector<std::array<Blk, 11>> k(rows, dec ? inverseKeys(fixedKeys()) : fixedKeys());
  std::vector<std::vector<Blk>> p(rows, std::vector<Blk>(n)), e = p;
  for (size_t r = 0; r < rows; r++) {
    k[r][10] = symBlk("last key");
    for (size_t b = 0; b < n; b++) {
      for (int i = 0; i < 16; i++) p[r][b][i] = 29 * i + 91 * r + 50 * b + 7;
      e[r][b] = dec ? invRef(k[r], p[r][b]) : encRef(k[r], p[r][b]);
    }
  }
  std::vector<VB> in, keys, want;
  for (size_t r = 0; r < rows; r++) { keys.push_back(keyBits(k[r])); in.push_back(bits(p[r])); want.push_back(bits(e[r])); }
  std::vector<Bit> x, y;
  for (size_t i = 0; i < 128 * n; i++) { VB row; for (auto& v : in) row.push_back(v[i]); x.push_back(make(row)); }
  for (size_t i = 0; i < 1408; i++) { VB row; for (auto& v : keys) row.push_back(v[i]); y.push_back(make(row)); }
  auto c = AesCircuitFactory<Bit>().create();
  auto z = dec ? c->decrypt(x, y) : c->encrypt(x, y);
  vf_check(z.size() == x.size(), "size of the result");
  for (size_t i = 0; i < z.size(); i++) {
    VB row = open(z[i]);
    vf_check(row.size() == rows, "one result per row");
    for (size_t r = 0; r < rows; r++) vf_check(row[r] == want[r][i], "every row is processed on its own");
  }
  vf_reach("ok");
}
extern "C" void vf_m01_mpc() {
  usePlaintext<0>();
  size_t rows = vf_split("rows", 0, 2);
  if (rows == 0) onScheduler<fbpcf::frontend::Bit<true, 0, false>>(1, [](VB v) { return fbpcf::frontend::Bit<true, 0, false>((bool)v[0], 0); }, [](auto& b) { return VB{b.openToParty(0).getValue()}; });
  else onScheduler<fbpcf::frontend::Bit<true, 0, true>>(rows, [](VB v) { return fbpcf::frontend::Bit<true, 0, true>(v, 0); }, [](auto& b) { return b.openToParty(0).getValue(); });
}
