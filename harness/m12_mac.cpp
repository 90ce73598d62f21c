// M12: AES-CMAC and the synthetic initialisation vector.
// @src fbpcf/primitive/mac/AesCmac.cpp fbpcf/primitive/mac/S2v.cpp
// @entry vf_m12_cmac prop=M12 reach=ok : messages of 0 to 50 bytes, all contents and keys, each followed by a second message of 0, 16 or 21 bytes and by the first again || 0 to 100 bytes
// @entry vf_m12_s2v prop=M12 reach=short,long : messages of 0 to 50 bytes, all contents, the MAC an arbitrary function || 0 to 100 bytes
// @entry vf_m12_distinct prop=M12 reach=ok : all pairs of different messages of 0 to 15 and of 16 to 24 bytes, of one class || up to 34 bytes
// @entry vf_m12_padding prop=M12 reach=ok : every message of 0 to 15 bytes against the 16-byte message that spells out its padding
// @entry vf_m12_together prop=M12 reach=ok : the derivation over AES-CMAC as its factory makes it, messages of 0, 1, 15, 16, 17 and 34 bytes || 0 to 34 bytes
#include "cmac_model.h"
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"
using namespace fbpcf::primitive::mac;
using Bytes = std::vector<unsigned char>;
static Bytes any(const char* n, size_t k) { Bytes r(k); for (auto& b : r) b = vf_sym(n, 8); return r; }
static Bytes bytes(__m128i x) { Bytes r(16); memcpy(r.data(), &x, 16); return r; }
static Bytes bytes(const cmacm::Tag& t) { return Bytes(t.begin(), t.end()); }
static bool same(const Bytes& a, const Bytes& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// doubling in GF(2^128), the block read as a little-endian number
static Bytes doubled(const Bytes& d) {
  Bytes r(16);
  for (int i = 0; i < 16; i++) r[i] = (uint8_t)(d[i] << 1 | (i ? d[i - 1] >> 7 : 0));
  r[0] ^= (uint8_t)(0x87 * (d[15] >> 7));
  return r;
}
// what S2V (RFC 5297, no associated data) authenticates, given the MAC of the zero block
static Bytes authenticated(const Bytes& m, const Bytes& d) {
  Bytes t(m);
  if (m.size() >= 16) {
    for (int i = 0; i < 16; i++) t[m.size() - 16 + i] ^= d[i];
    return t;
  }
  t.push_back(0x80);
  t.resize(16);
  Bytes dd = doubled(d);
  for (int i = 0; i < 16; i++) t[i] ^= dd[i];
  return t;
}
static size_t longest() { return VF_THOROUGH ? 100 : 50; }
extern "C" void vf_m12_cmac() {
  size_t n = vf_split("n", 0, longest()), k = vf_split("second", 0, 2);
  Bytes key = any("key", 16), text = any("text", n), other = any("other", k == 0 ? 0 : k == 1 ? 16 : 21);
  bool block = vf_split("block", 0, 1);
  {
    AesCmacFactory f;
    auto m = f.create(key);
    auto run = [&](const Bytes& t) { return block ? bytes(m->getMacM128i(t)) : m->getMac128(t); };
    auto a = run(text), b = run(other), c = run(text);
    vf_check(same(a, bytes(cmacm::mac(key, text))), "AES-CMAC of the message");
    vf_check(same(b, bytes(cmacm::mac(key, other))), "AES-CMAC of the second message");
    vf_check(same(a, c), "equal messages, equal codes");
  }
  vf_check(cmacm::g_live == 0, "contexts are released");
  vf_reach("ok");
}
// a MAC that notes what it authenticates
struct Noted final : IMac {
  std::vector<Bytes>* log;
  Bytes zero;
  std::vector<Bytes>* answers;
  Noted(std::vector<Bytes>* l, Bytes z, std::vector<Bytes>* a) : log(l), zero(z), answers(a) {}
  Bytes getMac128(const Bytes& t) const override {
    if (same(t, Bytes(16)) && log->empty()) { log->push_back(t); answers->push_back(zero); return zero; }
    log->push_back(t);
    answers->push_back(any("mac", 16));
    return answers->back();
  }
  __m128i getMacM128i(const Bytes& t) const override { auto b = getMac128(t); __m128i r; memcpy(&r, b.data(), 16); return r; }
};
static Bytes derive(const Bytes& m, const Bytes& zero, bool block, Bytes* result = nullptr) {
  std::vector<Bytes> log, answers;
  S2v s(std::make_unique<Noted>(&log, zero, &answers));
  Bytes r = block ? bytes(s.getMacM128i(m)) : s.getMac128(m);
  vf_check(log.size() == 2 && same(log[0], Bytes(16)), "the MAC of the zero block, then one more");
  vf_check(same(r, answers[1]), "the second MAC is the result");
  if (result) *result = r;
  return log[1];
}
extern "C" void vf_m12_s2v() {
  size_t n = vf_split("n", 0, longest());
  bool block = vf_split("block", 0, 1);
  Bytes m = any("text", n), zero = any("zero", 16), keep = m;
  auto t = derive(m, zero, block);
  vf_check(same(t, authenticated(m, zero)), "what is authenticated");
  vf_check(same(m, keep), "the message is left as it was");
  if (n < 16) vf_reach("short"); else vf_reach("long");
}
extern "C" void vf_m12_distinct() {
  bool shorter = vf_split("short", 0, 1);
  size_t lo = shorter ? 0 : 16, hi = shorter ? 15 : VF_THOROUGH ? 34 : 24;
  size_t n = vf_split("n", lo, hi), k = vf_split("k", n, hi);
  Bytes a = any("first", n), b = any("second", k), zero = any("zero", 16);
  vf_assume(!same(a, b));
  vf_check(!same(derive(a, zero, false), derive(b, zero, false)), "different messages are told apart");
  vf_reach("ok");
}
extern "C" void vf_m12_padding() {
  size_t n = vf_split("n", 0, 15);
  Bytes a = any("first", n), b = a, zero = any("zero", 16);
  b.push_back(0x80);
  b.resize(16);
  vf_assume(!same(zero, Bytes(16)));
  vf_check(!same(derive(a, zero, false), derive(b, zero, false)), "a message is told apart from its padded form");
  vf_reach("ok");
}
extern "C" void vf_m12_together() {
  static const size_t some[] = {0, 1, 15, 16, 17, 34};
  size_t n = VF_THOROUGH ? vf_split("n", 0, 34) : some[vf_split("n", 0, 5)];
  Bytes key = any("key", 16), m = any("text", n);
  S2vFactory f;
  auto s = f.create(key);
  auto a = s->getMac128(m);
  auto zero = bytes(cmacm::mac(key, Bytes(16)));
  vf_check(same(a, bytes(cmacm::mac(key, authenticated(m, zero)))), "S2V of the message");
  vf_check(same(a, bytes(s->getMacM128i(m))), "equal messages, equal results");
  vf_reach("ok");
}
