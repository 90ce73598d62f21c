// E07: AES-128 against FIPS-197.
// @src fbpcf/engine/util/aes.cpp
// @entry vf_e07_keys prop=E07 reach=ok : encryption and decryption key schedules, every 128-bit key
// @entry vf_e07_encrypt prop=E07 reach=ok : every key and every vector of 1 to 3 blocks || 1 to 6 blocks
// @entry vf_e07_hash prop=E07 reach=ok : fixed-key and arbitrary-key hashing, 1 to 3 blocks
#include "vf.h"
#include <array>
#include "aes_ref.h"
#include "fbpcf/engine/util/aes.h"
using namespace fbpcf::engine::util;
static Blk symBlk(const char* n) {
  Blk b;
  for (auto& x : b) x = vf_sym(n, 8);
  return b;
}
extern "C" void vf_e07_keys() {
  Blk k = symBlk("key");
  auto e = refKeys(k);
  auto r = Aes::expandEncryptionKey(toM(k));
  auto d = Aes::expandDecryptionKey(toM(k));
  for (int i = 0; i < 11; i++) vf_check(same(r[i], e[i]), "encryption round key");
  for (int i = 0; i < 11; i++) vf_check(same(d[i], i == 0 || i == 10 ? e[10 - i] : refInvMix(e[10 - i])), "decryption round key");
  vf_reach("ok");
}
extern "C" void vf_e07_encrypt() {
  Blk k = symBlk("key");
  size_t n = vf_split("n", 1, VF_THOROUGH ? 6 : 3);
  std::vector<Blk> p(n);
  std::vector<__m128i> v(n);
  for (size_t i = 0; i < n; i++) { p[i] = symBlk("plain"); v[i] = toM(p[i]); }
  Aes a(toM(k));
  a.encryptInPlace(v);
  vf_check(v.size() == n, "number of blocks");
  auto keys = refKeys(k);
  for (size_t i = 0; i < n; i++) vf_check(same(v[i], refEncrypt(keys, p[i])), "encrypted block");
  vf_reach("ok");
}
extern "C" void vf_e07_hash() {
  bool fixed = vf_split("fixed", 0, 1);
  Blk k = symBlk("key");
  if (fixed) k.fill(0);
  size_t n = vf_split("n", 1, 3);
  std::vector<Blk> p(n);
  std::vector<__m128i> v(n);
  for (size_t i = 0; i < n; i++) { p[i] = symBlk("plain"); v[i] = toM(p[i]); }
  Aes a(fixed ? Aes::getFixedKey() : toM(k));
  const Aes c = a;
  c.inPlaceHash(v);
  auto keys = refKeys(k);
  for (size_t i = 0; i < n; i++) {
    Blk e = refEncrypt(keys, p[i]);
    for (int b = 0; b < 16; b++) e[b] ^= p[i][b];
    vf_check(same(v[i], e), "hash of a block");
  }
  vf_reach("ok");
}
