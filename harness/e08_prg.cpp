// E08: pseudo-random streams.
// @src fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/aes.cpp
// @entry vf_e08_bytes prop=E08 reach=ok : every seed, buffer sizes of 1 and 2 blocks, every sequence of 2 draws of 0, 1, 8, 15, 16, 17 or 20 bytes or bits, 0 to 2 integers or a block, and a block, threads as they come || draws of 14 sizes up to 40, up to 5 integers
// @entry vf_e08_threads prop=E08 reach=ok : every seed, buffer of one block, draws of up to 17 bytes, every interleaving with the refilling thread with up to 2 preemptions
// @entry vf_e08_inplace prop=E08 reach=ok : every seed, 2 in-place draws of 0 to 3 blocks or of 0 to 300 bits in steps of 60
// @entry vf_e08_nobuffer prop=E08 reach=ok : every seed
#include "openssl_model.h"
#include "aes_ref.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
using namespace fbpcf::engine::util;
struct Stream { // the reference: AES (E07) of the counters 0, 1, 2, ..., one block at a time
  Aes aes;
  std::vector<uint8_t> d;
  explicit Stream(const Blk& seed) : aes(toM(seed)) {}
  uint8_t at(size_t i) {
    while (d.size() <= i) {
      Blk c{};
      uint64_t n = d.size() / 16;
      for (int j = 0; j < 8; j++) c[j] = n >> 8 * j;
      std::vector<__m128i> v{toM(c)};
      aes.encryptInPlace(v);
      Blk e = fromM(v[0]);
      d.insert(d.end(), e.begin(), e.end());
    }
    return d[i];
  }
};
static Blk symSeed() {
  Blk b;
  for (auto& x : b) x = vf_sym("seed", 8);
  return b;
}
static size_t pick(const char* nm) {
#if VF_THOROUGH
  static const size_t ns[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40};
#else
  static const size_t ns[] = {0, 1, 8, 15, 16, 17, 20};
#endif
  return ns[vf_split(nm, 0, sizeof ns / sizeof *ns - 1)];
}
static void draw(IPrg& p, Stream& s, size_t& pos, int kind, size_t maxBytes) {
  if (kind == 0) {
    size_t n = pick("bytes");
    auto r = p.getRandomBytes(n);
    bool ok = r.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok &= r[i] == s.at(pos + i);
    vf_check(ok, "bytes of the stream");
    pos += n;
  } else if (kind == 1) {
    size_t n = pick("bits");
    auto r = p.getRandomBits(n);
    bool ok = r.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok &= r[i] == (s.at(pos + i / 8) >> i % 8 & 1);
    vf_check(ok, "bits of the stream");
    pos += (n + 7) / 8;
  } else if (kind == 2) {
    size_t n = vf_split("integers", 0, maxBytes / 8);
    auto r = p.getRandomUInt64(n);
    bool ok = r.size() == n;
    for (size_t i = 0; ok && i < n; i++) {
      uint64_t e = 0;
      for (int j = 0; j < 8; j++) e = e << 8 | s.at(pos + 8 * i + j);
      ok &= r[i] == e;
    }
    vf_check(ok, "integers of the stream");
    pos += 8 * n;
  } else {
    __m128i m = p.getRandomM128i();
    Blk e;
    for (int j = 0; j < 16; j++) e[j] = s.at(pos + j);
    vf_check(same(m, e), "block of the stream");
    pos += 16;
  }
}
extern "C" void vf_e08_bytes() {
  Blk k = symSeed();
  Stream s(k);
  size_t pos = 0;
  auto p = AesPrgFactory(vf_split("buffer", 1, 2)).create(toM(k));
  for (int i = 0; i < 2; i++) draw(*p, s, pos, vf_split("kind", 0, 3), VF_THOROUGH ? 40 : 20);
  draw(*p, s, pos, 3, 0);
  vf_reach("ok");
}
extern "C" void vf_e08_threads() {
  Blk k = symSeed();
  Stream s(k);
  size_t pos = 0;
  s.at(63);
  vf_explore_schedules(2);
  {
    AesPrg p(toM(k), 1);
    static const size_t ns[] = {0, 1, 15, 16, 17};
    for (int i = 0; i < 2; i++) {
      size_t n = ns[vf_split("n", 0, 4)];
      auto r = p.getRandomBytes(n);
      bool ok = r.size() == n;
      for (size_t i = 0; ok && i < n; i++) ok &= r[i] == s.at(pos + i);
      vf_check(ok, "bytes of the stream");
      pos += n;
    }
  }
  vf_reach("ok");
}
extern "C" void vf_e08_inplace() {
  Blk k = symSeed();
  Stream s(k);
  AesPrg p(toM(k));
  size_t ctr = 0;
  for (int i = 0; i < 2; i++) {
    if (vf_split("bits", 0, 1)) {
      size_t n = 60 * vf_split("n", 0, 5);
      std::vector<bool> d(n);
      p.getRandomBitsInPlace(d);
      bool ok = d.size() == n;
      for (size_t j = 0; ok && j < n; j++) ok &= d[j] == (s.at(16 * ctr + j / 8) >> j % 8 & 1);
      vf_check(ok, "bits of the stream");
      ctr += (n + 127) / 128;
    } else {
      size_t n = vf_split("n", 0, 3);
      std::vector<__m128i> d(n);
      p.getRandomDataInPlace(d);
      bool ok = d.size() == n;
      for (size_t j = 0; ok && j < n; j++) {
        Blk e;
        for (int t = 0; t < 16; t++) e[t] = s.at(16 * (ctr + j) + t);
        ok &= same(d[j], e);
      }
      vf_check(ok, "blocks of the stream");
      ctr += n;
    }
  }
  vf_reach("ok");
}
extern "C" void vf_e08_nobuffer() {
  AesPrg p(toM(symSeed()));
  vf_check(vf_throws([&] { p.getRandomBytes(1); }) && vf_throws([&] { p.getRandomBits(1); }) && vf_throws([&] { p.getRandomUInt64(1); }), "buffered draws need a buffer");
  vf_reach("ok");
}
