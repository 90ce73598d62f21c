// AES-128 written from FIPS-197 (byte-wise), the oracle of several harnesses. SubBytes goes through one AESENCLAST with a
// zero key (ShiftRows undone), so that both sides share the S-box; the engine compares its S-box circuits with the tables of
// the standard at every start.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <emmintrin.h>
#include <wmmintrin.h>
using Blk = std::array<uint8_t, 16>;
inline __m128i toM(const Blk& b) { __m128i r; memcpy(&r, b.data(), 16); return r; }
inline Blk fromM(__m128i m) { Blk r; memcpy(r.data(), &m, 16); return r; }
inline bool same(__m128i m, const Blk& b) {
  Blk x = fromM(m);
  uint8_t d = 0;
  for (int i = 0; i < 16; i++) d |= x[i] ^ b[i];
  return d == 0;
}
inline void refSub(uint8_t* p, int n) { // SubBytes of n bytes (n divides 4 or is 16)
  Blk t{};
  memcpy(t.data(), p, n);
  // AESENCLAST = ShiftRows, SubBytes, AddRoundKey(0); undo ShiftRows on the way in
  Blk s{};
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) s[((c + r) % 4) * 4 + r] = t[c * 4 + r];
  Blk o = fromM(_mm_aesenclast_si128(toM(s), _mm_setzero_si128()));
  memcpy(p, o.data(), n);
}
inline uint8_t xt(uint8_t a) { return (uint8_t)(a << 1) ^ (uint8_t)((a >> 7) * 0x1b); }
inline std::array<Blk, 11> refKeys(const Blk& key) {
  uint8_t w[176];
  memcpy(w, key.data(), 16);
  uint8_t rc = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t t[4] = {w[i - 4], w[i - 3], w[i - 2], w[i - 1]};
    if (i % 16 == 0) {
      uint8_t x = t[0];
      t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = x;
      refSub(t, 4);
      t[0] ^= rc;
      rc = xt(rc);
    }
    for (int k = 0; k < 4; k++) w[i + k] = w[i - 16 + k] ^ t[k];
  }
  std::array<Blk, 11> r;
  for (int i = 0; i < 11; i++) memcpy(r[i].data(), w + 16 * i, 16);
  return r;
}
inline Blk refMix(const Blk& t) {
  Blk o;
  for (int c = 0; c < 4; c++) {
    const uint8_t* a = &t[c * 4];
    for (int r = 0; r < 4; r++) o[c * 4 + r] = xt(a[r]) ^ xt(a[(r + 1) % 4]) ^ a[(r + 1) % 4] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
  }
  return o;
}
inline Blk refEncrypt(const std::array<Blk, 11>& k, Blk s) {
  for (int i = 0; i < 16; i++) s[i] ^= k[0][i];
  for (int round = 1; round <= 10; round++) {
    refSub(s.data(), 16);
    Blk t;
    for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[c * 4 + r] = s[((c + r) % 4) * 4 + r];
    if (round < 10)
      for (int c = 0; c < 4; c++) {
        uint8_t* a = &t[c * 4];
        uint8_t b[4];
        for (int r = 0; r < 4; r++) b[r] = xt(a[r]) ^ xt(a[(r + 1) % 4]) ^ a[(r + 1) % 4] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
        memcpy(a, b, 4);
      }
    for (int i = 0; i < 16; i++) s[i] = t[i] ^ k[round][i];
  }
  return s;
}
inline Blk refInvMix(const Blk& s) {
  Blk o;
  auto mul = [](uint8_t a, int m) { uint8_t r = 0; for (int b = 0; b < 4; b++) { if (m >> b & 1) r ^= a; a = xt(a); } return r; };
  for (int c = 0; c < 4; c++)
    for (int r = 0; r < 4; r++)
      o[c * 4 + r] = mul(s[c * 4 + r], 14) ^ mul(s[c * 4 + (r + 1) % 4], 11) ^ mul(s[c * 4 + (r + 2) % 4], 13) ^ mul(s[c * 4 + (r + 3) % 4], 9);
  return o;
}
