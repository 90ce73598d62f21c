// Stand-ins for the OpenSSL functions the code calls. Random bytes are arbitrary (and logged), big numbers are
// 256-bit little-endian byte strings with school-book arithmetic, SHA256 is an arbitrary function (equal inputs
// give equal digests, nothing else is assumed).
#pragma once
#include "vf.h"
#include <openssl/bn.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <cstring>
#include <deque>
#include <mutex>
inline std::mutex g_modelLock;
inline std::vector<uint8_t> g_randLog;
struct HashCall { std::vector<uint8_t> in, out; };
inline std::vector<HashCall> g_hashCalls;
inline std::vector<uint8_t> modelHash(const uint8_t* d, size_t n) {
  std::lock_guard<std::mutex> g(g_modelLock);
  std::vector<uint8_t> in(d, d + n), out(32);
  for (auto& b : out) b = vf_sym("digest", 8);
  for (auto& c : g_hashCalls) {
    if (c.in.size() != n) continue;
    bool eq = true;
    for (size_t i = 0; i < n; i++) eq &= c.in[i] == in[i];
    for (size_t i = 0; i < 32; i++) out[i] = eq ? c.out[i] : out[i];
  }
  g_hashCalls.push_back({in, out});
  return out;
}
struct bignum_st { uint8_t d[32]; };
struct bignum_ctx { bignum_st n; int depth; };
extern "C" {
int OPENSSL_init_crypto(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
ENGINE* ENGINE_by_id(const char*) { return (ENGINE*)"rdrand"; }
int ENGINE_init(ENGINE*) { return 1; }
int ENGINE_set_default(ENGINE*, unsigned) { return 1; }
int ENGINE_finish(ENGINE*) { return 1; }
int ENGINE_free(ENGINE*) { return 1; }
unsigned long ERR_get_error(void) { return 0; }
static uint64_t g_draw = 0;
}
inline bool fixedSeeds = false;
extern "C" {
int RAND_bytes(unsigned char* buf, int n) {
  std::lock_guard<std::mutex> g(g_modelLock);
#ifdef VF_RAND_DISTINCT // every draw of system noise is a value of its own, so that keys can be told apart
  g_draw++;
  for (int i = 0; i < n; i++) { buf[i] = i < 8 ? g_draw >> (8 * i) : 0xa5; g_randLog.push_back(buf[i]); }
#else
  g_draw++;
  for (int i = 0; i < n; i++) { buf[i] = fixedSeeds ? g_draw * 37 + i * 11 : vf_sym("rand", 8); g_randLog.push_back(buf[i]); }
#endif
  return 1;
}
unsigned char* SHA256(const unsigned char* d, size_t n, unsigned char* md) {
  auto o = modelHash(d, n);
  memcpy(md, o.data(), 32);
  return md;
}
BN_CTX* BN_CTX_new(void) { return new bignum_ctx(); }
void BN_CTX_free(BN_CTX* c) { delete c; }
void BN_CTX_start(BN_CTX* c) { c->depth++; }
void BN_CTX_end(BN_CTX* c) { c->depth--; }
BIGNUM* BN_CTX_get(BN_CTX* c) {
  if (c->depth <= 0) vf_fault("BN_CTX_get outside of a frame");
  memset(&c->n, 0, sizeof c->n);
  return &c->n;
}
int BN_lshift(BIGNUM* r, const BIGNUM* a, int n) {
  if (n % 8) vf_unsupported("BN_lshift by a part of a byte");
  bignum_st t{};
  for (int i = 0; i < 32; i++) {
    if (i >= n / 8) t.d[i] = a->d[i - n / 8];
    if (i + n / 8 >= 32) { if (vf_is_symbolic(a->d[i]) || a->d[i]) vf_unsupported("number above 256 bits"); }
  }
  *r = t;
  return 1;
}
int BN_add_word(BIGNUM* a, BN_ULONG w) {
  unsigned c = 0;
  for (int i = 0; i < 32; i++) {
    unsigned s = a->d[i] + c + (i < 8 ? (unsigned)(w >> 8 * i & 255) : 0);
    a->d[i] = s;
    c = s >> 8;
  }
  return 1;
}
BN_ULONG BN_mod_word(const BIGNUM* a, BN_ULONG w) {
  if (!w) return (BN_ULONG)-1;
  BN_ULONG mask = 1, r = 0;
  while (mask < 2 * w) mask = mask << 1 | 1; // remainders and their doubles fit under the mask
  for (int i = 255; i >= 0; i--) {
    r = (r << 1 | (a->d[i / 8] >> i % 8 & 1)) & mask;
    r = r >= w ? r - w : r;
  }
  return r;
}
}
#ifdef ENGINE_load_rdrand
#endif
