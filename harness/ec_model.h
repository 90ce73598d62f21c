// Stand-ins for the elliptic curve, big number and hash functions of OpenSSL that the base transfer calls. The group is
// the additive group of 64-bit integers with generator 1 (what is used of the curve are the laws of a group), the
// hash an arbitrary function of its input.
#pragma once
#include "vf.h"
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <cstdlib>
#include <cstring>
#include <mutex>
struct bignum_st { uint64_t v; };
struct bignum_ctx { int x; };
struct ec_point_st { uint64_t v; };
struct ec_group_st { int x; };
namespace ecm {
struct Hash { std::vector<uint64_t> in, out; };
inline std::vector<Hash> g_hashes;
inline std::mutex g_lock;
inline int g_objects = 0; // live big numbers and points
inline bool same(uint64_t a, uint64_t b) { uint64_t d = a ^ b; return !vf_is_symbolic(d) && d == 0; }
struct Sha { std::vector<uint8_t> in; };
} // namespace ecm
extern "C" {
BN_CTX* BN_CTX_new(void) { return new bignum_ctx(); }
void BN_CTX_free(BN_CTX* c) { delete c; }
BIGNUM* BN_new(void) { ecm::g_objects++; return new bignum_st(); }
void BN_free(BIGNUM* b) { ecm::g_objects--; delete b; }
BIGNUM* BN_dup(const BIGNUM* a) { ecm::g_objects++; return new bignum_st(*a); }
int BN_add_word(BIGNUM* a, BN_ULONG w) { a->v += w; return 1; }
int BN_rand_range(BIGNUM* r, const BIGNUM*) { r->v = vf_sym("scalar", 64); return 1; }
EC_GROUP* EC_GROUP_new_by_curve_name(int) { return new ec_group_st(); }
void EC_GROUP_clear_free(EC_GROUP* g) { delete g; }
int EC_GROUP_get_order(const EC_GROUP*, BIGNUM* order, BN_CTX*) { order->v = ~0ull; return 1; }
EC_POINT* EC_POINT_new(const EC_GROUP*) { ecm::g_objects++; return new ec_point_st(); }
void EC_POINT_free(EC_POINT* p) { ecm::g_objects--; delete p; }
int EC_POINT_copy(EC_POINT* d, const EC_POINT* s) { d->v = s->v; return 1; }
int EC_POINT_add(const EC_GROUP*, EC_POINT* r, const EC_POINT* a, const EC_POINT* b, BN_CTX*) { r->v = a->v + b->v; return 1; }
int EC_POINT_invert(const EC_GROUP*, EC_POINT* a, BN_CTX*) { a->v = 0 - a->v; return 1; }
int EC_POINT_mul(const EC_GROUP*, EC_POINT* r, const BIGNUM* n, const EC_POINT* q, const BIGNUM* m, BN_CTX*) {
  uint64_t v = 0;
  if (n) v += n->v;
  if (q && m) v += q->v * m->v;
  r->v = v;
  return 1;
}
char* EC_POINT_point2hex(const EC_GROUP*, const EC_POINT* p, point_conversion_form_t, BN_CTX*) {
  char* s = (char*)malloc(17);
  for (int i = 0; i < 16; i++) s[i] = 0x40 | (p->v >> 4 * i & 15);
  s[16] = 0;
  return s;
}
EC_POINT* EC_POINT_hex2point(const EC_GROUP*, const char* s, EC_POINT* p, BN_CTX*) {
  uint64_t v = 0;
  for (int i = 0; i < 16; i++) {
    if (vf_concrete(s[i] & 0x40) == 0) return nullptr;
    v |= (uint64_t)(s[i] & 15) << 4 * i;
  }
  if (vf_concrete(s[16]) & 0x40) return nullptr; // the string ends here
  p->v = v;
  return p;
}
int SHA256_Init(SHA256_CTX* c) { c->h[0] = 0; c->num = 0; return 1; }
static_assert(sizeof(SHA256_CTX) >= 64 + 8);
int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  if (c->num + n > sizeof c->data) vf_unsupported("long hash input");
  memcpy((char*)c->data + c->num, d, n);
  c->num += n;
  return 1;
}
int SHA256_Final(unsigned char* md, SHA256_CTX* c) {
  std::lock_guard<std::mutex> g(ecm::g_lock);
  std::vector<uint64_t> in;
  for (unsigned i = 0; i < c->num; i++) in.push_back(((unsigned char*)c->data)[i]);
  ecm::Hash* h = nullptr;
  for (auto& x : ecm::g_hashes) {
    bool eq = x.in.size() == in.size();
    for (size_t i = 0; eq && i < in.size(); i++) eq = ecm::same(x.in[i], in[i]);
    if (eq) h = &x;
  }
  if (!h) {
    ecm::Hash n{in, {}};
    for (int i = 0; i < 32; i++) n.out.push_back(vf_sym("digest", 8));
    ecm::g_hashes.push_back(n);
    h = &ecm::g_hashes.back();
  }
  for (int i = 0; i < 32; i++) md[i] = h->out[i];
  return 1;
}
}
