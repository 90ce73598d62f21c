// OpenSSL's CMAC: AES-CMAC taken as an arbitrary function of key and message (equal arguments give equal results,
// nothing else is assumed). The message is whatever was passed to CMAC_Update since CMAC_Init.
#pragma once
#include "vf.h"
#include <openssl/cmac.h>
#include <openssl/evp.h>
#include <array>
#include <cstring>
#include <mutex>
#include <vector>
namespace cmacm {
using Tag = std::array<uint8_t, 16>;
struct Call { std::vector<uint8_t> key, msg; Tag tag; };
inline std::vector<Call> g_calls;
inline std::mutex g_lock;
inline size_t g_live = 0;
inline bool g_fixed = false; // a fixed function instead of an arbitrary one
inline bool g_constant = false; // a constant (for programs that use it once per key)
inline Tag mac(const std::vector<uint8_t>& key, const std::vector<uint8_t>& msg) {
  std::lock_guard<std::mutex> g(g_lock);
  Tag t;
  if (g_constant) {
    for (int i = 0; i < 16; i++) t[i] = 0xf1 + 23 * i;
    return t;
  }
  if (g_fixed) {
    uint64_t h = 0x9e3779b97f4a7c15ull;
    for (auto* v : {&key, &msg}) { h = (h ^ v->size()) * 0xbf58476d1ce4e5b9ull; for (auto b : *v) { h = (h ^ b) * 0x94d049bb133111ebull; h ^= h >> 29; } }
    for (int i = 0; i < 16; i++) { t[i] = h >> 56; h = h * 0xd6e8feb86659fd93ull + i; }
    return t;
  }
  for (auto& b : t) b = vf_sym("mac", 8);
  for (auto& c : g_calls) {
    if (c.key.size() != key.size() || c.msg.size() != msg.size()) continue;
    bool eq = true;
    for (size_t i = 0; i < key.size(); i++) eq &= c.key[i] == key[i];
    for (size_t i = 0; i < msg.size(); i++) eq &= c.msg[i] == msg[i];
    for (size_t i = 0; i < 16; i++) t[i] = eq ? c.tag[i] : t[i];
  }
  g_calls.push_back({key, msg, t});
  return t;
}
} // namespace cmacm
struct CMAC_CTX_st { bool ready = false; std::vector<uint8_t> key, msg; };
extern "C" {
const EVP_CIPHER* EVP_aes_128_cbc(void) { return (const EVP_CIPHER*)"aes-128-cbc"; }
CMAC_CTX* CMAC_CTX_new(void) { cmacm::g_live++; return new CMAC_CTX_st; }
void CMAC_CTX_free(CMAC_CTX* c) { if (c) cmacm::g_live--; delete c; }
int CMAC_Init(CMAC_CTX* c, const void* key, size_t n, const EVP_CIPHER* cipher, ENGINE*) {
  if (!key && !cipher && !n) { c->msg.clear(); return 1; } // restart with the same key
  if (!cipher || strcmp((const char*)cipher, "aes-128-cbc") || n != 16) return 0;
  c->key.assign((const uint8_t*)key, (const uint8_t*)key + n);
  c->msg.clear();
  c->ready = true;
  return 1;
}
int CMAC_Update(CMAC_CTX* c, const void* d, size_t n) {
  if (!c->ready) return 0;
  c->msg.insert(c->msg.end(), (const uint8_t*)d, (const uint8_t*)d + n);
  return 1;
}
int CMAC_Final(CMAC_CTX* c, unsigned char* out, size_t* n) {
  if (!c->ready) return 0;
  *n = 16;
  if (!out) return 1;
  auto t = cmacm::mac(c->key, c->msg);
  memcpy(out, t.data(), 16);
  return 1;
}
int CMAC_resume(CMAC_CTX*) { vf_unsupported("CMAC_resume"); return 0; }
}
