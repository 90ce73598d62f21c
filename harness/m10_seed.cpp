// M10: jointly sampled public seed. Each role runs against an arbitrary peer; the digest is an arbitrary function.
// @src fbpcf/mpc_std_lib/util/secureSamplePublicSeed.cpp fbpcf/engine/util/aes.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_m10_first prop=M10 reach=ok : the committing role, all randomness, every answer of the peer
// @entry vf_m10_second prop=M10 reach=accept,reject : the verifying role, all randomness, every digest and every opening by the peer
// @entry vf_m10_both prop=M10 reach=ok : both roles following the protocol, all randomness
#include "openssl_model.h"
#include "aes_ref.h"
#include "two_party.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"
using fbpcf::mpc_std_lib::util::secureSamplePublicSeed;
using Bytes = std::vector<unsigned char>;
// a peer that sends what it likes and records what it gets, in order
struct Script : IPartyCommunicationAgent {
  std::vector<Bytes> sent, received; // by the party under test
  std::vector<int> order;            // 0: it sent, 1: it received
  void sendImpl(const void* d, int n) override {
    sent.push_back(Bytes((const unsigned char*)d, (const unsigned char*)d + n));
    order.push_back(0);
  }
  void recvImpl(void* d, int n) override {
    Bytes b(n);
    for (auto& x : b) x = vf_sym("peer", 8);
    memcpy(d, b.data(), n);
    received.push_back(b);
    order.push_back(1);
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
static bool eq(const Bytes& a, const std::vector<uint8_t>& b, size_t off, size_t n) {
  bool ok = a.size() == n && off + n <= b.size();
  for (size_t i = 0; ok && i < n; i++) ok &= a[i] == b[off + i];
  return ok;
}
extern "C" void vf_m10_first() {
  Script s;
  auto seed = fromM(secureSamplePublicSeed(true, s));
  vf_check(s.order == std::vector<int>({0, 1, 0}), "commits, then receives the peer's share, then opens");
  vf_check(g_randLog.size() == 32, "fresh share and salt");
  vf_check(g_hashCalls.size() == 1 && eq(g_hashCalls[0].in, g_randLog, 0, 32), "commits to its share and its salt");
  vf_check(eq(s.sent[0], g_hashCalls[0].out, 0, 32), "the first message is the digest");
  vf_check(eq(s.sent[1], g_randLog, 0, 32), "opens what it committed to");
  bool ok = s.received[0].size() == 16;
  for (int i = 0; ok && i < 16; i++) ok &= seed[i] == (g_randLog[i] ^ s.received[0][i]);
  vf_check(ok, "the seed combines both shares");
  vf_reach("ok");
}
extern "C" void vf_m10_second() {
  Script s;
  Blk seed{};
  bool threw = vf_throws([&] { seed = fromM(secureSamplePublicSeed(false, s)); });
  vf_check(s.order == std::vector<int>({1, 0, 1}), "sends its share only after it has the digest");
  vf_check(g_randLog.size() == 16 && eq(s.sent[0], g_randLog, 0, 16), "sends a fresh share");
  vf_check(s.received[0].size() == 32 && s.received[1].size() == 32, "digest and opening");
  // the digest of the opening, whether the code computed it or not
  auto h = modelHash(s.received[1].data(), 32);
  bool match = true;
  for (int i = 0; i < 32; i++) match &= h[i] == s.received[0][i];
  vf_check(threw == !match, "aborts exactly when the opening does not match the commitment");
  if (!threw) {
    bool ok = true;
    for (int i = 0; i < 16; i++) ok &= seed[i] == (g_randLog[i] ^ s.received[1][i]);
    vf_check(ok, "the seed combines both shares");
  }
  vf_reach(threw ? "reject" : "accept");
}
extern "C" void vf_m10_both() {
  InMemoryPartyCommunicationAgentHost host;
  auto a0 = host.getAgent(0), a1 = host.getAgent(1);
  Blk s0{}, s1{};
  bool threw = false;
  runTwo([&] { s0 = fromM(secureSamplePublicSeed(true, *a0)); }, [&] { threw = vf_throws([&] { s1 = fromM(secureSamplePublicSeed(false, *a1)); }); });
  vf_check(!threw, "honest parties do not abort");
  bool ok = true;
  for (int i = 0; i < 16; i++) ok &= s0[i] == s1[i];
  vf_check(ok, "both parties have the same seed");
  vf_reach("ok");
}
