// N01: typed messages over the in-memory link.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_n01_bools prop=N01 reach=ok : boolean vectors of 0 to 18 elements, all values; packed form || 0 to 40
// @entry vf_n01_typed prop=N01 reach=ok : every sequence of 3 messages of 7 kinds (bytes, booleans, 64-bit integers, blocks, 32-bit values, single values) of 0 to 3 elements, both directions
// @entry vf_n01_stream prop=N01 reach=ok : byte streams cut by the sender into 3 messages of 0 to 4 bytes and by the receiver into pieces of any size
#include "vf.h"
#include "aes_ref.h"
#include "two_party.h"
using Bytes = std::vector<unsigned char>;
extern "C" void vf_n01_bools() {
  InMemoryPartyCommunicationAgentHost host;
  auto a = host.getAgent(0), b = host.getAgent(1);
  size_t n = vf_split("n", 0, VF_THOROUGH ? 40 : 18);
  std::vector<bool> v(n);
  for (size_t i = 0; i < n; i++) v[i] = vf_bool("v");
  a->sendBool(v);
  a->sendT<bool>(v);
  a->sendSingleT<unsigned char>(0x5a);
  auto r = b->receiveBool(n);
  auto t = b->receiveT<bool>(n);
  vf_check(r == v && t == v, "booleans in order");
  vf_check(b->receiveSingleT<unsigned char>() == 0x5a, "nothing is left over");
  size_t bytes = 2 * ((n + 7) / 8) + 1;
  vf_check(a->getTrafficStatistics() == std::pair<uint64_t, uint64_t>(bytes, 0) && b->getTrafficStatistics() == std::pair<uint64_t, uint64_t>(0, bytes), "traffic counts bytes");
  vf_reach("ok");
}
struct Msg {
  int kind;
  size_t n;
  std::vector<bool> bits;
  Bytes bytes;
  std::vector<uint64_t> words;
  std::vector<Blk> blocks;
  std::vector<uint32_t> small;
  size_t size() const { return kind == 0 ? n : kind == 1 ? (n + 7) / 8 : kind == 2 ? 8 * n : kind == 3 ? 16 * n : kind == 4 ? 4 * n : kind == 5 ? 16 : 8; }
};
static Msg mk(int kind) {
  Msg m;
  m.kind = kind;
  m.n = kind >= 5 ? 1 : vf_split("n", 0, 3);
  for (size_t i = 0; i < m.n; i++) {
    if (kind == 0) m.bytes.push_back(vf_sym("byte", 8));
    else if (kind == 1) m.bits.push_back(vf_bool("bit"));
    else if (kind == 2 || kind == 6) m.words.push_back(vf_sym("word", 64));
    else if (kind == 4) m.small.push_back(vf_sym("small", 32));
    else { Blk b; for (auto& x : b) x = vf_sym("block", 8); m.blocks.push_back(b); }
  }
  return m;
}
static void snd(IPartyCommunicationAgent& a, const Msg& m) {
  std::vector<__m128i> v;
  for (auto& b : m.blocks) v.push_back(toM(b));
  switch (m.kind) {
    case 0: a.send(m.bytes); break;
    case 1: a.sendBool(m.bits); break;
    case 2: a.sendInt64(m.words); break;
    case 3: a.sendT(v); break;
    case 4: a.sendT(m.small); break;
    case 5: a.sendSingleT(v[0]); break;
    default: a.sendSingleT(m.words[0]);
  }
}
static void rcv(IPartyCommunicationAgent& a, const Msg& m) {
  bool ok = true;
  std::vector<__m128i> v;
  switch (m.kind) {
    case 0: ok = a.receive(m.n) == m.bytes; break;
    case 1: ok = a.receiveBool(m.n) == m.bits; break;
    case 2: ok = a.receiveInt64(m.n) == m.words; break;
    case 3: v = a.receiveT<__m128i>(m.n); ok = v.size() == m.n; break;
    case 4: ok = a.receiveT<uint32_t>(m.n) == m.small; break;
    case 5: v.push_back(a.receiveSingleT<__m128i>()); break;
    default: ok = a.receiveSingleT<uint64_t>() == m.words[0];
  }
  for (size_t i = 0; ok && i < v.size(); i++) ok &= same(v[i], m.blocks[i]);
  vf_check(ok, "message complete, in order and unchanged");
}
extern "C" void vf_n01_typed() {
  InMemoryPartyCommunicationAgentHost host;
  auto a = host.getAgent(0), b = host.getAgent(1);
  vf_check(vf_throws([&] { host.getAgent(0); }) && vf_throws([&] { host.getAgent(1); }), "an end can be taken once");
  std::vector<Msg> ab, ba;
  size_t nab = 0, nba = 0;
  for (int i = 0; i < 3; i++) {
    Msg m = mk(vf_split("kind", 0, 6));
    if (i != 1) { snd(*a, m); ab.push_back(m); nab += m.size(); }
    else { snd(*b, m); ba.push_back(m); nba += m.size(); }
  }
  for (auto& m : ba) rcv(*a, m);
  for (auto& m : ab) rcv(*b, m);
  vf_check(a->getTrafficStatistics() == std::pair<uint64_t, uint64_t>(nab, nba) && b->getTrafficStatistics() == std::pair<uint64_t, uint64_t>(nba, nab), "traffic counts bytes");
  vf_reach("ok");
}
extern "C" void vf_n01_stream() {
  InMemoryPartyCommunicationAgentHost host;
  auto a = host.getAgent(0), b = host.getAgent(1);
  Bytes all, got;
  for (int i = 0; i < 3; i++) {
    Bytes m(vf_split("n", 0, 4));
    for (auto& x : m) { x = vf_sym("byte", 8); all.push_back(x); }
    a->send(m);
  }
  while (got.size() < all.size()) {
    size_t n = vf_split("piece", 1, all.size() - got.size());
    auto r = b->receive(n);
    vf_check(r.size() == n, "as many bytes as asked for");
    got.insert(got.end(), r.begin(), r.end());
  }
  vf_check(got == all, "the byte stream, however it is cut");
  vf_reach("ok");
}
