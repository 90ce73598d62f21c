// N02: the in-memory link under every schedule.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_n02_exchange prop=N02 reach=ok time=150 : two parties, up to 2 messages of 1 to 2 bytes each way, sending first or receiving first, every interleaving at synchronisation operations with up to 2 preemptions || up to 3 preemptions
// @entry vf_n02_flood prop=N02 reach=ok : one party sends 3 messages while the other receives the bytes in pieces of 1 to 6, every interleaving with up to 2 preemptions || up to 4 preemptions
// @entry vf_n02_factories prop=N02 reach=ok : both parties create two links through shared factories at once and use both, every interleaving with up to 2 preemptions || 3 preemptions
#include "vf.h"
#include "two_party.h"
using Bytes = std::vector<unsigned char>;
static Bytes msg(const char* nm, size_t n) {
  Bytes b(n);
  for (auto& x : b) x = vf_sym(nm, 8);
  return b;
}
extern "C" void vf_n02_exchange() {
  bool first0 = vf_split("first0", 0, 1), first1 = vf_split("first1", 0, 1);
  vf_assume(first0 || first1); // both waiting first is a deadlock of the program
  int k0 = vf_split("k0", 1, 2), k1 = vf_split("k1", 1, 2);
  std::vector<Bytes> m0, m1;
  for (int i = 0; i < k0; i++) m0.push_back(msg("m0", 1 + i));
  for (int i = 0; i < k1; i++) m1.push_back(msg("m1", 2 - i));
  InMemoryPartyCommunicationAgentHost host;
  auto a = host.getAgent(0), b = host.getAgent(1);
  vf_explore_schedules(VF_THOROUGH ? 3 : 2);
  auto party = [](IPartyCommunicationAgent& g, bool first, std::vector<Bytes>& out, std::vector<Bytes>& in) {
    if (first) for (auto& m : out) g.send(m);
    for (auto& m : in) vf_check(g.receive(m.size()) == m, "the peer's messages in order");
    if (!first) for (auto& m : out) g.send(m);
  };
  runTwo([&] { party(*a, first0, m0, m1); }, [&] { party(*b, first1, m1, m0); });
  vf_reach("ok");
}
extern "C" void vf_n02_flood() {
  Bytes all = msg("m", 6);
  InMemoryPartyCommunicationAgentHost host;
  auto a = host.getAgent(0), b = host.getAgent(1);
  size_t p = vf_split("piece", 1, 6);
  vf_explore_schedules(VF_THOROUGH ? 4 : 2);
  Bytes got;
  runTwo(
      [&] {
        a->send(Bytes(all.begin(), all.begin() + 1));
        a->send(Bytes(all.begin() + 1, all.begin() + 4));
        a->send(Bytes(all.begin() + 4, all.end()));
      },
      [&] {
        while (got.size() < 6) {
          auto r = b->receive(std::min(p, 6 - got.size()));
          got.insert(got.end(), r.begin(), r.end());
        }
      });
  vf_check(got == all, "all bytes in order");
  vf_reach("ok");
}
extern "C" void vf_n02_factories() {
  auto f = mkFactories(2);
  Bytes m[2] = {msg("m0", 2), msg("m1", 2)};
  vf_explore_schedules(VF_THOROUGH ? 3 : 2);
  auto party = [&](int id) {
    auto x = f[id]->create(1 - id, "x"), y = f[id]->create(1 - id, "y");
    x->send(m[id]);
    y->send(Bytes{(unsigned char)~m[id][0]});
    vf_check(y->receive(1)[0] == (unsigned char)~m[1 - id][0], "message of the second link");
    vf_check(x->receive(2) == m[1 - id], "message of the first link");
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  vf_reach("ok");
}
