// N03: opening shared values through the engine's link layer.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp
// @entry vf_n03_all prop=N03 reach=ok : 2 and 3 parties, 0 to 3 booleans and 64-bit integers, all shares, opened to everyone || up to 4 parties, 0 to 10 booleans
// @entry vf_n03_one prop=N03 reach=ok : likewise, opened to each one party, twice in a row
// @entry vf_n03_keys prop=N03 reach=ok : 2 and 3 parties, all keys
#include "vf.h"
#include "aes_ref.h"
#include "two_party.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
using fbpcf::engine::communication::SecretShareEngineCommunicationAgent;
static const int P = VF_THOROUGH ? 4 : 3, NB = VF_THOROUGH ? 10 : 3;
template <class F> static void parties(int p, F f) {
  auto fac = mkFactories(p);
  std::vector<std::function<void()>> fs;
  for (int i = 0; i < p; i++)
    fs.push_back([&, i] {
      SecretShareEngineCommunicationAgent a(i, fbpcf::engine::communication::getAgentMap(p, i, *fac[i]));
      f(i, a);
    });
  runParties(fs);
}
struct Data {
  int p;
  size_t nb, ni;
  std::vector<std::vector<bool>> b;
  std::vector<std::vector<uint64_t>> v;
  std::vector<bool> bx;
  std::vector<uint64_t> vs;
  explicit Data() : p(vf_split("parties", 2, P)), nb(vf_split("bits", 0, NB)), ni(vf_split("integers", 0, 3)), bx(nb), vs(ni) {
    for (int i = 0; i < p; i++) {
      b.emplace_back(nb);
      v.emplace_back(ni);
      for (size_t j = 0; j < nb; j++) { b[i][j] = vf_bool("share"); bx[j] = bx[j] ^ b[i][j]; }
      for (size_t j = 0; j < ni; j++) { v[i][j] = vf_sym("share", 64); vs[j] += v[i][j]; }
    }
  }
};
extern "C" void vf_n03_all() {
  Data d;
  parties(d.p, [&](int i, SecretShareEngineCommunicationAgent& a) {
    vf_check(a.openSecretsToAll(d.b[i]) == d.bx, "every party recombines the booleans");
    vf_check(a.openSecretsToAll(d.v[i]) == d.vs, "every party recombines the integers");
    size_t bytes = (d.p - 1) * ((d.nb + 7) / 8 + 8 * d.ni);
    vf_check(a.getTrafficStatistics() == std::pair<uint64_t, uint64_t>(bytes, bytes), "traffic");
  });
  vf_reach("ok");
}
extern "C" void vf_n03_one() {
  Data d;
  int to = vf_split("to", 0, d.p - 1);
  parties(d.p, [&](int i, SecretShareEngineCommunicationAgent& a) {
    for (int k = 0; k < 2; k++) {
      auto b = a.openSecretsToParty(to, d.b[i]);
      auto v = a.openSecretsToParty(to, d.v[i]);
      if (i == to) vf_check(b == d.bx && v == d.vs, "the party recombines the values");
      else {
        vf_check(b == std::vector<bool>(d.nb) && v == std::vector<uint64_t>(d.ni), "others get nothing");
        vf_check(a.getTrafficStatistics().second == 0, "others receive no message");
      }
    }
  });
  vf_reach("ok");
}
extern "C" void vf_n03_keys() {
  int p = vf_split("parties", 2, P);
  std::vector<std::map<int, __m128i>> keys(p), got(p);
  std::vector<std::vector<Blk>> k(p, std::vector<Blk>(p));
  for (int i = 0; i < p; i++)
    for (int j = 0; j < p; j++) {
      if (i == j) continue;
      for (auto& x : k[i][j]) x = vf_sym("key", 8);
      keys[i].emplace(j, toM(k[i][j]));
    }
  parties(p, [&](int i, SecretShareEngineCommunicationAgent& a) { got[i] = a.exchangeKeys(keys[i]); });
  for (int i = 0; i < p; i++) {
    vf_check(got[i].size() == (size_t)p - 1, "a key from every peer");
    for (int j = 0; j < p; j++) if (i != j) vf_check(same(got[i].at(j), k[j][i]), "the key the peer picked for this party");
  }
  vf_reach("ok");
}
