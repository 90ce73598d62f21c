// E02: opening values to one party, through the engine and through the schedulers on top of it.
// @src fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
// @entry vf_e02_engine prop=E02 reach=ok : 2 and 3 parties, 0 to 9 booleans and 0 to 2 integers, every receiving party, all shares; twice with different receivers
// @entry vf_e02_schedulers prop=E02 reach=ok time=300: 2 parties, immediate and deferred scheduler, every program of 2 openings, each of a bit, product bit, batch of bits, integer or batch of integers, to either party, read in order and in reverse; all inputs and randomness || programs of 3 openings
#include "engine_model.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
using namespace em;
using namespace fbpcf::scheduler;
using VB = std::vector<bool>;
using VI = std::vector<uint64_t>;
static const int LEN = VF_THOROUGH ? 3 : 2;
extern "C" void vf_e02_engine() {
  int p = vf_split("parties", 2, 3), to = vf_split("to", 0, p - 1);
  size_t nb = (size_t[]){0, 1, 3, 9}[vf_split("bits", 0, 3)], ni = vf_split("integers", 0, 2);
  std::vector<VB> b(p, VB(nb));
  std::vector<VI> v(p, VI(ni));
  VB bx(nb);
  VI vs(ni);
  for (int q = 0; q < p; q++) {
    for (size_t i = 0; i < nb; i++) { b[q][i] = vf_bool("share"); bx[i] = bx[i] ^ b[q][i]; }
    for (size_t i = 0; i < ni; i++) { v[q][i] = vf_sym("share", 64); vs[i] += v[q][i]; }
  }
  engines(p, true, [&](int i, SecretShareEngine& e) {
    uint64_t before = e.getTrafficStatistics().second;
    for (int r = 0; r < 2; r++) {
      int recv = (to + r) % p;
      auto gb = e.revealToParty(recv, b[i]);
      auto gv = e.revealToParty(recv, v[i]);
      if (i == recv) vf_check(gb == bx && gv == vs, "the receiver gets the recombined values");
      else vf_check(gb == VB(nb) && gv == VI(ni), "the others get nothing");
      if (i != to && r == 0) vf_check(e.getTrafficStatistics().second == before, "the others receive no message");
    }
  });
  vf_reach("ok");
}
extern "C" void vf_e02_schedulers() {
  bool lazy = vf_split("lazy", 0, 1), reverse = vf_split("reverse", 0, 1);
  int kind[LEN], to[LEN], P = 2;
  bool any[2] = {false, false};
  bool mul = false;
  for (int k = 0; k < LEN; k++) {
    int c = vf_split("opening", 0, 9);
    kind[k] = c / 2;
    to[k] = c % 2;
    any[to[k]] = true;
    mul |= kind[k] == 1;
  }
  // inputs of opening k: owner k % 2 for the first, the other party for the second
  bool b[LEN][3], c[LEN];
  uint64_t v[LEN][2];
  for (int k = 0; k < LEN; k++) {
    for (auto& x : b[k]) x = vf_bool("input");
    c[k] = vf_bool("factor");
    for (auto& x : v[k]) x = vf_sym("input", 64);
  }
  auto fac = mkFactories(P);
  auto party = [&](int me) {
    auto engine = mkEngine(me, P, true, fbpcf::engine::communication::getAgentMap(P, me, *fac[me]));
    std::unique_ptr<IArithmeticScheduler> s;
    if (lazy) {
      std::shared_ptr<IWireKeeper> wk = WireKeeper::createWithUnorderedMap();
      s = std::make_unique<LazyScheduler>(std::move(engine), wk, std::make_unique<GateKeeper>(wk));
    } else s = std::make_unique<EagerScheduler>(std::move(engine), WireKeeper::createWithUnorderedMap());
    uint64_t before = s->getTrafficStatistics().second;
    std::vector<IScheduler::WireId<IScheduler::Boolean>> wb(LEN);
    std::vector<IScheduler::WireId<IScheduler::Arithmetic>> wi(LEN);
    for (int k = 0; k < LEN; k++) {
      int o = k % 2;
      bool mine = me == o;
      switch (kind[k]) {
        case 0: wb[k] = s->openBooleanValueToParty(s->privateBooleanInput(mine ? b[k][0] : false, o), to[k]); break;
        case 1: {
          auto x = s->privateBooleanInput(mine ? b[k][0] : false, o);
          auto y = s->privateBooleanInput(!mine ? c[k] : false, 1 - o);
          wb[k] = s->openBooleanValueToParty(s->privateAndPrivate(x, y), to[k]);
          break;
        }
        case 2: wb[k] = s->openBooleanValueToPartyBatch(s->privateBooleanInputBatch(mine ? VB(b[k], b[k] + 3) : VB(3), o), to[k]); break;
        case 3: wi[k] = s->openIntegerValueToParty(s->privateIntegerInput(mine ? v[k][0] : 0, o), to[k]); break;
        default: wi[k] = s->openIntegerValueToPartyBatch(s->privateIntegerInputBatch(mine ? VI(v[k], v[k] + 2) : VI(2), o), to[k]);
      }
    }
    for (int j = 0; j < LEN; j++) {
      int k = reverse ? LEN - 1 - j : j;
      bool recv = me == to[k];
      switch (kind[k]) {
        case 0: vf_check(s->getBooleanValue(wb[k]) == (recv && b[k][0]), "opened bit"); break;
        case 1: vf_check(s->getBooleanValue(wb[k]) == (recv && (b[k][0] & c[k])), "opened product"); break;
        case 2: vf_check(s->getBooleanValueBatch(wb[k]) == (recv ? VB(b[k], b[k] + 3) : VB(3)), "opened batch of bits"); break;
        case 3: vf_check(s->getIntegerValue(wi[k]) == (recv ? v[k][0] : 0), "opened integer"); break;
        default: vf_check(s->getIntegerValueBatch(wi[k]) == (recv ? VI(v[k], v[k] + 2) : VI(2)), "opened batch of integers");
      }
    }
    if (!any[me] && !mul) vf_check(s->getTrafficStatistics().second == before, "a party to which nothing is opened receives no message");
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  vf_reach("ok");
}
