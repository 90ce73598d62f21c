// The networked plaintext scheduler at every party, over the real in-memory links.
#pragma once
#include "sched.h"
#include "two_party.h"
#include "fbpcf/engine/communication/AgentMapHelper.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
using FactoryList = std::vector<std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgentFactory>>;
inline std::unique_ptr<fbpcf::scheduler::NetworkPlaintextScheduler> mkNetPlain(int me, int p, FactoryList& fac, bool arena = false) {
  return std::make_unique<fbpcf::scheduler::NetworkPlaintextScheduler>(me, fbpcf::engine::communication::getAgentMap(p, me, *fac[me]), mkKeeper(arena));
}
template <int id> void useNetPlain(int me, int p, FactoryList& fac, bool arena = false) {
  fbpcf::scheduler::SchedulerKeeper<id>::setScheduler(mkNetPlain(me, p, fac, arena));
}
