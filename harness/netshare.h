// Real schedulers over the real secret share engine at two parties (tuples as in engine_model.h).
#pragma once
#include "engine_model.h"
#include "sched.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
// needs: @src fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp
//   fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
using FactoryList2 = std::vector<std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgentFactory>>;
template <int id> void useShares(int me, int p, FactoryList2& fac, bool lazy, bool comp = true) {
  using namespace fbpcf::scheduler;
  auto e = em::mkEngine(me, p, comp, fbpcf::engine::communication::getAgentMap(p, me, *fac[me]));
  if (!lazy) {
    SchedulerKeeper<id>::setScheduler(std::make_unique<EagerScheduler>(std::move(e), mkKeeper(false)));
    return;
  }
  std::shared_ptr<IWireKeeper> wk = mkKeeper(false);
  SchedulerKeeper<id>::setScheduler(std::make_unique<LazyScheduler>(std::move(e), wk, std::make_unique<GateKeeper>(wk)));
}
