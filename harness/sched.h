// Scheduler set-up shared by harnesses.
#pragma once
#include "vf.h"
#include "fbpcf/scheduler/IScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/WireKeeper.h"
inline std::unique_ptr<fbpcf::scheduler::IWireKeeper> mkKeeper(bool arena) {
  return arena ? fbpcf::scheduler::WireKeeper::createWithVectorArena<false>() : fbpcf::scheduler::WireKeeper::createWithUnorderedMap();
}
template <int id>
inline void usePlaintext(bool arena = false) {
  fbpcf::scheduler::SchedulerKeeper<id>::setScheduler(std::make_unique<fbpcf::scheduler::PlaintextScheduler>(mkKeeper(arena)));
}
