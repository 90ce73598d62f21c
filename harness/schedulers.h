// Plaintext, immediate (eager) and deferred (lazy) schedulers over an ideal one-party engine.
#pragma once
#include "sched.h"
#include "ideal_engine.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
enum class Kind { Plain, Eager, Lazy };
inline std::unique_ptr<fbpcf::scheduler::IArithmeticScheduler> mkScheduler(Kind k, bool arena = false, std::shared_ptr<fbpcf::scheduler::IWireKeeper>* out = nullptr) {
  using namespace fbpcf::scheduler;
  if (k == Kind::Plain) return std::make_unique<PlaintextScheduler>(mkKeeper(arena));
  if (k == Kind::Eager) return std::make_unique<EagerScheduler>(std::make_unique<IdealEngine>(), mkKeeper(arena));
  std::shared_ptr<IWireKeeper> wk = mkKeeper(arena);
  if (out) *out = wk;
  return std::make_unique<LazyScheduler>(std::make_unique<IdealEngine>(), wk, std::make_unique<GateKeeper>(wk));
}
template <int id> inline void useScheduler(Kind k, bool arena = false) {
  fbpcf::scheduler::SchedulerKeeper<id>::setScheduler(mkScheduler(k, arena));
}
