// S02: placement and hand-out of recorded operations.
// @src fbpcf/scheduler/gate_keeper/GateKeeper.cpp fbpcf/scheduler/WireKeeper.cpp
// @entry vf_s02_step prop=S02 reach=ok : every kind of operation, operands produced at any of levels 0 to 5, 0 to 5 levels already handed out || levels 0 to 9, 0 to 9 handed out
// @entry vf_s02_history prop=S02 reach=pop,end : all sequences of 4 boolean operations or hand-outs over all operand choices, then hand-out of everything || sequences of 5
// @entry vf_s02_limit prop=S02 reach=ok time=300 : the limit of 100000 outstanding operations, approached from below and above
#include "vf.h"
#include <map>
#include "fbpcf/scheduler/WireKeeper.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "fbpcf/scheduler/gate_keeper/BatchNormalGate.h"
#include "fbpcf/scheduler/gate_keeper/IArithmeticGate.h"
using namespace fbpcf::scheduler;
using B = IScheduler::WireId<IScheduler::Boolean>;
using A = IScheduler::WireId<IScheduler::Arithmetic>;
using NG = INormalGate::GateType;
using AG = IArithmeticGate::GateType;
using CG = ICompositeGate::GateType;
static const int MAXL = VF_THOROUGH ? 9 : 5;
extern "C" void vf_s02_step() {
  std::shared_ptr<IWireKeeper> wk = WireKeeper::createWithUnorderedMap();
  GateKeeper gk(wk);
  int kind = vf_split("kind", 0, 21);
  uint32_t pops = vf_split("pops", 0, MAXL);
  // levels exist and are handed out only after something was recorded in them
  if (pops) {
    auto far = wk->allocateBooleanValue(false, pops - 1);
    B o;
    if ((pops - 1) & 1) {
      o = gk.normalGate(NG::NonFreeAnd, wk->allocateBooleanValue(false, pops >= 2 ? pops - 2 : 0), far.isEmpty() ? far : wk->allocateBooleanValue(false, 0));
    } else {
      o = gk.normalGate(NG::SymmetricNot, far);
    }
    vf_check(wk->getFirstAvailableLevel(o) == pops - 1, "level of the first recorded operation");
    size_t seen = 0;
    for (uint32_t i = 0; i < pops; i++) {
      vf_check(gk.getFirstUnexecutedLevel() == i, "levels are handed out in increasing order");
      seen += gk.popFirstUnexecutedLevel().size();
    }
    vf_check(seen == 1, "the recorded operation is handed out once");
  }
  uint32_t l1 = vf_range("level1", 0, MAXL, 8), l2 = vf_range("level2", 0, MAXL, 8);
  bool free = true;
  std::vector<uint32_t> outs;
  uint32_t in = 0;
  auto b = [&](uint32_t l) { return wk->allocateBooleanValue(false, l); };
  auto bb = [&](uint32_t l) { return wk->allocateBatchBooleanValue({true, false}, 2, l); };
  auto a = [&](uint32_t l) { return wk->allocateIntegerValue(0, l); };
  auto ab = [&](uint32_t l) { return wk->allocateBatchIntegerValue({1, 2}, 2, l); };
  auto lv = [&](auto w) { return wk->getFirstAvailableLevel(w); };
  auto blv = [&](auto w) { return wk->getBatchFirstAvailableLevel(w); };
  auto two = [&] { in = l1 > l2 ? l1 : l2; };
  switch (kind) {
    case 0: outs = {lv(gk.inputGate(true))}; break;
    case 1: outs = {lv(gk.inputGate((uint64_t)5))}; break;
    case 2: outs = {blv(gk.inputGateBatch(std::vector<bool>{true}))}; break;
    case 3: outs = {blv(gk.inputGateBatch(std::vector<uint64_t>{7}))}; break;
    case 4: free = false; in = l1; outs = {lv(gk.outputGate(b(l1), 1))}; break;
    case 5: free = false; in = l1; outs = {lv(gk.outputGate(a(l1), 1))}; break;
    case 6: free = false; in = l1; outs = {blv(gk.outputGateBatch(bb(l1), 1))}; break;
    case 7: free = false; in = l1; outs = {blv(gk.outputGateBatch(ab(l1), 1))}; break;
    case 8: two(); { NG g[] = {NG::FreeAnd, NG::AsymmetricXOR, NG::SymmetricXOR}; outs = {lv(gk.normalGate(g[vf_split("g", 0, 2)], b(l1), b(l2)))}; } break;
    case 9: in = l1; outs = {lv(gk.normalGate(vf_split("g", 0, 1) ? NG::SymmetricNot : NG::AsymmetricNot, b(l1)))}; break;
    case 10: free = false; two(); outs = {lv(gk.normalGate(NG::NonFreeAnd, b(l1), b(l2)))}; break;
    case 11: two(); { NG g[] = {NG::FreeAnd, NG::AsymmetricXOR, NG::SymmetricXOR}; outs = {blv(gk.normalGateBatch(g[vf_split("g", 0, 2)], bb(l1), bb(l2)))}; } break;
    case 12: in = l1; outs = {blv(gk.normalGateBatch(vf_split("g", 0, 1) ? NG::SymmetricNot : NG::AsymmetricNot, bb(l1)))}; break;
    case 13: free = false; two(); outs = {blv(gk.normalGateBatch(NG::NonFreeAnd, bb(l1), bb(l2)))}; break;
    case 14: two(); { AG g[] = {AG::AsymmetricPlus, AG::SymmetricPlus, AG::FreeMult}; outs = {lv(gk.arithmeticGate(g[vf_split("g", 0, 2)], a(l1), a(l2)))}; } break;
    case 15: free = false; two(); outs = {lv(gk.arithmeticGate(AG::NonFreeMult, a(l1), a(l2)))}; break;
    case 16: in = l1; outs = {blv(gk.arithmeticGateBatch(AG::Neg, ab(l1)))}; break;
    case 17: two(); free = vf_split("g", 0, 1); outs = {blv(gk.arithmeticGateBatch(free ? AG::SymmetricPlus : AG::NonFreeMult, ab(l1), ab(l2)))}; break;
    case 18: two(); free = vf_split("g", 0, 1); {
      auto left = b(vf_split("which", 0, 1) ? l2 : 0);
      auto o = gk.compositeGate(free ? CG::FreeAnd : CG::NonFreeAnd, left, {b(l1), b(l2)});
      vf_check(o.size() == 2, "one output for each right operand");
      for (auto& w : o) outs.push_back(lv(w));
    } break;
    case 19: free = vf_split("g", 0, 1); in = l1 > l2 ? l1 : l2; {
      bool w = vf_split("which", 0, 1);
      auto o = gk.compositeGateBatch(free ? CG::FreeAnd : CG::NonFreeAnd, w ? bb(l2) : bb(l1), {w ? bb(l1) : bb(l2), bb(0)});
      for (auto& x : o) outs.push_back(blv(x));
    } break;
    case 20: two(); {
      bool w = vf_split("which", 0, 1);
      outs = {blv(gk.batchingUp(w ? std::vector<B>{bb(l1), bb(l2)} : std::vector<B>{bb(l2), bb(0), bb(l1)}))};
    } break;
    default: in = l1; {
      auto s = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, 1});
      for (auto& x : gk.unbatching(bb(l1), s)) outs.push_back(blv(x));
    } break;
  }
  uint32_t o = outs.at(0);
  for (auto x : outs) vf_check(x == o, "outputs of one operation share its level");
  vf_check(IGateKeeper::isLevelFree(o) == free && (o % 2 == 0) == free, "free and interactive operations never share a level");
  vf_check(o >= pops, "an operation is never placed in a level already handed out");
  vf_check(free ? (in % 2 == 0 ? o >= in : o > in) : o > in, "an operation is placed after the ones producing its operands");
  uint32_t base = in > pops ? in : pops;
  vf_check(o <= base + 2, "an operation is not postponed without need");
  o = vf_concrete(o);
  size_t seen = 0;
  for (uint32_t i = pops; i <= o; i++) {
    vf_check(gk.getFirstUnexecutedLevel() == i, "levels are handed out in increasing order");
    auto g = gk.popFirstUnexecutedLevel();
    vf_check(g.size() == (i == o ? 1u : 0u), "the operation is handed out with its level");
    seen += g.size();
  }
  vf_reach("ok");
}
extern "C" void vf_s02_history() {
  std::shared_ptr<IWireKeeper> wk = WireKeeper::createWithUnorderedMap();
  GateKeeper gk(wk);
  std::vector<B> wires;
  std::vector<uint32_t> level;
  struct Rec { B w; uint32_t level; };
  std::vector<Rec> pending;
  uint32_t first = 0;
  auto record = [&](B w, bool free, std::vector<size_t> in) {
    uint32_t l = wk->getFirstAvailableLevel(w);
    vf_check((l % 2 == 0) == free && l >= first, "level of an operation");
    for (auto i : in) {
      vf_check(level[i] < l || (level[i] == l && free), "after its operands");
      vf_check(wk->getFirstAvailableLevel(wires[i]) == level[i], "levels of earlier operations stay");
    }
    for (auto& x : wires) vf_check(x.getId() != w.getId(), "a new value for every operation");
    wires.push_back(w);
    level.push_back(l);
    pending.push_back({w, l});
  };
  auto pop = [&] {
    vf_check(gk.getFirstUnexecutedLevel() == first, "next level to hand out");
    auto gates = gk.popFirstUnexecutedLevel();
    size_t k = 0;
    std::vector<Rec> rest;
    for (auto& r : pending) {
      if (r.level != first) { rest.push_back(r); continue; }
      vf_check(k < gates.size(), "no operation of the level is missing");
      auto* g = dynamic_cast<INormalGate*>(gates[k++].get());
      vf_check(g && g->getWireId().getId() == r.w.getId(), "operations of a level in the order of recording");
    }
    vf_check(k == gates.size(), "nothing is handed out twice or early");
    pending = rest;
    first++;
  };
  record(gk.inputGate(vf_bool("v")), true, {});
  int steps = VF_THOROUGH ? 4 : 3;
  for (int s = 0; s < steps; s++) {
    int op = vf_split("op", 0, 5);
    size_t n = wires.size();
    auto pick = [&](const char* nm) { return (size_t)vf_split(nm, 0, n - 1); };
    switch (op) {
      case 0: record(gk.inputGate(true), true, {}); break;
      case 1: { auto i = pick("i"); record(gk.normalGate(NG::AsymmetricNot, wires[i]), true, {i}); } break;
      case 2: { auto i = pick("i"), j = pick("j"); record(gk.normalGate(NG::SymmetricXOR, wires[i], wires[j]), true, {i, j}); } break;
      case 3: { auto i = pick("i"), j = pick("j"); record(gk.normalGate(NG::NonFreeAnd, wires[i], wires[j]), false, {i, j}); } break;
      case 4: { auto i = pick("i"); record(gk.outputGate(wires[i], 1), false, {i}); } break;
      default:
        if (pending.empty()) vf_end_path();
        pop();
        vf_reach("pop");
    }
    vf_check(!gk.hasReachedBatchingLimit(), "limit not reached by a few operations");
  }
  while (!pending.empty()) pop();
  vf_reach("end");
}
extern "C" void vf_s02_limit() {
  std::shared_ptr<IWireKeeper> wk = WireKeeper::createWithVectorArena<false>();
  GateKeeper gk(wk);
  auto x = gk.inputGate(true);
  for (int i = 1; i < 100000; i++) gk.normalGate(NG::SymmetricNot, x);
  vf_check(!gk.hasReachedBatchingLimit(), "100000 outstanding operations are within the limit");
  gk.normalGate(NG::NonFreeAnd, x, x);
  vf_check(gk.hasReachedBatchingLimit(), "100001 outstanding operations exceed the limit");
  gk.popFirstUnexecutedLevel();
  vf_check(!gk.hasReachedBatchingLimit(), "handed-out operations no longer count");
  vf_reach("ok");
}
