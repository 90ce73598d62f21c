// S03: storage of values.
// @src fbpcf/scheduler/WireKeeper.cpp
// @entry vf_s03_map prop=S03 reach=live,dead : map storage, all histories of 4 allocate/write/release steps over all targets and values, starting empty and from 3 values || 5 steps
// @entry vf_s03_arena prop=S03 reach=live,dead : checked arena storage, likewise, and the same histories starting from 3 and 1022 live values (an arena holds 1024) || 5 steps
// @entry vf_s03_unsafe prop=S03 reach=live : unchecked arena storage, likewise
// @entry vf_s03_wires prop=S03 reach=ok : reference-counted records of every kind (bit, integer, batches) on every storage: all histories of 4 increase/decrease/write steps on two records || 5 steps
#include "vf.h"
#include <array>
#include "fbpcf/scheduler/UnorderedMapAllocator.h"
#include "fbpcf/scheduler/VectorArenaAllocator.h"
#include "fbpcf/scheduler/WireKeeper.h"
using namespace fbpcf::scheduler;
struct Live { uint64_t id, v; };
template <class Alloc> void history(size_t prefill) {
  Alloc a;
  bool safe = a.isSafe();
  std::vector<Live> live;
  std::vector<uint64_t> dead;
  auto fresh = [&](uint64_t v) {
    uint64_t id = a.allocate(std::move(v));
    for (auto& l : live) vf_check(l.id != id, "identifier not shared with a live value");
    std::vector<uint64_t> d;
    for (auto x : dead) if (x != id) d.push_back(x);
    dead = d;
    live.push_back({id, v});
  };
  const Alloc& ca = a;
  auto probe = [&](size_t k) { vf_check(ca.get(live[k].id) == live[k].v && a.getWritableReference(live[k].id) == live[k].v, "a live value reads as last written"); };
  for (size_t i = 0; i < prefill; i++) {
    uint64_t v = i * 3 + 1;
    uint64_t w = v;
    live.push_back({a.allocate(std::move(w)), v});
  }
  size_t base = prefill;
  int steps = VF_THOROUGH ? 5 : 4;
  for (int s = 0; s < steps; s++) {
    size_t first = live.size() > 3 ? live.size() - 3 : 0; // targets: the youngest three and the oldest
    size_t n = live.size() - first;
    int op = vf_split("op", 0, 2 * (n + (first ? 1 : 0)));
    if (op == 0) { fresh(vf_sym("v", 64)); continue; }
    size_t t = (op - 1) / 2;
    size_t k = t < n ? first + t : 0;
    if (op & 1) {
      a.free(live[k].id);
      dead.push_back(live[k].id);
      live.erase(live.begin() + k);
    } else {
      uint64_t v = vf_sym("w", 64);
      a.getWritableReference(live[k].id) = v;
      live[k].v = v;
    }
    if (prefill < 10) for (size_t i = 0; i < live.size(); i++) probe(i);
  }
  for (size_t i = 0; i < live.size(); i++) probe(i);
  vf_reach("live");
  if (safe) {
    for (auto d : dead) {
      vf_check(vf_throws([&] { ca.get(d); }) && vf_throws([&] { a.getWritableReference(d); }), "a released identifier is reported");
      vf_reach("dead");
    }
    vf_check(vf_throws([&] { ca.get(1u << 20); }) && vf_throws([&] { a.getWritableReference(1u << 20); }), "an identifier never handed out is reported");
  }
}
extern "C" void vf_s03_map() { history<UnorderedMapAllocator<uint64_t>>(vf_split("prefill", 0, 1) ? 3 : 0); }
extern "C" void vf_s03_arena() { history<VectorArenaAllocator<uint64_t, false>>(std::array<size_t, 3>{0, 3, 1022}[vf_split("prefill", 0, 2)]); }
extern "C" void vf_s03_unsafe() { history<VectorArenaAllocator<uint64_t, true>>(std::array<size_t, 3>{0, 3, 1022}[vf_split("prefill", 0, 2)]); }
template <class W> struct Kind;
template <int K> void wires(IWireKeeper& wk, bool safe) {
  auto mk = [&](uint64_t v) {
    if constexpr (K == 0) return wk.allocateBooleanValue(v & 1, 3);
    else if constexpr (K == 1) return wk.allocateIntegerValue(v, 3);
    else if constexpr (K == 2) return wk.allocateBatchBooleanValue({bool(v & 1), bool(v & 2)}, 2, 3);
    else return wk.allocateBatchIntegerValue({v, v + 1, v + 2}, 3, 3);
  };
  using W = decltype(mk(0));
  auto same = [&](W w, uint64_t v) -> bool {
    if constexpr (K == 0) return wk.getBooleanValue(w) == bool(v & 1) && wk.getFirstAvailableLevel(w) == 3;
    else if constexpr (K == 1) return wk.getIntegerValue(w) == v && wk.getFirstAvailableLevel(w) == 3;
    else if constexpr (K == 2) { auto& b = wk.getBatchBooleanValue(w); return b.size() == 2 && b[0] == bool(v & 1) && b[1] == bool(v & 2) && wk.getBatchFirstAvailableLevel(w) == 3 && wk.getBatchSize(w) == 2; }
    else { auto& b = wk.getBatchIntegerValue(w); return b.size() == 3 && b[0] == v && b[1] == v + 1 && b[2] == v + 2 && wk.getBatchFirstAvailableLevel(w) == 3 && wk.getBatchSize(w) == 3; }
  };
  auto set = [&](W w, uint64_t v, bool ref) {
    if constexpr (K == 0) wk.setBooleanValue(w, v & 1);
    else if constexpr (K == 1) wk.setIntegerValue(w, v);
    else if constexpr (K == 2) { std::vector<bool> b{bool(v & 1), bool(v & 2)}; if (ref) wk.getWritableBatchBooleanValue(w) = b; else wk.setBatchBooleanValue(w, b); }
    else { std::vector<uint64_t> b{v, v + 1, v + 2}; if (ref) wk.getWritableBatchIntegerValue(w) = b; else wk.setBatchIntegerValue(w, b); }
  };
  auto inc = [&](W w) { if constexpr (K < 2) wk.increaseReferenceCount(w); else wk.increaseBatchReferenceCount(w); };
  auto dec = [&](W w) { if constexpr (K < 2) wk.decreaseReferenceCount(w); else wk.decreaseBatchReferenceCount(w); };
  W w[2];
  uint64_t v[2], rc[2] = {1, 1}, freed = 0;
  auto st0 = wk.getWireStatistics();
  for (int i = 0; i < 2; i++) { v[i] = vf_sym("v", 64); w[i] = mk(v[i]); }
  vf_check(w[0].getId() != w[1].getId(), "distinct identifiers");
  int steps = VF_THOROUGH ? 5 : 4;
  for (int s = 0; s < steps; s++) {
    int op = vf_split("op", 0, 5);
    int t = op & 1;
    if (!rc[t]) vf_end_path();
    if (op < 2) { inc(w[t]); rc[t]++; }
    else if (op < 4) { dec(w[t]); if (!--rc[t]) freed++; }
    else { v[t] = vf_sym("n", 64); set(w[t], v[t], s & 1); }
    for (int i = 0; i < 2; i++) {
      if (rc[i]) vf_check(same(w[i], v[i]), "a value still referred to reads as last written");
      else if (safe) vf_check(vf_throws([&] { same(w[i], v[i]); }) && vf_throws([&] { set(w[i], 0, false); }) && vf_throws([&] { inc(w[i]); }), "a released value is reported");
    }
    auto st = wk.getWireStatistics();
    vf_check(st.first == st0.first + 2 && st.second == st0.second + freed, "allocation statistics");
  }
  auto x = mk(5);
  for (int i = 0; i < 2; i++) if (rc[i]) vf_check(x.getId() != w[i].getId() && same(w[i], v[i]), "a new value does not disturb a live one");
  vf_check(same(x, 5), "new value");
}
extern "C" void vf_s03_wires() {
  int st = vf_split("storage", 0, 2);
  auto wk = st == 0 ? WireKeeper::createWithUnorderedMap() : st == 1 ? WireKeeper::createWithVectorArena<false>() : WireKeeper::createWithVectorArena<true>();
  switch (vf_split("kind", 0, 3)) {
    case 0: wires<0>(*wk, st < 2); break;
    case 1: wires<1>(*wk, st < 2); break;
    case 2: wires<2>(*wk, st < 2); break;
    default: wires<3>(*wk, st < 2); break;
  }
  vf_reach("ok");
}
