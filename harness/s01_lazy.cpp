// S01: deferred execution against immediate execution and against the meaning of the operations.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
// @entry vf_s01_ops prop=S01 reach=ok : each of the 30 single-value operations of the scheduler interface on each scheduler, every operand value
// @entry vf_s01_batchops prop=S01 reach=ok : each of the batch operations on each scheduler, batches of 0 to 3 elements, every operand value
// @entry vf_s01_programs prop=S01 procs=8 time=700 ttime=850 reach=end : deferred execution of every program of 3 boolean operations, releases, forcings and openings over every operand choice and input value || 4 operations
// @entry vf_s01_batch prop=S01 procs=6 time=700 ttime=850 reach=end : deferred execution of every program of 3 batch operations incl. joining and splitting batches, every operand choice, every value of the two-element inputs || 4 operations
// @entry vf_s01_arith prop=S01 procs=6 time=700 ttime=850 reach=end : deferred execution of every program of 3 integer operations, releases, forcings and openings (sums and multiplications of 8-bit inputs) || 4 operations
// @entry vf_s01_gates prop=S01 reach=end : gate counts and the rejection of batches of unequal sizes, each scheduler
#include "schedulers.h"
using namespace fbpcf::scheduler;
using B = IScheduler::WireId<IScheduler::Boolean>;
using A = IScheduler::WireId<IScheduler::Arithmetic>;
using VB = std::vector<bool>;
using VI = std::vector<uint64_t>;
static Kind kindOf(int i) { return i == 0 ? Kind::Plain : i == 1 ? Kind::Eager : Kind::Lazy; }
extern "C" void vf_s01_ops() {
  Kind k = kindOf(vf_split("scheduler", 0, 2));
  auto s = mkScheduler(k, vf_split("arena", 0, 1));
  int op = vf_split("op", 0, 29);
  bool a = vf_bool("a"), b = vf_bool("b"), c = vf_bool("c"), got, want;
  uint64_t i = vf_sym("i", 8), j = vf_sym("j", 8), gi = 0, wi = 0;
  B pa = s->privateBooleanInput(a, 0), pb = s->privateBooleanInput(b, 0), ua = s->publicBooleanInput(a), ub = s->publicBooleanInput(b), pc = s->privateBooleanInput(c, 0);
  A ai = s->privateIntegerInput(i, 0), aj = s->privateIntegerInput(j, 0), ui = s->publicIntegerInput(i), uj = s->publicIntegerInput(j);
  auto g = [&](B w) { return s->getBooleanValue(s->openBooleanValueToParty(w, 0)); };
  auto gI = [&](A w) { return s->getIntegerValue(s->openIntegerValueToParty(w, 0)); };
  got = want = false;
  std::vector<B> v;
  switch (op) {
    case 0: got = s->getBooleanValue(ua); want = a; break;
    case 1: got = g(pa); want = a; break;
    case 2: got = g(s->recoverBooleanWire(s->extractBooleanSecretShare(pa))); want = a; break;
    case 3: got = g(s->privateAndPrivate(pa, pb)); want = a & b; break;
    case 4: got = g(s->privateAndPublic(pa, ub)); want = a & b; break;
    case 5: got = s->getBooleanValue(s->publicAndPublic(ua, ub)); want = a & b; break;
    case 6: got = g(s->privateXorPrivate(pa, pb)); want = a ^ b; break;
    case 7: got = g(s->privateXorPublic(pa, ub)); want = a ^ b; break;
    case 8: got = s->getBooleanValue(s->publicXorPublic(ua, ub)); want = a ^ b; break;
    case 9: got = g(s->notPrivate(pa)); want = !a; break;
    case 10: got = s->getBooleanValue(s->notPublic(ua)); want = !a; break;
    case 11: v = s->privateAndPrivateComposite(pa, {pb, pc}); got = g(v.at(0)); want = a & b; vf_check(v.size() == 2 && g(v.at(1)) == (a & c), "second composite result"); break;
    case 12: v = s->privateAndPublicComposite(pa, {ub, ua}); got = g(v.at(0)); want = a & b; vf_check(v.size() == 2 && g(v.at(1)) == a, "second composite result"); break;
    case 13: v = s->publicAndPublicComposite(ua, {ub, ua}); got = s->getBooleanValue(v.at(0)); want = a & b; vf_check(v.size() == 2 && s->getBooleanValue(v.at(1)) == a, "second composite result"); break;
    case 14: v = s->privateAndPublicComposite(ua, {pb, pc}); got = g(v.at(0)); want = a & b; vf_check(v.size() == 2 && g(v.at(1)) == (a & c), "second composite result"); break;
    case 15: gi = s->getIntegerValue(ui); wi = i; break;
    case 16: gi = gI(ai); wi = i; break;
    case 17: gi = gI(s->recoverIntegerWire(s->extractIntegerSecretShare(ai))); wi = i; break;
    case 18: gi = gI(s->privatePlusPrivate(ai, aj)); wi = i + j; break;
    case 19: gi = gI(s->privatePlusPublic(ai, uj)); wi = i + j; break;
    case 20: gi = s->getIntegerValue(s->publicPlusPublic(ui, uj)); wi = i + j; break;
    case 21: gi = gI(s->negPrivate(ai)); wi = 0 - i; break;
    case 22: gi = s->getIntegerValue(s->negPublic(ui)); wi = 0 - i; break;
    case 23: gi = gI(s->privateMultPrivate(ai, aj)); wi = i * j; break;
    case 24: gi = gI(s->privateMultPublic(ai, uj)); wi = i * j; break;
    case 25: gi = s->getIntegerValue(s->publicMultPublic(ui, uj)); wi = i * j; break;
    case 26: vf_throws([&] { v = s->privateAndPrivateComposite(pa, {}); }); vf_check(v.empty(), "composite and with nothing"); break;
    case 27: { B o = s->privateAndPrivate(pa, pb); s->increaseReferenceCount(o); s->decreaseReferenceCount(o); s->decreaseReferenceCount(pa); got = g(o); want = a & b; } break;
    case 28: { A o = s->privateMultPrivate(ai, aj); s->increaseReferenceCount(o); s->decreaseReferenceCount(o); s->decreaseReferenceCount(ai); gi = gI(o); wi = i * j; } break;
    default: { B x = s->privateAndPrivate(pa, pb), y = s->privateXorPrivate(x, pc); B o1 = s->openBooleanValueToParty(y, 0), o2 = s->openBooleanValueToParty(x, 0); got = s->getBooleanValue(o1); want = (a & b) ^ c; vf_check(s->getBooleanValue(o2) == (a & b), "results requested in another order"); }
  }
  vf_check(got == want, "boolean result");
  vf_check(gi == wi, "integer result");
  vf_reach("ok");
}
extern "C" void vf_s01_batchops() {
  Kind k = kindOf(vf_split("scheduler", 0, 2));
  auto s = mkScheduler(k, vf_split("arena", 0, 1));
  int op = vf_split("op", 0, 28);
  size_t n = vf_split("n", 0, 3);
  VB a(n), b(n), c(n), got, want(n);
  VI i(n), j(n), gi, wi(n);
  for (size_t t = 0; t < n; t++) {
    a[t] = vf_bool("a"); b[t] = vf_bool("b"); c[t] = vf_bool("c");
    i[t] = vf_sym("i", 8); j[t] = vf_sym("j", 8);
  }
  B pa = s->privateBooleanInputBatch(a, 0), pb = s->privateBooleanInputBatch(b, 0), pc = s->privateBooleanInputBatch(c, 0), ua = s->publicBooleanInputBatch(a), ub = s->publicBooleanInputBatch(b);
  A ai = s->privateIntegerInputBatch(i, 0), aj = s->privateIntegerInputBatch(j, 0), ui = s->publicIntegerInputBatch(i), uj = s->publicIntegerInputBatch(j);
  auto g = [&](B w) { vf_check(s->getBatchSize(w) == n, "batch size"); return s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(w, 0)); };
  auto p = [&](B w) { vf_check(s->getBatchSize(w) == n, "batch size"); return s->getBooleanValueBatch(w); };
  auto gI = [&](A w) { vf_check(s->getBatchSize(w) == n, "batch size"); return s->getIntegerValueBatch(s->openIntegerValueToPartyBatch(w, 0)); };
  auto pI = [&](A w) { vf_check(s->getBatchSize(w) == n, "batch size"); return s->getIntegerValueBatch(w); };
  auto W = [&](auto f) { for (size_t t = 0; t < n; t++) want[t] = f((bool)a[t], (bool)b[t], (bool)c[t]); };
  auto WI = [&](auto f) { for (size_t t = 0; t < n; t++) wi[t] = f(i[t], j[t]); };
  auto AND = [](bool x, bool y, bool) { return x & y; };
  auto AND3 = [](bool x, bool, bool y) { return x & y; };
  auto XOR = [](bool x, bool y, bool) { return x ^ y; };
  auto ID = [](bool x, bool, bool) { return x; };
  auto NOT = [](bool x, bool, bool) { return !x; };
  auto plus = [](uint64_t x, uint64_t y) { return x + y; };
  auto mul = [](uint64_t x, uint64_t y) { return x * y; };
  auto id = [](uint64_t x, uint64_t) { return x; };
  auto neg = [](uint64_t x, uint64_t) { return 0 - x; };
  bool bools = true;
  std::vector<B> v;
  switch (op) {
    case 0: got = p(ua); W(ID); break;
    case 1: got = g(pa); W(ID); break;
    case 2: got = g(s->recoverBooleanWireBatch(s->extractBooleanSecretShareBatch(pa))); W(ID); break;
    case 3: got = g(s->privateAndPrivateBatch(pa, pb)); W(AND); break;
    case 4: got = g(s->privateAndPublicBatch(pa, ub)); W(AND); break;
    case 5: got = p(s->publicAndPublicBatch(ua, ub)); W(AND); break;
    case 6: got = g(s->privateXorPrivateBatch(pa, pb)); W(XOR); break;
    case 7: got = g(s->privateXorPublicBatch(pa, ub)); W(XOR); break;
    case 8: got = p(s->publicXorPublicBatch(ua, ub)); W(XOR); break;
    case 9: got = g(s->notPrivateBatch(pa)); W(NOT); break;
    case 10: got = p(s->notPublicBatch(ua)); W(NOT); break;
    case 11: v = s->privateAndPrivateCompositeBatch(pa, {pb, pc}); vf_check(v.size() == 2, "results"); W(AND3); vf_check(g(v.at(1)) == want, "second composite result"); got = g(v.at(0)); W(AND); break;
    case 12: v = s->privateAndPublicCompositeBatch(pa, {ub, ua}); vf_check(v.size() == 2, "results"); W(ID); vf_check(g(v.at(1)) == want, "second composite result"); got = g(v.at(0)); W(AND); break;
    case 13: v = s->publicAndPublicCompositeBatch(ua, {ub, ua}); vf_check(v.size() == 2, "results"); W(ID); vf_check(p(v.at(1)) == want, "second composite result"); got = p(v.at(0)); W(AND); break;
    case 14: v = s->privateAndPublicCompositeBatch(ua, {pb, pc}); vf_check(v.size() == 2, "results"); W(AND3); vf_check(g(v.at(1)) == want, "second composite result"); got = g(v.at(0)); W(AND); break;
    case 15: bools = false; gi = pI(ui); WI(id); break;
    case 16: bools = false; gi = gI(ai); WI(id); break;
    case 17: bools = false; gi = gI(s->recoverIntegerWireBatch(s->extractIntegerSecretShareBatch(ai))); WI(id); break;
    case 18: bools = false; gi = gI(s->privatePlusPrivateBatch(ai, aj)); WI(plus); break;
    case 19: bools = false; gi = gI(s->privatePlusPublicBatch(ai, uj)); WI(plus); break;
    case 20: bools = false; gi = pI(s->publicPlusPublicBatch(ui, uj)); WI(plus); break;
    case 21: bools = false; gi = gI(s->negPrivateBatch(ai)); WI(neg); break;
    case 22: bools = false; gi = pI(s->negPublicBatch(ui)); WI(neg); break;
    case 23: bools = false; gi = gI(s->privateMultPrivateBatch(ai, aj)); WI(mul); break;
    case 24: bools = false; gi = gI(s->privateMultPublicBatch(ai, uj)); WI(mul); break;
    case 25: bools = false; gi = pI(s->publicMultPublicBatch(ui, uj)); WI(mul); break;
    case 26: { B o = s->privateAndPrivateBatch(pa, pb); s->increaseReferenceCountBatch(o); s->decreaseReferenceCountBatch(o); s->decreaseReferenceCountBatch(pa); got = g(o); W(AND); } break;
    case 27: { B o = s->batchingUp({pa, pb, pc}); vf_check(s->getBatchSize(o) == 3 * n, "size of joined batches"); auto r = s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(o, 0)); vf_check(r.size() == 3 * n, "length of joined batches"); got.assign(r.begin(), r.begin() + n); W(ID); vf_check(VB(r.begin() + n, r.begin() + 2 * n) == b && VB(r.begin() + 2 * n, r.end()) == c, "joined batches"); } break;
    default: {
      auto st = std::make_shared<std::vector<uint32_t>>();
      if (n) { uint32_t f = vf_split("first", 0, n); *st = {f, (uint32_t)n - f}; } else *st = {0};
      auto r = s->unbatching(pa, st);
      vf_check(r.size() == st->size(), "number of parts");
      for (size_t t = 0; t < r.size(); t++) {
        vf_check(s->getBatchSize(r[t]) == st->at(t), "size of a part");
        for (bool x : s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(r[t], 0))) got.push_back(x);
      }
      W(ID);
    }
  }
  if (bools) vf_check(got == want, "boolean results");
  else vf_check(gi == wi, "integer results");
  vf_reach("ok");
}
static const int STEPS = VF_THOROUGH ? 4 : 3;
// Programs over single bits: the model is the list of values.
extern "C" void vf_s01_programs() {
  auto s = mkScheduler(Kind::Lazy, true);
  std::vector<B> w;
  std::vector<bool> val;
  std::vector<int> pub, alive; // pub: opened or public
  auto add = [&](B id, bool v, bool isPublic) { w.push_back(id); val.push_back(v); pub.push_back(isPublic); alive.push_back(1); };
  for (int i = 0; i < 2; i++) { bool v = vf_bool("in"); add(s->privateBooleanInput(v, 0), v, false); }
  for (int t = 0; t < STEPS; t++) {
    int op = vf_split("op", 0, 7);
    bool last = t == STEPS - 1;
    if (last && (op == 0 || op == 4 || op == 5 || op == 7)) vf_end_path(); // nothing follows that could tell them apart
    auto pick = [&](const char* nm) { size_t i = vf_split(nm, 0, w.size() - 1); if (!alive[i] || pub[i]) vf_end_path(); return i; };
    size_t i = pick("i"), j;
    switch (op) {
      case 0: add(s->notPrivate(w[i]), !val[i], false); break;
      case 1: j = pick("j"); if (j < i) vf_end_path(); add(s->privateXorPrivate(w[i], w[j]), val[i] ^ val[j], false); break;
      case 2: j = pick("j"); if (j < i) vf_end_path(); add(s->privateAndPrivate(w[i], w[j]), val[i] & val[j], false); break;
      case 3: j = pick("j"); { auto o = s->privateAndPrivateComposite(w[i], {w[j], w[0]}); bool v0 = val[0]; add(o.at(0), val[i] & val[j], false); add(o.at(1), val[i] & v0, false); } break;
      case 4: add(s->openBooleanValueToParty(w[i], 0), val[i], true); break;
      case 5: vf_check(s->extractBooleanSecretShare(w[i]) == val[i], "value forced midway"); break;
      case 6: if (i == 0) vf_end_path(); s->decreaseReferenceCount(w[i]); alive[i] = 0; break;
      default: { B u = s->publicBooleanInput(true); add(s->privateXorPublic(w[i], u), !val[i], false); s->decreaseReferenceCount(u); }
    }
  }
  // request everything, first to last or last to first
  bool fwd = vf_split("order", 0, 1);
  for (size_t q = 0; q < w.size(); q++) {
    size_t i = fwd ? q : w.size() - 1 - q;
    if (!alive[i]) continue;
    vf_check((pub[i] ? s->getBooleanValue(w[i]) : s->getBooleanValue(s->openBooleanValueToParty(w[i], 0))) == val[i], "requested value");
  }
  vf_reach("end");
}
extern "C" void vf_s01_arith() {
  auto s = mkScheduler(Kind::Lazy, true);
  std::vector<A> w;
  std::vector<uint64_t> val;
  std::vector<int> pub, alive;
  auto add = [&](A id, uint64_t v, bool isPublic) { w.push_back(id); val.push_back(v); pub.push_back(isPublic); alive.push_back(1); };
  for (int i = 0; i < 2; i++) { uint64_t v = vf_sym("in", 8); add(s->privateIntegerInput(v, 0), v, false); }
  for (int t = 0; t < STEPS; t++) {
    int op = vf_split("op", 0, 6);
    auto pick = [&](const char* nm) { size_t i = vf_split(nm, 0, w.size() - 1); if (!alive[i] || pub[i]) vf_end_path(); return i; };
    size_t i = pick("i"), j;
    switch (op) {
      case 0: add(s->negPrivate(w[i]), 0 - val[i], false); break;
      case 1: j = pick("j"); if (j < i) vf_end_path(); add(s->privatePlusPrivate(w[i], w[j]), val[i] + val[j], false); break;
      case 2: j = pick("j"); if (j < i) vf_end_path(); add(s->privateMultPrivate(w[i], w[j]), val[i] * val[j], false); break;
      case 3: add(s->openIntegerValueToParty(w[i], 0), val[i], true); break;
      case 4: vf_check(s->extractIntegerSecretShare(w[i]) == val[i], "value forced midway"); break;
      case 5: s->decreaseReferenceCount(w[i]); alive[i] = 0; break;
      default: { A u = s->publicIntegerInput(3); add(s->privateMultPublic(w[i], u), 3 * val[i], false); add(s->privatePlusPublic(w[i], u), 3 + val[i], false); s->decreaseReferenceCount(u); }
    }
  }
  bool fwd = vf_split("order", 0, 1);
  for (size_t q = 0; q < w.size(); q++) {
    size_t i = fwd ? q : w.size() - 1 - q;
    if (!alive[i]) continue;
    vf_check((pub[i] ? s->getIntegerValue(w[i]) : s->getIntegerValue(s->openIntegerValueToParty(w[i], 0))) == val[i], "requested value");
  }
  vf_reach("end");
}
extern "C" void vf_s01_batch() {
  auto s = mkScheduler(Kind::Lazy, true);
  std::vector<B> w;
  std::vector<VB> val;
  std::vector<int> pub, alive;
  auto add = [&](B id, VB v, bool isPublic) {
    vf_check(s->getBatchSize(id) == v.size(), "announced batch size");
    w.push_back(id); val.push_back(v); pub.push_back(isPublic); alive.push_back(1);
  };
  for (int i = 0; i < 2; i++) { VB v{vf_bool("in"), vf_bool("in")}; add(s->privateBooleanInputBatch(v, 0), v, false); }
  for (int t = 0; t < STEPS; t++) {
    int op = vf_split("op", 0, 7);
    bool last = t == STEPS - 1;
    if (last && (op == 0 || op == 2 || op == 5 || (op == 6 && !VF_THOROUGH))) vf_end_path(); // covered by other programs of the same length
    auto pick = [&](const char* nm) { size_t i = vf_split(nm, 0, w.size() - 1); if (!alive[i] || pub[i]) vf_end_path(); return i; };
    size_t i = pick("i"), j;
    VB r = val[i];
    switch (op) {
      case 0: r.flip(); add(s->notPrivateBatch(w[i]), r, false); break;
      case 1: j = pick("j"); if (j < i || val[j].size() != r.size()) vf_end_path(); for (size_t q = 0; q < r.size(); q++) r[q] = r[q] ^ val[j][q]; add(s->privateXorPrivateBatch(w[i], w[j]), r, false); break;
      case 2: j = pick("j"); if (j < i || val[j].size() != r.size()) vf_end_path(); for (size_t q = 0; q < r.size(); q++) r[q] = r[q] & val[j][q]; add(s->privateAndPrivateBatch(w[i], w[j]), r, false); break;
      case 3: j = pick("j"); if (r.size() > 2 && !VF_THOROUGH && last) vf_end_path(); { r.insert(r.end(), val[j].begin(), val[j].end()); add(s->batchingUp({w[i], w[j]}), r, false); } break;
      case 4: {
        if (r.size() < 2) vf_end_path();
        auto st = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, (uint32_t)r.size() - 1});
        auto o = s->unbatching(w[i], st);
        add(o.at(0), VB(r.begin(), r.begin() + 1), false);
        add(o.at(1), VB(r.begin() + 1, r.end()), false);
      } break;
      case 5: add(s->openBooleanValueToPartyBatch(w[i], 0), r, true); break;
      case 6: if (i == 0 && !VF_THOROUGH) vf_end_path(); s->decreaseReferenceCountBatch(w[i]); alive[i] = 0; break;
      default: j = pick("j"); if (val[j].size() != r.size()) vf_end_path(); { auto o = s->privateAndPrivateCompositeBatch(w[i], {w[j], w[j]}); VB q = r; for (size_t x = 0; x < r.size(); x++) q[x] = r[x] & val[j][x]; add(o.at(0), q, false); add(o.at(1), q, false); }
    }
  }
  bool fwd = VF_THOROUGH ? vf_split("order", 0, 1) : w.size() % 2;
  for (size_t q = 0; q < w.size(); q++) {
    size_t i = fwd ? q : w.size() - 1 - q;
    if (!alive[i]) continue;
    vf_check((pub[i] ? s->getBooleanValueBatch(w[i]) : s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(w[i], 0))) == val[i], "requested values");
  }
  vf_reach("end");
}
extern "C" void vf_s01_gates() {
  Kind k = kindOf(vf_split("scheduler", 0, 2));
  auto s = mkScheduler(k);
  size_t n = vf_split("n", 1, 3), m = vf_split("m", 1, 3);
  if (n == m) vf_end_path();
  VB a(n, true), b(m, true);
  B pa = s->privateBooleanInputBatch(a, 0), pb = s->privateBooleanInputBatch(b, 0), ua = s->publicBooleanInputBatch(a), ub = s->publicBooleanInputBatch(b);
  A ai = s->privateIntegerInputBatch(VI(n, 1), 0), aj = s->privateIntegerInputBatch(VI(m, 1), 0);
  int op = vf_split("op", 0, 7);
  bool thrown = vf_throws([&] {
    B o;
    switch (op) {
      case 0: o = s->privateAndPrivateBatch(pa, pb); break;
      case 1: o = s->privateAndPublicBatch(pa, ub); break;
      case 2: o = s->privateXorPrivateBatch(pa, pb); break;
      case 3: o = s->privateXorPublicBatch(pa, ub); break;
      case 4: o = s->privateAndPrivateCompositeBatch(pa, {pa, pb}).at(0); break;
      case 5: o = s->privateAndPublicCompositeBatch(pa, {ua, ub}).at(0); break;
      case 6: s->getIntegerValueBatch(s->privatePlusPrivateBatch(ai, aj)); break;
      default: s->getIntegerValueBatch(s->privateMultPrivateBatch(ai, aj)); break;
    }
    if (op < 6) s->getBooleanValueBatch(o);
  });
  vf_check(thrown, "batches of unequal sizes are rejected");
  vf_reach("end");
}
