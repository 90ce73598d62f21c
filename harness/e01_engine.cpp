// E01: the secret share engine over arbitrary tuples, shares and randomness.
// @src fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp
// @entry vf_e01_free prop=E01 reach=ok : 2 and 3 parties, all shares; every operation that needs no communication, single and batches of 0 to 3
// @entry vf_e01_input prop=E01 reach=ok : 2 and 3 parties, every owner, all inputs and random streams, batches of 1 to 3, two inputs in a row
// @entry vf_e01_gates prop=E01 reach=ok time=300: 2 and 3 parties, with and without composite tuples; every subset of {and, batch, composite, batch of composites, multiplication, batch of multiplications} scheduled twice or three times with different sizes (0 to 2), an immediate batch in between, then a second round; all shares and tuples
// @entry vf_e01_immediate prop=E01 reach=ok : 2 and 3 parties, immediate batches of 0 to 3 ands and multiplications, two in a row
// @entry vf_e01_empty prop=E01 reach=ok : 2 parties, with and without composite tuples; rounds in which every scheduled batch is empty, every subset of the kinds of batch
#include "engine_model.h"
using namespace em;
using VB = std::vector<bool>;
using VI = std::vector<uint64_t>;
// a shared vector: shares[party] and the recombined value
struct SB {
  std::vector<VB> s;
  VB v;
  SB(int p, size_t n) : s(p, VB(n)), v(n) {
    for (size_t i = 0; i < n; i++) for (int q = 0; q < p; q++) { s[q][i] = vf_bool("share"); v[i] = v[i] ^ s[q][i]; }
  }
};
struct SI {
  std::vector<VI> s;
  VI v;
  SI(int p, size_t n) : s(p, VI(n)), v(n) {
    for (size_t i = 0; i < n; i++) for (int q = 0; q < p; q++) { s[q][i] = vf_sym("share", 64); v[i] += s[q][i]; }
  }
};
static std::mutex g_m;
// results reported by the parties, recombined
struct OB {
  VB v; int n = 0;
  void add(const VB& x) { std::lock_guard<std::mutex> g(g_m); if (!n++) v = x; else { vf_check(v.size() == x.size(), "parties agree on the size"); for (size_t i = 0; i < v.size(); i++) v[i] = v[i] ^ x[i]; } }
  void add1(bool x) { add(VB{x}); }
};
struct OI {
  VI v; int n = 0;
  void add(const VI& x) { std::lock_guard<std::mutex> g(g_m); if (!n++) v = x; else { vf_check(v.size() == x.size(), "parties agree on the size"); for (size_t i = 0; i < v.size(); i++) v[i] += x[i]; } }
};
template <class F> static VB zip(const VB& a, const VB& b, F f) { VB r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = f((bool)a[i], (bool)b[i]); return r; }
static VB Xor(const VB& a, const VB& b) { return zip(a, b, [](bool x, bool y) { return x ^ y; }); }
static VB And(const VB& a, const VB& b) { return zip(a, b, [](bool x, bool y) { return x & y; }); }
static VI Mul(const VI& a, const VI& b) { VI r; for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] * b[i]); return r; }
static VI Add(const VI& a, const VI& b) { VI r; for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] + b[i]); return r; }
static VB Not(const VB& a) { VB r; for (bool x : a) r.push_back(!x); return r; }
static VI Neg(const VI& a) { VI r; for (auto x : a) r.push_back(0 - x); return r; }
extern "C" void vf_e01_free() {
  int p = vf_split("parties", 2, 3);
  size_t n = vf_split("size", 0, 3);
  SB a(p, n), b(p, n);
  SI x(p, n), y(p, n);
  VB pb; VI pi;
  for (size_t i = 0; i < n; i++) { pb.push_back(vf_bool("public")); pi.push_back(vf_sym("public", 64)); }
  OB o[6], u[6];
  OI q[4], w[4];
  engines(p, true, [&](int i, SecretShareEngine& e) {
    o[0].add(e.computeBatchSymmetricXOR(a.s[i], b.s[i]));
    o[1].add(e.computeBatchAsymmetricXOR(a.s[i], pb));
    o[2].add(e.computeBatchAsymmetricNOT(a.s[i]));
    o[3].add(e.computeBatchFreeAND(a.s[i], pb));
    vf_check(e.computeBatchSymmetricNOT(pb) == Not(pb), "not of a public value");
    vf_check(e.computeBatchSymmetricXOR(pb, pb) == Xor(pb, pb), "xor of public values");
    q[0].add(e.computeBatchSymmetricPlus(x.s[i], y.s[i]));
    q[1].add(e.computeBatchAsymmetricPlus(x.s[i], pi));
    q[2].add(e.computeBatchSymmetricNeg(x.s[i]));
    q[3].add(e.computeBatchFreeMult(x.s[i], pi));
    if (n > 1) {
      vf_check(vf_throws([&] { e.computeBatchSymmetricXOR(a.s[i], VB(n - 1)); }), "lengths differ");
      vf_check(vf_throws([&] { e.computeBatchAsymmetricXOR(a.s[i], VB(n - 1)); }), "lengths differ");
      vf_check(vf_throws([&] { e.computeBatchFreeAND(a.s[i], VB(n - 1)); }), "lengths differ");
      vf_check(vf_throws([&] { e.computeBatchSymmetricPlus(x.s[i], VI(n - 1)); }), "lengths differ");
      vf_check(vf_throws([&] { e.computeBatchAsymmetricPlus(x.s[i], VI(n - 1)); }), "lengths differ");
      vf_check(vf_throws([&] { e.computeBatchFreeMult(x.s[i], VI(n - 1)); }), "lengths differ");
    }
    if (n == 1) {
      u[0].add1(e.computeSymmetricXOR(a.s[i][0], b.s[i][0]));
      u[1].add1(e.computeAsymmetricXOR(a.s[i][0], pb[0]));
      u[2].add1(e.computeAsymmetricNOT(a.s[i][0]));
      u[3].add1(e.computeFreeAND(a.s[i][0], pb[0]));
      vf_check(e.computeSymmetricNOT(pb[0]) == !pb[0], "not of a public value");
      w[0].add({e.computeSymmetricPlus(x.s[i][0], y.s[i][0])});
      w[1].add({e.computeAsymmetricPlus(x.s[i][0], pi[0])});
      w[2].add({e.computeSymmetricNeg(x.s[i][0])});
      w[3].add({e.computeFreeMult(x.s[i][0], pi[0])});
    }
  });
  vf_check(o[0].v == Xor(a.v, b.v) && o[1].v == Xor(a.v, pb) && o[2].v == Not(a.v) && o[3].v == And(a.v, pb), "batches of booleans");
  vf_check(q[0].v == Add(x.v, y.v) && q[1].v == Add(x.v, pi) && q[2].v == Neg(x.v) && q[3].v == Mul(x.v, pi), "batches of integers");
  if (n == 1) {
    vf_check(u[0].v == Xor(a.v, b.v) && u[1].v == Xor(a.v, pb) && u[2].v == Not(a.v) && u[3].v == And(a.v, pb), "single booleans");
    vf_check(w[0].v == Add(x.v, y.v) && w[1].v == Add(x.v, pi) && w[2].v == Neg(x.v) && w[3].v == Mul(x.v, pi), "single integers");
  }
  vf_reach("ok");
}
extern "C" void vf_e01_input() {
  int p = vf_split("parties", 2, 3), owner = vf_split("owner", 0, p - 1);
  size_t n = vf_split("size", 1, 3);
  VB b; VI v;
  for (size_t i = 0; i < n; i++) { b.push_back(vf_bool("input")); v.push_back(vf_sym("input", 64)); }
  OB o[4]; OI q[4];
  int other = (owner + 1) % p;
  engines(p, false, [&](int i, SecretShareEngine& e) {
    bool mine = i == owner;
    if (mine) {
      vf_check(vf_throws([&] { e.setInput(owner, std::nullopt); }) && vf_throws([&] { e.setIntegerInput(owner, std::nullopt); }), "an input without a value is rejected");
      vf_check(vf_throws([&] { e.setBatchInput(owner, {}); }) && vf_throws([&] { e.setBatchIntegerInput(owner, {}); }), "an empty input is rejected");
    }
    o[0].add1(e.setInput(owner, mine ? std::optional<bool>(b[0]) : std::nullopt));
    o[1].add(e.setBatchInput(owner, mine ? b : VB(n)));
    o[2].add(e.setBatchInput(other, i == other ? b : VB(n)));
    o[3].add1(e.setInput(owner, mine ? std::optional<bool>(b[n - 1]) : std::nullopt));
    q[0].add({e.setIntegerInput(owner, mine ? std::optional<uint64_t>(v[0]) : std::nullopt)});
    q[1].add(e.setBatchIntegerInput(owner, mine ? v : VI(n)));
    q[2].add(e.setBatchIntegerInput(other, i == other ? v : VI(n)));
    q[3].add({e.setIntegerInput(owner, mine ? std::optional<uint64_t>(v[n - 1]) : std::nullopt)});
  });
  vf_check(o[0].v == VB{b[0]} && o[1].v == b && o[2].v == b && o[3].v == VB{b[n - 1]}, "shared booleans recombine");
  vf_check(q[0].v == VI{v[0]} && q[1].v == v && q[2].v == v && q[3].v == VI{v[n - 1]}, "shared integers recombine");
  vf_reach("ok");
}
extern "C" void vf_e01_immediate() {
  int p = vf_split("parties", 2, 3);
  bool comp = vf_split("composite", 0, 1);
  size_t n = vf_split("size", 0, 3);
  SB a(p, n), b(p, n);
  SI x(p, n), y(p, n);
  OB o[2]; OI q[2];
  engines(p, comp, [&](int i, SecretShareEngine& e) {
    o[0].add(e.computeBatchANDImmediately(a.s[i], b.s[i]));
    q[0].add(e.computeBatchMultImmediately(x.s[i], y.s[i]));
    o[1].add(e.computeBatchANDImmediately(b.s[i], a.s[i]));
    q[1].add(e.computeBatchMultImmediately(y.s[i], x.s[i]));
    vf_check(vf_throws([&] { e.computeBatchANDImmediately(a.s[i], VB(n + 1)); }) && vf_throws([&] { e.computeBatchMultImmediately(x.s[i], VI(n + 1)); }), "lengths differ");
  });
  vf_check(o[0].v == And(a.v, b.v) && o[1].v == o[0].v, "immediate ands");
  vf_check(q[0].v == Mul(x.v, y.v) && q[1].v == q[0].v, "immediate multiplications");
  vf_reach("ok");
}
// One round of gates: kind k is used when bit k of the mask is set. All operands are drawn before the parties start.
struct Round {
  int p;
  unsigned mask;
  struct G1 { SB a, b; };
  struct C1 { SB a, b; size_t n; };
  struct B1 { SB a; std::vector<SB> b; };
  struct M1 { SI a, b; };
  std::vector<G1> and1, batch;
  std::vector<C1> comp;
  std::vector<B1> bcomp;
  std::vector<M1> mult, bmult;
  std::vector<OB> oa, ob, oc;
  std::vector<std::vector<OB>> od;
  std::vector<OI> om, obm;
  Round(int p_, unsigned m) : p(p_), mask(m) {
    if (m & 1) for (int i = 0; i < 2; i++) and1.push_back({SB(p, 1), SB(p, 1)});
    if (m & 2) for (size_t s : {2, 0, 1}) batch.push_back({SB(p, s), SB(p, s)});
    if (m & 4) for (size_t s : {2, 1, 2}) comp.push_back({SB(p, 1), SB(p, s), s});
    if (m & 8) for (size_t w : {1, 2, 3}) { // (batch size, products): (2,1) (0,2) (1,2)
      size_t sz = w == 1 ? 2 : w == 2 ? 0 : 1, k = w == 1 ? 1 : 2;
      B1 g{SB(p, sz), {}};
      for (size_t j = 0; j < k; j++) g.b.emplace_back(p, sz);
      bcomp.push_back(g);
    }
    if (m & 16) for (int i = 0; i < 2; i++) mult.push_back({SI(p, 1), SI(p, 1)});
    if (m & 32) for (size_t s : {1, 0, 2}) bmult.push_back({SI(p, s), SI(p, s)});
    oa.resize(and1.size()); ob.resize(batch.size()); oc.resize(comp.size()); od.resize(bcomp.size()); om.resize(mult.size()); obm.resize(bmult.size());
    for (size_t i = 0; i < bcomp.size(); i++) od[i].resize(bcomp[i].b.size());
  }
  struct Ids { std::vector<uint32_t> a, b, c, d, m, bm; };
  void schedule(int i, SecretShareEngine& e, Ids& id) {
    for (size_t k = 0; k < 3; k++) { // interleave the kinds
      if (k < and1.size()) id.a.push_back(e.scheduleAND(and1[k].a.s[i][0], and1[k].b.s[i][0]));
      if (k < bmult.size()) id.bm.push_back(e.scheduleBatchMult(bmult[k].a.s[i], bmult[k].b.s[i]));
      if (k < batch.size()) id.b.push_back(e.scheduleBatchAND(batch[k].a.s[i], batch[k].b.s[i]));
      if (k < bcomp.size()) { std::vector<VB> r; for (auto& s : bcomp[k].b) r.push_back(s.s[i]); id.d.push_back(e.scheduleBatchCompositeAND(bcomp[k].a.s[i], r)); }
      if (k < comp.size()) id.c.push_back(e.scheduleCompositeAND(comp[k].a.s[i][0], comp[k].b.s[i]));
      if (k < mult.size()) id.m.push_back(e.scheduleMult(mult[k].a.s[i][0], mult[k].b.s[i][0]));
    }
  }
  void collect(int i, SecretShareEngine& e, Ids& id) {
    for (size_t k = 0; k < oa.size(); k++) oa[k].add1(e.getANDExecutionResult(id.a[k]));
    for (size_t k = 0; k < ob.size(); k++) ob[k].add(e.getBatchANDExecutionResult(id.b[k]));
    for (size_t k = 0; k < oc.size(); k++) oc[k].add(e.getCompositeANDExecutionResult(id.c[k]));
    for (size_t k = 0; k < od.size(); k++) {
      auto& r = e.getBatchCompositeANDExecutionResult(id.d[k]);
      vf_check(r.size() == od[k].size(), "one result per factor");
      for (size_t j = 0; j < r.size(); j++) od[k][j].add(r[j]);
    }
    for (size_t k = 0; k < om.size(); k++) om[k].add({e.getMultExecutionResult(id.m[k])});
    for (size_t k = 0; k < obm.size(); k++) obm[k].add(e.getBatchMultExecutionResult(id.bm[k]));
  }
  void check() {
    for (size_t k = 0; k < oa.size(); k++) vf_check(oa[k].v == And(and1[k].a.v, and1[k].b.v), "and");
    for (size_t k = 0; k < ob.size(); k++) vf_check(ob[k].v == And(batch[k].a.v, batch[k].b.v), "batch of ands");
    for (size_t k = 0; k < oc.size(); k++) vf_check(oc[k].v == And(VB(comp[k].n, comp[k].a.v[0]), comp[k].b.v), "composite and");
    for (size_t k = 0; k < od.size(); k++) for (size_t j = 0; j < od[k].size(); j++) vf_check(od[k][j].v == And(bcomp[k].a.v, bcomp[k].b[j].v), "batch of composite ands");
    for (size_t k = 0; k < om.size(); k++) vf_check(om[k].v == Mul(mult[k].a.v, mult[k].b.v), "multiplication");
    for (size_t k = 0; k < obm.size(); k++) vf_check(obm[k].v == Mul(bmult[k].a.v, bmult[k].b.v), "batch of multiplications");
  }
};
extern "C" void vf_e01_gates() {
  int p = vf_split("parties", 2, 3);
  bool comp = vf_split("composite", 0, 1);
  unsigned mask = vf_split("kinds", 0, 63);
  Round r1(p, mask), r2(p, mask ? 63 & ~(mask & (mask - 1)) : 63);
  SB ia(p, 2), ib(p, 2);
  OB oi;
  engines(p, comp, [&](int i, SecretShareEngine& e) {
    Round::Ids i1, i2;
    r1.schedule(i, e, i1);
    oi.add(e.computeBatchANDImmediately(ia.s[i], ib.s[i]));
    e.executeScheduledOperations();
    r1.collect(i, e, i1);
    r2.schedule(i, e, i2);
    e.executeScheduledOperations();
    r2.collect(i, e, i2);
    e.executeScheduledOperations(); // nothing scheduled
  });
  r1.check();
  r2.check();
  vf_check(oi.v == And(ia.v, ib.v), "immediate batch");
  vf_reach("ok");
}
extern "C" void vf_e01_empty() {
  bool comp = vf_split("composite", 0, 1);
  unsigned mask = vf_split("kinds", 1, 7);
  engines(2, comp, [&](int, SecretShareEngine& e) {
    for (int round = 0; round < 2; round++) {
      uint32_t b = 0, c = 0, m = 0;
      if (mask & 1) b = e.scheduleBatchAND({}, {});
      if (mask & 2) c = e.scheduleBatchCompositeAND({}, {{}, {}});
      if (mask & 4) m = e.scheduleBatchMult({}, {});
      e.executeScheduledOperations();
      if (mask & 1) vf_check(e.getBatchANDExecutionResult(b).empty(), "an empty batch");
      if (mask & 2) vf_check(e.getBatchCompositeANDExecutionResult(c) == std::vector<VB>(2), "empty batches");
      if (mask & 4) vf_check(e.getBatchMultExecutionResult(m).empty(), "an empty batch");
    }
  });
  vf_reach("ok");
}
