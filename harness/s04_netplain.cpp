// S04: the plaintext scheduler between real parties.
// @src fbpcf/scheduler/NetworkPlaintextScheduler.cpp fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_s04_program prop=S04 reach=ok time=300: 2 and 3 parties, every program of 2 steps, each a private input or a recovery from shares of a bit, batch of bits (0, 3 or 9), integer or batch of integers (0 or 2), from every owner; then xor, and, not, plus, minus, times of the two values, opened to every party; all values and shares || programs of 3 steps
// @entry vf_s04_extract prop=S04 reach=ok : 2 and 3 parties, values extracted as shares recombine, and recovering them gives the value again; bits, integers and batches of 0 to 3
#include "netplain.h"
using namespace fbpcf::scheduler;
using B = IScheduler::WireId<IScheduler::Boolean>;
using A = IScheduler::WireId<IScheduler::Arithmetic>;
using VB = std::vector<bool>;
using VI = std::vector<uint64_t>;
static const int LEN = VF_THOROUGH ? 3 : 2;
struct Step { int kind; bool recover; int owner; size_t n; std::vector<VB> b; std::vector<VI> v; VB bx; VI vs; };
extern "C" void vf_s04_program() {
  int p = vf_split("parties", 2, 3);
  std::vector<Step> st(LEN);
  bool arena = vf_split("arena", 0, 1);
  int firstKind = -1;
  for (auto& s : st) {
    s.kind = firstKind < 0 ? vf_split("kind", 0, 3) : firstKind;
    firstKind = s.kind;
    int src = vf_split("source", 0, p);
    s.recover = src == p;
    s.owner = src;
    s.n = 1;
    if (s.kind == 1) s.n = (size_t[]){0, 3, 9}[vf_split("size", 0, 2)];
    if (s.kind == 3) s.n = (size_t[]){0, 2}[vf_split("size", 0, 1)];
    if (&s != &st[0]) s.n = st[0].n;
    s.b.assign(p, VB(s.n));
    s.v.assign(p, VI(s.n));
    s.bx.assign(s.n, false);
    s.vs.assign(s.n, 0);
    for (int q = 0; q < p; q++)
      for (size_t i = 0; i < s.n; i++) {
        if (s.recover || q == s.owner) { // what other parties pass for a private input does not matter
          s.b[q][i] = vf_bool("bit");
          s.v[q][i] = vf_sym("int", 64);
          s.bx[i] = s.bx[i] ^ s.b[q][i];
          s.vs[i] += s.v[q][i];
        }
      }
  }
  auto fac = mkFactories(p);
  std::vector<std::function<void()>> fs;
  for (int me = 0; me < p; me++)
    fs.push_back([&, me] {
      auto s = mkNetPlain(me, p, fac, arena);
      std::vector<B> b;
      std::vector<A> a;
      bool batch = st[0].kind & 1, ints = st[0].kind >= 2;
      for (auto& x : st) {
        if (!ints && !batch) b.push_back(x.recover ? s->recoverBooleanWire(x.b[me][0]) : s->privateBooleanInput(x.b[me][0], x.owner));
        if (!ints && batch) b.push_back(x.recover ? s->recoverBooleanWireBatch(x.b[me]) : s->privateBooleanInputBatch(x.b[me], x.owner));
        if (ints && !batch) a.push_back(x.recover ? s->recoverIntegerWire(x.v[me][0]) : s->privateIntegerInput(x.v[me][0], x.owner));
        if (ints && batch) a.push_back(x.recover ? s->recoverIntegerWireBatch(x.v[me]) : s->privateIntegerInputBatch(x.v[me], x.owner));
      }
      auto getB = [&](B w, int to) { return batch ? s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(w, to)) : VB{s->getBooleanValue(s->openBooleanValueToParty(w, to))}; };
      auto getA = [&](A w, int to) { return batch ? s->getIntegerValueBatch(s->openIntegerValueToPartyBatch(w, to)) : VI{s->getIntegerValue(s->openIntegerValueToParty(w, to))}; };
      for (int to = 0; to < p; to++) {
        for (int k = 0; k < LEN; k++) {
          if (ints) vf_check(getA(a[k], to) == st[k].vs, "opened integers");
          else vf_check(getB(b[k], to) == st[k].bx, "opened bits");
        }
        size_t n = st[0].n;
        auto& x = st[LEN - 2];
        auto& y = st[LEN - 1];
        VB xo(n), an(n), no(n);
        VI pl(n), mu(n), ne(n);
        for (size_t i = 0; i < n; i++) {
          xo[i] = x.bx[i] ^ y.bx[i]; an[i] = x.bx[i] & y.bx[i]; no[i] = !x.bx[i];
          pl[i] = x.vs[i] + y.vs[i]; mu[i] = x.vs[i] * y.vs[i]; ne[i] = 0 - x.vs[i];
        }
        if (ints) {
          A l = a[LEN - 2], r = a[LEN - 1];
          vf_check(getA(batch ? s->privatePlusPrivateBatch(l, r) : s->privatePlusPrivate(l, r), to) == pl, "sum");
          vf_check(getA(batch ? s->privateMultPrivateBatch(l, r) : s->privateMultPrivate(l, r), to) == mu, "product");
          vf_check(getA(batch ? s->negPrivateBatch(l) : s->negPrivate(l), to) == ne, "negation");
          if (batch) vf_check(s->getBatchSize(l) == n, "batch size");
        } else {
          B l = b[LEN - 2], r = b[LEN - 1];
          vf_check(getB(batch ? s->privateXorPrivateBatch(l, r) : s->privateXorPrivate(l, r), to) == xo, "xor");
          vf_check(getB(batch ? s->privateAndPrivateBatch(l, r) : s->privateAndPrivate(l, r), to) == an, "and");
          vf_check(getB(batch ? s->notPrivateBatch(l) : s->notPrivate(l), to) == no, "not");
          if (batch) vf_check(s->getBatchSize(l) == n, "batch size");
        }
      }
      // everything sent was also received: the totals of all links agree with what this program exchanges
      uint64_t sent = 0, recv = 0;
      for (auto& x : st) {
        size_t unit = x.kind == 0 ? 1 : x.kind == 1 ? (x.n + 7) / 8 : 8 * x.n;
        if (x.recover || x.owner == me) sent += unit * (p - 1);
        recv += x.recover ? unit * (p - 1) : x.owner == me ? 0 : unit;
      }
      vf_check(s->getTrafficStatistics() == std::pair<uint64_t, uint64_t>(sent, recv), "traffic");
    });
  runParties(fs);
  vf_reach("ok");
}
extern "C" void vf_s04_extract() {
  int p = vf_split("parties", 2, 3), owner = vf_split("owner", 0, p - 1);
  size_t n = vf_split("size", 0, 3);
  bool b = vf_bool("bit");
  uint64_t v = vf_sym("int", 64);
  VB bb; VI vv;
  for (size_t i = 0; i < n; i++) { bb.push_back(vf_bool("bit")); vv.push_back(vf_sym("int", 64)); }
  bool sb[3]; VB sbb[3]; uint64_t sv[3]; VI svv[3];
  auto fac = mkFactories(p);
  std::vector<std::function<void()>> fs;
  for (int me = 0; me < p; me++)
    fs.push_back([&, me] {
      auto s = mkNetPlain(me, p, fac);
      bool mine = me == owner;
      sb[me] = s->extractBooleanSecretShare(s->privateBooleanInput(mine && b, owner));
      sbb[me] = s->extractBooleanSecretShareBatch(s->privateBooleanInputBatch(mine ? bb : VB(n), owner));
      sv[me] = s->extractIntegerSecretShare(s->privateIntegerInput(mine ? v : 0, owner));
      svv[me] = s->extractIntegerSecretShareBatch(s->privateIntegerInputBatch(mine ? vv : VI(n), owner));
      vf_check(s->getBooleanValue(s->recoverBooleanWire(sb[me])) == b, "bit recovered");
      vf_check(s->getBooleanValueBatch(s->recoverBooleanWireBatch(sbb[me])) == bb, "bits recovered");
      vf_check(s->getIntegerValue(s->recoverIntegerWire(sv[me])) == v, "integer recovered");
      vf_check(s->getIntegerValueBatch(s->recoverIntegerWireBatch(svv[me])) == vv, "integers recovered");
    });
  runParties(fs);
  bool xb = false;
  VB xbb(n);
  uint64_t xv = 0;
  VI xvv(n);
  for (int q = 0; q < p; q++) {
    xb ^= sb[q];
    xv += sv[q];
    vf_check(sbb[q].size() == n && svv[q].size() == n, "sizes");
    for (size_t i = 0; i < n; i++) { xbb[i] = xbb[i] ^ sbb[q][i]; xvv[i] += svv[q][i]; }
  }
  vf_check(xb == b && xbb == bb && xv == v && xvv == vv, "extracted shares recombine");
  vf_reach("ok");
}
