// E03: what one party sends, with the rest of the world arbitrary. A mask is fresh exactly when changing it changes one
// sent value and nothing else, and every sent value has a mask of its own; then any two secrets give the same
// distribution of messages.
// @src fbpcf/engine/SecretShareEngine.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/communication/SecretShareEngineCommunicationAgent.cpp
// @entry vf_e03_input prop=E03 reach=ok : 2 and 3 parties, any owner; single and batched boolean and integer inputs (1 to 3), all inputs, all streams, every byte of every stream changed in turn
// @entry vf_e03_gates prop=E03 reach=ok time=300: both party numbers of 2, with and without composite tuples, every subset of {2 ands, batches of 2 and 1, composites of 2, 1 and 2, batch of composites 2x2, 2 multiplications, batch of 2}, all shares, tuples and received messages, every tuple mask changed in turn
// @entry vf_e03_keys prop=E03 reach=ok : 2 to 4 parties: the seeds sent to the peers are drawn separately from the system's noise
#include "engine_model.h"
using namespace em;
using VB = std::vector<bool>;
using VI = std::vector<uint64_t>;
// a link to an arbitrary partner: what is sent is recorded, what is received is arbitrary (the same in every run)
struct Wire { std::vector<uint8_t> sent, in; size_t got = 0; };
class Spy final : public IPartyCommunicationAgent {
  Wire& w_;
 public:
  explicit Spy(Wire& w) : w_(w) {}
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {w_.sent.size(), w_.got}; }
 private:
  void sendImpl(const void* d, int n) override { auto* p = (const uint8_t*)d; w_.sent.insert(w_.sent.end(), p, p + n); }
  void recvImpl(void* d, int n) override {
    for (int i = 0; i < n; i++, w_.got++) {
      if (w_.in.size() <= w_.got) w_.in.push_back(vf_sym("received", 8));
      ((uint8_t*)d)[i] = w_.in[w_.got];
    }
  }
};
struct World {
  std::vector<Wire> w;
  int me, p;
  bool comp;
  size_t setup = 0; // bytes sent to each peer while keys are exchanged
  World(int me_, int p_, bool c) : w(p_), me(me_), p(p_), comp(c) {
    // the keys of the peers are concrete and distinct
    for (int q = 0; q < p; q++) for (int i = 0; i < 16; i++) w[q].in.push_back(i == 15 ? 0x77 : i == 0 ? q + 1 : 0);
  }
  template <class F> void run(F f) {
    g_draw = 0; // every run draws the same noise
    for (auto& x : w) { x.sent.clear(); x.got = 0; }
    std::map<int, std::unique_ptr<IPartyCommunicationAgent>> m;
    for (int q = 0; q < p; q++) if (q != me) m.emplace(q, std::make_unique<Spy>(w[q]));
    auto e = mkEngine(me, p, comp, std::move(m));
    setup = w[me ? 0 : 1].sent.size();
    f(*e);
  }
};
extern "C" void vf_e03_keys() {
  int p = vf_split("parties", 2, 4), me = vf_split("me", 0, p - 1);
  World w(me, p, false);
  w.run([](SecretShareEngine&) {});
  for (int q = 0; q < p; q++) {
    if (q == me) continue;
    vf_check(w.w[q].sent.size() == 16, "one seed for each peer");
    bool found = false;
    for (size_t o = 0; o + 16 <= g_randLog.size(); o += 16) found |= std::vector<uint8_t>(g_randLog.begin() + o, g_randLog.begin() + o + 16) == w.w[q].sent;
    vf_check(found, "the seed is system noise");
    for (int r = 0; r < q; r++) if (r != me) vf_check(w.w[r].sent != w.w[q].sent, "each peer has a seed of its own");
  }
  vf_reach("ok");
}
extern "C" void vf_e03_input() {
  int p = vf_split("parties", 2, 3), me = vf_split("me", 0, p - 1);
  size_t n = vf_split("size", 1, 3);
  VB b;
  VI v;
  for (size_t i = 0; i < n; i++) { b.push_back(vf_bool("input")); v.push_back(vf_sym("input", 64)); }
  struct Shares { VB b; VI v; };
  World w(me, p, false);
  int peer = me ? 0 : 1;
  size_t nb = 2 * n + 2, ni = nb;
  auto once = [&] {
    Shares r;
    auto addB = [&](const VB& x) { r.b.insert(r.b.end(), x.begin(), x.end()); };
    auto addV = [&](const VI& x) { r.v.insert(r.v.end(), x.begin(), x.end()); };
    w.run([&](SecretShareEngine& e) {
      r.b.push_back(e.setInput(me, b[0]));
      addB(e.setBatchInput(me, b));
      addB(e.setBatchInput(me, b));
      r.b.push_back(e.setInput(me, b[n - 1]));
      r.v.push_back(e.setIntegerInput(me, v[0]));
      addV(e.setBatchIntegerInput(me, v));
      addV(e.setBatchIntegerInput(me, v));
      r.v.push_back(e.setIntegerInput(me, v[n - 1]));
      // the partner's inputs: this party's share comes from the partner's stream
      auto pb = e.setBatchInput(peer, b);
      auto pv = e.setBatchIntegerInput(peer, v);
      vf_check(pb.size() == n && pv.size() == n, "sizes");
      r.b.insert(r.b.end(), pb.begin(), pb.end());
      r.v.insert(r.v.end(), pv.begin(), pv.end());
    });
    for (int q = 0; q < p; q++) if (q != me) vf_check(w.w[q].sent.size() == 16, "sharing an input sends nothing");
    return r;
  };
  Shares base = once();
  vf_check(base.b.size() == nb + n && base.v.size() == ni + n, "sizes");
  auto streams = g_stream; // what this run drew
  std::vector<int> bitMasks(base.b.size(), 0), intMasks(base.v.size(), 0);
  uint8_t delta = 1;
  vf_assume(delta & 1);
  for (auto& [key, bytes] : streams)
    for (size_t i = 0; i < bytes.size(); i++) {
      g_flip = {true, key, i, delta};
      Shares r = once();
      g_flip.on = false;
      int touched = 0;
      for (size_t k = 0; k < r.b.size(); k++) if (vf_concrete(r.b[k] != base.b[k])) { bitMasks[k]++; touched++; }
      for (size_t k = 0; k < r.v.size(); k++) if (vf_concrete(r.v[k] - base.v[k] != 0)) { intMasks[k]++; touched++; }
      vf_check(touched == 1, "a byte of a random stream masks one value only");
    }
  for (size_t k = 0; k < nb; k++) vf_check(bitMasks[k] == p - 1, "every shared bit has a mask of its own for each peer");
  for (size_t k = 0; k < ni; k++) vf_check(intMasks[k] == 8 * (p - 1), "every shared integer has a 64-bit mask of its own for each peer");
  for (size_t k = nb; k < bitMasks.size(); k++) vf_check(bitMasks[k] == 1, "a share of a peer's bit is a fresh random bit");
  for (size_t k = ni; k < intMasks.size(); k++) vf_check(intMasks[k] == 8, "a share of a peer's integer is a fresh random integer");
  vf_reach("ok");
}
extern "C" void vf_e03_gates() {
  int me = vf_split("me", 0, 1), peer = 1 - me;
  bool comp = vf_split("composite", 0, 1);
  unsigned mask = vf_split("kinds", 1, 63);
  VB s;
  VI v;
  for (int i = 0; i < 28; i++) s.push_back(vf_bool("share"));
  for (int i = 0; i < 8; i++) v.push_back(vf_sym("share", 64));
  World w(me, 2, comp);
  size_t nBits = 0, nInts = 0; // masked values expected
  if (mask & 1) nBits += 4;
  if (mask & 2) nBits += 6;
  if (mask & 4) nBits += comp ? 3 + 2 + 3 : 2 * 5;
  if (mask & 8) nBits += comp ? 2 * 3 : 2 * 4;
  if (mask & 16) nInts += 4;
  if (mask & 32) nInts += 4;
  auto once = [&] {
    w.run([&](SecretShareEngine& e) {
      if (mask & 1) { e.scheduleAND(s[0], s[1]); e.scheduleAND(s[2], s[3]); }
      if (mask & 16) { e.scheduleMult(v[0], v[1]); e.scheduleMult(v[2], v[3]); }
      if (mask & 4) { e.scheduleCompositeAND(s[10], {s[11], s[12]}); e.scheduleCompositeAND(s[13], {s[14]}); e.scheduleCompositeAND(s[15], {s[16], s[17]}); }
      if (mask & 2) { e.scheduleBatchAND({s[4], s[5]}, {s[6], s[7]}); e.scheduleBatchAND({s[8]}, {s[9]}); }
      if (mask & 8) e.scheduleBatchCompositeAND({s[18], s[19]}, {{s[20], s[21]}, {s[22], s[23]}});
      if (mask & 32) e.scheduleBatchMult({v[4], v[5]}, {v[6], v[7]});
      e.executeScheduledOperations();
    });
    return std::vector<uint8_t>(w.w[peer].sent.begin() + w.setup, w.w[peer].sent.end());
  };
  auto base = once();
  size_t bitBytes = (nBits + 7) / 8;
  vf_check(base.size() == bitBytes + 8 * nInts, "one opening of each masked value and nothing else");
  auto bitAt = [](const std::vector<uint8_t>& d, size_t i) { return (d[i / 8] >> (7 - i % 8)) & 1; };
  auto intAt = [&](const std::vector<uint8_t>& d, size_t i) { uint64_t x = 0; for (int k = 0; k < 8; k++) x |= (uint64_t)d[bitBytes + 8 * i + k] << (8 * k); return x; };
  std::vector<int> bitMasks(nBits, 0), intMasks(nInts, 0);
  size_t masks = 0;
  uint64_t delta = 0x9e3779b97f4a7c15;
  auto rows = g_comp;
  auto compare = [&](const std::vector<uint8_t>& d) {
    vf_check(d.size() == base.size(), "same length");
    int touched = 0;
    for (size_t k = 0; k < nBits; k++) if (vf_concrete(bitAt(d, k) != bitAt(base, k))) { bitMasks[k]++; touched++; }
    for (size_t k = 0; k < nInts; k++) if (uint64_t diff = intAt(d, k) - intAt(base, k); vf_concrete(diff != 0)) {
      intMasks[k]++;
      touched++;
      vf_check(diff == delta || diff == 0 - delta, "the mask is added");
    }
    for (size_t k = nBits; k < 8 * bitBytes; k++) vf_check(bitAt(d, k) == bitAt(base, k), "padding");
    vf_check(touched == 1, "a mask hides one sent value only");
    masks++;
  };
  for (auto& [kind, v2] : rows)
    for (size_t r = 0; r < v2.size(); r++)
      for (size_t c = 0; c < (kind ? kind + 1 : 2); c++) { g_tflip = {true, false, kind, r, c, 0}; compare(once()); }
  size_t nRows = g_int.size();
  for (size_t r = 0; r < nRows; r++)
    for (size_t c = 0; c < 2; c++) { g_tflip = {true, true, 0, r, c, delta}; compare(once()); }
  g_tflip.on = false;
  vf_check(masks == nBits + nInts, "as many masks as sent values");
  for (int x : bitMasks) vf_check(x == 1, "every sent bit has a mask of its own");
  for (int x : intMasks) vf_check(x == 1, "every sent integer has a mask of its own");
  vf_reach("ok");
}
