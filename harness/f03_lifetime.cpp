// F03: lifetime of wires.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
// @entry vf_f03_plain prop=F03 time=400 reach=end : every history of 3 operations (copying, moving, assigning, to itself too, overwriting, computing, re-inputting, destroying) over 2 secret bits, immediate execution; storage checked after every step
// @entry vf_f03_lazy prop=F03 time=400 reach=end : the same under deferred execution, storage checked after forcing and at the end
// @entry vf_f03_three prop=F03 time=400 reach=end : 3 secret bits, histories of 2 operations, three schedulers || 3 operations
// @entry vf_f03_deep prop=F03 tier=thorough ttime=850 procs=8 reach=end : 2 secret bits, histories of 4 operations, three schedulers
// @entry vf_f03_batch prop=F03 time=400 reach=end : every history of 2 operations over 2 batches incl. joining and splitting, three schedulers || 3 operations
// @entry vf_f03_public prop=F03 reach=end : every history of 2 operations over 2 public bits, three schedulers || 3 operations
// @entry vf_f03_compound prop=F03 reach=end : histories of 2 operations over 2 integers and 2 bit strings (which hold several wires each), three schedulers || 3 operations
#include "schedulers.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
#include <memory>
using namespace fbpcf::frontend;
using namespace fbpcf::scheduler;
using VB = std::vector<bool>;
static int64_t liveWires = 0;
// Storage that never reuses an identifier and reports every misuse.
template <class T> class Watch final : public IAllocator<T> {
 public:
  uint64_t allocate(T&& v) override {
    items_.push_back(std::make_unique<T>(std::move(v)));
    liveWires++;
    return items_.size();
  }
  void free(uint64_t id) override {
    at(id);
    items_[id - 1].reset();
    liveWires--;
  }
  const T& get(uint64_t id) const override { return const_cast<Watch*>(this)->at(id); }
  T& getWritableReference(uint64_t id) override { return at(id); }
  bool isSafe() const override { return true; }

 private:
  T& at(uint64_t id) {
    vf_check(id >= 1 && id <= items_.size() && items_[id - 1] != nullptr, "a wire is used only while it is alive");
    return *items_[id - 1];
  }
  std::vector<std::unique_ptr<T>> items_;
};
struct Peek : IWireKeeper {
  template <class T, bool b> using R = WireRecord<T, b>;
};
static std::unique_ptr<IWireKeeper> watched() {
  return std::make_unique<WireKeeper>(std::make_unique<Watch<Peek::R<bool, false>>>(), std::make_unique<Watch<Peek::R<VB, true>>>(), std::make_unique<Watch<Peek::R<uint64_t, false>>>(), std::make_unique<Watch<Peek::R<std::vector<uint64_t>, true>>>());
}
static Kind kind;
static std::shared_ptr<IWireKeeper> keep;
static void start(Kind k) {
  kind = k;
  std::unique_ptr<IArithmeticScheduler> s;
  if (k == Kind::Plain) s = std::make_unique<PlaintextScheduler>(watched());
  else if (k == Kind::Eager) s = std::make_unique<EagerScheduler>(std::make_unique<IdealEngine>(), watched());
  else {
    keep = watched();
    s = std::make_unique<LazyScheduler>(std::make_unique<IdealEngine>(), keep, std::make_unique<GateKeeper>(keep));
  }
  SchedulerKeeper<0>::setScheduler(std::move(s));
}
static Kind pickKind() { int i = vf_split("scheduler", 0, 2); return i == 0 ? Kind::Plain : i == 1 ? Kind::Eager : Kind::Lazy; }
// run everything that is still deferred
static void force(int depth) {
  if (kind != Kind::Lazy) return;
  Bit<true, 0> z(true, 0);
  for (int i = 0; i < depth; i++) z = z & Bit<true, 0>(true, 0);
  z.openToParty(0).getValue();
}
// No handle is left; tell the storage that is still held.
static void finish() {
  if (kind == Kind::Lazy) {
    // what was never requested is dropped with the scheduler
    SchedulerKeeper<0>::freeScheduler();
    vf_check(liveWires == 0, "storage released once the scheduler is gone");
    keep.reset();
  } else vf_check(liveWires == 0, "storage released with the last handle");
  vf_reach("end");
}
template <bool Sec, bool Bt> auto val(const Bit<Sec, 0, Bt>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
template <bool Bt> using BT = std::conditional_t<Bt, VB, bool>;
template <bool Sec, bool Bt> Bit<Sec, 0, Bt> mk(const BT<Bt>& v) {
  if constexpr (Sec) return Bit<true, 0, Bt>(v, 0);
  else return Bit<false, 0, Bt>(v);
}
template <bool Sec> void history(int slots, int steps) {
  std::vector<std::unique_ptr<Bit<Sec, 0>>> h(slots);
  std::vector<int> id(slots, -1); // which value a handle refers to; -1: none
  std::vector<bool> v; // the values
  auto fresh = [&](bool x) { v.push_back(x); return (int)v.size() - 1; };
  auto distinct = [&] { int64_t n = 0; for (int i = 0; i < slots; i++) { bool first = id[i] >= 0; for (int j = 0; j < i; j++) if (id[j] == id[i]) first = false; n += first; } return n; };
  for (int i = 0; i < slots; i++) { bool x = vf_bool("in"); h[i] = std::make_unique<Bit<Sec, 0>>(mk<Sec, false>(x)); id[i] = fresh(x); }
  vf_check(liveWires == slots, "storage in use at the start");
  for (int t = 0; t < steps; t++) {
    int op = vf_split("op", 0, 8), i = t ? vf_split("i", 0, slots - 1) : 0, j = 0; // the handles are interchangeable at first
    if (op <= 6) j = vf_split("j", 0, slots - 1);
    bool hasI = id[i] >= 0, hasJ = id[j] >= 0;
    Bit<Sec, 0>&x = *h[i], &y = *h[j];
    switch (op) {
      case 0: x = y; id[i] = id[j]; break;
      case 1: x = std::move(y); if (i != j) id[i] = id[j]; else x = Bit<Sec, 0>(); id[j] = -1; break;
      case 2: { auto n = std::make_unique<Bit<Sec, 0>>(y); h[i] = std::move(n); id[i] = id[j]; } break;
      case 3: { auto n = std::make_unique<Bit<Sec, 0>>(std::move(y)); h[j] = std::make_unique<Bit<Sec, 0>>(); int k = id[j]; id[j] = -1; h[i] = std::move(n); id[i] = k; } break;
      case 4: if (!hasI || !hasJ) vf_end_path(); { bool r = v[id[i]] & v[id[j]]; x = x & y; id[i] = fresh(r); } break;
      case 5: if (!hasI || !hasJ) vf_end_path(); { bool r = v[id[i]] ^ !v[id[j]]; y = x ^ !y; id[j] = fresh(r); } break;
      case 6: if (!hasI || !hasJ) vf_end_path(); { std::vector<Bit<Sec, 0>> c{x, y}; bool r0 = v[id[j]] & v[id[i]], r1 = v[id[j]]; auto d = y & c; x = d.at(0); y = d.at(1); id[i] = fresh(r0); id[j] = fresh(r1); } break;
      case 7: { bool n = vf_bool("new"); if constexpr (Sec) x.privateInput(n, 0); else x.publicInput(n); id[i] = fresh(n); } break;
      default: x = Bit<Sec, 0>(); id[i] = -1;
    }
    if (kind != Kind::Lazy) vf_check(liveWires == distinct(), "storage in use is that of the values with a handle");
  }
  bool fwd = kind != Kind::Lazy || vf_split("read first", 0, 1);
  if (fwd) {
    for (int i = 0; i < slots; i++) if (id[i] >= 0) vf_check(val(*h[i]) == v[id[i]], "a value with a handle can be read");
    force(2 * steps + 2);
    vf_check(liveWires == distinct(), "storage in use is that of the values with a handle");
  }
  h.clear();
  finish();
}
extern "C" void vf_f03_plain() { start(vf_split("eager", 0, 1) ? Kind::Eager : Kind::Plain); history<true>(2, 3); }
extern "C" void vf_f03_lazy() { start(Kind::Lazy); history<true>(2, 3); }
extern "C" void vf_f03_three() { start(pickKind()); history<true>(3, VF_THOROUGH ? 3 : 2); }
extern "C" void vf_f03_deep() { start(pickKind()); history<true>(2, 4); }
extern "C" void vf_f03_public() { start(pickKind()); history<false>(2, VF_THOROUGH ? 3 : 2); }
extern "C" void vf_f03_batch() {
  start(pickKind());
  using X = Bit<true, 0, true>;
  {
    const int slots = 2, steps = VF_THOROUGH ? 3 : 2;
    std::vector<X> h(slots);
    std::vector<int> id(slots, -1);
    std::vector<VB> v;
    auto fresh = [&](VB x) { v.push_back(x); return (int)v.size() - 1; };
    auto distinct = [&] { return (int64_t)(id[0] >= 0) + (id[1] >= 0 && id[1] != id[0]); };
    for (int i = 0; i < slots; i++) { VB x{vf_bool("in"), vf_bool("in")}; h[i] = X(x, 0); id[i] = fresh(x); }
    for (int t = 0; t < steps; t++) {
      int op = vf_split("op", 0, 9), i = vf_split("i", 0, 1), j = vf_split("j", 0, 1);
      if ((op != 0 && op != 9) && (id[i] < 0 || id[j] < 0)) vf_end_path();
      VB a = id[i] >= 0 ? v[id[i]] : VB(), b = id[j] >= 0 ? v[id[j]] : VB(), r = a;
      if ((op == 1 || op == 2 || op == 8) && a.size() != b.size()) vf_end_path();
      X &x = h[i], &y = h[j];
      switch (op) {
        case 0: x = y; id[i] = id[j]; break;
        case 1: for (size_t q = 0; q < r.size(); q++) r[q] = a[q] & b[q]; x = x & y; id[i] = fresh(r); break;
        case 2: for (size_t q = 0; q < r.size(); q++) r[q] = a[q] ^ b[q]; y = x ^ y; id[j] = fresh(r); break;
        case 3: r.insert(r.end(), b.begin(), b.end()); x = x.batchingWith({y}); id[i] = fresh(r); break;
        case 4: if (r.size() < 2) vf_end_path(); { auto p = x.unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, (uint32_t)r.size() - 1})); x = p.at(0); y = std::move(p.at(1)); id[i] = fresh(VB(r.begin(), r.begin() + 1)); id[j] = fresh(VB(r.begin() + 1, r.end())); } break;
        case 5: std::swap(x, y); std::swap(id[i], id[j]); break;
        case 6: x.privateInput(VB(2, true), 0); id[i] = fresh(VB(2, true)); break;
        case 7: { X c(x); r.flip(); c = !c; y = c; id[j] = fresh(r); } break;
        case 8: { std::array<X, 2> c{x, y}; auto d = y & c; for (size_t q = 0; q < r.size(); q++) r[q] = a[q] & b[q]; x = d[0]; id[i] = fresh(r); } break;
        default: x = X(); id[i] = -1;
      }
      if (kind != Kind::Lazy) vf_check(liveWires == distinct(), "storage in use is that of the values with a handle");
    }
    if (kind != Kind::Lazy || vf_split("read first", 0, 1)) {
      for (int i = 0; i < slots; i++) if (id[i] >= 0) vf_check(val(h[i]) == v[id[i]], "a value with a handle can be read");
      force(2 * steps + 2);
      vf_check(liveWires == distinct(), "storage in use is that of the values with a handle");
    }
  }
  finish();
}
extern "C" void vf_f03_compound() {
  start(pickKind());
  using I = Int<true, 3, true, 0>;
  using S = BitString<true, 0>;
  const int steps = VF_THOROUGH ? 3 : 2;
  {
    std::vector<I> h(2);
    std::vector<S> g(2);
    int64_t v[2];
    VB s[2];
    for (int i = 0; i < 2; i++) {
      v[i] = (int64_t)vf_sym("int", 3) - 4;
      h[i] = I(v[i], 0);
      s[i] = VB{vf_bool("bit"), vf_bool("bit")};
      g[i] = S(s[i], 0);
    }
    auto wrap = [](int64_t x) { return (int64_t)(((uint64_t)x + 4) & 7) - 4; };
    for (int t = 0; t < steps; t++) {
      int op = vf_split("op", 0, 9), i = vf_split("i", 0, 1), j = vf_split("j", 0, 1);
      switch (op) {
        case 0: h[i] = h[j]; v[i] = v[j]; break;
        case 1: { I n(std::move(h[j])); h[j] = I(1, 0); int64_t k = v[j]; v[j] = 1; h[i] = std::move(n); v[i] = k; } break;
        case 2: std::swap(h[i], h[j]); std::swap(v[i], v[j]); break;
        case 3: { int64_t k = wrap(v[i] + v[j]); h[i] = h[i] + h[j]; v[i] = k; } break;
        case 4: { int64_t k = wrap(v[i] - v[j]); h[j] = h[i] - h[j]; v[j] = k; } break;
        case 5: g[i] = g[j]; s[i] = s[j]; break;
        case 6: { S n(std::move(g[j])); VB k = s[j]; g[j] = S(VB(2), 0); s[j] = VB(2); g[i] = std::move(n); s[i] = k; } break;
        case 7: std::swap(g[i], g[j]); std::swap(s[i], s[j]); break;
        case 8: { VB k = s[i]; for (int q = 0; q < 2; q++) k[q] = k[q] & s[j][q]; g[i] = g[i] & g[j]; s[i] = k; } break;
        default: { auto c = h[i] < h[j]; bool k = v[i] < v[j]; VB m = k ? s[j] : s[i]; g[i] = g[i].mux(c, g[j]); s[i] = m; }
      }
    }
    if (kind != Kind::Lazy || vf_split("read first", 0, 1)) for (int i = 0; i < 2; i++) {
      vf_check(h[i].openToParty(0).getValue() == v[i], "an integer with a handle can be read");
      vf_check(g[i].openToParty(0).getValue() == s[i], "a bit string with a handle can be read");
    }
  }
  finish();
}
