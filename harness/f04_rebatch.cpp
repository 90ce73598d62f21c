// F04: joining batches and splitting them.
// @src fbpcf/scheduler/PlaintextScheduler.cpp fbpcf/scheduler/EagerScheduler.cpp fbpcf/scheduler/LazyScheduler.cpp fbpcf/scheduler/WireKeeper.cpp fbpcf/scheduler/gate_keeper/GateKeeper.cpp
// @entry vf_f04_bits prop=F04 reach=end : 1 to 3 batches of 0 to 3 bits, secret and public, three schedulers, every value; inputs directly or results of deferred work; joined, split the same way and split another way || 1 to 4 batches of 0 to 4
// @entry vf_f04_ints prop=F04 reach=end : 1 to 3 batches of 0 to 2 integers of 3 bits, signed and unsigned, three schedulers, every value || 0 to 3
// @entry vf_f04_strings prop=F04 reach=end : 1 to 3 batches of 0 to 2 strings of 0 to 2 bits, three schedulers, every value; strings of unequal length are rejected || 0 to 3
// @entry vf_f04_toomany prop=F04 reach=end : splits whose sizes exceed the batch (batches of 0 to 3, 1 to 3 parts), immediate schedulers
#include "schedulers.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
using namespace fbpcf::frontend;
using VB = std::vector<bool>;
using Sizes = std::vector<uint32_t>;
static Kind pickKind() { int i = vf_split("scheduler", 0, 2); return i == 0 ? Kind::Plain : i == 1 ? Kind::Eager : Kind::Lazy; }
template <class T> static T part(const T& v, size_t from, size_t n) { return T(v.begin() + from, v.begin() + from + n); }
static Sizes pickSizes(size_t maxParts, size_t maxSize) {
  Sizes s(vf_split("parts", 1, maxParts));
  for (auto& x : s) x = vf_split("size", 0, maxSize);
  return s;
}
template <bool Sec> auto val(const Bit<Sec, 0, true>& v) {
  if constexpr (Sec) return v.openToParty(0).getValue();
  else return v.getValue();
}
template <bool Sec> Bit<Sec, 0, true> mk(const VB& v) {
  if constexpr (Sec) return Bit<true, 0, true>(v, 0);
  else return Bit<false, 0, true>(v);
}
template <bool Sec> void bits() {
  Sizes sz = pickSizes(VF_THOROUGH ? 4 : 3, VF_THOROUGH ? 4 : 3);
  bool computed = vf_split("computed", 0, 1);
  std::vector<VB> a;
  std::vector<Bit<Sec, 0, true>> x;
  VB all;
  for (auto n : sz) {
    VB v(n);
    for (size_t i = 0; i < n; i++) v[i] = vf_bool("v");
    x.push_back(mk<Sec>(v));
    if (computed && n) {
      x.back() = !(x.back() & x.back());
      v.flip();
    }
    a.push_back(v);
    all.insert(all.end(), v.begin(), v.end());
  }
  auto joined = x.at(0).batchingWith(std::vector<Bit<Sec, 0, true>>(x.begin() + 1, x.end()));
  auto parts = joined.unbatching(std::make_shared<Sizes>(sz));
  vf_check(joined.getBatchSize() == all.size(), "size of the joined batch");
  vf_check(parts.size() == sz.size(), "number of parts");
  for (size_t i = 0; i < sz.size(); i++) {
    vf_check(parts[i].getBatchSize() == sz[i], "size of a part");
    vf_check(val<Sec>(parts[i]) == a[i], "a part is the original batch");
  }
  vf_check(val<Sec>(joined) == all, "the joined batch");
  uint32_t f = vf_split("first", 0, all.size());
  auto other = joined.unbatching(std::make_shared<Sizes>(Sizes{f, (uint32_t)all.size() - f}));
  vf_check(val<Sec>(other.at(0)) == part(all, 0, f) && val<Sec>(other.at(1)) == part(all, f, all.size() - f), "split another way");
  for (size_t i = 0; i < sz.size(); i++) vf_check(val<Sec>(x[i]) == a[i], "operands unchanged");
  if (f) vf_check(val<Sec>(!other.at(0)) == [&] { VB r = part(all, 0, f); r.flip(); return r; }(), "a part can be computed with");
  vf_reach("end");
}
extern "C" void vf_f04_bits() {
  useScheduler<0>(pickKind());
  if (vf_split("secret", 0, 1)) bits<true>();
  else bits<false>();
}
template <bool S, class V> void ints() {
  Sizes sz = pickSizes(3, VF_THOROUGH ? 3 : 2);
  using I = Int<S, 3, true, 0, true>;
  std::vector<I> x;
  std::vector<V> a;
  V all;
  for (auto n : sz) {
    V v(n);
    for (auto& e : v) e = vf_sym("v", 3) - (S ? 4 : 0);
    x.push_back(I(v, 0));
    a.push_back(v);
    all.insert(all.end(), v.begin(), v.end());
  }
  auto joined = x.at(0).batchingWith(std::vector<I>(x.begin() + 1, x.end()));
  vf_check(joined.getBatchSize() == all.size(), "size of the joined batch");
  auto parts = joined.unbatching(std::make_shared<Sizes>(sz));
  vf_check(parts.size() == sz.size(), "number of parts");
  for (size_t i = 0; i < sz.size(); i++) vf_check(parts[i].getBatchSize() == sz[i] && parts[i].openToParty(0).getValue() == a[i], "a part is the original batch");
  vf_check(joined.openToParty(0).getValue() == all, "the joined batch");
  if (all.size() && all.size() < 4) {
    auto s = joined + joined;
    V w = all;
    for (auto& e : w) e = S ? (((e + e) + 4) & 7) - 4 : (e + e) & 7;
    vf_check(s.openToParty(0).getValue() == w, "the joined batch can be computed with");
  }
  vf_reach("end");
}
extern "C" void vf_f04_ints() {
  useScheduler<0>(pickKind());
  if (vf_split("signed", 0, 1)) ints<true, std::vector<int64_t>>();
  else ints<false, std::vector<uint64_t>>();
}
extern "C" void vf_f04_strings() {
  useScheduler<0>(pickKind());
  size_t w = vf_split("width", 0, 2);
  if (vf_split("unequal", 0, 1)) {
    size_t w2 = vf_split("width2", 0, 2);
    if (w2 == w) vf_end_path();
    BitString<true, 0, true> p(std::vector<VB>(w, VB(1)), 0), q(std::vector<VB>(w2, VB(1)), 0);
    vf_check(vf_throws([&] { p.batchingWith({q}); }), "strings of unequal length are rejected");
    vf_reach("end");
    return;
  }
  Sizes sz = pickSizes(3, VF_THOROUGH ? 3 : 2);
  using S = BitString<true, 0, true>;
  std::vector<S> x;
  std::vector<std::vector<VB>> a;
  std::vector<VB> all(w);
  for (auto n : sz) {
    std::vector<VB> v(w, VB(n));
    for (size_t i = 0; i < w; i++) {
      for (size_t j = 0; j < n; j++) v[i][j] = vf_bool("v");
      all[i].insert(all[i].end(), v[i].begin(), v[i].end());
    }
    x.push_back(S(v, 0));
    a.push_back(v);
  }
  auto joined = x.at(0).batchingWith(std::vector<S>(x.begin() + 1, x.end()));
  vf_check(joined.size() == w, "length");
  auto parts = joined.unbatching(std::make_shared<Sizes>(sz));
  vf_check(parts.size() == sz.size(), "number of parts");
  for (size_t i = 0; i < sz.size(); i++) vf_check(parts[i].size() == w && parts[i].openToParty(0).getValue() == a[i], "a part is the original batch");
  vf_check(joined.openToParty(0).getValue() == all, "the joined batch");
  vf_reach("end");
}
extern "C" void vf_f04_toomany() {
  useScheduler<0>(vf_split("eager", 0, 1) ? Kind::Eager : Kind::Plain);
  size_t n = vf_split("n", 0, 3), sum = 0;
  Bit<true, 0, true> x(VB(n, true), 0);
  Sizes sz = pickSizes(3, 3);
  for (auto s : sz) sum += s;
  if (sum <= n) vf_end_path();
  vf_check(vf_throws([&] { x.unbatching(std::make_shared<Sizes>(sz)); }), "a split into more than the batch holds is rejected");
  vf_reach("end");
}
