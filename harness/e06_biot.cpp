// E06: bidirectional oblivious transfer with chosen inputs.
// @src fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransfer.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_e06_bits prop=E06 reach=ok time=300: two transfers in two calls (0, 1 or 2 in the first), both directions at once; all inputs, choices, correlations, blocks and random choice bits || three transfers
// @entry vf_e06_ints prop=E06 reach=ok time=300: the same for 64-bit integers, 1 transfer in two calls || 2 transfers in two calls
// @entry vf_e06_dummy prop=E06 reach=ok : the insecure variant, bits and integers, 0 to 4 transfers, two calls
#include "aes_model.h"
#include "ot_model.h"
#include "openssl_model.h"
#include "two_party.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBidirectionObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h"
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
static const int NB = VF_THOROUGH ? 3 : 2, NI = VF_THOROUGH ? 2 : 1;
template <class T> struct In { std::vector<T> x0[2], x1[2]; std::vector<bool> c[2]; };
template <class T> T sym() { if constexpr (sizeof(T) == 1) return vf_bool("input"); else return vf_sym("input", 64); }
template <class T> In<T> mk(size_t n, bool split) {
  In<T> r;
  for (int p = 0; p < 2; p++)
    for (size_t i = 0; i < n; i++) { r.x0[p].push_back(sym<T>()); r.x1[p].push_back(sym<T>()); r.c[p].push_back(split ? vf_split("choose", 0, 1) : vf_bool("choose")); }
  return r;
}
template <class T> void verify(const In<T>& in, int me, const std::vector<T>& out) {
  vf_check(out.size() == in.c[me].size(), "one result per transfer");
  for (size_t i = 0; i < out.size(); i++) vf_check(out[i] == (in.c[me][i] ? in.x1[1 - me][i] : in.x0[1 - me][i]), "the chosen message of the other party");
}
template <class T> void run(std::vector<size_t> sizes, bool split) {
  std::vector<In<T>> in;
  size_t total = 0;
  for (auto n : sizes) { in.push_back(mk<T>(n, split)); total += n; }
  for (int p = 0; p < 2; p++) otm::prepare(p, total);
  auto fac = mkFactories(2);
  auto party = [&](int me) {
    ot::RcotBasedBidirectionObliviousTransfer t(fac[me]->create(1 - me, "t"), otm::dir(me).delta, std::make_unique<otm::Rcot>(me, true), std::make_unique<otm::Rcot>(1 - me, false));
    for (auto& x : in) verify<T>(x, me, t.biDirectionOT(x.x0[me], x.x1[me], x.c[me]));
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  for (int p = 0; p < 2; p++) vf_check(otm::dir(p).sent == total && otm::dir(p).got == total, "each transfer uses one correlated block of its own");
  vf_reach("ok");
}
extern "C" void vf_e06_bits() {
  size_t a = vf_split("n", 0, NB);
  run<bool>({a, NB - a}, true);
}
extern "C" void vf_e06_ints() {
  size_t a = vf_split("n", 0, NI);
  run<uint64_t>({a, NI - a}, true);
}
extern "C" void vf_e06_dummy() {
  size_t n = vf_split("n", 0, 4);
  auto a = mk<bool>(n, false), a2 = mk<bool>(n, false);
  auto b = mk<uint64_t>(n, true), b2 = mk<uint64_t>(1, true);
  auto fac = mkFactories(2);
  auto party = [&](int me) {
    ot::insecure::DummyBidirectionObliviousTransfer t(fac[me]->create(1 - me, "t"));
    verify<bool>(a, me, t.biDirectionOT(a.x0[me], a.x1[me], a.c[me]));
    verify<uint64_t>(b, me, t.biDirectionOT(b.x0[me], b.x1[me], b.c[me]));
    verify<uint64_t>(b2, me, t.biDirectionOT(b2.x0[me], b2.x1[me], b2.c[me]));
    verify<bool>(a2, me, t.biDirectionOT(a2.x0[me], a2.x1[me], a2.c[me]));
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  vf_reach("ok");
}
