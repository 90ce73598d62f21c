// E05: base oblivious transfer.
// @src fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransfer.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_e05_base prop=E05 reach=ok : 0 to 3 base transfers in each of two calls, with and without security; every choice, every random scalar, an arbitrary hash || up to 5
#include <immintrin.h>
#include "ec_model.h"
#include "two_party.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransferFactory.h"
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
static bool eq(__m128i a, __m128i b) { __m128i d = _mm_xor_si128(a, b); return !vf_concrete((_mm_extract_epi64(d, 0) | _mm_extract_epi64(d, 1)) != 0); }
static bool sameBlock(__m128i a, __m128i b) { return ecm::same(_mm_extract_epi64(a, 0), _mm_extract_epi64(b, 0)) && ecm::same(_mm_extract_epi64(a, 1), _mm_extract_epi64(b, 1)); }
extern "C" void vf_e05_base() {
  bool dummy = vf_split("dummy", 0, 1);
  const int N = VF_THOROUGH ? 5 : 3;
  std::vector<bool> choice[2];
  for (auto& c : choice) {
    c.resize(vf_split("n", 0, N));
    for (size_t i = 0; i < c.size(); i++) c[i] = vf_split("choice", 0, 1);
  }
  std::vector<__m128i> m0[2], m1[2], m[2];
  {
    auto fac = mkFactories(2);
    auto mk = [&](int me) -> std::unique_ptr<ot::IBaseObliviousTransfer> {
      if (dummy) return ot::insecure::DummyBaseObliviousTransferFactory().create(fac[me]->create(1 - me, "t"));
      return ot::NpBaseObliviousTransferFactory().create(fac[me]->create(1 - me, "t"));
    };
    auto a = mk(0), b = mk(1);
    runTwo([&] { for (int k = 0; k < 2; k++) { auto r = a->send(choice[k].size()); m0[k] = r.first, m1[k] = r.second; } },
           [&] { for (int k = 0; k < 2; k++) m[k] = b->receive(choice[k]); });
    vf_check(a->extractCommunicationAgent() != nullptr && b->extractCommunicationAgent() != nullptr, "the link can be taken over");
  }
  vf_check(ecm::g_objects == 0, "numbers and points are released");
  for (int k = 0; k < 2; k++) {
    vf_check(m0[k].size() == choice[k].size() && m1[k].size() == choice[k].size() && m[k].size() == choice[k].size(), "one pair per transfer");
    for (size_t i = 0; i < m[k].size(); i++) {
      vf_check(eq(m[k][i], choice[k][i] ? m1[k][i] : m0[k][i]), "the chosen message");
      vf_check(!sameBlock(m[k][i], choice[k][i] ? m0[k][i] : m1[k][i]), "the other message is a different one");
      if (!dummy) for (size_t j = 0; j < i; j++) vf_check(!sameBlock(m0[k][i], m0[k][j]) && !sameBlock(m1[k][i], m1[k][j]), "transfers have messages of their own");
    }
  }
  vf_reach("ok");
}
