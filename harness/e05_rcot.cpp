// E05: random correlated oblivious transfer: extension of base transfers, single and multi point transfers, extension.
// @src fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplier.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummySinglePointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMultiPointCot.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplier.cpp fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyRcotExtender.cpp fbpcf/engine/util/AesPrg.cpp fbpcf/engine/util/util.cpp fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
// @entry vf_e05_iknp prop=E05 reach=ok : successive requests of 0, 1, 127, 128, 129 or 130 correlated blocks (one or two); all streams; correlations of all ones, of the last bit alone, alternating and mixed, with every value of each single bit || two requests, every window of 4 bits of the correlation
// @entry vf_e05_single prop=E05 reach=ok : one and two successive single point transfers of 1, 2, 4, 8 places, with and without security: every correlation, base block, choice and random root || 16 and 32 places
// @entry vf_e05_multi prop=E05 reach=ok : multi point transfers of weight 1 to 3 over 1 to 4 places each, twice || up to 8 places
// @entry vf_e05_matrix prop=E05 reach=ok : every random stream, 1 to 3 results from 1 to 3 blocks with any top and bottom bit; a fixed stream, 0 to 9 results from 1 to 9 blocks of any value || 1 to 5 from 1 to 5; 0 to 17 from 1 to 17
// @entry vf_e05_extend prop=E05 reach=ok : extension of base blocks twice, secure and insecure parts in every combination, all blocks and correlations, the cipher an arbitrary function
// @entry vf_e05_rcot prop=E05 reach=ok : the buffered generator built by its factory over extension and over a trivial bootstrap: three requests of 0 to 13 out of 8 and 16 per extension, all blocks
#include <immintrin.h>
#include "engine_model.h"
#include "aes_model.h"
#include "ot_model.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/DummyBaseObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMatrixMultiplierFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummyRcotExtenderFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/DummySinglePointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtenderFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCotFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplierFactory.h"
// the C library's generator (insecure stand-ins draw places from it): a fixed sequence
extern "C" int rand() noexcept { static unsigned x = 7; x = x * 1103515245 + 12345; return x >> 8 & 0xffff; }
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
namespace fr = ot::ferret;
using Blocks = std::vector<__m128i>;
static uint64_t lo(__m128i x) { return _mm_extract_epi64(x, 0); }
static uint64_t hi(__m128i x) { return _mm_extract_epi64(x, 1); }
static bool eq(__m128i a, __m128i b) { __m128i d = _mm_xor_si128(a, b); return (lo(d) | hi(d)) == 0; }
static const __m128i zero = _mm_set_epi64x(0, 0);
// the relation of two correlated blocks
static void correlated(__m128i s, __m128i r, __m128i delta) {
  vf_check((lo(s) & 1) == 0, "the sender's block is even");
  uint64_t c = 0 - (lo(r) & 1);
  vf_check((((lo(s) ^ lo(r)) ^ (lo(delta) & c)) | ((hi(s) ^ hi(r)) ^ (hi(delta) & c))) == 0, "the receiver has the sender's block or its sum with the correlation, as its last bit says");
}
static void correlated(const Blocks& s, const Blocks& r, __m128i delta) {
  vf_check(s.size() == r.size(), "same number of blocks");
  for (size_t i = 0; i < s.size(); i++) correlated(s[i], r[i], delta);
}
// with everything concrete, blocks that come out equal were handed out twice
static void distinct(const Blocks& v) {
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) vf_check(!eq(v[i], v[j]), "no block is handed out twice");
}
extern "C" void vf_e05_iknp() {
  bool fixed = em::g_fixedStream = vf_split("fixed", 0, 1);
  static const size_t sizes[] = {0, 1, 127, 128, 129, 130};
  static const uint64_t pat[][2] = {{~0ull, ~0ull}, {1, 0}, {0xaaaaaaaaaaaaaaabull, 0xaaaaaaaaaaaaaaaaull}, {0x5555555555555555ull, 0x5555555555555555ull}, {0x0123456789abcdefull, 0xfedcba9876543210ull}};
  const int W = VF_THOROUGH ? 4 : 1;
  uint64_t d[2];
  size_t n[2] = {0, 0};
  if (!fixed && vf_split("kind", 0, 1)) { // every window of the correlation
    int at = vf_split("place", 0, 128 / W - 1) * W, p = vf_split("pattern", 0, 1);
    d[0] = pat[p][0], d[1] = pat[p][1];
    d[at / 64] = (d[at / 64] & ~(((1ull << W) - 1) << at % 64)) | (uint64_t)vf_split("window", 0, (1 << W) - 1) << at % 64;
    n[0] = 1;
  } else {
    int p = vf_split("pattern", 0, 4);
    d[0] = pat[p][0], d[1] = pat[p][1];
    n[0] = fixed ? 130 : sizes[vf_split("n", 0, 5)];
    if (fixed) n[1] = 5;
    else if (VF_THOROUGH || p == 4) n[1] = sizes[vf_split("n", 0, 5)];
  }
  __m128i delta = _mm_set_epi64x(d[1], d[0]);
  auto fac = mkFactories(2);
  std::unique_ptr<ot::IknpShRandomCorrelatedObliviousTransfer> s, r;
  auto base = [&](int me) { return ot::insecure::DummyBaseObliviousTransferFactory().create(fac[me]->create(1 - me, "t")); };
  if (!(d[0] & 1)) {
    vf_check(vf_throws([&] { ot::IknpShRandomCorrelatedObliviousTransfer x(delta, base(0), std::make_unique<em::PrgFactory>()); }), "an even correlation is refused");
    vf_reach("ok");
    return;
  }
  s = std::make_unique<ot::IknpShRandomCorrelatedObliviousTransfer>(delta, base(0), std::make_unique<em::PrgFactory>());
  r = std::make_unique<ot::IknpShRandomCorrelatedObliviousTransfer>(base(1), std::make_unique<em::PrgFactory>());
  Blocks a, b;
  runTwo([&] { for (auto k : n) { auto x = s->rcot(k); vf_check(x.size() == k, "as many blocks as requested"); a.insert(a.end(), x.begin(), x.end()); } },
         [&] { for (auto k : n) { auto x = r->rcot(k); vf_check(x.size() == k, "as many blocks as requested"); b.insert(b.end(), x.begin(), x.end()); } });
  correlated(a, b, delta);
  if (fixed) distinct(a);
  vf_reach("ok");
}
using Agent = std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgent>;
// base correlated blocks for a direction; choice bits are split into paths
static uint64_t draw = 10;
struct Base { Blocks s, r; std::vector<bool> c; };
static Base base(size_t n, __m128i delta, const std::vector<bool>* fixed = nullptr) {
  Base b;
  for (size_t i = 0; i < n; i++) {
    b.s.push_back(aesm::g_mix && otm::g_concrete ? _mm_set_epi64x(3 * draw, 2 * draw) : otm::symBlock("base", 0));
    draw++;
    b.c.push_back(fixed ? (*fixed)[i % fixed->size()] : vf_split("choice", 0, 1));
    b.r.push_back(b.c[i] ? _mm_xor_si128(b.s[i], delta) : b.s[i]);
  }
  return b;
}
static std::unique_ptr<fr::ISinglePointCotFactory> singleFactory(bool dummy) {
  if (dummy) return std::make_unique<fr::insecure::DummySinglePointCotFactory>(std::make_unique<em::PrgFactory>());
  return std::make_unique<fr::SinglePointCotFactory>();
}
extern "C" void vf_e05_single() {
  bool dummy = vf_split("dummy", 0, 1), fixed = !dummy && vf_split("fixed", 0, 1);
  aesm::g_mix = otm::g_concrete = fixed;
  __m128i delta = fixed ? _mm_set_epi64x(5, 7) : otm::symBlock("delta", 1);
  Agent ag[2];
  auto fac = mkFactories(2);
  for (int p = 0; p < 2; p++) ag[p] = fac[p]->create(1 - p, "t");
  auto s = singleFactory(dummy)->create(ag[0]), r = singleFactory(dummy)->create(ag[1]);
  vf_check(vf_throws([&] { s->senderInit(_mm_set_epi64x(5, 6)); }), "an even correlation is refused");
  s->senderInit(delta);
  r->receiverInit();
  std::vector<Base> bs;
  size_t depth = vf_split("depth", 0, VF_THOROUGH ? 5 : 3);
  bs.push_back(base(depth, delta));
  if (depth <= 2) bs.push_back(base(vf_split("depth", 0, 1), delta));
  std::vector<Blocks> a, b;
  runTwo([&] { for (auto& x : bs) { auto c = x.s; a.push_back(s->senderExtend(std::move(c))); } }, [&] { for (auto& x : bs) { auto c = x.r; b.push_back(r->receiverExtend(std::move(c))); } });
  for (size_t k = 0; k < bs.size(); k++) {
    size_t place = 0;
    for (bool c : bs[k].c) place = place << 1 | !c;
    vf_check(a[k].size() == (1u << bs[k].c.size()) && b[k].size() == a[k].size(), "a power of two places");
    correlated(a[k], b[k], delta);
    for (size_t i = 0; i < b[k].size(); i++) vf_check((lo(b[k][i]) & 1) == (i == place), "the chosen place alone has the correlation");
  }
  Blocks all;
  for (auto& x : a) all.insert(all.end(), x.begin(), x.end());
  if (fixed) distinct(all);
  vf_reach("ok");
}
static std::unique_ptr<fr::IMultiPointCotFactory> multiFactory(int kind) {
  if (kind == 2) return std::make_unique<fr::insecure::DummyMultiPointCotFactory>(std::make_unique<em::PrgFactory>());
  return std::make_unique<fr::RegularErrorMultiPointCotFactory>(singleFactory(kind == 1));
}
extern "C" void vf_e05_multi() {
  int kind = vf_split("kind", 0, 2);
  size_t weight = vf_split("weight", 1, 3), depth = vf_split("depth", 0, (VF_THOROUGH ? 3 : 2) - (weight == 3)), length = weight << depth;
  __m128i delta = otm::symBlock("delta", 1);
  Agent ag[2];
  auto fac = mkFactories(2);
  for (int p = 0; p < 2; p++) ag[p] = fac[p]->create(1 - p, "t");
  auto s = multiFactory(kind)->create(ag[0]), r = multiFactory(kind)->create(ag[1]);
  vf_check(vf_throws([&] { s->senderInit(_mm_set_epi64x(5, 6), length, weight); }), "an even correlation is refused");
  s->senderInit(delta, length, weight);
  r->receiverInit(length, weight);
  size_t need = s->getBaseCotNeeds();
  vf_check(need == (size_t)r->getBaseCotNeeds() && need == (kind == 2 ? 0 : weight * depth), "both need the same base blocks");
  std::vector<Base> bs;
  bs.push_back(base(need, delta));
  std::vector<bool> other;
  for (size_t i = 0; i < need; i++) other.push_back(!bs[0].c[i] ^ (i % 3 == 1));
  if (need) bs.push_back(base(need, delta, &other)); else bs.push_back(base(0, delta));
  std::vector<Blocks> a, b;
  runTwo([&] { for (auto& x : bs) { auto c = x.s; a.push_back(s->senderExtend(std::move(c))); } }, [&] { for (auto& x : bs) { auto c = x.r; b.push_back(r->receiverExtend(std::move(c))); } });
  for (size_t k = 0; k < bs.size(); k++) {
    vf_check(a[k].size() == length && b[k].size() == length, "as many blocks as the length");
    correlated(a[k], b[k], delta);
    size_t ones = 0;
    for (size_t w = 0; w < weight; w++) {
      size_t place = 0;
      for (size_t i = 0; i < depth; i++) place = place << 1 | (kind == 2 ? 0 : !bs[k].c[w * depth + i]);
      for (size_t i = 0; i < 1u << depth; i++) {
        bool one = vf_concrete(lo(b[k][(w << depth) + i]) & 1);
        ones += one;
        if (kind != 2) vf_check(one == (i == place), "one place in every section, at the place chosen by the base blocks");
      }
    }
    vf_check(ones == weight, "as many places with the correlation as the weight");
  }
  vf_reach("ok");
}
extern "C" void vf_e05_matrix() {
  bool any = vf_split("stream", 0, 1); // every stream, or a fixed stream and every block
  aesm::g_mix = !any;
  size_t n = any ? vf_split("source", 1, VF_THOROUGH ? 5 : 3) : vf_split("source", 1, VF_THOROUGH ? 17 : 9), len = any ? vf_split("results", 1, VF_THOROUGH ? 5 : 3) : vf_split("results", 0, VF_THOROUGH ? 17 : 9);
  // with every stream, two bits of each block have every value
  auto block = [&] { if (!any) return otm::symBlock("x"); return _mm_set_epi64x(vf_sym("x", 1) << 63 | 0x123456789abcdefull, vf_sym("x", 1) | 0x7edcba9876543210ull); };
  Blocks x, y, z;
  for (size_t i = 0; i < n; i++) { x.push_back(block()); y.push_back(block()); z.push_back(_mm_xor_si128(x[i], y[i])); }
  std::unique_ptr<fr::IMatrixMultiplier> m;
  if (vf_split("dummy", 0, 1)) m = fr::insecure::DummyMatrixMultiplierFactory().create();
  else m = fr::TenLocalLinearMatrixMultiplierFactory().create();
  __m128i seed = _mm_set_epi64x(3, 4);
  auto a = m->multiplyWithRandomMatrix(seed, len, x), b = m->multiplyWithRandomMatrix(seed, len, y), c = m->multiplyWithRandomMatrix(seed, len, z);
  vf_check(a.size() == len && b.size() == len && c.size() == len, "as many results as requested");
  for (size_t i = 0; i < len; i++) vf_check(eq(_mm_xor_si128(a[i], b[i]), c[i]), "the same linear map for everyone who has the seed");
  // even blocks give even results (what the sender relies on)
  for (auto& v : x) v = _mm_xor_si128(v, _mm_set_epi64x(0, lo(v) & 1));
  for (auto& v : m->multiplyWithRandomMatrix(seed, len, x)) vf_check((lo(v) & 1) == 0, "a sum of the source blocks");
  vf_reach("ok");
}
static std::unique_ptr<fr::IMatrixMultiplierFactory> matrixFactory(bool dummy) {
  if (dummy) return std::make_unique<fr::insecure::DummyMatrixMultiplierFactory>();
  return std::make_unique<fr::TenLocalLinearMatrixMultiplierFactory>();
}
static std::unique_ptr<fr::IRcotExtenderFactory> extenderFactory(int kind) { // 6: the insecure extender
  if (kind == 6) return std::make_unique<fr::insecure::DummyRcotExtenderFactory>();
  return std::make_unique<fr::RcotExtenderFactory>(matrixFactory(kind / 3), multiFactory(kind % 3));
}
extern "C" void vf_e05_extend() {
  aesm::g_mixNoise = true;
  int kind = vf_split("kind", 0, 6);
  size_t weight = vf_split("weight", 1, 2), size = 4 * weight, baseSize = vf_split("base", 3, 5);
  __m128i delta = otm::symBlock("delta", 1);
  auto fac = mkFactories(2);
  auto f = extenderFactory(kind), g = extenderFactory(kind);
  auto s = f->create(), r = g->create();
  size_t need = s->senderInit(delta, size, baseSize, weight), needR = r->receiverInit(size, baseSize, weight);
  vf_check(need == needR && (size_t)s->getBaseCotSize() == need && (size_t)r->getBaseCotSize() == need, "both need the same base blocks");
  s->setCommunicationAgent(fac[0]->create(1, "t"));
  r->setCommunicationAgent(fac[1]->create(0, "t"));
  std::vector<bool> choices;
  int c = vf_split("choices", 0, 15);
  for (int i = 0; i < 5; i++) choices.push_back(i == 4 ? 1 : c >> i & 1);
  for (int k = 0; k < 2; k++) {
    auto b = base(need, delta, &choices);
    Blocks x, y;
    runTwo([&] { auto t = b.s; x = s->senderExtendRcot(std::move(t)); }, [&] { auto t = b.r; y = r->receiverExtendRcot(std::move(t)); });
    vf_check(x.size() == size && y.size() == size, "as many blocks as the extended size");
    correlated(x, y, delta);
    choices.flip();
  }
  vf_reach("ok");
}
extern "C" void vf_e05_rcot() {
  aesm::g_mixNoise = true;
  int kind = vf_split("kind", 0, 1) * 6;
  size_t base = 3, weight = 2, size = kind ? 7 : 8 << vf_split("size", 0, 1);
  size_t n[3] = {(size_t)vf_split("n", 0, 13), (size_t)vf_split("n", 0, 2) * 3, 5};
  bool fixed = aesm::g_mix = otm::g_concrete = vf_split("fixed", 0, 1);
  __m128i delta = fixed ? _mm_set_epi64x(5, 7) : otm::symBlock("delta", 1);
  otm::g_fixedChoices = 6;
  auto fac = mkFactories(2);
  Blocks out[2];
  auto party = [&](int me) {
    ot::ExtenderBasedRandomCorrelatedObliviousTransferFactory f(std::make_unique<otm::RcotFactory>(me), extenderFactory(kind), size, base, weight);
    auto t = me ? f.create(fac[1]->create(0, "t")) : f.create(delta, fac[0]->create(1, "t"));
    for (auto k : n) {
      auto x = t->rcot(k);
      vf_check(x.size() == k, "as many blocks as requested");
      out[me].insert(out[me].end(), x.begin(), x.end());
    }
  };
  runTwo([&] { party(0); }, [&] { party(1); });
  correlated(out[0], out[1], delta);
  if (fixed && kind == 0) distinct(out[0]);
  vf_reach("ok");
}
