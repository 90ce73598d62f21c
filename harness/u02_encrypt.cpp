// U02: encryption of rows for data processing.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/util.cpp fbpcf/primitive/mac/AesCmac.cpp fbpcf/primitive/mac/S2v.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
// @stubs archive
// @std 20
// @entry vf_u02_rows prop=U02 reach=ok time=200 : 1 to 3 rows of 1, 15, 16, 17 and 33 bytes, all contents, keys, nonces and an arbitrary cipher; any of 7 indexes from 0 to 2^40 for each row, up to 2 of them asked for in any order || up to 4 rows
// @entry vf_u02_rounds prop=U02 reach=ok time=200 : two batches in one go and two goes with the same objects, asking for rows that are sent in the same or a later go or never, all contents
// @entry vf_u02_counters prop=U02 reach=ok time=100 : 2 rows of 1, 2 and 3 blocks, every pair of different 32-bit indexes, every nonce: no counter is used twice; all counters of 0 to 4 blocks from every start
// @entry vf_u02_offset prop=U02 reach=ok time=100 : rows numbered from an offset, 1 to 3 rows of 1, 16 and 17 bytes, all contents, offsets 0, 1, 2^32
// @entry vf_u02_order prop=U02 reach=ok time=200 : every sequence of 4 calls of the six steps || 6 calls
// @entry vf_u02_reject prop=U02 reach=ok : rows of a width other than announced (first or later), no rows, too few or too many indexes
#include "udp.h"
using namespace udp;
static bool eq(const Row& a, const Row& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
static __m128i at(__m128i nonce, uint64_t i) { return _mm_set_epi64x(_mm_extract_epi64(nonce, 1), _mm_extract_epi64(nonce, 0) + i); }
static Row decrypt(const Row& c, __m128i key, __m128i nonce, uint64_t index) {
  Row r(c);
  uint64_t blocks = (c.size() + 15) / 16;
  for (size_t i = 0; i < c.size(); i++) {
    __m128i m = aesm::apply(key, at(nonce, index * blocks + i / 16));
    uint64_t half = i % 16 < 8 ? _mm_extract_epi64(m, 0) : _mm_extract_epi64(m, 1);
    r[i] ^= (uint8_t)(half >> 8 * (i % 8));
  }
  return r;
}
struct Sides {
  std::unique_ptr<UdpEncryption> a, b;
  std::vector<std::unique_ptr<fbpcf::engine::communication::IPartyCommunicationAgentFactory>> fac = mkFactories(2);
  Sides() { runTwo([&] { a = std::make_unique<UdpEncryption>(fac[0]->create(1, "t")); }, [&] { b = std::make_unique<UdpEncryption>(fac[1]->create(0, "t")); }); }
};
static size_t width() { static const size_t w[] = {1, 15, 16, 17, 33}; return w[vf_split("width", 0, 4)]; }
static Indexes distinct(size_t n) {
  Indexes r;
  while (r.size() < n) {
    uint64_t x = index(vf_split("index", 0, 6));
    for (auto y : r) if (x == y) vf_end_path();
    r.push_back(x);
  }
  return r;
}
extern "C" void vf_u02_rows() {
  size_t n = vf_split("rows", 1, VF_THOROUGH ? 4 : 3), w = n == 1 ? width() : 17;
  Rows rows = symRows(n, w);
  Indexes ids = n < 3 || VF_THOROUGH ? distinct(n) : Indexes{index(vf_split("index", 0, 1)), index(2), index(vf_split("index", 3, 6))}, want;
  size_t m = vf_split("wanted", 0, n < 2 ? n : 2);
  std::vector<size_t> which;
  while (which.size() < m) {
    size_t k = vf_split("which", 0, n - 1);
    if (which.size() && which[0] == k) vf_end_path();
    which.push_back(k);
    want.push_back(ids[k]);
  }
  Sides s;
  std::vector<__m128i> key;
  IUdpEncryption::EncryptionResults r;
  runTwo([&] { s.a->prepareToProcessMyData(w); s.a->processMyData(rows, ids); key = s.a->getExpandedKey(); },
         [&] { s.b->prepareToProcessPeerData(w, want); s.b->processPeerData(n); r = s.b->getProcessedData(); });
  vf_check(key.size() == 11, "an expanded key");
  vf_check(r.ciphertexts.size() == m && r.nonces.size() == m && r.indexes.size() == m, "as many rows as asked for");
  for (size_t i = 0; i < m; i++) {
    vf_check(r.indexes[i] == want[i], "the row asked for");
    vf_check(eq(decrypt(r.ciphertexts[i], key[0], r.nonces[i], want[i]), rows[which[i]]), "decrypts to the row");
  }
  vf_reach("ok");
}
extern "C" void vf_u02_rounds() {
  Sides s;
  int mode = vf_split("mode", 0, 3);
  for (int go = 0; go < 2; go++) {
    size_t w = go ? 3 : 17;
    Rows x = symRows(2, w), y = symRows(1, w);
    // rows 0, 1 then 2 in the first go; asked for: a row of each batch, and in the first go perhaps one never sent
    Indexes ix{index(go ? 4 : 0), index(2)}, iy{index(go ? 0 : 1)}, want{iy[0], ix[1]};
    if (!go && mode & 1) want.insert(want.begin(), index(4)); // sent in the second go only
    if (go && mode & 2) want = {index(4), index(0)};
    std::vector<__m128i> key;
    IUdpEncryption::EncryptionResults r;
    runTwo([&] { s.a->prepareToProcessMyData(w); s.a->processMyData(x, ix); s.a->processMyData(y, iy); key = s.a->getExpandedKey(); },
           [&] { s.b->prepareToProcessPeerData(w, want); s.b->processPeerData(2); s.b->processPeerData(1); r = s.b->getProcessedData(); });
    vf_check(r.ciphertexts.size() == want.size() && r.nonces.size() == want.size() && r.indexes.size() == want.size(), "as many rows as asked for");
    for (size_t i = 0; i < want.size(); i++) {
      const Row* row = want[i] == ix[0] ? &x[0] : want[i] == ix[1] ? &x[1] : want[i] == iy[0] ? &y[0] : nullptr;
      if (!row) continue; // never sent
      vf_check(r.indexes[i] == want[i], "the row asked for");
      vf_check(eq(decrypt(r.ciphertexts[i], key[0], r.nonces[i], want[i]), *row), "decrypts to the row");
    }
  }
  vf_reach("ok");
}
static bool differ(uint64_t a[2], uint64_t b[2]) { return ((a[0] ^ b[0]) | (a[1] ^ b[1])) != 0; }
extern "C" void vf_u02_counters() {
  if (vf_split("part", 0, 1)) {
    __m128i nonce = _mm_set_epi64x(vf_sym("nonce", 64), vf_sym("nonce", 64));
    uint64_t start = vf_sym("start", 64);
    size_t n = vf_split("n", 0, 4);
    auto r = UdpUtil::generateCounterBlocks(nonce, start, n);
    vf_check(r.size() == n, "as many as asked for");
    for (size_t i = 0; i < n; i++) {
      vf_check((uint64_t)_mm_extract_epi64(r[i], 0) == (uint64_t)_mm_extract_epi64(nonce, 0) + start + i, "counts from the start");
      vf_check(_mm_extract_epi64(r[i], 1) == _mm_extract_epi64(nonce, 1), "upper half of the nonce");
    }
  } else {
    size_t blocks = vf_split("blocks", 1, 3);
    Indexes ix{vf_sym("index", 32), vf_sym("index", 32)};
    vf_assume(ix[0] != ix[1]);
    Rows rows = symRows(2, blocks * 16 - (vf_split("short", 0, 1) ? 15 : 0));
    UdpUtil::localEncryption(rows, _mm_set_epi64x(5, vf_sym("key", 64)), ix);
    auto& c = aesm::g_calls;
    vf_check(c.size() == 2 * blocks, "one counter for each block");
    for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < i; j++) vf_check(differ(c[i].b, c[j].b), "no counter is used twice");
  }
  vf_reach("ok");
}
extern "C" void vf_u02_offset() {
  static const size_t ws[] = {1, 16, 17};
  static const uint64_t os[] = {0, 1, 1ull << 32};
  size_t n = vf_split("rows", 1, 3), w = ws[vf_split("width", 0, 2)];
  uint64_t off = os[vf_split("offset", 0, 2)];
  Rows rows = symRows(n, w);
  __m128i key = _mm_set_epi64x(vf_sym("key", 64), vf_sym("key", 64));
  auto [c, nonce] = UdpUtil::localEncryption(rows, key, off);
  vf_check(c.size() == n && nonce.size() == 16, "one row each");
  for (size_t i = 0; i < n; i++) vf_check(eq(decrypt(c[i], key, block(nonce), off + i), rows[i]), "decrypts to the row");
  vf_reach("ok");
}
struct Deaf final : fbpcf::engine::communication::IPartyCommunicationAgent { // takes anything, sends zeros
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  void recvImpl(void* d, int n) override { memset(d, 0, n); }
  void sendImpl(const void*, int) override {}
};
extern "C" void vf_u02_order() {
  UdpEncryption e(std::make_unique<Deaf>());
  bool mine = false, peer = false;
  aesm::g_mix = cmacm::g_fixed = true;
  for (int i = 0; i < (VF_THOROUGH ? 6 : 4); i++) {
    bool ok, threw;
    switch (vf_split("step", 0, 5)) {
      case 0: ok = !mine; mine = true; threw = vf_throws([&] { e.prepareToProcessMyData(2); }); break;
      case 1: ok = mine; threw = vf_throws([&] { e.processMyData({{1, 2}}, {7}); }); break;
      case 2: ok = mine; mine = false; threw = vf_throws([&] { e.getExpandedKey(); }); break;
      case 3: ok = !peer; peer = true; threw = vf_throws([&] { e.prepareToProcessPeerData(2, {0}); }); break;
      case 4: ok = peer; threw = vf_throws([&] { e.processPeerData(1); }); break;
      default: ok = peer; peer = false; threw = vf_throws([&] { e.getProcessedData(); });
    }
    vf_check(threw == !ok, "only in order");
  }
  vf_reach("ok");
}
extern "C" void vf_u02_reject() {
  UdpEncryption e(std::make_unique<Deaf>());
  aesm::g_mix = cmacm::g_fixed = true;
  e.prepareToProcessMyData(2);
  switch (vf_split("kind", 0, 4)) {
    case 0: vf_check(vf_throws([&] { e.processMyData({}, {}); }), "no rows"); break;
    case 1: vf_check(vf_throws([&] { e.processMyData({{1, 2}}, {}); }), "too few indexes"); break;
    case 2: vf_check(vf_throws([&] { e.processMyData({{1, 2}}, {1, 2}); }), "too many indexes"); break;
    case 3: { size_t w = vf_split("width", 0, 3); if (w != 2) vf_check(vf_throws([&] { e.processMyData({Row(w)}, {1}); }), "another width"); break; }
    default: { size_t w = vf_split("width", 0, 3); if (w != 2) vf_check(vf_throws([&] { e.processMyData({Row(2), Row(w)}, {1, 2}); }), "another width of a later row"); }
  }
  vf_reach("ok");
}
