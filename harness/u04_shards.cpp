// U04: sharding of encryption results, and writing them to files.
// @src fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp fbpcf/engine/util/util.cpp fbpcf/primitive/mac/AesCmac.cpp fbpcf/primitive/mac/S2v.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
// @stubs archive
// @std 20
// @entry vf_u04_split prop=U04 reach=ok time=100 : totals of 0 to 9 rows of 0 to 2 bytes, 1 to 6 shards, all contents || totals to 20, 1 to 12 shards
// @entry vf_u04_sizes prop=U04 reach=ok time=200 : every total below 4096, 1 to 6 shards || every total of 16 bits, 1 to 8 shards
// @entry vf_u04_results prop=U04 reach=ok time=100 : 0 to 3 rows of 0 to 17 bytes, all contents, nonces and indexes, two files
// @entry vf_u04_key prop=U04 reach=ok : every expanded key, overwriting a file
#include "udp.h"
using namespace udp;
using Results = IUdpEncryption::EncryptionResults;
static __m128i symBlock(const char* n) { uint64_t a = vf_sym(n, 64), b = vf_sym(n, 64); return _mm_set_epi64x(a, b); }
static bool eq(__m128i a, __m128i b) { return (((uint64_t)_mm_extract_epi64(a, 0) ^ (uint64_t)_mm_extract_epi64(b, 0)) | ((uint64_t)_mm_extract_epi64(a, 1) ^ (uint64_t)_mm_extract_epi64(b, 1))) == 0; }
static Results any(size_t n, size_t w) {
  Results r;
  for (size_t i = 0; i < n; i++) {
    r.ciphertexts.push_back(symRow(w));
    r.nonces.push_back(symBlock("nonce"));
    r.indexes.push_back(vf_sym("index", 64));
  }
  return r;
}
static void same(const Results& got, size_t at, const Results& want, size_t from, size_t n) {
  for (size_t i = 0; i < n; i++) {
    auto &a = got.ciphertexts[at + i], &b = want.ciphertexts[from + i];
    bool e = a.size() == b.size();
    if (e) for (size_t j = 0; j < a.size(); j++) e &= a[j] == b[j];
    vf_check(e, "the row's ciphertext");
    vf_check(eq(got.nonces[at + i], want.nonces[from + i]), "the row's nonce");
    vf_check(got.indexes[at + i] == want.indexes[from + i], "the row's index");
  }
}
static void sizes(const Results& r, size_t n) { vf_check(r.ciphertexts.size() == n && r.nonces.size() == n && r.indexes.size() == n, "number of rows"); }
extern "C" void vf_u04_split() {
  size_t n = vf_split("rows", 0, VF_THOROUGH ? 20 : 9), k = vf_split("shards", 1, VF_THOROUGH ? 12 : 6);
  Results r = any(n, vf_split("width", 0, 2)), keep = r;
  auto s = splitEncryptionResults(r, k);
  vf_check(s.size() == k, "as many shards as asked for");
  size_t at = 0;
  for (size_t i = 0; i < k; i++) {
    size_t m = s[i].nonces.size();
    vf_check(m == n / k || m == (n + k - 1) / k, "shards are of nearly the same size");
    vf_check(m == getShardSize(n, i, k), "the size announced for the shard");
    sizes(s[i], m);
    vf_check(at + m <= n, "no row twice");
    same(s[i], 0, keep, at, m);
    at += m;
  }
  vf_check(at == n, "no row lost");
  sizes(r, n);
  same(r, 0, keep, 0, n);
  vf_reach("ok");
}
extern "C" void vf_u04_sizes() {
  uint64_t n = vf_sym("rows", VF_THOROUGH ? 16 : 12), k = vf_split("shards", 1, VF_THOROUGH ? 8 : 6), sum = 0;
  for (size_t i = 0; i < k; i++) {
    uint64_t m = getShardSize(n, i, k);
    vf_check(m * k < n + k && m * k + k > n, "shards are of nearly the same size");
    sum += m;
  }
  vf_check(sum == n, "sizes sum to the total");
  vf_reach("ok");
}
extern "C" void vf_u04_results() {
  Results a = any(vf_split("rows", 0, 3), vf_split("width", 0, 17)), b = any(1, 3);
  writeEncryptionResultsToFile(a, "a");
  writeEncryptionResultsToFile(b, "b");
  auto x = readEncryptionResultsFromFile("a"), y = readEncryptionResultsFromFile("b");
  sizes(x, a.nonces.size());
  same(x, 0, a, 0, a.nonces.size());
  sizes(y, 1);
  same(y, 0, b, 0, 1);
  vf_reach("ok");
}
extern "C" void vf_u04_key() {
  std::vector<__m128i> k;
  for (int go = 0; go < 2; go++) {
    k.clear();
    while (k.size() < 11) k.push_back(symBlock("key"));
    writeExpandedKeyToFile(k, "k");
  }
  auto r = readExpandedKeyFromFile("k");
  vf_check(r.size() == 11, "eleven round keys");
  for (size_t i = 0; i < 11; i++) vf_check(eq(r[i], k[i]), "round key");
  vf_reach("ok");
}
