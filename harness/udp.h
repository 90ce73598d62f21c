// Common parts of the data processing harnesses: arbitrary cipher, MAC and system randomness, a store for files.
#pragma once
#ifndef UDP_REAL_AES
#include "aes_model.h"
#endif
#include "cmac_model.h"
#include "openssl_model.h"
#include "two_party.h"
#include <map>
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h"
#include "fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.h"
using namespace fbpcf::mpc_std_lib::unified_data_process::data_processor;
using Row = std::vector<unsigned char>;
using Rows = std::vector<Row>;
using Indexes = std::vector<uint64_t>;
#ifndef UDP_REAL_AES
namespace fbpcf::engine::util {
std::array<__m128i, 11> Aes::expandEncryptionKey(__m128i key) { // the first round key is the key
  std::array<__m128i, 11> r;
  r.fill(key);
  return r;
}
} // namespace fbpcf::engine::util
#endif
namespace udp {
inline std::map<std::string, std::string> g_files;
inline Row symRow(size_t w) { Row r(w); for (auto& b : r) b = vf_sym("data", 8); return r; }
inline Rows symRows(size_t n, size_t w) { Rows r; while (r.size() < n) r.push_back(symRow(w)); return r; }
inline __m128i block(const Row& b) { return _mm_loadu_si128((const __m128i*)b.data()); }
// indexes that differ, some only beyond 31 or 32 bits
inline uint64_t index(int i) { static const uint64_t t[] = {1, 0, 4294967297ull, 2147483648ull, 1ull << 40, 4294967296ull, 3}; return t[i]; }
} // namespace udp
namespace fbpcf::io { // files live in memory; reading goes by lines and ends each with a line feed
std::string FileIOWrappers::readFile(const std::string& p) {
  auto it = udp::g_files.find(p);
  if (it == udp::g_files.end()) throw std::runtime_error("no such file");
  return it->second + "\n";
}
void FileIOWrappers::writeFile(const std::string& p, const std::string& c) { udp::g_files[p] = c; }
} // namespace fbpcf::io
