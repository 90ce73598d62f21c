// M07: codes of breakdown combinations. Hash tables use a hash that depends on the length of a key only.
// @stubs archive
// @flags -DVF_REAL_TOSTRING
// @src fbpcf/mpc_std_lib/oram/encoder/OramEncoder.cpp fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
// @entry vf_m07_single prop=M07 reach=ok,no time=100 : every single-value filter kind, column 0 to 3 of 0 to 3 columns, every 32-bit value and threshold
// @entry vf_m07_set prop=M07 reach=ok,no time=100 : both set filter kinds, sets of 0 to 2 values, column 0 to 3 of 0 to 3 columns, values of 5 bits at the bottom or top of 32 || sets of 0 to 3 values
// @entry vf_m07_codes prop=M07 reach=ok time=250 ttime=850 : 3 combinations of one value or 2 of two values, values among 1, 2, 11 and 12, in one or two batches, no or one filter of any kind, decoding directly or after saving the mapping || 3 combinations of 1 or 2 values among 8 of one or two digits
// @entry vf_m07_two prop=M07 reach=ok time=250 ttime=850 : 2 combinations of 2 values among 1, 2, 11 and 12 with two filters on different columns || 3 combinations
#include "vf.h"
#include <map>
#include <memory>
#include "fbpcf/mpc_std_lib/oram/encoder/IFilter.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
using namespace fbpcf::mpc_std_lib::oram;
using Row = std::vector<uint32_t>;
static std::string g_file;
namespace fbpcf::io {
std::string FileIOWrappers::readFile(const std::string&) { return g_file + "\n"; }
void FileIOWrappers::writeFile(const std::string&, const std::string& content) { g_file = content; }
} // namespace fbpcf::io
static bool holds(int kind, uint32_t v, uint32_t t) {
  switch (kind) {
    case 0: return v > t;
    case 1: return v < t;
    case 2: return v >= t;
    case 3: return v <= t;
    case 4: return v == t;
    default: return v != t;
  }
}
static const IFilter::FilterType kKinds[] = {IFilter::GT, IFilter::LT, IFilter::GTE, IFilter::LTE, IFilter::EQ, IFilter::NEQ, IFilter::SUBSET_OF, IFilter::NOT_SUBSET_OF};
static Row symRow(size_t n, int bits) {
  Row r(n);
  for (auto& x : r) x = (uint32_t)vf_sym("value", bits);
  return r;
}
extern "C" void vf_m07_single() {
  int kind = (int)vf_split("kind", 0, 7);
  size_t col = vf_split("column", 0, 3), n = vf_split("columns", 0, 3);
  uint32_t t = (uint32_t)vf_sym("threshold", 32);
  Row r = symRow(n, 32);
  std::unique_ptr<SingleValueFilter> f;
  bool threw = vf_throws([&] { f = std::make_unique<SingleValueFilter>(kKinds[kind], col, t); });
  vf_check(threw == (kind > 5), "only single-value kinds make a single-value filter");
  if (threw) return;
  bool got = false;
  threw = vf_throws([&] { got = f->apply(r); });
  vf_check(threw == (col >= n), "a filter of a missing column, and only that, is refused");
  if (threw) { vf_reach("no"); return; }
  vf_check(got == holds(kind, r[col], t), "result of a filter");
  vf_reach("ok");
}
extern "C" void vf_m07_set() {
  int kind = (int)vf_split("kind", 0, 7);
  size_t col = vf_split("column", 0, 3), n = vf_split("columns", 0, 3);
  Row set = symRow(vf_split("members", 0, VF_THOROUGH ? 3 : 2), 5), r = symRow(n, 5);
  int low = vf_split("high", 0, 1) ? 27 : 0;
  for (auto* l : {&set, &r}) for (auto& x : *l) x <<= low;
  std::unique_ptr<VectorValueFilter> f;
  bool threw = vf_throws([&] { f = std::make_unique<VectorValueFilter>(kKinds[kind], col, set); });
  vf_check(threw == (kind <= 5), "only set kinds make a set filter");
  if (threw) return;
  bool got = false;
  threw = vf_throws([&] { got = f->apply(r); });
  vf_check(threw == (col >= n), "a filter of a missing column, and only that, is refused");
  if (threw) { vf_reach("no"); return; }
  bool in = false;
  for (auto x : set) in |= x == r[col];
  vf_check(got == (kind == 6 ? in : !in), "result of a filter");
  vf_reach("ok");
}
static void run(const std::vector<Row>& rows, const std::vector<bool>& kept, std::unique_ptr<std::vector<std::unique_ptr<IFilter>>> filters) {
  vf_flat_hash = true;
  OramEncoder e(std::move(filters));
  size_t cut = vf_split("cut", 0, 1) ? 1 : rows.size();
  auto codes = e.generateORAMIndexes({rows.begin(), rows.begin() + cut});
  vf_check(codes.size() == cut, "one code for each combination");
  if (cut < rows.size()) {
    auto more = e.generateORAMIndexes({rows.begin() + cut, rows.end()});
    vf_check(more.size() == rows.size() - cut, "one code for each combination");
    codes.insert(codes.end(), more.begin(), more.end());
  }
  bool filtered = false;
  for (bool k : kept) filtered |= !k;
  for (size_t i = 0; i < rows.size(); i++) {
    vf_check(codes[i] < e.getOramSize(), "a code below the announced number of codes");
    for (size_t j = 0; j < i; j++) {
      bool alike = kept[i] && kept[j] ? rows[i] == rows[j] : !kept[i] && !kept[j];
      vf_check((codes[i] == codes[j]) == alike, "equal codes exactly for equal combinations, and one code for all that are filtered out");
    }
  }
  auto config = e.exportMappingConfig();
  if (VF_THOROUGH ? vf_split("saved", 0, 1) : cut == rows.size()) {
    config->writeMappingToFile("mapping");
    config = OramMappingConfig::readMappingFromFile("mapping");
  }
  OramDecoder d(std::move(config));
  auto back = d.decodeORAMIndexes(codes);
  vf_check(back.size() == rows.size(), "one combination for each code");
  for (size_t i = 0; i < rows.size(); i++) vf_check(kept[i] ? back[i] == rows[i] : back[i].empty(), "decoding a code");
  vf_check(vf_throws([&] { d.decodeORAMIndexes({e.getOramSize()}); }), "a code that was never given is refused");
  vf_reach("ok");
}
// values of one or two digits: 1, 2, 11, 12 (and 21, 22, 31, 32 in the thorough tier)
static uint32_t digits() {
  uint32_t v = (uint32_t)vf_sym("value", VF_THOROUGH ? 3 : 2), tens = v >> 1;
  return 1 + (v & 1) + (tens << 3) + (tens << 1);
}
static Row row(size_t n) {
  Row r(n);
  for (auto& x : r) x = (uint32_t)vf_concrete(digits()); // keys are case-split: their text is concrete
  return r;
}
extern "C" void vf_m07_codes() {
  std::vector<Row> rows;
  size_t cols = vf_split("columns", 1, 2), kRows = VF_THOROUGH ? 3 : 4 - cols;
  for (size_t i = 0; i < kRows; i++) rows.push_back(row(cols));
  auto filters = std::make_unique<std::vector<std::unique_ptr<IFilter>>>();
  std::vector<bool> kept(kRows, true);
  int kind = (int)vf_split("kind", 0, 4); // none, >, <=, in, not in
  if (kind) {
    uint32_t t = digits(), u = digits();
    size_t col = cols - 1;
    if (kind < 3) filters->push_back(std::make_unique<SingleValueFilter>(kind == 1 ? IFilter::GT : IFilter::LTE, col, t));
    else filters->push_back(std::make_unique<VectorValueFilter>(kind == 3 ? IFilter::SUBSET_OF : IFilter::NOT_SUBSET_OF, col, Row{t, u}));
    for (size_t i = 0; i < kRows; i++) {
      uint32_t v = rows[i][col];
      bool k = kind == 1 ? v > t : kind == 2 ? v <= t : kind == 3 ? v == t || v == u : v != t && v != u;
      kept[i] = k;
    }
  }
  run(rows, kept, std::move(filters));
}
extern "C" void vf_m07_two() {
  const size_t kRows = VF_THOROUGH ? 3 : 2;
  std::vector<Row> rows;
  for (size_t i = 0; i < kRows; i++) rows.push_back(row(2));
  auto filters = std::make_unique<std::vector<std::unique_ptr<IFilter>>>();
  uint32_t t = digits(), u = digits();
  filters->push_back(std::make_unique<SingleValueFilter>(IFilter::GTE, 0, t));
  filters->push_back(std::make_unique<SingleValueFilter>(IFilter::NEQ, 1, u));
  std::vector<bool> kept;
  for (auto& r : rows) kept.push_back(r[0] >= t && r[1] != u);
  run(rows, kept, std::move(filters));
}
