// I05: comma-separated lines.
// @stubs io
// @src fbpcf/io/api/BufferedReader.cpp
// @entry vf_i05_split prop=I05 reach=ok time=150 : every line of 0 to 4 characters, all contents || 0 to 6
// @entry vf_i05_long prop=I05 reach=ok time=150 : lines of 5 to 9 characters, each of them a letter, a comma, a blank, a tab, a carriage return or any one byte at one place || 5 to 12
// @entry vf_i05_again prop=I05 reach=ok : splitting the same line twice, lines of 0 to 3 characters
#include "vf.h"
#include "fbpcf/io/api/IOUtils.h"
using fbpcf::io::IOUtils;
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::vector<std::string> expected(const std::string& s) {
  std::vector<std::string> f;
  size_t at = 0;
  for (size_t i = 0; i <= s.size(); i++)
    if (i == s.size() || s[i] == ',') {
      size_t b = at, e = i;
      while (b < e && blank(s[b])) b++;
      while (e > b && blank(s[e - 1])) e--;
      f.push_back(s.substr(b, e - b));
      at = i + 1;
    }
  return f;
}
static void same(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  vf_check(got.size() == want.size(), "one field per comma and one more");
  for (size_t i = 0; i < got.size(); i++) {
    vf_check(got[i].size() == want[i].size(), "length of a field");
    for (size_t j = 0; j < got[i].size(); j++) vf_check(got[i][j] == want[i][j], "text of a field");
  }
}
static std::string line(size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = (char)vf_sym("char", 8);
  return s;
}
extern "C" void vf_i05_split() {
  std::string s = line(vf_split("length", 0, VF_THOROUGH ? 6 : 4));
  auto want = expected(s);
  same(IOUtils::splitByComma(s), want);
  vf_reach("ok");
}
extern "C" void vf_i05_long() {
  size_t n = vf_split("length", 5, VF_THOROUGH ? 12 : 9);
  size_t at = vf_split("any", 0, n - 1), step = vf_split("pattern", 0, 4);
  static const char kinds[] = "a, \t,b \r,";
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = kinds[(i * (step + 1) + step) % 9];
  s[at] = (char)vf_sym("char", 8);
  if (at + 1 < n) s[at + 1] = (char)vf_sym("char", 8);
  auto want = expected(s);
  same(IOUtils::splitByComma(s), want);
  vf_reach("ok");
}
extern "C" void vf_i05_again() {
  std::string s = line(vf_split("length", 0, 3));
  auto want = expected(s);
  same(IOUtils::splitByComma(s), want);
  auto again = IOUtils::splitByComma(s);
  vf_check(again.size() >= 1 && again.size() == want.size(), "splitting again");
  same(again, want);
  vf_reach("ok");
}
