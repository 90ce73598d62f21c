// I01: buffered reading.
// @src fbpcf/io/api/BufferedReader.cpp
// @entry vf_i01_read prop=I01 reach=end : block reads of every size 1 to 4 from sources of 0 to 5 bytes, chunk sizes 1 to 4, base reader returning any non-empty part of what was asked for, all contents || sources of 0 to 7 bytes
// @entry vf_i01_line prop=I01 reach=nl,last : line reads over sources of 0 to 4 bytes, every content, chunk sizes 1 to 4, likewise || 0 to 6 bytes
// @entry vf_i01_mixed prop=I01 reach=end : any mixture of block and line reads over sources of up to 4 bytes || 5 bytes
#include "vf.h"
#include "fbpcf/io/api/BufferedReader.h"
using namespace fbpcf::io;
struct Base : IReaderCloser {
  std::vector<char> d;
  size_t pos = 0;
  int* closed;
  bool partial;
  Base(std::vector<char> x, int* c, bool p) : d(x), closed(c), partial(p) {}
  int close() override { ++*closed; return 0; }
  size_t read(std::vector<char>& buf) override {
    vf_check(buf.size() > 0, "the base reader is asked for something");
    size_t k = std::min(buf.size(), d.size() - pos);
    vf_check(k > 0, "the base reader is not read past its end");
    if (partial && k > 1) k = vf_split("part", 1, k);
    for (size_t i = 0; i < k; i++) buf[i] = d[pos + i];
    pos += k;
    return k;
  }
  bool eof() override { return pos == d.size(); }
};
struct Model {
  std::vector<char> d;
  size_t pos = 0;
};
static std::vector<char> bytes(size_t n) {
  std::vector<char> d(n);
  for (auto& c : d) c = (char)vf_sym("byte", 8);
  return d;
}
static void block(BufferedReader& r, Model& m, size_t want) {
  std::vector<char> buf(want, 'q');
  bool end = m.pos == m.d.size();
  size_t got = 0;
  bool threw = vf_throws([&] { got = r.read(buf); });
  vf_check(threw == end, "reading past the end, and only that, is refused");
  if (threw) return;
  size_t e = std::min(want, m.d.size() - m.pos);
  vf_check(got == e && buf.size() == want, "number of bytes read");
  for (size_t i = 0; i < e; i++) vf_check(buf[i] == m.d[m.pos + i], "bytes read");
  m.pos += e;
}
static bool line(BufferedReader& r, Model& m) {
  bool end = m.pos == m.d.size();
  std::string s;
  bool threw = vf_throws([&] { s = r.readLine(); });
  vf_check(threw == end, "reading a line past the end, and only that, is refused");
  if (threw) return false;
  size_t n = s.size();
  vf_check(m.pos + n <= m.d.size(), "line within the source");
  for (size_t i = 0; i < n; i++) {
    vf_check(s[i] == m.d[m.pos + i], "bytes of a line");
    vf_check(s[i] != '\n', "a line holds no newline");
  }
  m.pos += n;
  bool nl = m.pos < m.d.size();
  if (nl) {
    vf_check(m.d[m.pos] == '\n', "a line ends at a newline or at the end");
    m.pos++;
  }
  return nl;
}
extern "C" void vf_i01_read() {
  int closed = 0;
  {
    Model m{bytes(vf_split("n", 0, VF_THOROUGH ? 7 : 5))};
    BufferedReader r(std::make_unique<Base>(m.d, &closed, true), vf_split("chunk", 1, 4));
    for (size_t k = 0; k <= m.d.size() + 1; k++) {
      vf_check(r.eof() == (m.pos == m.d.size()), "end of data exactly when everything was consumed");
      bool end = r.eof();
      block(r, m, vf_split("want", 1, 4));
      if (end) break;
    }
    vf_check(m.pos == m.d.size(), "everything is read");
    r.close();
  }
  vf_check(closed >= 1, "the base reader is closed");
  vf_reach("end");
}
extern "C" void vf_i01_line() {
  int closed = 0;
  Model m{bytes(vf_split("n", 0, VF_THOROUGH ? 6 : 4))};
  BufferedReader r(std::make_unique<Base>(m.d, &closed, true), vf_split("chunk", 1, 4));
  for (size_t k = 0; k <= m.d.size() + 1; k++) {
    vf_check(r.eof() == (m.pos == m.d.size()), "end of data exactly when everything was consumed");
    bool end = r.eof();
    if (line(r, m)) vf_reach("nl"); else if (!end) vf_reach("last");
    if (end) break;
  }
  vf_check(m.pos == m.d.size(), "everything is read");
}
extern "C" void vf_i01_mixed() {
  int closed = 0;
  Model m{bytes(vf_split("n", 1, VF_THOROUGH ? 5 : 4))};
  BufferedReader r(std::make_unique<Base>(m.d, &closed, VF_THOROUGH), vf_split("chunk", 1, 3));
  for (size_t k = 0; k <= m.d.size(); k++) {
    vf_check(r.eof() == (m.pos == m.d.size()), "end of data exactly when everything was consumed");
    if (r.eof()) break;
    if (vf_split("op", 0, 1)) line(r, m); else block(r, m, vf_split("want", 1, 3));
  }
  vf_check(m.pos == m.d.size(), "everything is read");
  vf_reach("end");
}
