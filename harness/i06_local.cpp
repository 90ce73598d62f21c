// I06: local files. Files and streams are modelled (stubs/io/vfs.h).
// @stubs io
// @src fbpcf/aws/S3Util.cpp fbpcf/gcp/GCSUtil.cpp fbpcf/io/cloud_util/CloudFileUtil.cpp fbpcf/io/cloud_util/S3Client.cpp fbpcf/io/cloud_util/S3FileReader.cpp fbpcf/io/cloud_util/S3FileUploader.cpp fbpcf/io/cloud_util/GCSFileReader.cpp fbpcf/io/cloud_util/GCSFileUploader.cpp fbpcf/io/api/CloudFileReader.cpp fbpcf/io/api/CloudFileWriter.cpp fbpcf/io/api/FileReader.cpp fbpcf/io/api/FileWriter.cpp fbpcf/io/api/BufferedReader.cpp fbpcf/io/api/BufferedWriter.cpp fbpcf/io/api/FileIOWrappers.cpp fbpcf/io/LocalFileManager.cpp fbpcf/io/LocalInputStream.cpp fbpcf/io/api/LocalFileReader.cpp fbpcf/io/api/LocalFileWriter.cpp fbpcf/exception/ExceptionBase.cpp
// @entry vf_i06_range prop=I06 reach=ok,no time=150 : files of 0 to 4 bytes, all contents, every range from 0 to 6 and ranges up to 2^64-1 || files of 0 to 8 bytes, ranges up to 10
// @entry vf_i06_manager prop=I06 reach=ok time=150 : writing 0 to 3 bytes to a new file or over one of 0 to 5 bytes, in no, an existing or a new directory, reading and copying it, missing files
// @entry vf_i06_reader prop=I06 reach=ok time=150 : files of 0 to 4 bytes, every sequence of 3 block reads of 0 to 5 bytes with tests for the end, all contents || files of 0 to 7 bytes
// @entry vf_i06_writer prop=I06 reach=ok,full time=150 : every sequence of 3 writes of 0 to 3 bytes and closing, new file or over one, in no, an existing or a new directory; devices with room for 0 to 9 bytes, noticed at once or on closing
// @entry vf_i06_wrappers prop=I06 reach=ok,full time=200 : whole-file reading, writing, copying in parts and comma-separated rows of files of 0 to 4 bytes, all contents; devices with room for 0 to 6 bytes, noticed at once or on closing || 0 to 5 bytes
// @entry vf_i06_full prop=I06 reach=ok,full time=150 : writing and copying 0 to 4 bytes to devices with room for 0 to 5 bytes, noticed at once or on closing
#include "vf.h"
#include <functional>
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
using namespace fbpcf;
static std::string bytes(size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = (char)vf_sym("byte", 8);
  return s;
}
static void same(const std::string& a, const std::string& b, const char* what) {
  vf_check(a.size() == b.size(), what);
  for (size_t i = 0; i < a.size(); i++) vf_check(a[i] == b[i], what);
}
static std::string place(size_t k) {
  if (k == 1) vfs::dirs().push_back("d");
  return k == 0 ? "f" : k == 1 ? "d/f" : k == 2 ? "x/y/f" : "/f";
}
extern "C" void vf_i06_range() {
  vfs::reset();
  size_t n = vf_split("length", 0, VF_THOROUGH ? 8 : 4), top = n + 2;
  std::string d = bytes(n);
  vfs::put("f", d);
  size_t start = vf_split("start", 0, top), end = vf_split("end", 0, top + 2);
  if (end == top + 1) end = (size_t)1 << 40;
  if (end == top + 2) end = (size_t)-1;
  LocalFileManager m;
  std::string got;
  bool threw = vf_throws([&] { got = m.readBytes("f", start, end); });
  bool bad = start > end || start > n;
  vf_check(threw == bad, "ranges that are inverted or start beyond the file, and only they, are rejected");
  if (threw) { vf_reach("no"); return; }
  same(got, d.substr(start, std::min(end, n) - start), "bytes of a range");
  vf_reach("ok");
}
extern "C" void vf_i06_manager() {
  vfs::reset();
  std::string name = place(vf_split("place", 0, 3));
  size_t old = vf_split("old", 0, 2);
  if (old && name != "x/y/f") vfs::put(name, bytes(old == 1 ? 1 : 5));
  std::string d = bytes(vf_split("length", 0, 3));
  LocalFileManager m;
  bool threw = vf_throws([&] { m.write(name, d); });
  vf_check(!threw, "writing a file");
  same(m.read(name), d, "a file holds what was written");
  same(m.readBytes(name, 0, d.size()), d, "all bytes of a file");
  m.copy(name, "z/copy");
  same(m.read("z/copy"), d, "a copy holds what was written");
  same(m.read(name), d, "copying leaves the original alone");
  auto s = m.getInputStream(name);
  std::string all;
  for (int c; (c = s->get().get()) >= 0;) all.push_back((char)c);
  same(all, d, "the stream of a file");
  std::string was = vfs::find(name)->data;
  vf_check(vf_throws([&] { m.read("missing"); }), "reading a missing file is refused");
  vf_check(vf_throws([&] { m.readBytes("missing", 0, 0); }), "reading a range of a missing file is refused");
  vf_check(vf_throws([&] { m.copy("missing", name); }), "copying a missing file is refused");
  same(vfs::find(name)->data, was, "a refused copy leaves the target alone");
  vf_reach("ok");
}
extern "C" void vf_i06_reader() {
  vfs::reset();
  size_t n = vf_split("length", 0, VF_THOROUGH ? 7 : 4), at = 0;
  std::string d = bytes(n);
  vfs::put("f", d);
  vf_check(vf_throws([&] { io::LocalFileReader r("missing"); }), "opening a missing file is refused");
  io::LocalFileReader r("f");
  vf_check(r.getFilePath() == "f", "path of the file");
  bool past = false; // a read has come up short: the stream takes no further reads
  for (int i = 0; i < 3; i++) {
    if (vf_split("ask", 0, 1)) vf_check(r.eof() == (at == n), "end of the file");
    size_t k = vf_split("count", 0, VF_THOROUGH ? 8 : 5), got = 0;
    if (k && at == n) { // nothing is left: either refused or nothing delivered
      std::vector<char> b(k, 'q');
      bool threw = vf_throws([&] { got = r.read(b); });
      vf_check(threw || got == 0, "nothing is read past the end");
      break;
    }
    if (!k && (past || at == n)) break;
    std::vector<char> b(k, 'q');
    got = r.read(b);
    size_t want = std::min(k, n - at);
    vf_check(got == want && b.size() == k, "number of bytes read");
    for (size_t j = 0; j < want; j++) vf_check(b[j] == d[at + j], "bytes read");
    for (size_t j = want; j < k; j++) vf_check(b[j] == 'q', "nothing else is changed");
    at += want;
    if (got < k) past = true;
  }
  vf_check(r.eof() == (at == n), "end of the file");
  r.close();
  vf_check(r.close() == 0, "closing again");
  vf_reach("ok");
}
extern "C" void vf_i06_writer() {
  vfs::reset();
  std::string name = place(vf_split("place", 0, 2)), all;
  if (vf_split("old", 0, 1) && name != "x/y/f") vfs::put(name, bytes(5));
  vfs::late() = vf_split("late", 0, 1);
  size_t room = vf_split("room", 0, VF_THOROUGH ? 10 : 4) * 3;
  if (!VF_THOROUGH && room > 9) room = 100;
  vfs::room() = room;
  bool refused = false;
  int rc = 0;
  {
    io::LocalFileWriter w(name);
    vf_check(w.getFilePath() == name, "path of the file");
    for (int i = 0; i < 3 && !refused; i++) {
      std::string part = bytes(vf_split("count", 0, 3));
      std::vector<char> b(part.begin(), part.end());
      size_t got = 0;
      refused = vf_throws([&] { got = w.write(b); });
      if (refused) break;
      vf_check(got == part.size(), "number of bytes written");
      all += part;
    }
    rc = w.close();
    vf_check(w.close() == 0, "closing again");
  }
  std::string& on = vfs::find(name)->data;
  if (!refused && rc == 0) { same(on, all, "a file holds what was written"); vf_reach("ok"); }
  else { vf_check(rc == 0 || rc == -1, "status of closing"); vf_check(room < 9, "writing fails on a full device only"); vf_reach("full"); }
}
extern "C" void vf_i06_full() {
  vfs::reset();
  vfs::late() = vf_split("late", 0, 1);
  std::string d = bytes(vf_split("length", 0, 4));
  vfs::room() = vf_split("room", 0, 5);
  bool enough = vfs::room() >= d.size(), copying = vf_split("copy", 0, 1);
  if (copying) vfs::put("g", d);
  LocalFileManager m;
  bool threw = vf_throws([&] { if (copying) m.copy("g", "t/f"); else m.write("t/f", d); });
  vf_check(threw == !enough, "writing to a full device, and only that, is reported");
  if (threw) { vf_reach("full"); return; }
  same(vfs::find("t/f")->data, d, "a file holds what was written");
  vf_reach("ok");
}

// the lines of a text: every newline ends one, as does the end of a text that does not end with one
static std::vector<std::string> lines(const std::string& d) {
  std::vector<std::string> out;
  std::string line;
  for (char c : d) if (c == '\n') { out.push_back(line); line.clear(); } else line.push_back(c);
  if (!d.empty() && d.back() != '\n') out.push_back(line);
  return out;
}
extern "C" void vf_i06_wrappers() {
  vfs::reset();
  using io::FileIOWrappers;
  size_t n = vf_split("length", 0, VF_THOROUGH ? 5 : 4), what = vf_split("what", 0, 3);
  std::string d = bytes(n), all;
  for (auto& l : lines(d)) all += l + "\n";
  if (what == 0) {
    vfs::put("f", d);
    same(FileIOWrappers::readFile("f"), all, "a file is read line by line");
    vf_check(vf_throws([&] { FileIOWrappers::readFile("missing"); }), "reading a missing file is refused");
  } else if (what == 1) {
    vfs::put("f", d);
    std::vector<std::vector<std::string>> rows, want;
    std::vector<std::string> head, expected = lines(d);
    bool threw = vf_throws([&] {
      FileIOWrappers::readCsv("f",
        [&](const std::vector<std::string>& h, const std::vector<std::string>& r) { vf_check(h == head, "every row comes with the header"); rows.push_back(r); },
        [&](const std::vector<std::string>& h) { head = h; });
    });
    vf_check(threw == (n == 0), "a file without a header, and only that, is refused");
    if (threw) return;
    vf_check(head == io::IOUtils::splitByComma(expected[0]), "the header");
    vf_check(rows.size() + 1 == expected.size(), "number of rows");
    for (size_t i = 0; i < rows.size(); i++) vf_check(rows[i] == io::IOUtils::splitByComma(expected[i + 1]), "a row");
  } else {
    bool late = vf_split("late", 0, 1);
    size_t room = vf_split("room", 0, 7);
    if (what == 2) vfs::put("g", "old contents");
    vfs::put("f", d);
    vfs::late() = late;
    vfs::room() = room == 7 ? 100 : room;
    const std::string& want = what == 2 ? d : all;
    bool enough = vfs::room() >= want.size();
    bool threw = vf_throws([&] { if (what == 2) FileIOWrappers::writeFile("g", d); else FileIOWrappers::transferFileInParts("f", "g"); });
    vf_check(threw == !enough, "a full device, and only that, is reported");
    if (threw) { vf_reach("full"); return; }
    same(vfs::find("g")->data, want, "a file holds what was written");
  }
  vf_reach("ok");
}
