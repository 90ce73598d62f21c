// I03: cloud transfers. The cloud SDKs are modelled by an in-memory store with failures (stubs/io).
// @stubs io
// @src fbpcf/aws/S3Util.cpp fbpcf/gcp/GCSUtil.cpp fbpcf/io/cloud_util/CloudFileUtil.cpp fbpcf/io/cloud_util/S3Client.cpp fbpcf/io/cloud_util/S3FileReader.cpp fbpcf/io/cloud_util/S3FileUploader.cpp fbpcf/io/cloud_util/GCSFileReader.cpp fbpcf/io/cloud_util/GCSFileUploader.cpp fbpcf/io/api/CloudFileReader.cpp fbpcf/io/api/CloudFileWriter.cpp fbpcf/io/api/FileReader.cpp fbpcf/io/api/FileWriter.cpp fbpcf/io/api/LocalFileReader.cpp fbpcf/io/api/LocalFileWriter.cpp fbpcf/io/api/BufferedReader.cpp fbpcf/io/api/BufferedWriter.cpp fbpcf/io/S3FileManager.cpp fbpcf/io/S3InputStream.cpp fbpcf/io/GCSInputStream.cpp fbpcf/exception/ExceptionBase.cpp
// @entry vf_i03_read prop=I03 reach=end time=200 : objects of 0 to 4 bytes in either cloud, every sequence of 4 reads of 1 to 5 bytes, any one request failing, all contents || objects of 0 to 7 bytes, 5 reads
// @entry vf_i03_ranges prop=I03 reach=ok,no time=200 : every range from 0 to 6 of objects of 0 to 4 bytes, readers and file managers of either cloud
// @entry vf_i03_lines prop=I03 reach=end time=200 : lines of objects of 0 to 3 bytes in either cloud through a buffered reader, chunks of 1 to 4, all contents || 0 to 4 bytes
// @entry vf_i03_s3 prop=I03 reach=stored,failed time=200 : S3 uploads of 0 to 2 parts of 1 or 2 bytes, every pattern of up to 9 failing requests (parts, completion, abort), with a further part tried after a failure or not || 3 parts
// @entry vf_i03_gcs prop=I03 reach=stored,failed time=200 : the same for GCS
// @entry vf_i03_written prop=I03 reach=stored,failed time=200 : 0 to 5 bytes through a buffered writer with chunks of 1 to 3 to either cloud, every pattern in which a request fails for good, all contents
#include "vf.h"
#include <aws/s3/S3Client.h>
#include "fbpcf/exception/PcfException.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/CloudFileWriter.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/cloud_util/GCSFileReader.h"
#include "fbpcf/io/cloud_util/S3FileReader.h"
using namespace fbpcf;
static const char* const kS3 = "https://b.s3.eu-west-9.amazonaws.com/k";
static const char* const kGcs = "https://storage.googleapis.com/b/k";
static bool g_s3;
static const char* url() { return g_s3 ? kS3 : kGcs; }
static vfs::Cloud& world() { return g_s3 ? vfs::s3() : vfs::gcs(); }
static void begin() {
  vfs::reset();
  vfs::s3() = vfs::Cloud(); vfs::gcs() = vfs::Cloud();
  g_s3 = vf_split("cloud", 0, 1);
}
static std::string bytes(size_t n) {
  std::string s(n, 0);
  for (auto& c : s) c = (char)vf_sym("byte", 8);
  return s;
}
static void same(const std::string& a, const std::string& b, const char* what) {
  vf_check(a.size() == b.size(), what);
  for (size_t i = 0; i < a.size(); i++) vf_check(a[i] == b[i], what);
}
static size_t g_failing; // number of the request that fails
static bool nth(const char*, size_t k) { return k == g_failing; }
extern "C" void vf_i03_read() {
  begin();
  size_t n = vf_split("length", 0, VF_THOROUGH ? 7 : 4), at = 0;
  std::string d = bytes(n);
  world().store("b", "k", d);
  size_t reads = VF_THOROUGH ? 5 : 4;
  g_failing = vf_split("failing", 0, reads + 1);
  world().fails = nth;
  std::unique_ptr<io::FileReader> r;
  bool threw = vf_throws([&] { r = std::make_unique<io::FileReader>(url()); });
  vf_check(threw == (g_failing == 0), "a reader is made unless the length cannot be found out");
  if (threw) return;
  vf_check(r->getFilePath() == url(), "path of the file");
  for (size_t i = 0; i < reads; i++) {
    vf_check(r->eof() == (at == n), "end of the object");
    if (at == n) break;
    std::vector<char> b(vf_split("count", 1, VF_THOROUGH ? 8 : 5), 'q');
    size_t k = b.size(), got = 0, before = world().calls.size();
    bool refused = vf_throws([&] { got = r->read(b); });
    vf_check(world().calls.size() == before + 1, "one request for a read");
    vf_check(refused == (before == g_failing), "a failed request, and only that, is reported");
    if (refused) continue; // nothing is lost: the next read starts at the same place
    size_t want = std::min(k, n - at);
    vf_check(got == want && b.size() >= want, "number of bytes read");
    for (size_t j = 0; j < want; j++) vf_check(b[j] == d[at + j], "bytes read");
    at += want;
  }
  if (at == n) {
    vf_check(r->eof(), "end of the object");
    std::vector<char> b(2, 'q');
    size_t got = 0, before = world().calls.size();
    bool refused = vf_throws([&] { got = r->read(b); });
    vf_check(refused || got == (size_t)-1 || got == 0, "nothing is read past the end");
    vf_check(world().calls.size() == before, "no request past the end");
    vf_reach("end");
  }
  r->close();
}
extern "C" void vf_i03_ranges() {
  begin();
  size_t n = vf_split("length", 0, 4), start = vf_split("start", 0, 6), end = vf_split("end", 0, 6);
  std::string d = bytes(n), got;
  world().store("b", "k", d);
  bool manager = vf_split("manager", 0, 1);
  bool threw = vf_throws([&] {
    if (g_s3 && manager) { S3FileManager m(std::make_unique<Aws::S3::S3Client>()); got = m.readBytes(url(), start, end); }
    else if (g_s3) { cloudio::S3FileReader m(std::make_shared<Aws::S3::S3Client>()); got = m.readBytes(url(), start, end); }
    else if (manager) { GCSFileManager<google::cloud::storage::Client> m(std::make_shared<google::cloud::storage::Client>()); got = m.readBytes(url(), start, end); }
    else { cloudio::GCSFileReader m(std::make_shared<google::cloud::storage::Client>()); got = m.readBytes(url(), start, end); }
  });
  if (start < end && start < n) vf_check(!threw, "a range within the object is read");
  if (start > end) vf_check(threw, "an inverted range is refused");
  if (threw) { vf_reach("no"); return; }
  same(got, start < n ? d.substr(start, std::min(end, n) - start) : "", "bytes of a range");
  vf_reach("ok");
}
extern "C" void vf_i03_lines() {
  begin();
  size_t n = vf_split("length", 0, VF_THOROUGH ? 4 : 3), at = 0;
  std::string d = bytes(n);
  world().store("b", "k", d);
  io::BufferedReader r(std::make_unique<io::CloudFileReader>(url()), vf_split("chunk", 1, 4));
  while (at < n) {
    vf_check(!r.eof(), "not at the end yet");
    std::string s = r.readLine();
    vf_check(at + s.size() <= n, "line within the object");
    for (size_t i = 0; i < s.size(); i++) { vf_check(s[i] == d[at + i], "bytes of a line"); vf_check(s[i] != '\n', "a line holds no newline"); }
    at += s.size();
    vf_check(at == n || d[at] == '\n', "a line ends at a newline or the end");
    if (at < n) at++;
  }
  vf_check(r.eof(), "at the end");
  vf_reach("end");
}
// any request may fail, as the solver pleases; failing parts at most a given number of times in all
static int g_failures;
static bool any(const char* op, size_t) {
  if (std::string(op) == "create" || g_failures == 0) return false;
  if (!vf_split("fails", 0, 1)) return false;
  g_failures--;
  return true;
}
static void checkParts(const std::vector<std::string>& tried, const std::string& d, int rc, bool refused) {
  // the requests: one creation, then parts with consecutive numbers and the right bytes, then the end
  auto& calls = world().calls;
  vf_check(!calls.empty() && calls[0].op == "create", "an upload begins with its creation");
  std::string id = world().uploads[0].id;
  size_t part = 0, attempts = 0;
  for (size_t i = 1; i < calls.size(); i++) {
    auto& c = calls[i];
    vf_check(c.id == id, "requests of one upload");
    if (c.op == "abort") break; // what is sent after that has no effect
    if (c.op != "part") continue;
    if (g_s3) {
      bool again = part > 0 && (size_t)c.number == part;
      if (!again) { vf_check((size_t)c.number == part + 1, "parts are numbered consecutively"); part++; attempts = 0; }
      attempts++;
      vf_check(attempts <= 4, "a part is tried a bounded number of times");
    } else part++;
    if (part <= tried.size()) same(c.data, tried[part - 1], "bytes of a part");
  }
  auto* o = world().find("b", "k");
  vf_check((rc == 0) == (o != nullptr), "success is reported exactly if the object is there");
  if (rc == 0) {
    vf_check(!refused, "an upload with a failed part is not completed");
    same(o->data, d, "the object is what was uploaded");
    vf_reach("stored");
  } else vf_reach("failed");
}
static void upload(bool through) {
  size_t parts = vf_split("parts", 0, VF_THOROUGH ? 3 : 2);
  g_failures = 9;
  world().fails = any;
  std::vector<std::string> tried;
  std::string all;
  bool refused = false;
  int rc;
  {
    std::unique_ptr<io::CloudFileWriter> w;
    w = std::make_unique<io::CloudFileWriter>(url());
    vf_check(w->getFilePath() == url(), "path of the file");
    for (size_t i = 0; i < parts; i++) {
      std::string p = bytes(1 + i % 2);
      tried.push_back(p);
      std::vector<char> b(p.begin(), p.end());
      size_t k = w->write(b);
      vf_check(k == p.size() || k == 0, "a part is taken as a whole or not at all");
      if (k == 0) {
        refused = true;
        if (g_s3) {
          bool aborted = false;
          for (auto& c : world().calls) aborted |= c.op == "abort";
          vf_check(aborted, "an upload with a failed part is aborted");
        }
        if (vf_split("goon", 0, 1)) { std::vector<char> more(1, 'z'); w->write(more); } // not well-behaved, but must not hide the failure
        break;
      }
      all += p;
    }
    rc = w->close();
    vf_check(w->close() == 0, "closing again");
  }
  if (refused) vf_check(rc != 0, "an upload with a failed part is reported");
  if (parts > 0 || !g_s3 || rc == 0) checkParts(tried, all, rc, refused);
}
extern "C" void vf_i03_s3() { begin(); vf_assume(g_s3); upload(false); }
extern "C" void vf_i03_gcs() { begin(); vf_assume(!g_s3); upload(false); }
static size_t g_fromPart; // every attempt from this request on fails
static bool from(const char* op, size_t k) { return std::string(op) != "create" && k >= g_fromPart && std::string(op) == "part"; }
static bool last(const char* op, size_t) { return std::string(op) == "complete"; }
extern "C" void vf_i03_written() {
  begin();
  std::string d = bytes(vf_split("length", g_s3 ? 1 : 0, 5));
  size_t mode = vf_split("mode", 0, 2);
  g_fromPart = mode == 1 ? vf_split("from", 1, 3) : 0;
  world().fails = mode == 0 ? nullptr : mode == 1 ? from : last;
  bool threw = false;
  int rc = -7;
  {
    io::BufferedWriter w(std::make_unique<io::FileWriter>(url()), vf_split("chunk", 1, 3));
    threw = vf_throws([&] { w.writeString(d); rc = w.close(); });
  }
  auto* o = world().find("b", "k");
  vf_check((!threw && rc == 0) == (o != nullptr), "success is reported exactly if the object is there");
  if (o) { same(o->data, d, "the object is what was written"); vf_reach("stored"); }
  else { vf_check(mode != 0, "nothing fails by itself"); vf_reach("failed"); }
}
