// I04: file names and URIs. folly::Uri, RE2 and the cloud SDKs are modelled (stubs/io).
// @stubs io
// @src fbpcf/aws/S3Util.cpp fbpcf/gcp/GCSUtil.cpp fbpcf/io/FileManagerUtil.cpp fbpcf/io/LocalFileManager.cpp fbpcf/io/LocalInputStream.cpp fbpcf/io/S3FileManager.cpp fbpcf/io/S3InputStream.cpp fbpcf/io/cloud_util/CloudFileUtil.cpp fbpcf/io/cloud_util/S3Client.cpp fbpcf/io/cloud_util/S3FileReader.cpp fbpcf/io/cloud_util/S3FileUploader.cpp fbpcf/io/cloud_util/GCSFileReader.cpp fbpcf/io/cloud_util/GCSFileUploader.cpp fbpcf/exception/ExceptionBase.cpp
// @entry vf_i04_kind prop=I04 reach=cloud,local time=150 : every name of 0 to 9 characters, all contents, and those that begin with https://, s3:// or gs:// or all but one character of these || 0 to 11
// @entry vf_i04_s3 prop=I04 reach=ok time=200 : the three S3 forms, buckets of 1 to 3 and keys of 1 to 3 characters, all allowed characters, regions with two free characters || buckets to 4, keys to 4
// @entry vf_i04_gcs prop=I04 reach=ok time=200 : the four GCS forms, likewise
// @entry vf_i04_reject prop=I04 reach=ok time=150 : forms without bucket, key, region or with another host, all texts of the parts that remain up to 3 characters
// @entry vf_i04_client prop=I04 reach=ok time=200 : reading and writing through the reader, uploader and file manager chosen for each form, two regions, same object under each form
#include "vf.h"
#include <aws/s3/S3Client.h>
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/io/cloud_util/CloudFileUtil.h"
#include "fbpcf/io/cloud_util/S3Client.h"
using namespace fbpcf;
using io::IOUtils;
static bool starts(const std::string& s, const char* p) {
  size_t n = strlen(p);
  if (s.size() < n) return false;
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok &= s[i] == p[i];
  return ok;
}
static void kind(const std::string& s) {
  bool cloud = starts(s, "https://") | starts(s, "s3://") | starts(s, "gs://");
  vf_check(IOUtils::isCloudFile(s) == cloud, "names with a cloud scheme, and only they, are cloud files");
  vf_check(IOUtils::getDefaultReaderChunkSizeForFile(s) == (cloud ? (size_t)1 << 30 : 4096), "default chunk size for reading");
  vf_check(IOUtils::getDefaultWriterChunkSizeForFile(s) == (cloud ? 5u * 1024 * 1024 : 4096u), "default chunk size for writing");
  bool s3 = starts(s, "https://") | starts(s, "s3://");
  if (!starts(s, "gs://")) vf_check((io::getFileType(s) == io::FileType::S3) == s3, "kind of file manager");
  if (cloud) vf_reach("cloud"); else vf_reach("local");
}
extern "C" void vf_i04_kind() {
  static const char* const schemes[] = {"https://", "s3://", "gs://"};
  size_t w = vf_split("scheme", 0, 3);
  std::string s;
  if (w == 3) s.resize(vf_split("length", 0, VF_THOROUGH ? 11 : 9));
  else {
    s = schemes[w];
    size_t at = vf_split("changed", 0, s.size());
    std::string tail(vf_split("tail", 0, 2), 0);
    for (auto& c : tail) c = (char)vf_sym("char", 8);
    if (at < s.size()) s[at] = (char)vf_sym("char", 8);
    kind(s + tail);
    return;
  }
  for (auto& c : s) c = (char)vf_sym("char", 8);
  kind(s);
}
// a character of a bucket name, at an end or inside
static std::string bucketName(size_t n, bool underscore) {
  std::string b(n, 0);
  for (size_t i = 0; i < n; i++) {
    char c = (char)vf_sym("bucket", 8);
    bool ok = (c >= 'a' && c <= 'z') | (c >= '0' && c <= '9');
    if (i && i + 1 < n) ok |= (c == '.') | (c == '-') | (underscore & (c == '_'));
    vf_assume(ok);
    b[i] = c;
  }
  return b;
}
static std::string keyName(size_t n) {
  std::string k(n, 0);
  for (auto& c : k) { c = (char)vf_sym("key", 8); vf_assume(c > ' ' && c < 127 && c != '?' && c != '#'); }
  return k;
}
static void same(const std::string& a, const std::string& b, const char* what) {
  vf_check(a.size() == b.size(), what);
  for (size_t i = 0; i < a.size(); i++) vf_check(a[i] == b[i], what);
}
static std::string region() {
  std::string r = "us-aa-1";
  for (int i = 3; i < 5; i++) { char c = (char)vf_sym("region", 8); vf_assume((c >= 'a' && c <= 'z') | (c >= '0' && c <= '9')); r[i] = c; }
  return r;
}
extern "C" void vf_i04_s3() {
  std::string b = bucketName(vf_split("bucket length", 1, VF_THOROUGH ? 4 : 3), false), k = keyName(vf_split("key length", 1, VF_THOROUGH ? 4 : 3));
  size_t form = vf_split("form", 0, 2);
  std::string r = form == 2 ? "eu-west-9" : region();
  vfs::envRegion() = form == 2 ? "eu-west-9" : nullptr;
  std::string url = form == 0 ? "https://" + b + ".s3." + r + ".amazonaws.com/" + k : form == 1 ? "https://" + b + ".s3-" + r + ".amazonaws.com/" + k : "s3://" + b + "/" + k;
  auto ref = aws::uriToObjectReference(url);
  same(ref.bucket, b, "bucket"); same(ref.key, k, "key"); same(ref.region, r, "region");
  vf_check(cloudio::getCloudFileType(url) == cloudio::CloudFileType::S3, "kind of cloud");
  vf_check(cloudio::getCloudProviderString(url) == "AWS" && cloudio::getCloudStorageServiceString(url) == "S3", "name of the cloud");
  vf_check(IOUtils::isCloudFile(url) && io::getFileType(url) == io::FileType::S3, "a cloud file");
  vf_reach("ok");
}
extern "C" void vf_i04_gcs() {
  size_t form = vf_split("form", 0, 3);
  std::string b = bucketName(vf_split("bucket length", 1, VF_THOROUGH ? 4 : 3), form != 1), k = keyName(vf_split("key length", 1, VF_THOROUGH ? 4 : 3));
  std::string url = form == 0 ? "https://storage.cloud.google.com/" + b + "/" + k : form == 1 ? "https://" + b + ".storage.googleapis.com/" + k
      : form == 2 ? "https://storage.googleapis.com/" + b + "/" + k : "gs://" + b + "/" + k;
  auto ref = gcp::uriToObjectReference(url);
  same(ref.bucket, b, "bucket"); same(ref.key, k, "key");
  vf_check(cloudio::getCloudFileType(url) == cloudio::CloudFileType::GCS, "kind of cloud");
  vf_check(cloudio::getCloudProviderString(url) == "GCP" && cloudio::getCloudStorageServiceString(url) == "GCS", "name of the cloud");
  vf_check(IOUtils::isCloudFile(url), "a cloud file");
  vf_reach("ok");
}
extern "C" void vf_i04_reject() {
  size_t f = vf_split("form", 0, 17);
  std::string x = bucketName(vf_split("length", 1, 3), false);
  vfs::envRegion() = f == 17 ? nullptr : "eu-west-9";
  std::string url;
  bool s3 = true;
  switch (f) {
    case 0: url = "https://" + x + ".s3.us-west-2.amazonaws.com"; break;
    case 1: url = "https://" + x + ".s3-us-west-2.amazonaws.com/"; break;
    case 2: url = "s3://" + x; break;
    case 3: url = "s3://" + x + "/"; break;
    case 4: url = "s3:///" + x; break;
    case 5: url = "https://s3.us-west-2.amazonaws.com/" + x; break;
    case 6: url = "https://" + x + ".s3.amazonaws.com/key"; break;
    case 7: url = "https://" + x + "/key"; break;
    case 8: url = "https://.s3.us-west-2.amazonaws.com/" + x; break;
    case 9: s3 = false; url = "https://storage.cloud.google.com/" + x; break;
    case 10: s3 = false; url = "https://storage.googleapis.com/" + x + "/"; break;
    case 11: s3 = false; url = "https://" + x + ".storage.googleapis.com"; break;
    case 12: s3 = false; url = "https://" + x + ".storage.googleapis.com/"; break;
    case 13: s3 = false; url = "gs://" + x; break;
    case 14: s3 = false; url = "gs:///" + x; break;
    case 15: s3 = false; url = "https://storage.googleapis.com//" + x; break;
    case 16: s3 = false; url = "https://.storage.googleapis.com/" + x; break;
    case 17: url = "s3://" + x + "/key"; break;
  }
  bool threw = vf_throws([&] { if (s3) aws::uriToObjectReference(url); else gcp::uriToObjectReference(url); });
  vf_check(threw, "a form that names no bucket, key or region is rejected");
  vf_reach("ok");
}
static std::vector<char> vec(const std::string& s) { return std::vector<char>(s.begin(), s.end()); }
extern "C" void vf_i04_client() {
  vfs::reset();
  vfs::s3() = vfs::Cloud(); vfs::gcs() = vfs::Cloud();
  vfs::envRegion() = "eu-west-9";
  static const char* const s3urls[] = {"https://b.k.s3.eu-west-9.amazonaws.com/d/o", "https://b.k.s3-eu-west-9.amazonaws.com/d/o", "s3://b.k/d/o"};
  static const char* const gcsurls[] = {"https://storage.cloud.google.com/b.k/d/o", "https://b.k.storage.googleapis.com/d/o", "https://storage.googleapis.com/b.k/d/o", "gs://b.k/d/o"};
  bool s3 = vf_split("cloud", 0, 1);
  std::string w = s3 ? s3urls[vf_split("writing", 0, 2)] : gcsurls[vf_split("writing", 0, 3)], r = s3 ? s3urls[vf_split("reading", 0, 2)] : gcsurls[vf_split("reading", 0, 3)];
  std::string d(3, 0);
  for (auto& c : d) c = (char)vf_sym("byte", 8);
  { auto u = cloudio::getCloudFileUploader(w); auto b = vec(d); vf_check(u->upload(b) == 3 && u->complete() == 0, "uploading"); }
  auto& world = s3 ? vfs::s3() : vfs::gcs();
  vf_check(world.objects.size() == 1 && (s3 ? vfs::gcs() : vfs::s3()).calls.empty(), "one object in the right cloud");
  same(world.objects[0].bucket, "b.k", "bucket"); same(world.objects[0].key, "d/o", "key"); same(world.objects[0].data, d, "contents");
  auto reader = cloudio::getCloudFileReader(r);
  vf_check(reader->getFileContentLength(r) == 3, "length of an object");
  same(reader->readBytes(r, 1, 3), d.substr(1), "bytes of an object");
  if (s3) {
    for (auto& c : world.calls) same(c.region, "eu-west-9", "region of a request");
    std::string e(2, 0);
    for (auto& c : e) c = (char)vf_sym("byte", 8);
    auto m = io::getFileManager(r);
    m->write(r, e);
    same(io::read(w), e, "written through the file manager");
    same(m->readBytes(w, 0, 1), e.substr(0, 1), "range through the file manager");
    vfs::put("f", d);
    m->copy("f", w);
    same(io::read(r), d, "copied through the file manager");
    auto a = cloudio::S3Client::getInstance(aws::S3ClientOption{.region = "r1"}), b = cloudio::S3Client::getInstance(aws::S3ClientOption{.region = "r2"}), c = cloudio::S3Client::getInstance(aws::S3ClientOption{.region = "r1"});
    vf_check(a == c && a != b, "one client for each region");
    same(b->getS3Client()->config.region, "r2", "region of a client"); same(a->getS3Client()->config.region, "r1", "region of a client");
  } else {
    std::string other = "https://example.com/b.k/d/o";
    vf_check(vf_throws([&] { cloudio::getCloudFileReader(other); }) && vf_throws([&] { cloudio::getCloudFileUploader(other); }), "unknown stores are refused");
  }
  io::write("dir/local", d);
  same(io::read("dir/local"), d, "local files");
  vf_reach("ok");
}
