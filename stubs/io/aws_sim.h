// A model of the parts of the AWS SDK the code uses, over an in-memory store with a log of requests and injected failures.
#pragma once
#include <cstdlib>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "vfs.h"
namespace vfs {
inline std::string (*&regionOf())() { static std::string (*f)() = nullptr; return f; }
inline const char*& envRegion() { static const char* r = nullptr; return r; }
struct Part { long number; std::string etag, data; };
struct Upload { std::string bucket, key, id; std::vector<Part> parts; bool open = true, aborted = false, completed = false; };
struct Object { std::string bucket, key, data; };
struct Call { std::string op, bucket, key, id; long number = 0; std::string data, range, region; };
struct Cloud {
  std::vector<Object> objects;
  std::vector<Upload> uploads;
  std::vector<Call> calls;
  bool (*fails)(const char* op, size_t nth) = nullptr; // whether the nth request (of any kind) fails
  Object* find(const std::string& b, const std::string& k) { for (auto& o : objects) if (o.bucket == b && o.key == k) return &o; return nullptr; }
  void store(const std::string& b, const std::string& k, const std::string& d) { if (auto o = find(b, k)) o->data = d; else objects.push_back({b, k, d}); }
  bool call(Call c) { calls.push_back(c); return !(fails && fails(c.op.c_str(), calls.size() - 1)); }
};
inline Cloud& s3() { static Cloud c; return c; }
inline Cloud& gcs() { static Cloud c; return c; }
} // namespace vfs
namespace std {
inline char* vf_getenv(const char* n) { return std::string(n) == "AWS_DEFAULT_REGION" ? const_cast<char*>(vfs::envRegion()) : nullptr; }
}
#define getenv vf_getenv
namespace Aws {
using String = std::string;
template <class T> using Vector = std::vector<T>;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template <class T, class... A> std::shared_ptr<T> MakeShared(const char*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
struct SDKOptions {};
inline void InitAPI(const SDKOptions&) {}
inline void ShutdownAPI(const SDKOptions&) {}
namespace Http { enum class Scheme { HTTP, HTTPS }; }
namespace Client { struct ClientConfiguration { String region, proxyHost, proxySSLCertPath; unsigned proxyPort = 0; Http::Scheme proxyScheme = Http::Scheme::HTTP; }; }
namespace Auth { struct AWSCredentials { String id, secret; AWSCredentials(const String& i, const String& s) : id(i), secret(s) {} }; }
namespace S3 {
struct S3Error { String m; const String& GetMessage() const { return m; } };
template <class R> struct Outcome {
  bool ok = false; R r; S3Error e;
  bool IsSuccess() const { return ok; }
  const R& GetResult() const { return r; }
  R& GetResult() { return r; }
  R&& GetResultWithOwnership() { return std::move(r); }
  const S3Error& GetError() const { return e; }
};
namespace Model {
struct Req {
  String bucket, key, id, range, type; long number = 0, length = -1; std::shared_ptr<std::iostream> body;
  void SetBucket(const String& s) { bucket = s; }
  void SetKey(const String& s) { key = s; }
  void SetUploadId(const String& s) { id = s; }
  void SetRange(const String& s) { range = s; }
  void SetContentType(const String& s) { type = s; }
  void SetPartNumber(long n) { number = n; }
  long GetPartNumber() const { return number; }
  void SetContentLength(long n) { length = n; }
  void SetBody(std::shared_ptr<std::iostream> b) { body = b; }
};
struct CompletedPart { long number = 0; String etag; void SetPartNumber(long n) { number = n; } void SetETag(const String& s) { etag = s; } CompletedPart& WithPartNumber(long n) { number = n; return *this; } CompletedPart& WithETag(const String& s) { etag = s; return *this; } };
struct CompletedMultipartUpload {
  Vector<CompletedPart> parts;
  CompletedMultipartUpload& WithParts(const Vector<CompletedPart>& p) { parts = p; return *this; }
  void SetParts(const Vector<CompletedPart>& p) { parts = p; }
  CompletedMultipartUpload& AddParts(const CompletedPart& p) { parts.push_back(p); return *this; }
};
struct GetObjectRequest : Req {};
struct HeadObjectRequest : Req {};
struct PutObjectRequest : Req {};
struct CreateMultipartUploadRequest : Req {};
struct UploadPartRequest : Req {};
struct AbortMultipartUploadRequest : Req {};
struct CompleteMultipartUploadRequest : Req { CompletedMultipartUpload u; void SetMultipartUpload(const CompletedMultipartUpload& x) { u = x; } };
struct GetObjectResult { std::shared_ptr<std::stringstream> s = std::make_shared<std::stringstream>(); std::iostream& GetBody() { return *s; } };
struct HeadObjectResult { long n = 0; long GetContentLength() const { return n; } };
struct PutObjectResult {};
struct CreateMultipartUploadResult { String id; const String& GetUploadId() const { return id; } };
struct UploadPartResult { String etag; const String& GetETag() const { return etag; } };
struct AbortMultipartUploadResult {};
struct CompleteMultipartUploadResult {};
typedef Outcome<GetObjectResult> GetObjectOutcome; typedef Outcome<HeadObjectResult> HeadObjectOutcome; typedef Outcome<PutObjectResult> PutObjectOutcome;
typedef Outcome<CreateMultipartUploadResult> CreateMultipartUploadOutcome; typedef Outcome<UploadPartResult> UploadPartOutcome;
typedef Outcome<AbortMultipartUploadResult> AbortMultipartUploadOutcome; typedef Outcome<CompleteMultipartUploadResult> CompleteMultipartUploadOutcome;
} // namespace Model
class S3Client {
  template <class R> static Outcome<R> bad(const char* m) { Outcome<R> o; o.e.m = m; return o; }
  template <class R> static Outcome<R> good() { Outcome<R> o; o.ok = true; return o; }
  bool call(const char* op, const Model::Req& r, const std::string& data = "") const { return vfs::s3().call({op, r.bucket, r.key, r.id, r.number, data, r.range, config.region}); }
  static std::string whole(const Model::Req& r) { // the body, from its start (the SDK rewinds it)
    std::string d = r.body ? r.body->rdbuf()->data() : std::string();
    return r.length >= 0 && (size_t)r.length < d.size() ? d.substr(0, r.length) : d;
  }
  static vfs::Upload* up(const Model::Req& r) {
    for (auto& u : vfs::s3().uploads) if (u.id == r.id && u.bucket == r.bucket && u.key == r.key && u.open) return &u;
    return nullptr;
  }
 public:
  Client::ClientConfiguration config;
  S3Client() {}
  virtual ~S3Client() {}
  explicit S3Client(const Client::ClientConfiguration& c) : config(c) {}
  S3Client(const Auth::AWSCredentials&, const Client::ClientConfiguration& c) : config(c) {}
  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest& r) const {
    if (!call("get", r)) return bad<Model::GetObjectResult>("get failed");
    auto o = vfs::s3().find(r.bucket, r.key);
    if (!o) return bad<Model::GetObjectResult>("NoSuchKey");
    std::string d = o->data;
    if (!r.range.empty()) { // bytes=a-b, both included; a malformed or inverted range is ignored
      size_t i = 6, a = 0, b = 0; bool ok = r.range.compare(0, 6, "bytes=") == 0, any = false;
      for (; ok && i < r.range.size() && r.range[i] >= '0' && r.range[i] <= '9'; i++) { a = a * 10 + (r.range[i] - '0'); any = true; }
      ok = ok && any && i < r.range.size() && r.range[i] == '-'; any = false;
      for (i++; ok && i < r.range.size() && r.range[i] >= '0' && r.range[i] <= '9'; i++) { b = b * 10 + (r.range[i] - '0'); any = true; }
      if (ok && any && a <= b) {
        if (a >= d.size()) return bad<Model::GetObjectResult>("InvalidRange");
        d = d.substr(a, b - a + 1 ? b - a + 1 : (size_t)-1);
      }
    }
    auto res = good<Model::GetObjectResult>();
    res.r.s->str(d);
    return res;
  }
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest& r) const {
    auto o = vfs::s3().find(r.bucket, r.key);
    if (!call("head", r) || !o) return bad<Model::HeadObjectResult>("head failed");
    auto res = good<Model::HeadObjectResult>();
    res.r.n = o->data.size();
    return res;
  }
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest& r) const {
    std::string d = whole(r);
    if (!r.body || !call("put", r, d)) return bad<Model::PutObjectResult>("put failed");
    vfs::s3().store(r.bucket, r.key, d);
    return good<Model::PutObjectResult>();
  }
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(const Model::CreateMultipartUploadRequest& r) const {
    if (!call("create", r)) return bad<Model::CreateMultipartUploadResult>("create failed");
    vfs::Upload u; u.bucket = r.bucket; u.key = r.key; u.id = std::string("upload") + (char)('0' + vfs::s3().uploads.size());
    vfs::s3().uploads.push_back(u);
    auto res = good<Model::CreateMultipartUploadResult>();
    res.r.id = u.id;
    return res;
  }
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest& r) const {
    std::string d = whole(r);
    if (!call("part", r, d)) return bad<Model::UploadPartResult>("part failed");
    auto u = up(r);
    if (!u || r.number < 1 || r.number > 10000 || (r.length >= 0 && (size_t)r.length != d.size())) return bad<Model::UploadPartResult>("part rejected");
    std::string etag = std::string("etag") + (char)('a' + vfs::s3().calls.size());
    for (auto& p : u->parts) if (p.number == r.number) { p.data = d; p.etag = etag; auto res = good<Model::UploadPartResult>(); res.r.etag = etag; return res; }
    u->parts.push_back({r.number, etag, d});
    auto res = good<Model::UploadPartResult>();
    res.r.etag = etag;
    return res;
  }
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(const Model::AbortMultipartUploadRequest& r) const {
    auto u = up(r);
    if (!call("abort", r) || !u) return bad<Model::AbortMultipartUploadResult>("abort failed");
    u->open = false; u->aborted = true;
    return good<Model::AbortMultipartUploadResult>();
  }
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(const Model::CompleteMultipartUploadRequest& r) const {
    auto u = up(r);
    if (!call("complete", r) || !u || r.u.parts.empty()) return bad<Model::CompleteMultipartUploadResult>("complete failed");
    std::string all; long last = 0;
    for (auto& p : r.u.parts) { // ascending part numbers, each uploaded, with the tag it was given
      bool found = false;
      for (auto& q : u->parts) if (q.number == p.number && q.etag == p.etag) { all += q.data; found = true; }
      if (!found || p.number <= last) return bad<Model::CompleteMultipartUploadResult>("InvalidPart");
      last = p.number;
    }
    u->open = false; u->completed = true;
    vfs::s3().store(u->bucket, u->key, all);
    return good<Model::CompleteMultipartUploadResult>();
  }
};
} // namespace S3
} // namespace Aws
