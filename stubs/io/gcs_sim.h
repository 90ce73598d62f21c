// A model of the parts of google-cloud-cpp the code uses, over the same in-memory store.
#pragma once
#include "aws_sim.h"
namespace google::cloud {
class Status { bool ok_ = true; std::string m; public: Status() {} explicit Status(const std::string& e) : ok_(false), m(e) {} bool ok() const { return ok_; } const std::string& message() const { return m; } };
template <class T> class StatusOr {
  T t{}; Status s;
 public:
  StatusOr(const T& x) : t(x) {}
  StatusOr(const Status& x) : s(x) {}
  bool ok() const { return s.ok(); }
  explicit operator bool() const { return s.ok(); }
  const Status& status() const { return s; }
  T& value() { return t; }
  T* operator->() { return &t; }
  T& operator*() { return t; }
};
namespace storage {
struct ContentType { std::string v; explicit ContentType(const std::string& s) : v(s) {} };
struct ReadRange { size_t a = 0, b = (size_t)-1; bool whole = true; ReadRange() {} ReadRange(size_t x, size_t y) : a(x), b(y), whole(false) {} };
struct ObjectMetadata { size_t n = 0; size_t size() const { return n; } };
struct ObjectReadStream : std::stringstream {
  Status s;
  ObjectReadStream() {}
  explicit ObjectReadStream(const Status& x) : s(x) { setstate(failbit | badbit); }
  explicit ObjectReadStream(const std::string& d) : std::stringstream(d) {}
  const Status& status() const { return s; }
};
struct ObjectWriteStream : std::ostream {
  Status s; std::string bucket, key, id, kept; bool open = false, done = false;
  ObjectWriteStream() {}
  ObjectWriteStream& operator=(ObjectWriteStream&& o) { s = o.s; bucket = o.bucket; key = o.key; id = o.id; kept = o.kept; open = o.open; done = o.done; state_ = o.state_; ob = o.ob; o.open = false; return *this; }
  ObjectWriteStream(ObjectWriteStream&& o) : std::ostream() { *this = std::move(o); }
  ~ObjectWriteStream() { Close(); } // as the library documents: destroying an open stream finalises the upload
  const std::string& resumable_session_id() const { return id; }
  const Status& last_status() const { return s; }
  ObjectWriteStream& write(const char* p, std::ptrdiff_t n) {
    if (!open || !s.ok()) { setstate(badbit); if (s.ok()) s = Status("closed"); return *this; }
    std::string d(p, n);
    if (!vfs::gcs().call({"part", bucket, key, id, 0, d})) { s = Status("write failed"); setstate(badbit); return *this; }
    kept += d;
    return *this;
  }
  void Close() {
    if (!open) return;
    open = false;
    bool live = false;
    for (auto& u : vfs::gcs().uploads) if (u.id == id && u.open) live = true;
    if (s.ok() && !live) s = Status("session deleted");
    if (!s.ok()) return;
    if (!vfs::gcs().call({"complete", bucket, key, id})) { s = Status("close failed"); setstate(badbit); return; }
    for (auto& u : vfs::gcs().uploads) if (u.id == id) { u.open = false; u.completed = true; }
    vfs::gcs().store(bucket, key, kept);
    done = true;
  }
  StatusOr<ObjectMetadata> metadata() const { if (!done) return s.ok() ? Status("not closed") : s; ObjectMetadata m; m.n = kept.size(); return m; }
};
inline ObjectWriteStream& operator<<(ObjectWriteStream& o, const std::string& d) { return o.write(d.data(), d.size()); }
class Client {
 public:
  virtual ~Client() {}
  virtual ObjectReadStream ReadObject(const std::string& b, const std::string& k, const ReadRange& r = ReadRange()) {
    if (!vfs::gcs().call({"get", b, k})) return ObjectReadStream(Status("read failed"));
    auto o = vfs::gcs().find(b, k);
    if (!o) return ObjectReadStream(Status("not found"));
    vfs::gcs().calls.back().range = std::to_string(r.a) + "-" + std::to_string(r.b);
    if (r.whole) return ObjectReadStream(o->data);
    if (r.a >= r.b || r.a >= o->data.size()) return ObjectReadStream(Status("out of range"));
    return ObjectReadStream(o->data.substr(r.a, r.b - r.a));
  }
  ObjectWriteStream open(const std::string& b, const std::string& k) {
    ObjectWriteStream w;
    w.bucket = b; w.key = k;
    vfs::Upload u; u.bucket = b; u.key = k; u.id = std::string("session") + (char)('0' + vfs::gcs().uploads.size());
    if (!vfs::gcs().call({"create", b, k, u.id})) { w.s = Status("create failed"); w.setstate(std::ostream::badbit); return w; }
    vfs::gcs().uploads.push_back(u);
    w.id = u.id; w.open = true;
    return w;
  }
  virtual ObjectWriteStream WriteObject(const std::string& b, const std::string& k) { return open(b, k); }
  virtual ObjectWriteStream WriteObject(const std::string& b, const std::string& k, const ContentType&) { return open(b, k); }
  virtual StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& b, const std::string& k) {
    auto o = vfs::gcs().find(b, k);
    if (!vfs::gcs().call({"head", b, k}) || !o) return Status("no metadata");
    ObjectMetadata m; m.n = o->data.size(); return m;
  }
  virtual Status DeleteResumableUpload(const std::string& id) {
    if (!vfs::gcs().call({"abort", "", "", id})) return Status("delete failed");
    for (auto& u : vfs::gcs().uploads) if (u.id == id && u.open) { u.open = false; u.aborted = true; return Status(); }
    return Status("no such session");
  }
  virtual StatusOr<ObjectMetadata> UploadFile(const std::string& f, const std::string& b, const std::string& k) {
    auto x = vfs::find(f);
    if (!x || !vfs::gcs().call({"put", b, k, "", 0, x->data})) return Status("upload failed");
    vfs::gcs().store(b, k, x->data);
    ObjectMetadata m; m.n = x->data.size(); return m;
  }
};
} // namespace storage
} // namespace google::cloud
