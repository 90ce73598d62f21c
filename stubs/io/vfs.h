// A model of files and of the standard streams over them, used in place of <fstream>, <sstream>, ... so that the code
// between the caller and the system is executed symbolically. Follows the standard's wording for state bits.
#pragma once
#include <cstddef>
#include <cstring>
#include <iosfwd>
#include <ios_real.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace vfs {
struct File { std::string name, data; bool unreadable = false; };
inline std::vector<std::shared_ptr<File>>& files() { static std::vector<std::shared_ptr<File>> f; return f; }
inline std::vector<std::string>& dirs() { static std::vector<std::string> d; return d; }
inline size_t& room() { static size_t r = (size_t)-1; return r; } // bytes the device still takes
inline bool& late() { static bool l = false; return l; } // a full device is noticed on closing only
inline void reset() { files().clear(); dirs().clear(); room() = (size_t)-1; late() = false; }
inline std::shared_ptr<File> find(const std::string& n) {
  for (auto& f : files()) if (f->name == n) return f;
  return nullptr;
}
inline std::shared_ptr<File> put(const std::string& n, const std::string& data) {
  auto f = find(n);
  if (!f) { f = std::make_shared<File>(); f->name = n; files().push_back(f); }
  f->data = data;
  return f;
}
inline bool isDir(const std::string& n) {
  if (n.empty() || n == "/") return true; // the current directory and the root
  for (auto& d : dirs()) if (d == n) return true;
  return false;
}
inline std::string parent(const std::string& n) {
  size_t at = n.rfind('/');
  if (at == std::string::npos) return "";
  return at == 0 ? "/" : n.substr(0, at);
}
} // namespace vfs
namespace std {
struct vf_ios {
  typedef unsigned openmode, iostate, seekdir;
  static constexpr unsigned app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr unsigned beg = 0, cur = 1, end = 2;
  static constexpr unsigned badbit = 1, eofbit = 2, failbit = 4, goodbit = 0;
  unsigned state_ = 0;
  bool good() const { return state_ == 0; }
  bool eof() const { return state_ & eofbit; }
  bool fail() const { return state_ & (failbit | badbit); }
  bool bad() const { return state_ & badbit; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  void clear(unsigned s = 0) { state_ = s; }
  void setstate(unsigned s) { state_ |= s; }
};
// what a stream reads from and writes to: a string it owns or a file
struct vf_streambuf {
  std::shared_ptr<std::string> own = std::make_shared<std::string>();
  std::shared_ptr<vfs::File> file;
  bool open = true, readable = true, writable = true, lost = false;
  size_t get = 0, put = 0;
  std::string& data() { return file ? file->data : *own; }
  bool write(const char* p, size_t n) {
    if (!open || !writable) return false;
    size_t k = n;
    if (file) { if (k > vfs::room()) k = vfs::room(); vfs::room() -= k; }
    std::string& d = data();
    for (size_t i = 0; i < k; i++) { if (put < d.size()) d[put] = p[i]; else d.push_back(p[i]); put++; }
    if (k < n) lost = true;
    return k == n || vfs::late();
  }
};
struct vf_istream : virtual vf_ios {
  std::shared_ptr<vf_streambuf> b = std::make_shared<vf_streambuf>();
  size_t count_ = 0;
  vf_istream() {}
  explicit vf_istream(vf_streambuf*) {}
  vf_streambuf* rdbuf() const { return b.get(); }
  size_t left() { return b->open && b->readable && b->get < b->data().size() ? b->data().size() - b->get : 0; }
  vf_istream& read(char* p, std::ptrdiff_t n) {
    count_ = 0;
    if (!good()) { setstate(failbit); return *this; }
    size_t k = left() < (size_t)n ? left() : (size_t)n;
    for (size_t i = 0; i < k; i++) p[i] = b->data()[b->get + i];
    b->get += k; count_ = k;
    if (k < (size_t)n) setstate(eofbit | failbit);
    return *this;
  }
  std::ptrdiff_t readsome(char* p, std::ptrdiff_t n) {
    count_ = 0;
    if (!good()) { setstate(failbit); return 0; }
    size_t k = left() < (size_t)n ? left() : (size_t)n;
    for (size_t i = 0; i < k; i++) p[i] = b->data()[b->get + i];
    b->get += k; count_ = k;
    return k;
  }
  std::ptrdiff_t gcount() const { return count_; }
  int get() {
    count_ = 0;
    if (!good()) { setstate(failbit); return -1; }
    if (!left()) { setstate(eofbit | failbit); return -1; }
    count_ = 1;
    return (unsigned char)b->data()[b->get++];
  }
  vf_istream& get(char& c) { int k = get(); if (k >= 0) c = (char)k; return *this; }
  int peek() {
    count_ = 0;
    if (!good()) { setstate(failbit); return -1; }
    if (!left()) { setstate(eofbit); return -1; }
    return (unsigned char)b->data()[b->get];
  }
  vf_istream& ignore(std::ptrdiff_t n = 1) { while (n-- > 0 && left()) b->get++; if (!left()) setstate(eofbit); return *this; }
  vf_istream& seekg(std::ptrdiff_t off, unsigned dir = beg) {
    state_ &= ~eofbit;
    if (fail()) return *this;
    std::ptrdiff_t base = dir == beg ? 0 : dir == cur ? (std::ptrdiff_t)b->get : (std::ptrdiff_t)b->data().size();
    if (!b->open || base + off < 0) { setstate(failbit); return *this; }
    b->get = base + off;
    return *this;
  }
  std::ptrdiff_t tellg() { return fail() ? -1 : (std::ptrdiff_t)b->get; }
};
struct vf_ostream : virtual vf_ios {
  std::shared_ptr<vf_streambuf> ob = std::make_shared<vf_streambuf>();
  vf_ostream& write(const char* p, std::ptrdiff_t n) {
    if (!good()) { setstate(failbit); return *this; }
    if (!ob->write(p, n)) setstate(badbit);
    return *this;
  }
  vf_ostream& put(char c) { return write(&c, 1); }
  vf_ostream& flush() { return *this; }
  vf_ostream& seekp(std::ptrdiff_t off, unsigned dir = beg) { ob->put = (dir == end ? ob->data().size() : dir == cur ? ob->put : 0) + off; return *this; }
  std::ptrdiff_t tellp() { return fail() ? -1 : (std::ptrdiff_t)ob->put; }
};
template <class S> struct vf_outputs : vf_ostream {};
inline vf_ostream& operator<<(vf_ostream& o, const std::string& s) { return o.write(s.data(), s.size()); }
inline vf_ostream& operator<<(vf_ostream& o, const char* s) { return o.write(s, strlen(s)); }
inline vf_ostream& operator<<(vf_ostream& o, char c) { return o.put(c); }
inline vf_ostream& operator<<(vf_ostream& o, unsigned long v) { std::string s = std::to_string(v); return o.write(s.data(), s.size()); }
inline vf_ostream& operator<<(vf_ostream& o, long v) { std::string s = std::to_string(v); return o.write(s.data(), s.size()); }
inline vf_ostream& operator<<(vf_ostream& o, unsigned v) { return o << (unsigned long)v; }
inline vf_ostream& operator<<(vf_ostream& o, int v) { return o << (long)v; }
inline vf_ostream& operator<<(vf_ostream& o, vf_streambuf* b) {
  std::string rest = b->open && b->get < b->data().size() ? b->data().substr(b->get) : std::string();
  if (b->open) b->get = b->data().size();
  if (rest.empty()) { o.setstate(vf_ios::failbit); return o; }
  return o.write(rest.data(), rest.size());
}
struct vf_iostream : vf_istream, vf_ostream {
  vf_iostream() { ob = b; }
};
template <class C, class T> using vf_basic_iostream = vf_iostream;
struct vf_stringstream : vf_iostream {
  vf_stringstream() {}
  explicit vf_stringstream(const std::string& s, unsigned = 0) { *b->own = s; }
  std::string str() const { return *b->own; }
  void str(const std::string& s) { *b->own = s; b->get = b->put = 0; }
};
struct vf_ostringstream : vf_ostream {
  std::string str() const { return *ob->own; }
};
struct vf_istringstream : vf_istream {
  explicit vf_istringstream(const std::string& s, unsigned = 0) { *b->own = s; }
  std::string str() const { return *b->own; }
};
inline vf_istream& getline(vf_istream& is, std::string& s, char delim) {
  if (!is.good()) { is.setstate(vf_ios::failbit); return is; }
  s.clear();
  bool any = false;
  for (;;) {
    if (!is.left()) { is.setstate(any ? vf_ios::eofbit : vf_ios::eofbit | vf_ios::failbit); return is; }
    char c = is.b->data()[is.b->get++];
    any = true;
    if (c == delim) return is;
    s.push_back(c);
  }
}
inline vf_istream& getline(vf_istream& is, std::string& s) { return getline(is, s, '\n'); }
struct vf_ifstream : vf_istream {
  vf_ifstream() { b->open = false; }
  explicit vf_ifstream(const std::string& name, unsigned = vf_ios::in) {
    b->file = vfs::find(name);
    b->open = (bool)b->file && !b->file->unreadable;
    if (!b->open) setstate(failbit);
  }
  explicit vf_ifstream(const char* name, unsigned m = vf_ios::in) : vf_ifstream(std::string(name), m) {}
  vf_ifstream(vf_ifstream&& o) : vf_istream() { b = std::move(o.b); o.b = std::make_shared<vf_streambuf>(); o.b->open = false; state_ = o.state_; count_ = o.count_; }
  bool is_open() const { return b->open; }
  void close() { if (!b->open) setstate(failbit); b->open = false; }
};
struct vf_ofstream : vf_ostream {
  vf_ofstream() { ob->open = false; }
  explicit vf_ofstream(const std::string& name, unsigned m = vf_ios::out) {
    ob->open = !name.empty() && vfs::isDir(vfs::parent(name)) && !vfs::isDir(name);
    if (!ob->open) { setstate(failbit); return; }
    ob->file = vfs::find(name);
    if (!ob->file) ob->file = vfs::put(name, "");
    else if (!(m & vf_ios::app)) ob->file->data.clear();
    if (m & vf_ios::app) ob->put = ob->file->data.size();
  }
  explicit vf_ofstream(const char* name, unsigned m = vf_ios::out) : vf_ofstream(std::string(name), m) {}
  bool is_open() const { return ob->open; }
  void close() { if (!ob->open || ob->lost) setstate(failbit); ob->open = false; }
};
struct vf_fstream : vf_iostream {
  explicit vf_fstream(const char* name, unsigned = vf_ios::in | vf_ios::out) {
    b->file = vfs::find(name);
    b->open = (bool)b->file;
    if (!b->open) setstate(failbit);
  }
  bool is_open() const { return b->open; }
};
namespace filesystem {
struct vf_path {
  std::string s;
  vf_path() {}
  vf_path(const std::string& x) : s(x) {}
  vf_path(const char* x) : s(x) {}
  vf_path parent_path() const { return vfs::parent(s); }
  bool has_parent_path() const { return !vfs::parent(s).empty(); }
  bool empty() const { return s.empty(); }
  std::string string() const { return s; }
};
struct vf_filesystem_error : std::runtime_error { using std::runtime_error::runtime_error; };
inline bool create_directories(const vf_path& p) {
  if (p.empty()) throw vf_filesystem_error("cannot create directories"); // as libstdc++ does
  bool made = false;
  for (size_t i = 1; i <= p.s.size(); i++)
    if (i == p.s.size() || p.s[i] == '/') {
      std::string d = p.s.substr(0, i);
      if (vfs::find(d)) throw vf_filesystem_error("not a directory");
      if (!vfs::isDir(d)) { vfs::dirs().push_back(d); made = true; }
    }
  return made;
}
inline bool exists(const vf_path& p) { return vfs::find(p.s) || vfs::isDir(p.s); }
} // namespace filesystem
} // namespace std
namespace std { namespace filesystem { using path = vf_path; using filesystem_error = vf_filesystem_error; } }
#define ios_base vf_ios
#define ios vf_ios
#define istream vf_istream
#define ostream vf_ostream
#define iostream vf_iostream
#define basic_iostream vf_basic_iostream
#define stringstream vf_stringstream
#define ostringstream vf_ostringstream
#define istringstream vf_istringstream
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define fstream vf_fstream
