// folly::dynamic: null, integer, string and object values, as used for metrics.
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
namespace folly {
class dynamic {
 public:
  struct ObjectMaker {
    std::map<std::string, dynamic>* m;
  };
  dynamic() = default;
  dynamic(std::nullptr_t) {}
  dynamic(const char* s) : k_(2), s_(s) {}
  dynamic(std::string s) : k_(2), s_(std::move(s)) {}
  template <class T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  dynamic(T v) : k_(1), i_((int64_t)v) {}
  struct Obj;
  dynamic(Obj (*)());
  static Obj object();
  template <class K, class Vv>
  static Obj object(K k, Vv v);
  dynamic(Obj&& o);
  void insert(const dynamic& k, const dynamic& v) {
    if (k_ != 3) throw std::runtime_error("dynamic: not an object");
    o_[k.asString()] = v;
  }
  bool isNumber() const { return k_ == 1; }
  bool isInt() const { return k_ == 1; }
  bool isObject() const { return k_ == 3; }
  bool isString() const { return k_ == 2; }
  std::string asString() const { return k_ == 2 ? s_ : std::to_string(i_); }
  int64_t asInt() const { return i_; }
  int64_t getInt() const { return i_; }
  size_t count(const std::string& k) const { return o_.count(k); }
  size_t size() const { return o_.size(); }
  bool empty() const { return o_.empty(); }
  dynamic& operator[](const dynamic& k) { return o_[k.asString()]; }
  const dynamic& operator[](const dynamic& k) const { return o_.at(k.asString()); }
  const dynamic& at(const dynamic& k) const { return o_.at(k.asString()); }
  dynamic& operator+=(const dynamic& v) { i_ += v.i_; return *this; }
  struct Items {
    const dynamic* d;
    struct It {
      std::map<std::string, dynamic>::const_iterator i;
      std::pair<dynamic, dynamic> operator*() const { return {dynamic(i->first), i->second}; }
      It& operator++() { ++i; return *this; }
      bool operator!=(const It& b) const { return i != b.i; }
    };
    It begin() const { return It{d->o_.begin()}; }
    It end() const { return It{d->o_.end()}; }
  };
  Items items() const { return Items{this}; }
  bool operator==(const dynamic& b) const { return k_ == b.k_ && i_ == b.i_ && s_ == b.s_ && o_ == b.o_; }

 private:
  int k_ = 0;
  int64_t i_ = 0;
  std::string s_;
  std::map<std::string, dynamic> o_;
};
struct dynamic::Obj {
  dynamic d;
  template <class K, class Vv>
  Obj operator()(K k, Vv v) && { d.insert(dynamic(k), dynamic(v)); return std::move(*this); }
};
inline dynamic::dynamic(Obj (*)()) : k_(3) {}
inline dynamic::Obj dynamic::object() { Obj o; o.d.k_ = 3; return o; }
template <class K, class Vv>
dynamic::Obj dynamic::object(K k, Vv v) { Obj o; o.d.k_ = 3; o.d.insert(dynamic(k), dynamic(v)); return o; }
inline dynamic::dynamic(Obj&& o) : dynamic(std::move(o.d)) {}
} // namespace folly
