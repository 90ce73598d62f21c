#pragma once
#include <cstdint>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace boost::archive {
class text_iarchive {
  std::istringstream& s;
 public:
  explicit text_iarchive(std::istringstream& o) : s(o) {}
  template <class T> text_iarchive& operator>>(T& v) {
    static_assert(std::is_integral_v<T>);
    if (s.at + 8 > s.data.size()) throw std::runtime_error("archive is over");
    uint64_t x = 0;
    for (int i = 0; i < 8; i++) x |= (uint64_t)(uint8_t)s.data[s.at + i] << 8 * i;
    s.at += 8;
    v = (T)x;
    if ((uint64_t)v != x) throw std::runtime_error("number does not fit");
    return *this;
  }
  text_iarchive& operator>>(std::string& v) {
    uint64_t n = 0;
    *this >> n;
    if (n > s.data.size() - s.at) throw std::runtime_error("archive is over");
    v = s.data.substr(s.at, n);
    s.at += n;
    return *this;
  }
  template <class K, class T> text_iarchive& operator>>(std::unordered_map<K, T>& v) {
    uint64_t n = 0;
    *this >> n;
    v.clear();
    for (uint64_t i = 0; i < n; i++) { K k; T t; *this >> k >> t; v.emplace(k, t); }
    return *this;
  }
  template <class T> text_iarchive& operator>>(std::vector<T>& v) {
    uint64_t n = 0;
    *this >> n;
    v.clear();
    v.resize(n);
    for (auto& x : v) *this >> x;
    return *this;
  }
};
} // namespace boost::archive
