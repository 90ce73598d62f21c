// Boost's text archive as far as it is used: a sequence of numbers, vectors preceded by their size. Each number is
// kept as 8 bytes instead of its decimal spelling.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace boost::archive {
class text_oarchive {
  std::ostringstream& s;
 public:
  explicit text_oarchive(std::ostringstream& o) : s(o) {}
  template <class T> text_oarchive& operator<<(const T& v) {
    static_assert(std::is_integral_v<T>);
    for (int i = 0; i < 8; i++) s.data.push_back((char)((uint64_t)v >> 8 * i));
    return *this;
  }
  text_oarchive& operator<<(const std::string& v) {
    *this << (uint64_t)v.size();
    s.data += v;
    return *this;
  }
  template <class K, class T> text_oarchive& operator<<(const std::unordered_map<K, T>& v) {
    *this << (uint64_t)v.size();
    for (const auto& x : v) *this << x.first << x.second;
    return *this;
  }
  template <class T> text_oarchive& operator<<(const std::vector<T>& v) {
    *this << (uint64_t)v.size();
    for (const auto& x : v) *this << x;
    return *this;
  }
};
} // namespace boost::archive
