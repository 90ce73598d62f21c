// folly::sformat: "{}" replaced by decimal integers and strings, enough for the messages in /repo.
#pragma once
#include <string>
#include <type_traits>
#include "folly/dynamic.h"
namespace folly {
namespace vfd {
inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }
template <class T> std::enable_if_t<std::is_arithmetic_v<T>, std::string> str(T v) {
  if constexpr (std::is_floating_point_v<T>) return "fp";
  else return std::to_string(v);
}
template <class T> std::enable_if_t<std::is_enum_v<T>, std::string> str(T v) { return std::to_string((long)v); }
}
inline std::string sformat(const std::string& f) { return f; }
template <class T, class... A>
std::string sformat(const std::string& f, const T& t, const A&... a) {
  size_t p = f.find("{}");
  if (p == std::string::npos) return f;
  return f.substr(0, p) + vfd::str(t) + sformat(f.substr(p + 2), a...);
}
} // namespace folly
