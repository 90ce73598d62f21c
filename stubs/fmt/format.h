// fmt::format for the messages in /repo: replacement fields are rendered without their format specification.
#pragma once
#include "folly/Format.h"
namespace fmt {
inline std::string format(const std::string& f) { return f; }
template <class T, class... A>
std::string format(const std::string& f, const T& t, const A&... a) {
  size_t p = f.find('{');
  if (p == std::string::npos) return f;
  size_t q = f.find('}', p);
  return f.substr(0, p) + folly::vfd::str(t) + format(f.substr(q + 1), a...);
}
} // namespace fmt
