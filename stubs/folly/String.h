#pragma once
#include <string>
#include <vector>
namespace folly {
template <class C>
std::string join(const std::string& d, const C& c) {
  std::string r;
  bool first = true;
  for (auto& x : c) { if (!first) r += d; first = false; if constexpr (std::is_convertible_v<decltype(x), std::string>) r += x; else r += std::to_string(x); }
  return r;
}
template <class S, class Out>
void split(char d, const S& in, Out& out, bool ignoreEmpty = false) {
  std::string s(in), cur;
  for (size_t i = 0; i <= s.size(); i++) {
    if (i == s.size() || s[i] == d) { if (!(ignoreEmpty && cur.empty())) out.push_back(typename Out::value_type(cur)); cur.clear(); }
    else cur += s[i];
  }
}
} // namespace folly
