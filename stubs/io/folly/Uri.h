// folly::Uri as its documentation and regular expressions define it: scheme:[//[user[:pass]@]host[:port]][path][?query][#fragment]
#pragma once
#include <stdexcept>
#include <string>
namespace folly {
class Uri {
  std::string scheme_, host_, path_, query_, fragment_;
  static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
 public:
  explicit Uri(const std::string& s) {
    size_t i = 0;
    while (i < s.size() && s[i] != ':') {
      char c = s[i];
      if (!(alpha(c) || (i && ((c >= '0' && c <= '9') || c == '+' || c == '.' || c == '-')))) throw std::invalid_argument("invalid URI");
      scheme_.push_back(c >= 'A' && c <= 'Z' ? (char)(c + 32) : c);
      i++;
    }
    if (i == 0 || i == s.size()) throw std::invalid_argument("invalid URI");
    i++;
    size_t e = i;
    while (e < s.size() && s[e] != '?' && s[e] != '#') e++;
    std::string rest = s.substr(i, e - i);
    if (e < s.size() && s[e] == '?') { size_t q = ++e; while (e < s.size() && s[e] != '#') e++; query_ = s.substr(q, e - q); }
    if (e < s.size()) fragment_ = s.substr(e + 1);
    if (rest.size() < 2 || rest[0] != '/' || rest[1] != '/') { path_ = rest; return; }
    size_t slash = 2;
    while (slash < rest.size() && rest[slash] != '/') slash++;
    std::string auth = rest.substr(2, slash - 2);
    path_ = rest.substr(slash);
    for (size_t k = 0; k < auth.size(); k++) if (auth[k] == '@') { auth = auth.substr(k + 1); break; }
    size_t h = 0;
    while (h < auth.size() && auth[h] != ':') { if (auth[h] == '[') throw std::invalid_argument("IPv6 is not modelled"); h++; }
    host_ = auth.substr(0, h);
    if (h < auth.size()) for (size_t k = h + 1; k < auth.size(); k++) if (auth[k] < '0' || auth[k] > '9') throw std::invalid_argument("invalid URI authority");
  }
  const std::string& scheme() const { return scheme_; }
  const std::string& host() const { return host_; }
  const std::string& path() const { return path_; }
  const std::string& query() const { return query_; }
  const std::string& fragment() const { return fragment_; }
};
} // namespace folly
