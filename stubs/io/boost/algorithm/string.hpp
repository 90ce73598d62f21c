#pragma once
#include <string>
namespace boost {
inline char vf_lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline bool iequals(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (vf_lower(a[i]) != vf_lower(b[i])) return false;
  return true;
}
}
