// Bitcode builds only: numbers printed into messages. A symbolic number is shown as a fixed text instead of being
// formatted digit by digit; a concrete one is formatted as usual. Harnesses whose property depends on the text of numbers
// are built with -DVF_REAL_TOSTRING.
#pragma once
#ifndef VF_REAL_TOSTRING
#include <string>
#include <bitset>
#include <chrono>
#include <type_traits>
extern "C" bool vf_is_symbolic(uint64_t v);
namespace std {
template <class T> inline string vf_to_string(T v) {
  if constexpr (is_integral_v<T> || is_enum_v<T>)
    if (vf_is_symbolic((uint64_t)v)) return "<number>";
  return to_string(v);
}
} // namespace std
#define to_string vf_to_string
#endif
