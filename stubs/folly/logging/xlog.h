// Logging is not part of any property: statements are parsed and dropped.
#pragma once
#include <string>
namespace vfstub {
struct NullLog { template <class T> const NullLog& operator<<(const T&) const { return *this; } };
template <class... A> inline void drop(const A&...) {}
}
#define XLOG(...) if (true) {} else vfstub::NullLog()
#define XLOGF(level, ...) do { if (false) vfstub::drop(__VA_ARGS__); } while (0)
#define XLOG_EVERY_MS(level, ms) if (true) {} else vfstub::NullLog()
#define XCHECK(c) if (c) {} else vfstub::NullLog()
#define LOG(x) if (true) {} else vfstub::NullLog()
