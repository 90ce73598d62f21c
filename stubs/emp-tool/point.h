#pragma once
#include <cstddef>
namespace emp {
struct Group { unsigned char* scratch = nullptr; void resize_scratch(size_t); };
struct Point { Group* group = nullptr; size_t size(); void to_bin(unsigned char*, size_t); void from_bin(Group*, const unsigned char*, size_t); };
} // namespace emp
