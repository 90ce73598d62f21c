#pragma once
#include <map>
namespace folly { template <class K, class V> using F14FastMap = std::map<K, V>; }
