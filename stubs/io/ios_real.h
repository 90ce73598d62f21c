#pragma once
#include <algorithm>
#include <iterator>
#include <map>
#include <unordered_map>
#include <set>
#include <random>
#include <functional>
#include <optional>
#include <future>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
