// Stand-in: the code built here only needs the headers that the library's header brings along.
#pragma once
#include <immintrin.h>
#include <cassert>
#include <cstring>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <future>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <emp-tool/point.h>
