// Stands in for the sorts: says which range is sorted.
#pragma once
#include <algorithm>
#include <numeric>
#include <iterator>
#include <functional>
extern "C" void sorted_range(void const * first, void const * last);
namespace pss {
template <typename It, typename... C> inline void parallel_stable_sort(It a, It b, C...) { sorted_range(a, b); }
}
namespace std {
template <typename It, typename... C> inline void range_sort(It a, It b, C...) { sorted_range(a, b); }
}
#define stable_sort range_sort
#define sort range_sort
