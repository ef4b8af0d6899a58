// Stands in for the parallel sort: records the range and what the comparison says about two arbitrary elements.
#pragma once
#include <algorithm>
#include <numeric>
#include <iterator>
#include <functional>
extern "C" {
void sorted_range(void const * first, void const * last, unsigned size, bool less, int how);
unsigned long probe_row(int k), probe_col(int k), probe_block(int k);
}
namespace probe {
template <typename V> inline auto blk(V & v, int k, int) -> decltype(v.block, void()) { v.block = (decltype(v.block)) probe_block(k); }
template <typename V> inline void blk(V &, int, long) {}
template <typename V> inline V elem(int k)
{
    V v = V();
    v.row = (decltype(v.row)) probe_row(k); v.col = (decltype(v.col)) probe_col(k); blk(v, k, 0);
    return v;
}
template <typename It, typename C> inline void note(It xs, It xe, C comp, int how)
{
    typedef typename std::iterator_traits<It>::value_type V;
    V a = elem<V>(0), b = elem<V>(1);
    sorted_range(&*xs, &*xs + (xe - xs), sizeof(V), comp(a, b), how);
}
}
namespace pss {
template <typename It, typename C> inline void parallel_stable_sort(It xs, It xe, C comp) { probe::note(xs, xe, comp, 1); }
template <typename It> inline void parallel_stable_sort(It xs, It xe) { probe::note(xs, xe, std::less<typename std::iterator_traits<It>::value_type>(), 1); }
}
namespace std {
template <typename It, typename C> inline void probe_stable(It xs, It xe, C comp) { probe::note(xs, xe, comp, 1); }
template <typename It, typename C> inline void probe_unstable(It xs, It xe, C comp) { probe::note(xs, xe, comp, 0); }
}
#define stable_sort probe_stable
#define sort probe_unstable
