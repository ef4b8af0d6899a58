// The parallel sort, instantiated with an opaque comparison.
#include <cstdint>
#include <cstddef>
#include <new>
#include <algorithm>
struct E { uint64_t v; };
extern "C" bool probe_less(E const *, E const *);
struct Less { bool operator()(E const & a, E const & b) const { return probe_less(&a, &b); } };
#include "pss/parallel_stable_sort.h"
extern "C" void impl_sort(E * x, size_t n) { pss::parallel_stable_sort(x, x + n, Less()); }
