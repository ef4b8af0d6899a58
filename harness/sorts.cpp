// The sorts of utils.h, with the sorting engine replaced by a recorder (harness/stub).
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cassert>
#include "utils.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Triplet<T,SIT> TrS; typedef Element<T,IT> El;
extern "C" {
void impl_row(Tr * a, IT n) { sort_triplets(a, n); }
void impl_rowflag(Tr * a, IT n) { sort_triplets(a, n, true); }
void impl_col(Tr * a, IT n) { sort_triplets(a, n, false); }
void impl_rowel(El * a, IT n) { sort_triplets(a, n); }
void impl_morton(Tr * a, IT n) { sort_triplets_morton(a, n); }
void impl_mortons(TrS * a, IT n) { sort_triplets_morton(a, n); }
void impl_elements(El * a, IT n) { sort_elements_blocks(a, n); }
void impl_wide(Tr * a, IT n, IT w) { sort_triplets_widerows(a, n, w); }
void impl_wideel(El * a, IT n, IT w) { sort_triplets_widerows(a, n, w); }
void impl_blocks(Tr * a, IT n, IT * ro, IT nr, IT * co, IT nc) { sort_triplets_blocks(a, n, ro, nr, co, nc); }
}
extern "C" {
void spec_blocks(Tr * a, IT n, IT * ro, IT nr, IT * co, IT nc)
{
    pss::parallel_stable_sort(a, a + n, [](Tr x, Tr y) { return x.row < y.row; });
    IT * p = new IT[nr + 1]; p[0] = 0;
    IT i = 0;
    for (IT b = 0; b < nr; b++) {
        while (i < n && a[i].row < ro[b + 1]) i++;
        p[b + 1] = i;
    }
    p[nr] = n;
    for (IT b = 0; b < nr; b++)
        pss::parallel_stable_sort(a + p[b], a + p[b + 1], [](Tr x, Tr y) { return x.col < y.col; });
    delete [] p;
}
}
