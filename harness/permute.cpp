// Permutation and expansion: public entry points (impl_*) and references (spec_*).
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "permute.h"
#include "expand.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;
extern "C" {
IT * impl_invert(const IT * p, IT n) { return invert_permutation(p, n); }
IT * spec_invert(const IT * p, IT n) { IT * q = new IT[n]; for (IT i = 0; i < n; i++) q[p[i]] = i; return q; }
void impl_permute(IT * v, IT * p, IT n) { permute_indeces(v, p, n); }
void spec_permute(IT * v, IT * p, IT n) { for (IT i = 0; i < n; i++) v[i] = p[v[i]]; }
void impl_permute_el(El * e, IT n, IT * p) { permute_indeces(e, n, p); }
void spec_permute_el(El * e, IT n, IT * p) { for (IT i = 0; i < n; i++) { e[i].row = p[e[i].row]; e[i].col = p[e[i].col]; } }
void impl_permute_tr(Tr * e, IT n, IT * p) { permute_indeces(e, n, p); }
void spec_permute_tr(Tr * e, IT n, IT * p) { for (IT i = 0; i < n; i++) { e[i].row = p[e[i].row]; e[i].col = p[e[i].col]; } }
IT impl_block_size(IT * s, IT n) { return expand_block_size(s, n); }
IT spec_block_size(IT * s, IT n) { IT m = 0; for (IT i = 0; i < n; i++) if (s[i] > m) m = s[i]; return (IT) next_power_of_two(m); }
IT impl_expand_index(IT * o, IT n, IT s, IT i) { return expand_index(o, n, s, i); }
IT spec_expand_index(IT * o, IT n, IT s, IT i) { IT b = index_to_blockindex(o, n, i); return b * s + (i - o[b]); }
IT impl_expand(IT * v, IT n, IT * s, IT k) { return expand_indeces(v, n, s, k); }
IT spec_expand(IT * v, IT n, IT * s, IT k)
{
    IT S = expand_block_size(s, k);
    IT * o = (IT *) malloc((k + 1) * sizeof(IT));
    size_to_offset(o, s, k);
    for (IT i = 0; i < n; i++) v[i] = expand_index(o, k, S, v[i]);
    free(o);
    return S;
}
IT impl_expand_el(El * e, IT n, IT * s, IT * o, IT k) { return expand_indeces(e, n, s, o, k); }
IT spec_expand_el(El * e, IT n, IT * s, IT * o, IT k)
{
    IT S = expand_block_size(s, k);
    for (IT i = 0; i < n; i++) {
        IT r = e[i].block / k, c = e[i].block % k;
        e[i].row = r * S - o[r] + e[i].row;
        e[i].col = c * S - o[c] + e[i].col;
    }
    return S;
}
// a permutation
IT const * inj_invert(IT const * p) { return p; }
}
