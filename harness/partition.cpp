// Block offsets, block numbers, chunk partitions: public entry points (impl_*) and references (spec_*).
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include <cmath>
#include <vector>
#include <algorithm>
#include <numeric>
#include "params.h"
#include "rt.h"
// the chunk list as a sequence of appended values (a model of std::vector that passes them by value)
extern "C" { void gsb_clear(void *); void gsb_push(void *, uint64_t); uint64_t gsb_size(const void *); uint64_t gsb_at(const void *, uint64_t); void gsb_reserve(void *, uint64_t); uint64_t gsb_nonzeros(const void *, uint64_t); }
namespace std { template <class V> struct gsb_vector {
    void clear() { gsb_clear(this); }
    void push_back(V v) { gsb_push(this, (uint64_t) v); }
    template <class U> void emplace_back(U v) { gsb_push(this, (uint64_t) (V) v); }
    void reserve(size_t n) { gsb_reserve(this, n); }
    size_t size() const { return gsb_size(this); }
    bool empty() const { return gsb_size(this) == 0; }
    V operator[](size_t i) const { return (V) gsb_at(this, i); }
    V back() const { return (V) gsb_at(this, gsb_size(this) - 1); }
    V front() const { return (V) gsb_at(this, 0); }
}; }
#define vector gsb_vector
#include "partition.h"
#undef vector
typedef T_ T; typedef I_ IT; typedef S_ SIT;
struct Probe { IT rows, columns; };                       // target of the constant-size constructor
template <class A, class B> struct ProbeCoo { B rows; B columns; B nnz; };
void Coo_to_Blocked(Probe *, ProbeCoo<T,IT> *, IT *, IT, IT *, IT);
#include "matrix/csbr.h"
#include "generic/gsb.h"
struct PCoo { IT rows, columns; };
void Coo_to_Csbr(Csbr<T,IT> *, PCoo *, IT *, IT, IT *, IT);
struct Mat { IT nnz; IT rows, blockrows; IT * blockrow_ptr; BlockRowPartition<IT> * partition; IT block_nonzeros(IT b) const { return (IT) gsb_nonzeros(this, b); } };
template <class A, class B> struct Mat2 { B nnz; B blockrows; B * blockrow_ptr; BlockRowPartition<B> * partition; B block_nonzeros(B b) const { return (B) gsb_nonzeros(this, b); } };
template <class A, class B, class C> struct Mat3 { B nnz; B blockrows; B * blockrow_ptr; BlockRowPartition<B> * partition; B block_nonzeros(B b) const { return (B) gsb_nonzeros(this, b); } };
extern "C" {
void impl_const(Probe * A, ProbeCoo<T,IT> * B, IT r, IT c) { Coo_to_Blocked<T,IT>(A, B, r, c); }
static inline void offs(IT * o, IT n, IT size, IT end)
{
    o[0] = 0;
    for (IT i = 1; i < n; i++) o[i] = o[i - 1] + size;
    o[n] = end;
}
void spec_const(Probe * A, ProbeCoo<T,IT> * B, IT r, IT c)
{
    IT nr = B->rows / r, nc = B->columns / c;
    if (!nr) nr = 1;
    if (!nc) nc = 1;
    IT * ro = new IT[nr + 1]; IT * co = new IT[nc + 1];
    offs(ro, nr, r, B->rows); offs(co, nc, c, B->columns);
    Coo_to_Blocked(A, B, ro, nr, co, nc);
}
void impl_const_csbr(Csbr<T,IT> * A, PCoo * B, IT r, IT c) { Coo_to_Csbr(A, B, r, c); }
void spec_const_csbr(Csbr<T,IT> * A, PCoo * B, IT r, IT c)
{
    IT nr = B->rows / r, nc = B->columns / c;
    if (!nr) nr = 1;
    if (!nc) nc = 1;
    IT * ro = (IT *) malloc((nr + 1) * sizeof(IT)); IT * co = (IT *) malloc((nc + 1) * sizeof(IT));
    offs(ro, nr, r, B->rows); offs(co, nc, c, B->columns);
    Coo_to_Csbr(A, B, ro, nr, co, nc);
}
void impl_size_to_offset(IT * o, const IT * s, IT n) { size_to_offset(o, s, n); }
void spec_size_to_offset(IT * o, const IT * s, IT n) { IT t = 0; o[0] = 0; for (IT i = 0; i < n; i++) { t += s[i]; o[i + 1] = t; } }
void impl_init2(Mat2<T,IT> * A) { partition_init(A); }
void spec_init2(Mat2<T,IT> * A)
{ A->partition = new BlockRowPartition<IT>[A->blockrows]; for (IT b = 0; b < A->blockrows; b++) partition_blockrow(A, A->partition + b, A->blockrow_ptr[b], A->blockrow_ptr[b + 1]); }
void impl_init3(Mat3<T,IT,SIT> * A) { partition_init(A); }
void spec_init3(Mat3<T,IT,SIT> * A)
{ A->partition = new BlockRowPartition<IT>[A->blockrows]; for (IT b = 0; b < A->blockrows; b++) partition_blockrow(A, A->partition + b, A->blockrow_ptr[b], A->blockrow_ptr[b + 1]); }
IT impl_nchunks(BlockRowPartition<IT> * p) { return p->nchunks(); }
IT spec_nchunks(BlockRowPartition<IT> * p) { return p->chunks.size() - 1; }
// decided by their defining relation, not by comparison
IT rel_index(IT * o, IT n, IT i) { return index_to_blockindex(o, n, i); }
void rel_chunks(Mat * A, BlockRowPartition<IT> * p, IT start, IT end) { partition_blockrow(A, p, start, end); }
}
