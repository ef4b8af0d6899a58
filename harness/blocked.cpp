// Blocked products: public entry points (impl_*) and references (spec_*), both only compiled to IR.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include "common.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
#define X T const * __restrict x, T * __restrict y
template <class M> static void ref_chunk(M const * A, X, BlockRowPartition<IT> const * p, IT first, IT last, IT bsize)
{
    if (last - first == 1) {
        for (IT k = p->chunks[first]; k < p->chunks[last]; k++)
            A->block(k)->spmv(x + A->blockcol_offset[A->blockcol_ind[k]], y);
    } else {
        IT m = (first + last) / 2;
        ref_chunk(A, x, y, p, first, m, bsize);
        T * temp = new T[bsize]();
        ref_chunk(A, x, temp, p, m, last, bsize);
        for (IT i = 0; i < bsize; i++) y[i] += temp[i];
        delete [] temp;
    }
}
template <class M> static inline void ref_blocked(M const * A, X)
{
    if (A->balanced) {
        for (IT b = 0; b < A->blockrows; b++)
            for (IT k = A->blockrow_ptr[b]; k < A->blockrow_ptr[b+1]; k++)
                A->block(k)->spmv(x + A->blockcol_offset[A->blockcol_ind[k]], y + A->blockrow_offset[b]);
    } else {
        for (IT b = 0; b < A->blockrows; b++)
            ref_chunk(A, x, y + A->blockrow_offset[b], A->partition + b, IT(0), IT(A->partition[b].chunks.size() - 1),
                      IT(A->blockrow_offset[b+1] - A->blockrow_offset[b]));
    }
}
extern "C" {
void impl_csbr(Csbr<T,IT> const * A, X) { A->spmv(x, y); }
void spec_csbr(Csbr<T,IT> const * A, X) { ref_blocked(A, x, y); }
void impl_cgbr(Cgbr<T,IT,SIT> const * A, X) { A->spmv(x, y); }
void spec_cgbr(Cgbr<T,IT,SIT> const * A, X) { ref_blocked(A, x, y); }
void impl_cgbr2(Cgbr2<T,IT,SIT> const * A, X) { A->Cgbr2<T,IT,SIT>::spmv(x, y); }
void spec_cgbr2(Cgbr2<T,IT,SIT> const * A, X) { ref_blocked(A, x, y); }
void impl_cgbr_serial(Cgbr<T,IT,SIT> const * A, X) { A->spmv_serial(x, y); }
void spec_cgbr_serial(Cgbr<T,IT,SIT> const * A, X)
{
    for (IT b = 0; b < A->blockrows; b++)
        for (IT k = A->blockrow_ptr[b]; k < A->blockrow_ptr[b+1]; k++)
            A->blocks[k].spmv_serial(x + A->blockcol_offset[A->blockcol_ind[k]], y + A->blockrow_offset[b]);
}
void impl_csbr2(Csbr2<T,IT> const * A, X) { A->spmv(x, y); }
// blocks of this format keep global column indices
void spec_csbr2(Csbr2<T,IT> const * A, X)
{
    for (IT b = 0; b < A->blockrows; b++)
        for (IT k = A->blockrow_ptr[b]; k < A->blockrow_ptr[b+1]; k++)
            for (IT i = 0; i < A->blockrow_offset[b+1] - A->blockrow_offset[b]; i++)
                for (IT j = A->row_ptr[k][i]; j < A->row_ptr[k][i+1]; j++)
                    y[A->blockrow_offset[b] + i] += A->val[j] * x[A->col_ind[j]];
}
void impl_bcsr(Bcsr<T,IT> const * A, X) { A->spmv(x, y); }
// a dense array of blocks; empty ones have no rows
void spec_bcsr(Bcsr<T,IT> const * A, X)
{
    for (IT b = 0; b < A->blockrows; b++)
        for (IT c = 0; c < A->blockcols; c++)
            if (A->blocks[b * A->blockcols + c].rows > 0)
                A->blocks[b * A->blockcols + c].spmv(x + A->blockcol_offset[c], y + A->blockrow_offset[b]);
}
void impl_csbr3(Csbr3<T,IT,SIT> const * A, X) { A->spmv(x, y); }
}
static void ref3(Csbr3<T,IT,SIT> const * A, IT k, X)
{
    for (IT i = 0; i < A->block_ptr[k + 1] - A->block_ptr[k]; i++)
        y[A->row_ind[A->block_ptr[k] + i]] += A->val[A->block_ptr[k] + i] * x[A->blockcol_ind[k] * A->block_size + A->col_ind[A->block_ptr[k] + i]];
}
static void ref3_chunk(Csbr3<T,IT,SIT> const * A, X, BlockRowPartition<IT> const * p, IT first, IT last, IT bsize)
{
    if (last - first == 1) for (IT k = p->chunks[first]; k < p->chunks[last]; k++) ref3(A, k, x, y);
    else {
        IT m = (first + last) / 2;
        ref3_chunk(A, x, y, p, first, m, bsize);
        T * temp = new T[bsize]();
        ref3_chunk(A, x, temp, p, m, last, bsize);
        for (IT i = 0; i < bsize; i++) y[i] += temp[i];
        delete [] temp;
    }
}
extern "C" {
void spec_csbr3(Csbr3<T,IT,SIT> const * A, X)
{
    for (IT b = 0; b < A->blockrows; b++)
        if (A->balanced) { for (IT k = A->blockrow_ptr[b]; k < A->blockrow_ptr[b+1]; k++) ref3(A, k, x, y + b * A->block_size); }
        else {
            IT e = A->block_size * (b + 1); if (e > A->rows) e = A->rows;
            ref3_chunk(A, x, y + b * A->block_size, A->partition + b, IT(0), IT(A->partition[b].chunks.size() - 1), IT(e - A->block_size * b));
        }
}
IT const * inc_bcsr_r(Bcsr<T,IT> const * A) { return A->blockrow_offset; }
IT const * inc_bcsr_c(Bcsr<T,IT> const * A) { return A->blockcol_offset; }
IT const * inc_bcsr(Bcsr<T,IT> const * A, IT k) { return A->blocks[k].row_ptr; }
IT const * inc_csbr3(Csbr3<T,IT,SIT> const * A) { return A->blockrow_ptr; }
IT const * inc_csbr3_p(Csbr3<T,IT,SIT> const * A) { return A->block_ptr; }
// arrays that are increasing in every legal matrix
IT const * inc_csbr(Csbr<T,IT> const * A) { return A->blockrow_ptr; }
IT const * inc_csbr_r(Csbr<T,IT> const * A) { return A->blockrow_offset; }
IT const * inc_csbr_c(Csbr<T,IT> const * A) { return A->blockcol_offset; }
IT const * inc_cgbr(Cgbr<T,IT,SIT> const * A) { return A->blockrow_ptr; }
IT const * inc_cgbr_r(Cgbr<T,IT,SIT> const * A) { return A->blockrow_offset; }
IT const * inc_cgbr_c(Cgbr<T,IT,SIT> const * A) { return A->blockcol_offset; }
IT const * inc_cgbr2(Cgbr2<T,IT,SIT> const * A) { return A->blockrow_ptr; }
IT const * inc_cgbr2_r(Cgbr2<T,IT,SIT> const * A) { return A->blockrow_offset; }
IT const * inc_cgbr2_c(Cgbr2<T,IT,SIT> const * A) { return A->blockcol_offset; }
IT const * inc_csbr2(Csbr2<T,IT> const * A) { return A->blockrow_ptr; }
IT const * inc_csbr2_r(Csbr2<T,IT> const * A) { return A->blockrow_offset; }
IT const * inc_csbr2_c(Csbr2<T,IT> const * A) { return A->blockcol_offset; }
IT const * inc_csbr2_p(Csbr2<T,IT> const * A, IT k) { return A->row_ptr[k]; }
}
