// Conversions from coordinate data: public entry points (impl_*) and references (spec_*), both only compiled to IR.
// The sorts, the block numbering and the counting helpers are opaque here; they have checks of their own.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/blocks.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;

template <class N> static inline void ref_rowptr(IT * rp, N const * a, IT rows, IT nnz)
{
    for (IT i = 0; i < nnz; i++) rp[a[i].row + 1]++;
    for (IT i = 0; i < rows; i++) rp[i + 1] = rp[i + 1] + rp[i];
}
template <class A, class N> static inline void ref_csr(A * a, N * n, IT rows, IT columns, IT nnz, bool sorted, bool alloc)
{
    a->rows = rows; a->columns = columns;
    if (!sorted) sort_triplets(n, nnz);
    if (alloc) { a->val = new T[nnz]; a->col_ind = new IT[nnz]; }
    a->row_ptr = new IT[rows + 1]();
    for (IT i = 0; i < nnz; i++) { a->col_ind[i] = n[i].col; a->val[i] = n[i].val; }
    ref_rowptr(a->row_ptr, n, rows, nnz);
}
template <class N> static inline void ref_csr2(Csr2<T,IT> * a, N * n, IT rows, IT columns, IT nnz, bool sorted, bool alloc)
{
    a->rows = rows; a->columns = columns;
    if (!sorted) sort_triplets(n, nnz);
    if (alloc) a->data = new NonZero<T,IT>[nnz];
    a->row_ptr = new IT[rows + 1]();
    for (IT i = 0; i < nnz; i++) { a->data[i].index = n[i].col; a->data[i].val = n[i].val; }
    ref_rowptr(a->row_ptr, n, rows, nnz);
}
template <class B, class N> static inline void ref_bcsr(B * a, N * n, IT rows, IT columns, IT nnz, bool sorted)
{
    a->rows = rows; a->columns = columns;
    if (!sorted) sort_triplets(n, nnz);
    a->val = new T[nnz]; a->col_ind = new SIT[nnz]; a->row_ptr = new IT[rows + 1]();
    for (IT i = 0; i < nnz; i++) { a->col_ind[i] = (SIT) n[i].col; a->val[i] = n[i].val; }
    ref_rowptr(a->row_ptr, n, rows, nnz);
}
template <class N> static inline void ref_crcsr(CompRowCsr<T,IT> * a, N * n, IT nnz, IT nrows)
{
    a->nnz_rows_num = nrows;
    a->nnz_rows = new IT[nrows]; a->row_ptr = new IT[nrows + 1](); a->col_ind = new IT[nnz]; a->val = new T[nnz];
    sort_triplets(n, nnz);
    if (nnz > 0) a->nnz_rows[0] = n[0].row;
    IT r = 0;
    for (IT i = 0; i < nnz; i++) {
        a->col_ind[i] = n[i].col; a->val[i] = n[i].val;
        if (a->nnz_rows[r] != n[i].row) { r++; a->nnz_rows[r] = n[i].row; }
        a->row_ptr[r + 1]++;
    }
    for (IT i = 0; i < nrows; i++) a->row_ptr[i + 1] = a->row_ptr[i + 1] + a->row_ptr[i];
}
template <class N> static inline void ref_cswr(Cswr<T,IT,SIT> * a, N * n, IT rows, IT columns, IT nnz, IT width)
{
    a->rows = rows; a->columns = columns; a->nnz = nnz; a->width = width; a->nwrows = (rows + width - 1) / width;
    a->val = new T[nnz]; a->row = new SIT[nnz]; a->col = new IT[nnz]; a->wrow_ptr = new IT[a->nwrows + 1]();
    sort_triplets_widerows(n, nnz, width);
    for (IT i = 0; i < nnz; i++) {
        a->wrow_ptr[n[i].row / width + 1]++;
        a->row[i] = (SIT) (n[i].row % width); a->col[i] = n[i].col; a->val[i] = n[i].val;
    }
    for (IT i = 0; i < a->nwrows; i++) a->wrow_ptr[i + 1] = a->wrow_ptr[i + 1] + a->wrow_ptr[i];
}
template <class D, class N> static inline void ref_dense(D * a, N * n, IT rows, IT columns, IT nnz)
{
    a->rows = rows; a->columns = columns;
    a->val = new T[rows * columns]();
    for (IT i = 0; i < nnz; i++) a->val[n[i].row * columns + n[i].col] += n[i].val;
}
template <class N> static inline void ref_coo1(Coo<T,IT,IT> * a, N const * n, IT rows, IT columns, IT nnz)
{
    a->rows = rows; a->columns = columns; a->nnz = nnz;
    a->I = new IT[nnz]; a->J = new IT[nnz]; a->val = new T[nnz];
    for (IT i = 0; i < nnz; i++) { a->I[i] = n[i].row; a->J[i] = n[i].col; a->val[i] = n[i].val; }
}
template <class N, class P> static inline void ref_aos(P * d, N const * n, IT nnz)
{
    for (IT i = 0; i < nnz; i++) { d[i].row = n[i].row; d[i].col = n[i].col; d[i].val = n[i].val; }
}

extern "C" {
// ---- compressed sparse rows
void impl_csr_t(Csr<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s, bool a) { Coo_to_Csr(A, n, r, c, z, s, a); }
void spec_csr_t(Csr<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s, bool a) { ref_csr(A, n, r, c, z, s, a); }
void impl_csr_e(Csr<T,IT> * A, El * n, IT r, IT c, IT z, bool s, bool a) { Coo_to_Csr(A, n, r, c, z, s, a); }
void spec_csr_e(Csr<T,IT> * A, El * n, IT r, IT c, IT z, bool s, bool a) { ref_csr(A, n, r, c, z, s, a); }
void impl_csr_coo2(Csr<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Csr(A, B); }
void spec_csr_coo2(Csr<T,IT> * A, Coo2<T,IT> * B) { ref_csr(A, B->triplets, B->rows, B->columns, B->nnz, false, true); }
void impl_csr_coo3(Csr<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Csr(A, B); }
void spec_csr_coo3(Csr<T,IT> * A, Coo3<T,IT> * B) { ref_csr(A, B->elements, B->rows, B->columns, B->nnz, false, true); }
void impl_csr_arrays(Csr<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z) { Coo_to_Csr(A, v, I, J, r, c, z); }
void spec_csr_arrays(Csr<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z)
{
    A->val = v; A->col_ind = J; A->row_ptr = new IT[r + 1](); A->rows = r; A->columns = c;
    Tr * t = new Tr[z];
    for (IT i = 0; i < z; i++) { t[i].row = I[i]; t[i].col = J[i]; t[i].val = v[i]; }
    sort_triplets(t, z);
    for (IT i = 0; i < z; i++) { I[i] = t[i].row; J[i] = t[i].col; v[i] = t[i].val; }
    delete [] t;
    for (IT i = 0; i < z; i++) A->row_ptr[I[i] + 1]++;
    for (IT i = 0; i < r; i++) A->row_ptr[i + 1] = A->row_ptr[i + 1] + A->row_ptr[i];
}
void impl_csr2_t(Csr2<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s, bool a) { Coo_to_Csr(A, n, r, c, z, s, a); }
void spec_csr2_t(Csr2<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s, bool a) { ref_csr2(A, n, r, c, z, s, a); }
void impl_csr2_coo2(Csr2<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Csr(A, B); }
void spec_csr2_coo2(Csr2<T,IT> * A, Coo2<T,IT> * B) { ref_csr2(A, B->triplets, B->rows, B->columns, B->nnz, false, true); }
void impl_csr2_coo3(Csr2<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Csr(A, B); }
void spec_csr2_coo3(Csr2<T,IT> * A, Coo3<T,IT> * B) { ref_csr2(A, B->elements, B->rows, B->columns, B->nnz, false, true); }
// ---- compressed rows only
void impl_crcsr_n(CompRowCsr<T,IT> * A, El * n, IT z, IT k) { Coo_to_CrCsr(A, n, z, k); }
void spec_crcsr_n(CompRowCsr<T,IT> * A, El * n, IT z, IT k) { ref_crcsr(A, n, z, k); }
void impl_crcsr_coo2(CompRowCsr<T,IT> * A, Coo2<T,IT> * B) { Coo_to_CrCsr(A, B); }
void spec_crcsr_coo2(CompRowCsr<T,IT> * A, Coo2<T,IT> * B)
{
    sort_triplets(B->triplets, B->nnz);
    ref_crcsr(A, B->triplets, B->nnz, count_nnz_rows(B->triplets, B->nnz));
}
void impl_crcsr_coo3(CompRowCsr<T,IT> * A, Coo3<T,IT> * B) { Coo_to_CrCsr(A, B); }
void spec_crcsr_coo3(CompRowCsr<T,IT> * A, Coo3<T,IT> * B)
{
    sort_triplets(B->elements, B->nnz);
    ref_crcsr(A, B->elements, B->nnz, count_nnz_rows(B->elements, B->nnz));
}
// ---- wide rows
void impl_cswr_t(Cswr<T,IT,SIT> * A, Tr * n, IT r, IT c, IT z, IT w) { Coo_to_Cswr(A, n, r, c, z, w); }
void spec_cswr_t(Cswr<T,IT,SIT> * A, Tr * n, IT r, IT c, IT z, IT w) { ref_cswr(A, n, r, c, z, w); }
void impl_cswr_coo2(Cswr<T,IT,SIT> * A, Coo2<T,IT> * B, IT w) { Coo_to_Cswr(A, B, w); }
void spec_cswr_coo2(Cswr<T,IT,SIT> * A, Coo2<T,IT> * B, IT w) { ref_cswr(A, B->triplets, B->rows, B->columns, B->nnz, w); }
void impl_cswr_coo3(Cswr<T,IT,SIT> * A, Coo3<T,IT> * B, IT w) { Coo_to_Cswr(A, B, w); }
void spec_cswr_coo3(Cswr<T,IT,SIT> * A, Coo3<T,IT> * B, IT w) { ref_cswr(A, B->elements, B->rows, B->columns, B->nnz, w); }
// ---- dense
void impl_dense_serial(DenseSerial<T,IT> * A, El * n, IT r, IT c, IT z) { new (A) DenseSerial<T,IT>(n, r, c, z); }
void impl_dense_parallel(DenseParallel<T,IT> * A, El * n, IT r, IT c, IT z) { new (A) DenseParallel<T,IT>(n, r, c, z); }
void spec_dense_serial(DenseSerial<T,IT> * A, El * n, IT r, IT c, IT z) { A->nnz = z; ref_dense(A, n, r, c, z); }
void spec_dense_parallel(DenseParallel<T,IT> * A, El * n, IT r, IT c, IT z) { A->nnz = z; ref_dense(A, n, r, c, z); }
void impl_dense_t(BlockDense<T,IT> * A, Tr * n, IT r, IT c, IT z) { Coo_to_Dense(A, n, r, c, z); }
void spec_dense_t(BlockDense<T,IT> * A, Tr * n, IT r, IT c, IT z) { ref_dense(A, n, r, c, z); }
void impl_dense_coo2(BlockDense<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Dense(A, B); }
void spec_dense_coo2(BlockDense<T,IT> * A, Coo2<T,IT> * B) { ref_dense(A, B->triplets, B->rows, B->columns, B->nnz); }
void impl_dense_coo3(BlockDense<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Dense(A, B); }
void spec_dense_coo3(BlockDense<T,IT> * A, Coo3<T,IT> * B) { ref_dense(A, B->elements, B->rows, B->columns, B->nnz); }
// ---- coordinate to coordinate
void impl_coo_coo2(Coo<T,IT,IT> * A, Coo2<T,IT> * B) { Coo_to_Coo(A, B); }
void spec_coo_coo2(Coo<T,IT,IT> * A, Coo2<T,IT> * B) { ref_coo1(A, B->triplets, B->rows, B->columns, B->nnz); }
void impl_coo_coo3(Coo<T,IT,IT> * A, Coo3<T,IT> * B) { Coo_to_Coo(A, B); }
void spec_coo_coo3(Coo<T,IT,IT> * A, Coo3<T,IT> * B) { ref_coo1(A, B->elements, B->rows, B->columns, B->nnz); }
void impl_coo_array(Coo<T,IT,IT> * A, El * n, IT r, IT c, IT z) { Coo_to_Coo(A, n, r, c, z); }
void spec_coo_array(Coo<T,IT,IT> * A, El * n, IT r, IT c, IT z) { ref_coo1(A, n, r, c, z); }
void impl_coo_arrays(Coo<T,IT,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z) { Coo_to_Coo(A, v, I, J, r, c, z); }
void spec_coo_arrays(Coo<T,IT,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z)
{
    A->rows = r; A->columns = c; A->nnz = z;
    A->I = new IT[z]; A->J = new IT[z]; A->val = new T[z];
    for (IT i = 0; i < z; i++) { A->I[i] = I[i]; A->J[i] = J[i]; A->val[i] = v[i]; }
}
void impl_coo2_arrays(Coo2<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z) { Coo_to_Coo(A, v, I, J, r, c, z); }
void spec_coo2_arrays(Coo2<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z)
{
    A->rows = r; A->columns = c; A->nnz = z; A->triplets = new Tr[z];
    for (IT i = 0; i < z; i++) { A->triplets[i].row = I[i]; A->triplets[i].col = J[i]; A->triplets[i].val = v[i]; }
}
void impl_coo3_arrays(Coo3<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z) { Coo_to_Coo(A, v, I, J, r, c, z); }
void spec_coo3_arrays(Coo3<T,IT> * A, T * v, IT * I, IT * J, IT r, IT c, IT z)
{
    A->rows = r; A->columns = c; A->nnz = z; A->elements = new El[z];
    for (IT i = 0; i < z; i++) { A->elements[i].row = I[i]; A->elements[i].col = J[i]; A->elements[i].val = v[i]; }
}
void impl_coo3_coo2(Coo3<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Coo(A, B); }
void spec_coo3_coo2(Coo3<T,IT> * A, Coo2<T,IT> * B)
{ A->rows = B->rows; A->columns = B->columns; A->nnz = B->nnz; A->elements = new El[B->nnz]; ref_aos(A->elements, B->triplets, B->nnz); }
void impl_coo2_coo3(Coo2<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Coo(A, B); }
void spec_coo2_coo3(Coo2<T,IT> * A, Coo3<T,IT> * B)
{ A->rows = B->rows; A->columns = B->columns; A->nnz = B->nnz; A->triplets = new Tr[B->nnz]; ref_aos(A->triplets, B->elements, B->nnz); }
// ---- block payloads
void impl_b_coo(BlockCoo<T,IT,SIT> * A, El * n, IT z) { Coo_to_Coo(A, n, z); }
void spec_b_coo(BlockCoo<T,IT,SIT> * A, El * n, IT z)
{
    A->nnz = z; A->val = new T[z]; A->I = new SIT[z]; A->J = new SIT[z];
    sort_triplets_morton(n, z);
    for (IT i = 0; i < z; i++) { A->I[i] = (SIT) n[i].row; A->J[i] = (SIT) n[i].col; A->val[i] = n[i].val; }
}
void impl_b_coo2(BlockCoo2<T,IT,SIT> * A, El * n, IT z) { Coo_to_Coo(A, n, z); }
void spec_b_coo2(BlockCoo2<T,IT,SIT> * A, El * n, IT z)
{
    A->nnz = z; A->triplets = new Triplet<T,SIT>[z];
    for (IT i = 0; i < z; i++) { A->triplets[i].row = (SIT) n[i].row; A->triplets[i].col = (SIT) n[i].col; A->triplets[i].val = n[i].val; }
    sort_triplets_morton(A->triplets, A->nnz);
}
void impl_b_csr(BlockCsr<T,IT,SIT> * A, El * n, IT r, IT c, IT z, bool s) { Coo_to_Csr(A, n, r, c, z, s); }
void spec_b_csr(BlockCsr<T,IT,SIT> * A, El * n, IT r, IT c, IT z, bool s) { ref_bcsr(A, n, r, c, z, s); }
void impl_b_csr5(BlockCsr<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { Coo_to_Csr(A, n, r, c, z); }
void spec_b_csr5(BlockCsr<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { ref_bcsr(A, n, r, c, z, true); }
void impl_b_vcoo(Coo<T,IT,SIT> * A, El * n, IT z) { new (A) Coo<T,IT,SIT>(n, z); }
void spec_b_vcoo(Coo<T,IT,SIT> * A, El * n, IT z)
{
    A->nnz = z; A->val = new T[z]; A->I = new SIT[z]; A->J = new SIT[z];
    sort_triplets_morton(n, z);
    for (IT i = 0; i < z; i++) { A->I[i] = (SIT) n[i].row; A->J[i] = (SIT) n[i].col; A->val[i] = n[i].val; }
}
void impl_b_vcsr(BlockCsrSerial<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { new (A) BlockCsrSerial<T,IT,SIT>(n, r, c, z); }
void impl_b_vcsrp(BlockCsrParallel<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { new (A) BlockCsrParallel<T,IT,SIT>(n, r, c, z); }
static inline void ref_vcsr(BlockCsrSerial<T,IT,SIT> * A, El * n, IT r, IT c, IT z)
{
    A->nnz = z; A->M = r;
    A->row_ptr = new IT[r + 1](); A->col_ind = new SIT[z]; A->val = new T[z];
    for (IT i = 0; i < z; i++) { A->col_ind[i] = (SIT) n[i].col; A->val[i] = n[i].val; }
    ref_rowptr(A->row_ptr, n, r, z);
}
void spec_b_vcsr(BlockCsrSerial<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { ref_vcsr(A, n, r, c, z); }
void spec_b_vcsrp(BlockCsrParallel<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { ref_vcsr(A, n, r, c, z); }
// ---- helpers
IT impl_count_nnz_rows(El * n, IT z) { return count_nnz_rows(n, z); }
IT spec_count_nnz_rows(El * n, IT z)
{
    if (z == 0) return 0;
    IT c = 1, r = n[0].row;
    for (IT i = 0; i < z; i++) if (n[i].row != r) { r = n[i].row; c++; }
    return c;
}
}
