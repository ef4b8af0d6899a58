// Public SpMV entry points (impl_*) and reference kernels (spec_*) over the same
// public data.  Nothing here is executed: both are compiled to IR and their
// loop-nest effect summaries are compared.
#include <cstdlib>
#include <cstdio>
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/blocks.h"
#include "types.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
#define X T const * x, T * y
#define FOR(i,a,b) for (IT i=(a); i<(b); i++)
extern "C" {
void impl_coo1(Coo<T,IT,IT> const * A, X) { A->Coo<T,IT,IT>::spmv(x, y); }
void spec_coo1(Coo<T,IT,IT> const * A, X) { FOR(k,0,A->nnz) y[A->I[k]] += A->val[k] * x[A->J[k]]; }
void impl_coo1s(Coo<T,IT,SIT> const * A, X) { A->Coo<T,IT,SIT>::spmv(x, y); }
void spec_coo1s(Coo<T,IT,SIT> const * A, X) { FOR(k,0,A->nnz) y[A->I[k]] += A->val[k] * x[A->J[k]]; }
void impl_coo2(Coo2<T,IT> const * A, X) { A->spmv(x, y); }
void spec_coo2(Coo2<T,IT> const * A, X) { FOR(k,0,A->nnz) y[A->triplets[k].row] += A->triplets[k].val * x[A->triplets[k].col]; }
void impl_coo3(Coo3<T,IT> const * A, X) { A->spmv(x, y); }
void spec_coo3(Coo3<T,IT> const * A, X) { FOR(k,0,A->nnz) y[A->elements[k].row] += A->elements[k].val * x[A->elements[k].col]; }
void impl_csr(Csr<T,IT> const * A, X) { A->spmv(x, y); }
void impl_csr_serial(Csr<T,IT> const * A, X) { A->spmv_serial(x, y); }
void spec_csr(Csr<T,IT> const * A, X) { FOR(i,0,A->rows) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[k] * x[A->col_ind[k]]; }
void impl_csr2(Csr2<T,IT> const * A, X) { A->spmv(x, y); }
void impl_csr2_serial(Csr2<T,IT> const * A, X) { A->spmv_serial(x, y); }
void spec_csr2(Csr2<T,IT> const * A, X) { FOR(i,0,A->rows) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->data[k].val * x[A->data[k].index]; }
void impl_crcsr(CompRowCsr<T,IT> const * A, X) { spmv(A, x, y); }
void impl_crcsr_serial(CompRowCsr<T,IT> const * A, X) { spmv_serial(A, x, y); }
void spec_crcsr(CompRowCsr<T,IT> const * A, X) { FOR(i,0,A->nnz_rows_num) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[A->nnz_rows[i]] += A->val[k] * x[A->col_ind[k]]; }
void impl_cswr(Cswr<T,IT,uint8_t> const * A, X) { A->spmv(x, y); }
void spec_cswr(Cswr<T,IT,uint8_t> const * A, X) { FOR(i,0,A->nwrows) FOR(k,A->wrow_ptr[i],A->wrow_ptr[i+1]) y[A->width*i + A->row[k]] += A->val[k] * x[A->col[k]]; }
void impl_dense_s(DenseSerial<T,IT> const * A, X) { A->DenseSerial<T,IT>::spmv(x, y); }
void spec_dense_s(DenseSerial<T,IT> const * A, X) { FOR(i,0,A->rows) FOR(j,0,A->columns) y[i] += A->val[i*A->columns + j] * x[j]; }
void impl_dense_p(DenseParallel<T,IT> const * A, X) { A->DenseParallel<T,IT>::spmv(x, y); }
void spec_dense_p(DenseParallel<T,IT> const * A, X) { FOR(i,0,A->rows) FOR(j,0,A->columns) y[i] += A->val[i*A->columns + j] * x[j]; }
void impl_bdense(BlockDense<T,IT> const * A, X) { A->spmv(x, y); }
void impl_bdense_serial(BlockDense<T,IT> const * A, X) { A->spmv_serial(x, y); }
void spec_bdense(BlockDense<T,IT> const * A, X) { FOR(i,0,A->rows) FOR(j,0,A->columns) y[i] += A->val[i*A->columns + j] * x[j]; }
void impl_bcoo(BlockCoo<T,IT,SIT> const * A, X) { A->spmv(x, y); }
void spec_bcoo(BlockCoo<T,IT,SIT> const * A, X) { FOR(k,0,A->nnz) y[A->I[k]] += A->val[k] * x[A->J[k]]; }
void impl_bcoo2(BlockCoo2<T,IT,SIT> const * A, X) { A->spmv(x, y); }
void spec_bcoo2(BlockCoo2<T,IT,SIT> const * A, X) { FOR(k,0,A->nnz) y[A->triplets[k].row] += A->triplets[k].val * x[A->triplets[k].col]; }
void impl_bcsr(BlockCsr<T,IT,SIT> const * A, X) { A->spmv(x, y); }
void impl_bcsr_serial(BlockCsr<T,IT,SIT> const * A, X) { A->spmv_serial(x, y); }
void spec_bcsr(BlockCsr<T,IT,SIT> const * A, X) { FOR(i,0,A->rows) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[k] * x[A->col_ind[k]]; }
void impl_bcsrs(BlockCsrSerial<T,IT,SIT> const * A, X) { A->BlockCsrSerial<T,IT,SIT>::spmv(x, y); }
void spec_bcsrs(BlockCsrSerial<T,IT,SIT> const * A, X) { FOR(i,0,A->M) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[k] * x[A->col_ind[k]]; }
void impl_bcsrp(BlockCsrParallel<T,IT,SIT> const * A, X) { A->BlockCsrParallel<T,IT,SIT>::spmv(x, y); }
void spec_bcsrp(BlockCsrParallel<T,IT,SIT> const * A, X) { FOR(i,0,A->M) FOR(k,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[k] * x[A->col_ind[k]]; }
// arrays that are increasing / injective in every legal matrix
IT const * inc_csr(Csr<T,IT> const * A) { return A->row_ptr; }
IT const * inc_csr2(Csr2<T,IT> const * A) { return A->row_ptr; }
IT const * inc_crcsr(CompRowCsr<T,IT> const * A) { return A->row_ptr; }
IT const * inc_crcsr_rows(CompRowCsr<T,IT> const * A) { return A->nnz_rows; }
IT const * inc_cswr(Cswr<T,IT,uint8_t> const * A) { return A->wrow_ptr; }
IT const * inc_bcsr(BlockCsr<T,IT,SIT> const * A) { return A->row_ptr; }
IT const * inc_bcsrp(BlockCsrParallel<T,IT,SIT> const * A) { return A->row_ptr; }
}
