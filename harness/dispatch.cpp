// Block operations under every block type: what the dispatch does (impl_*), what each representation's own data ask for
// (spec_*), and the routines that choose a type (make_*).  Only compiled to IR.
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "common.h"
#include "typedefs.h"
#include "utils.h"
#include "matrix/blocks.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "types.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef MatrixBlock<T,IT,SIT> MB; typedef Element<T,IT> El;
#define X T const * x, T * y
#define FOR(i,a,b) for (IT i=(a); i<(b); i++)
#define K(k) A->type = (MatrixType) (k)
extern "C" {
#define EACH(k) \
void impl_spmv_##k(MB * A, X) { K(k); A->spmv(x, y); } \
void impl_serial_##k(MB * A, X) { K(k); A->spmv_serial(x, y); } \
IT impl_count_##k(MB * A) { K(k); return A->nonzeros(); } \
void impl_release_##k(MB * A) { K(k); release(A); } \
void spec_spmv_##k##_coo(MB * A, X) { K(k); auto & M = A->matrix.coo; FOR(i,0,M.nnz) y[M.I[i]] += M.val[i] * x[M.J[i]]; } \
void spec_serial_##k##_coo(MB * A, X) { K(k); auto & M = A->matrix.coo; FOR(i,0,M.nnz) y[M.I[i]] += M.val[i] * x[M.J[i]]; } \
IT spec_count_##k##_coo(MB * A) { K(k); return A->matrix.coo.nnz; } \
void spec_release_##k##_coo(MB * A) { K(k); auto & M = A->matrix.coo; delete [] M.I; delete [] M.J; delete [] M.val; } \
void spec_spmv_##k##_csr(MB * A, X) { K(k); auto & M = A->matrix.csr; FOR(i,0,M.rows) FOR(j,M.row_ptr[i],M.row_ptr[i+1]) y[i] += M.val[j] * x[M.col_ind[j]]; } \
void spec_serial_##k##_csr(MB * A, X) { K(k); auto & M = A->matrix.csr; FOR(i,0,M.rows) FOR(j,M.row_ptr[i],M.row_ptr[i+1]) y[i] += M.val[j] * x[M.col_ind[j]]; } \
IT spec_count_##k##_csr(MB * A) { K(k); auto & M = A->matrix.csr; return M.row_ptr[M.rows]; } \
void spec_release_##k##_csr(MB * A) { K(k); auto & M = A->matrix.csr; delete [] M.row_ptr; delete [] M.col_ind; delete [] M.val; } \
void spec_spmv_##k##_dense(MB * A, X) { K(k); auto & M = A->matrix.dense; FOR(i,0,M.rows) FOR(j,0,M.columns) y[i] += M.val[i * M.columns + j] * x[j]; } \
void spec_serial_##k##_dense(MB * A, X) { K(k); auto & M = A->matrix.dense; FOR(i,0,M.rows) FOR(j,0,M.columns) y[i] += M.val[i * M.columns + j] * x[j]; } \
IT spec_count_##k##_dense(MB * A) { K(k); auto & M = A->matrix.dense; return M.rows * M.columns; } \
void spec_release_##k##_dense(MB * A) { K(k); auto & M = A->matrix.dense; delete [] M.val; }
EACH(0)
EACH(1)
EACH(2)
EACH(3)
EACH(4)
EACH(5)
int value_coo() { return BLOCK_COO; }
int value_csr() { return BLOCK_CSR; }
int value_dense() { return BLOCK_DENSE; }
int value_csrp() { return BLOCK_CSR_PAR; }
// the routines that choose
int make_block(MB * A, IT r, IT c, El * n, IT z) { return Coo_to_MatrixBlock(A, r, c, n, z); }
typedef BlockFactoryDefault<T,IT,SIT> BF; typedef BlockBase<T,IT> BB;
int make_object(BB ** A, El * n, IT r, IT c, IT z) { BF f; return f.BF::create(A, n, r, c, z); }
// virtual blocks: the place of the product in the table, and what every class's product is
void slot_spmv(BB * A, X) { A->spmv(x, y); }
void slot_end(BB * A) { delete A; }
typedef Coo<T,IT,SIT> V0; typedef BlockCsrSerial<T,IT,SIT> V1; typedef BlockCsrParallel<T,IT,SIT> V2; typedef DenseSerial<T,IT> V3; typedef DenseParallel<T,IT> V4;
void spec_virtual_coo(V0 const * A, X) { FOR(i,0,A->nnz) y[A->I[i]] += A->val[i] * x[A->J[i]]; }
void spec_virtual_csr(V1 const * A, X) { FOR(i,0,A->M) FOR(j,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[j] * x[A->col_ind[j]]; }
void spec_virtual_csrp(V2 const * A, X) { FOR(i,0,A->M) FOR(j,A->row_ptr[i],A->row_ptr[i+1]) y[i] += A->val[j] * x[A->col_ind[j]]; }
void spec_virtual_dense(V3 const * A, X) { FOR(i,0,A->rows) FOR(j,0,A->columns) y[i] += A->val[i * A->columns + j] * x[j]; }
void spec_virtual_densep(V4 const * A, X) { FOR(i,0,A->rows) FOR(j,0,A->columns) y[i] += A->val[i * A->columns + j] * x[j]; }
IT impl_vcount(BB * A) { return A->nonzeros(); }
IT spec_vcount(BB * A) { return A->nnz; }
}
