// Everything that scans entries, blocks or rows; the extents of the arrays that are passed in are declared first.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_csr.h"
#include "permute.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;
extern "C" { void entries(const void *, size_t); void bounded(const void *, size_t); void values(const void *, size_t, size_t); void sink(const void *, ...); void number(size_t); }
#define OFFS IT * ro, IT nr, IT * co, IT nc
#define SCAN(name, ...) extern "C" void scan_##name(__VA_ARGS__)
#define N entries(e, n * sizeof(*e))
#define FIELD(f, bound) values(&e->f, sizeof(*e), bound)
#define B N; FIELD(block, nr * (size_t) nc); bounded(ro, (nr + (size_t) 1) * sizeof(IT)); bounded(co, (nc + (size_t) 1) * sizeof(IT))
template <class P> struct coo_of; template <> struct coo_of<Tr> { typedef Coo2<T,IT> t; static void put(t & c, Tr * e) { c.triplets = e; } };
template <> struct coo_of<El> { typedef Coo3<T,IT> t; static void put(t & c, El * e) { c.elements = e; } };
#define COO(P) FIELD(row, rows); FIELD(col, cols); coo_of<P>::t c; coo_of<P>::put(c, e); c.rows = rows; c.columns = cols; c.nnz = n
SCAN(count_blocks, El * e, IT n) { N; number(count_blocks(e, n)); }
SCAN(count_rows, Tr * e, IT n) { N; number(count_nnz_rows(e, n)); }
SCAN(count_rows3, El * e, IT n) { N; number(count_nnz_rows(e, n)); }
SCAN(order, Tr * e, IT n, int r) { N; sort_triplets(e, n, r); }
SCAN(sort3, El * e, IT n, int r) { N; sort_triplets(e, n, r); }
SCAN(sort_morton, Triplet<T,SIT> * e, IT n) { N; sort_triplets_morton(e, n); }
SCAN(sort_blocks, Tr * e, IT n, OFFS) { N; bounded(ro, (nr + (size_t) 1) * sizeof(IT)); bounded(co, (nc + (size_t) 1) * sizeof(IT)); sort_triplets_blocks(e, n, ro, nr, co, nc); }
SCAN(sort_elements, El * e, IT n) { N; sort_elements_blocks(e, n); }
SCAN(sort_wide, Tr * e, IT n, IT w) { N; sort_triplets_widerows(e, n, w); }
SCAN(block_id, El * e, IT n, OFFS) { B; calculate_block_id(e, n, ro, nr, co, nc); }
SCAN(block_id2, El * e, IT n, IT h, IT w, IT nc) { N; calculate_block_id(e, n, h, w, nc); }
SCAN(offsets, IT * o, const IT * e, IT n) { bounded(o, (n + (size_t) 1) * sizeof(IT)); N; size_to_offset(o, e, n); }
SCAN(crcsr, Tr * e, IT n, IT rows, IT cols) { N; COO(Tr); CompRowCsr<T,IT> A; Coo_to_CrCsr(&A, &c); sink(A.nnz_rows, A.row_ptr, A.col_ind, A.val); }
SCAN(crcsr3, El * e, IT n, IT rows, IT cols) { N; COO(El); CompRowCsr<T,IT> A; Coo_to_CrCsr(&A, &c); sink(A.nnz_rows, A.row_ptr, A.col_ind, A.val); }
SCAN(csr, Tr * e, IT n, IT rows, IT cols) { N; COO(Tr); Csr<T,IT> A; Coo_to_Csr(&A, &c); sink(A.row_ptr, A.col_ind, A.val); }
SCAN(csr2, Tr * e, IT n, IT rows, IT cols) { N; COO(Tr); Csr2<T,IT> A; Coo_to_Csr(&A, &c); sink(A.row_ptr, A.data); }
SCAN(csbr, El * e, IT n, IT rows, IT cols, OFFS) { B; COO(El); Csbr<T,IT> A; Coo_to_Csbr(&A, &c, ro, nr, co, nc); sink(A.blocks, A.blockcol_ind, A.blockrow_ptr); }
SCAN(csbr2, El * e, IT n, IT rows, IT cols, OFFS) { B; COO(El); Csbr2<T,IT> A; Coo_to_Csbr(&A, &c, ro, nr, co, nc); sink(A.blockrow_ptr, A.row_ptr, A.val, A.col_ind); }
SCAN(csbr3, El * e, IT n, IT rows, IT cols, IT b) { N; COO(El); FIELD(block, ((rows + b - 1) / b) * (size_t) ((cols + b - 1) / b)); Csbr3<T,IT,SIT> A; Coo_to_Csbr(&A, &c, b); sink(A.blockrow_ptr, A.block_ptr, A.blockcol_ind, A.row_ind, A.col_ind, A.val); }
SCAN(bcsr, El * e, IT n, IT rows, IT cols, OFFS) { B; COO(El); Bcsr<T,IT> A; Coo_to_Blocked(&A, &c, ro, nr, co, nc); sink(A.blocks); }
SCAN(cgbr, El * e, IT n, IT rows, IT cols, OFFS) { B; COO(El); Cgbr<T,IT,SIT> A; Coo_to_Blocked(&A, &c, ro, nr, co, nc); sink(A.blocks, A.blockcol_ind, A.blockrow_ptr); }
SCAN(cgbr2, El * e, IT n, IT rows, IT cols, OFFS) { B; COO(El); Cgbr2<T,IT,SIT> A; Coo_to_Blocked(&A, &c, ro, nr, co, nc); sink(A.blocks, A.blockcol_ind, A.blockrow_ptr); }
SCAN(cswr, Tr * e, IT n, IT rows, IT cols, IT w) { N; COO(Tr); Cswr<T,IT,SIT> A; Coo_to_Cswr(&A, &c, w); sink(A.wrow_ptr, A.row, A.col, A.val); }
SCAN(cswr3, El * e, IT n, IT rows, IT cols, IT w) { N; COO(El); Cswr<T,IT,SIT> A; Coo_to_Cswr(&A, &c, w); sink(A.wrow_ptr, A.row, A.col, A.val); }
SCAN(bcoo, El * e, IT n) { N; BlockCoo<T,IT,SIT> A; Coo_to_Coo(&A, e, n); sink(A.I, A.J, A.val); }
SCAN(coo, El * e, IT n) { N; Coo<T,IT,SIT> * A = new Coo<T,IT,SIT>(e, n); sink(A); }
SCAN(bcsr1, El * e, IT n, IT rows, IT cols, int sorted) { N; FIELD(row, rows); BlockCsr<T,IT,SIT> A; Coo_to_Csr(&A, e, rows, cols, n, (bool) sorted); sink(A.row_ptr, A.col_ind, A.val); }
SCAN(dense, El * e, IT n, IT rows, IT cols) { N; FIELD(row, rows); FIELD(col, cols); BlockDense<T,IT> A; Coo_to_Dense(&A, e, rows, cols, n); sink(A.val); }
SCAN(csr_arrays, IT * e, IT * I, IT * J, T * v, IT n, IT rows, IT cols) { N; entries(I, n * sizeof(IT)); values(I, sizeof(IT), rows); entries(J, n * sizeof(IT)); entries(v, n * sizeof(T)); Csr<T,IT> A; Coo_to_Csr(&A, v, I, J, rows, cols, n); sink(A.row_ptr); }
SCAN(csr_elements, El * e, IT n, IT rows, IT cols, int sorted) { N; FIELD(row, rows); Csr<T,IT> A; Coo_to_Csr(&A, e, rows, cols, n, (bool) sorted, true); sink(A.row_ptr, A.col_ind, A.val); }
SCAN(permute, El * e, IT n, IT * p, IT m) { N; FIELD(row, m); FIELD(col, m); bounded(p, m * sizeof(IT)); permute_indeces(e, n, p); }
SCAN(permute_arrays, IT * e, IT n, IT * p, IT m) { N; values(e, sizeof(IT), m); bounded(p, m * sizeof(IT)); permute_indeces(e, p, n); }
SCAN(invert, IT * e, IT n) { N; values(e, sizeof(IT), n); sink(invert_permutation(e, n)); }
// expansion
#include "expand.h"
SCAN(expand_size, IT * e, IT n) { N; number(expand_block_size(e, n)); }
SCAN(expand_arrays, IT * e, IT n, IT * s, IT m) { N; bounded(s, m * sizeof(IT)); sink((void*) (size_t) expand_indeces(e, n, s, m)); }
SCAN(expand_elements, El * e, IT n, IT * s, IT * o, IT m) { N; FIELD(block, m * (size_t) m); bounded(s, m * sizeof(IT)); bounded(o, m * sizeof(IT)); sink((void*) (size_t) expand_indeces(e, n, s, o, m)); }
// products of flat formats: the row pointers are at most the number of entries, the vectors as long as the matrix is wide and high
#define XY(rows, cols) bounded(x, cols * sizeof(T)); bounded(y, rows * sizeof(T))
#define ROWS(p, rows) bounded(p, (rows + (size_t) 1) * sizeof(IT)); values(p, sizeof(IT), n + (size_t) 1)
#define CSR_(C) ROWS(p, rows); entries(c, n * sizeof(C)); values(c, sizeof(C), cols); entries(v, n * sizeof(T)); XY(rows, cols)
SCAN(p_csr, IT * p, IT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { CSR_(IT); spmv_csr(p, c, v, rows, x, y); }
SCAN(p_csr_serial, IT * p, IT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { CSR_(IT); spmv_csr_serial(p, c, v, rows, x, y); }
SCAN(p_bcsr, IT * p, SIT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { CSR_(SIT); spmv_csr(p, c, v, rows, x, y); }
SCAN(p_coo, IT * r, IT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { entries(r, n * sizeof(IT)); values(r, sizeof(IT), rows); entries(c, n * sizeof(IT)); values(c, sizeof(IT), cols); entries(v, n * sizeof(T)); XY(rows, cols); spmv_coo(v, r, c, n, x, y); }
SCAN(p_coo2, Tr * e, IT n, IT rows, IT cols, T * x, T * y) { N; FIELD(row, rows); FIELD(col, cols); XY(rows, cols); spmv_coo(e, n, x, y); }
SCAN(p_coo3, El * e, IT n, IT rows, IT cols, T * x, T * y) { N; FIELD(row, rows); FIELD(col, cols); XY(rows, cols); spmv_coo(e, n, x, y); }
#define CR entries(r, m * sizeof(IT)); values(r, sizeof(IT), rows); ROWS(p, m); entries(c, n * sizeof(IT)); values(c, sizeof(IT), cols); entries(v, n * sizeof(T)); XY(rows, cols); CompRowCsr<T,IT> A; A.nnz_rows_num = m; A.nnz_rows = r; A.row_ptr = p; A.col_ind = c; A.val = v
SCAN(p_crcsr, IT * r, IT m, IT * p, IT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { CR; spmv(&A, x, y); }
SCAN(p_crcsr_serial, IT * r, IT m, IT * p, IT * c, T * v, IT n, IT rows, IT cols, T * x, T * y) { CR; spmv_serial(&A, x, y); }
