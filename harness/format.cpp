// Binary file formats: the readers and writers of the repository (impl_*) and the formats written down (spec_*).
#include "types.h"
#include <algorithm>
#include <numeric>
#include <vector>
#include <omp.h>
#include "stream.h"
#ifdef COMMON
#include COMMON
#endif
#include "typedefs.h"
#include "utils.h"
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/bcsr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef const char * N;
#define E extern "C"
template <class X> static inline X get(N n, long pos) { X x; memcpy(&x, n + pos, sizeof x); return x; }
template <class X> static inline void put(N n, long pos, X x) { memcpy((char *) n + pos, &x, sizeof x); }

#ifdef COMMON
E int impl_ends_with(const char * __restrict s, const char * __restrict e) { return !!string_ends_with(s, e); }
E int spec_ends_with(const char * __restrict s, const char * __restrict e) { int n = strlen(s), k = strlen(e); return n >= k && !strcmp(s + (n - k), e); }
E size_t impl_file_size(N f) { return get_file_size(f); }
E size_t spec_file_size(N f) { return file_size(f); }
#else
// ---------------------------------------------------------------- arrays: the elements, nothing else
template <class X> static inline int read_array(N f, X ** d, size_t * n)
{
    size_t size = get_file_size(f) / sizeof(X);
    *n = size; *d = (X *) malloc(size * sizeof(X));
    for (size_t i = 0; i < size; i++) (*d)[i] = get<X>(f, i * sizeof(X));
    return 0;
}
template <class X> static inline int write_array(N f, X * d, size_t n) { for (size_t i = 0; i < n; i++) put(f, i * sizeof(X), d[i]); return 0; }
E int impl_rd_array_i(N f, IT ** d, size_t * n) { return read_bin_array(f, d, n); }
E int spec_rd_array_i(N f, IT ** d, size_t * n) { return read_array(f, d, n); }
E int impl_rd_array_v(N f, T ** d, size_t * n) { return read_bin_array(f, d, n); }
E int spec_rd_array_v(N f, T ** d, size_t * n) { return read_array(f, d, n); }
E int impl_wr_array_i(N f, IT * d, size_t n) { return write_bin_array(f, d, n); }
E int spec_wr_array_i(N f, IT * d, size_t n) { return write_array(f, d, n); }
E int impl_wr_array_v(N f, T * d, size_t n) { return write_bin_array(f, d, n); }
E int spec_wr_array_v(N f, T * d, size_t n) { return write_array(f, d, n); }

// ---------------------------------------------------------------- three files: rows, columns, values
static inline IT entries(N v) { return (IT) (get_file_size(v) / sizeof(T)); }
template <class C> static inline int read_three(C * a, N r, N c, N v)
{
    IT size = entries(v), mr = 0, mc = 0;
    allocate(a, size);
    for (IT i = 0; i < size; i++) { IT x = get<IT>(r, i * sizeof(IT)); a->set_row_index(i, x); if (x > mr) mr = x; }
    for (IT i = 0; i < size; i++) { IT x = get<IT>(c, i * sizeof(IT)); a->set_column_index(i, x); if (x > mc) mc = x; }
    for (IT i = 0; i < size; i++) a->set_value(i, get<T>(v, i * sizeof(T)));
    a->rows = mr + 1; a->columns = mc + 1; a->nnz = size;
    return 0;
}
template <class C> static inline int write_three(C * a, N r, N c, N v)
{
    for (IT i = 0; i < a->nnz; i++) put(r, i * sizeof(IT), a->get_row_index(i));
    for (IT i = 0; i < a->nnz; i++) put(c, i * sizeof(IT), a->get_column_index(i));
    for (IT i = 0; i < a->nnz; i++) put(v, i * sizeof(T), a->get_value(i));
    return 0;
}
E int impl_rd_three_1(Coo<T,IT,IT> * __restrict A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int spec_rd_three_1(Coo<T,IT,IT> * __restrict A, N r, N c, N v)
{
    IT size = entries(v), mr = 0, mc = 0;
    allocate(A, size);
    for (IT i = 0; i < size; i++) A->I[i] = get<IT>(r, i * sizeof(IT));
    for (IT i = 0; i < size; i++) if (A->I[i] > mr) mr = A->I[i];
    for (IT i = 0; i < size; i++) A->J[i] = get<IT>(c, i * sizeof(IT));
    for (IT i = 0; i < size; i++) if (A->J[i] > mc) mc = A->J[i];
    for (IT i = 0; i < size; i++) A->val[i] = get<T>(v, i * sizeof(T));
    A->rows = mr + 1; A->columns = mc + 1; A->nnz = size;
    return 0;
}
E int impl_rd_three_2(Coo2<T,IT> * __restrict A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int spec_rd_three_2(Coo2<T,IT> * __restrict A, N r, N c, N v) { return read_three(A, r, c, v); }
E int impl_rd_three_3(Coo3<T,IT> * __restrict A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int spec_rd_three_3(Coo3<T,IT> * __restrict A, N r, N c, N v) { return read_three(A, r, c, v); }
E int impl_wr_three_2(Coo2<T,IT> * __restrict A, N r, N c, N v) { return write_bin_COO(A, r, c, v); }
E int spec_wr_three_2(Coo2<T,IT> * __restrict A, N r, N c, N v) { return write_three(A, r, c, v); }
E int impl_wr_three_3(Coo3<T,IT> * __restrict A, N r, N c, N v) { return write_bin_COO(A, r, c, v); }
E int spec_wr_three_3(Coo3<T,IT> * __restrict A, N r, N c, N v) { return write_three(A, r, c, v); }

// ---------------------------------------------------------------- .bin: rows, columns, nnz; all rows, all columns, all values
template <class C> static inline int read_coo(C * a, N f)
{
    a->rows = get<IT>(f, 0); a->columns = get<IT>(f, sizeof(IT)); a->nnz = get<IT>(f, 2 * sizeof(IT));
    allocate(a, a->nnz);
    long h = 3 * sizeof(IT), n = a->nnz;
    for (IT i = 0; i < a->nnz; i++) a->set_row_index(i, get<IT>(f, h + (long) i * sizeof(IT)));
    for (IT i = 0; i < a->nnz; i++) a->set_column_index(i, get<IT>(f, h + n * sizeof(IT) + (long) i * sizeof(IT)));
    for (IT i = 0; i < a->nnz; i++) a->set_value(i, get<T>(f, h + 2 * n * sizeof(IT) + (long) i * sizeof(T)));
    return 0;
}
template <class C> static inline int write_coo(C * a, N f)
{
    put(f, 0, a->rows); put(f, sizeof(IT), a->columns); put(f, 2 * sizeof(IT), a->nnz);
    long h = 3 * sizeof(IT), n = a->nnz;
    for (IT i = 0; i < a->nnz; i++) put(f, h + (long) i * sizeof(IT), a->get_row_index(i));
    for (IT i = 0; i < a->nnz; i++) put(f, h + n * sizeof(IT) + (long) i * sizeof(IT), a->get_column_index(i));
    for (IT i = 0; i < a->nnz; i++) put(f, h + 2 * n * sizeof(IT) + (long) i * sizeof(T), a->get_value(i));
    return 0;
}
E int impl_rd_coo_2(Coo2<T,IT> * __restrict A, N f) { return read_bin_COO(A, f); }
E int spec_rd_coo_2(Coo2<T,IT> * __restrict A, N f) { return read_coo(A, f); }
E int impl_rd_coo_3(Coo3<T,IT> * __restrict A, N f) { return read_bin_COO(A, f); }
E int spec_rd_coo_3(Coo3<T,IT> * __restrict A, N f) { return read_coo(A, f); }
E int impl_wr_coo_2(Coo2<T,IT> * __restrict A, N f) { return write_bin_COO(*A, f); }
E int spec_wr_coo_2(Coo2<T,IT> * __restrict A, N f) { return write_coo(A, f); }
E int impl_wr_coo_3(Coo3<T,IT> * __restrict A, N f) { return write_bin_COO(*A, f); }
E int spec_wr_coo_3(Coo3<T,IT> * __restrict A, N f) { return write_coo(A, f); }

E int impl_rd_csr_1(Csr<T,IT> * __restrict A, N f) { return read_bin_CSR(A, f); }
E int spec_rd_csr_1(Csr<T,IT> * __restrict A, N f)
{
    A->rows = get<IT>(f, 0); A->columns = get<IT>(f, sizeof(IT));
    IT nnz = get<IT>(f, 2 * sizeof(IT)); long h = 3 * sizeof(IT), n = nnz;
    A->val = new T[nnz]; A->col_ind = new IT[nnz]; A->row_ptr = new IT[A->rows + 1]();
    for (IT i = 0; i < nnz; i++) A->row_ptr[get<IT>(f, h + (long) i * sizeof(IT)) + 1]++;
    for (IT i = 0; i < nnz; i++) A->col_ind[i] = get<IT>(f, h + n * sizeof(IT) + (long) i * sizeof(IT));
    for (IT i = 0; i < nnz; i++) A->val[i] = get<T>(f, h + 2 * n * sizeof(IT) + (long) i * sizeof(T));
    for (IT i = 0; i < A->rows; i++) A->row_ptr[i + 1] = A->row_ptr[i + 1] + A->row_ptr[i];
    return 0;
}
#ifndef NOCSR2
E int impl_rd_csr_2(Csr2<T,IT> * __restrict A, N f) { return read_bin_CSR(A, f); }
E int spec_rd_csr_2(Csr2<T,IT> * __restrict A, N f)
{
    A->rows = get<IT>(f, 0); A->columns = get<IT>(f, sizeof(IT));
    IT nnz = get<IT>(f, 2 * sizeof(IT)); long h = 3 * sizeof(IT), n = nnz;
    A->data = new NonZero<T,IT>[nnz]; A->row_ptr = new IT[A->rows + 1]();
    for (IT i = 0; i < nnz; i++) A->row_ptr[get<IT>(f, h + (long) i * sizeof(IT)) + 1]++;
    for (IT i = 0; i < nnz; i++) A->data[i].index = get<IT>(f, h + n * sizeof(IT) + (long) i * sizeof(IT));
    for (IT i = 0; i < nnz; i++) A->data[i].val = get<T>(f, h + 2 * n * sizeof(IT) + (long) i * sizeof(T));
    for (IT i = 0; i < A->rows; i++) A->row_ptr[i + 1] = A->row_ptr[i + 1] + A->row_ptr[i];
    return 0;
}
#endif

// ---------------------------------------------------------------- .block: six numbers, then block, row, column, value of every entry
static const long HEAD = 6 * sizeof(IT), REC = 3 * sizeof(IT) + sizeof(T);
E int impl_wr_blk_3(Coo3<T,IT> * __restrict A, N f) { return write_bin_blocked(*A, f); }
E int spec_wr_blk_3(Coo3<T,IT> * __restrict A, N f)
{
    put(f, 0, A->rows); put(f, sizeof(IT), A->columns); put(f, 2 * sizeof(IT), A->nnz);
    put(f, 3 * sizeof(IT), A->blockrows); put(f, 4 * sizeof(IT), A->blockcols); put(f, 5 * sizeof(IT), A->nnzblocks);
    for (IT i = 0; i < A->nnz; i++) {
        long p = HEAD + (long) i * REC;
        put(f, p, A->elements[i].block); put(f, p + sizeof(IT), A->elements[i].row); put(f, p + 2 * sizeof(IT), A->elements[i].col); put(f, p + 3 * sizeof(IT), A->elements[i].val);
    }
    return 0;
}
template <class B> static inline void head(B * A, N f, IT * ro, IT * co)
{
    A->rows = get<IT>(f, 0); A->columns = get<IT>(f, sizeof(IT)); A->nnz = get<IT>(f, 2 * sizeof(IT));
    A->blockrows = get<IT>(f, 3 * sizeof(IT)); A->blockcols = get<IT>(f, 4 * sizeof(IT)); A->nnzblocks = get<IT>(f, 5 * sizeof(IT));
    A->blockrow_offset = ro; A->blockcol_offset = co;
}
static inline IT rblock(N f, IT i) { return get<IT>(f, HEAD + (long) i * REC); }
static inline IT rrow(N f, IT i) { return get<IT>(f, HEAD + (long) i * REC + sizeof(IT)); }
static inline IT rcol(N f, IT i) { return get<IT>(f, HEAD + (long) i * REC + 2 * sizeof(IT)); }
static inline T rval(N f, IT i) { return get<T>(f, HEAD + (long) i * REC + 3 * sizeof(IT)); }
E int impl_rd_blk_csbr(Csbr<T,IT> * __restrict A, N f, IT * ro, IT br, IT * co, IT bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int spec_rd_blk_csbr(Csbr<T,IT> * __restrict A, N f, IT * ro, IT nbr, IT * co, IT nbc)
{
    head(A, f, ro, co);
    A->blocks = (Csr<T,IT> *) malloc(A->nnzblocks * sizeof(Csr<T,IT>)); A->blockcol_ind = (IT *) malloc(A->nnzblocks * sizeof(IT));
    A->blockrow_ptr = (IT *) calloc(A->blockrows + 1, sizeof(IT)); A->val = (T *) malloc(A->nnz * sizeof(T)); A->col_ind = (IT *) malloc(A->nnz * sizeof(IT));
    IT k = (IT) -1, prev = (IT) -1, br, bc;
    for (IT i = 0; i < A->nnz; i++) {
        IT b = rblock(f, i);
        if (b != prev) {
            k++; prev = b; br = b / nbc; bc = b % nbc;
            IT rows = ro[br + 1] - ro[br];
            A->blockrow_ptr[br + 1]++; A->blockcol_ind[k] = bc;
            A->blocks[k].rows = rows; A->blocks[k].val = A->val + i; A->blocks[k].col_ind = A->col_ind + i;
            A->blocks[k].row_ptr = (IT *) calloc(rows + 1, sizeof(IT));
        }
        A->blocks[k].row_ptr[rrow(f, i) - ro[br] + 1]++;
        A->col_ind[i] = rcol(f, i) - co[bc];
        A->val[i] = rval(f, i);
    }
    for (IT j = 0; j < A->nnzblocks; j++) for (IT i = 0; i < A->blocks[j].rows; i++) A->blocks[j].row_ptr[i + 1] = A->blocks[j].row_ptr[i + 1] + A->blocks[j].row_ptr[i];
    for (IT i = 0; i < A->blockrows; i++) A->blockrow_ptr[i + 1] = A->blockrow_ptr[i + 1] + A->blockrow_ptr[i];
    partition_init(A);
    return 0;
}
E int impl_rd_blk_csbr2(Csbr2<T,IT> * __restrict A, N f, IT * ro, IT br, IT * co, IT bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int spec_rd_blk_csbr2(Csbr2<T,IT> * __restrict A, N f, IT * ro, IT nbr, IT * co, IT nbc)
{
    head(A, f, ro, co);
    A->blockrow_ptr = (IT *) calloc(A->blockrows + 1, sizeof(IT)); A->row_ptr = (IT **) malloc(A->nnzblocks * sizeof(IT *));
    A->col_ind = (IT *) malloc(A->nnz * sizeof(IT)); A->val = (T *) malloc(A->nnz * sizeof(T));
    IT k = (IT) -1, prev = (IT) -1, r0;
    for (IT i = 0; i < A->nnz; i++) {
        IT b = rblock(f, i);
        if (b != prev) {
            k++; prev = b; r0 = ro[b / nbc];
            A->blockrow_ptr[b / nbc + 1]++;
            A->row_ptr[k] = (IT *) calloc(ro[b / nbc + 1] - r0 + 1, sizeof(IT));
        }
        A->row_ptr[k][rrow(f, i) - r0 + 1]++;
        A->col_ind[i] = rcol(f, i);
        A->val[i] = rval(f, i);
    }
    for (IT i = 0; i < A->blockrows; i++) A->blockrow_ptr[i + 1] = A->blockrow_ptr[i + 1] + A->blockrow_ptr[i];
    IT t = 0;
    for (IT b = 0; b < nbr; b++) {
        IT n = ro[b + 1] - ro[b], e = A->blockrow_ptr[b + 1];
        for (IT k = A->blockrow_ptr[b]; k < e; k++) {
            A->row_ptr[k][0] = t;
            for (IT i = 0; i < n; i++) A->row_ptr[k][i + 1] = A->row_ptr[k][i + 1] + A->row_ptr[k][i];
            t = A->row_ptr[k][n];
        }
    }
    return 0;
}
E int impl_rd_blk_bcsr(Bcsr<T,IT> * __restrict A, N f, IT * ro, IT br, IT * co, IT bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int spec_rd_blk_bcsr(Bcsr<T,IT> * __restrict A, N f, IT * ro, IT nbr, IT * co, IT nbc)
{
    head(A, f, ro, co);
    A->blocks = (Csr<T,IT> *) malloc(A->blockrows * A->blockcols * sizeof(Csr<T,IT>));
    A->col_ind = (IT *) malloc(A->nnz * sizeof(IT)); A->val = (T *) malloc(A->nnz * sizeof(T));
    for (IT b = 0; b < A->blockrows * A->blockcols; b++) A->blocks[b].rows = 0;
    IT prev = (IT) -1, r0, c0;
    for (IT i = 0; i < A->nnz; i++) {
        IT b = rblock(f, i);
        if (b != prev) {
            prev = b; r0 = ro[b / nbc]; c0 = co[b % nbc];
            IT n = ro[b / nbc + 1] - r0;
            A->blocks[b].rows = n; A->blocks[b].val = A->val + i; A->blocks[b].col_ind = A->col_ind + i;
            A->blocks[b].row_ptr = (IT *) calloc(n + 1, sizeof(IT));
        }
        A->blocks[b].row_ptr[rrow(f, i) - r0 + 1]++;
        A->col_ind[i] = rcol(f, i) - c0;
        A->val[i] = rval(f, i);
    }
    for (IT j = 0; j < A->blockrows * A->blockcols; j++) for (IT i = 0; i < A->blocks[j].rows; i++) A->blocks[j].row_ptr[i + 1] = A->blocks[j].row_ptr[i + 1] + A->blocks[j].row_ptr[i];
    return 0;
}
// a block ends where the block number changes or the entries end; its entries follow its start
E int impl_rd_blk_cgbr(Cgbr<T,IT,SIT> * __restrict A, N f, IT * ro, IT br, IT * co, IT bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int spec_rd_blk_cgbr(Cgbr<T,IT,SIT> * __restrict A, N f, IT * ro, IT nbr, IT * co, IT nbc)
{
    head(A, f, ro, co);
    A->blocks = new MatrixBlock<T,IT,SIT>[A->nnzblocks]; A->blockcol_ind = new IT[A->nnzblocks]; A->blockrow_ptr = new IT[A->blockrows + 1]();
    for (int i = 0; i < MATRIX_TYPE_NUM; i++) { A->type_block_count[i] = 0; A->type_nnz_count[i] = 0; }
    IT k = 0, start = 0, prev, b;
    if (A->nnz > 0) prev = rblock(f, 0);
    for (IT i = 1; i <= A->nnz; i++) {
        if (i < A->nnz) b = rblock(f, i);
        if (i == A->nnz || b != prev) {
            IT br = prev / nbc, bc = prev % nbc, n = i - start;
            A->blockrow_ptr[br + 1]++; A->blockcol_ind[k] = bc;
            Element<T,IT> * e = new Element<T,IT>[n];
            for (IT j = 0; j < n; j++) {
                e[j].block = rblock(f, start + j); e[j].row = rrow(f, start + j) - ro[br]; e[j].col = rcol(f, start + j) - co[bc]; e[j].val = rval(f, start + j);
            }
            MatrixType t = Coo_to_MatrixBlock(A->blocks + k, IT(ro[br + 1] - ro[br]), IT(co[bc + 1] - co[bc]), e, n);
            A->type_block_count[t]++; A->type_nnz_count[t] += n;
            delete [] e;
            k++; start = i; prev = b;
        }
    }
    for (IT i = 0; i < A->blockrows; i++) A->blockrow_ptr[i + 1] = A->blockrow_ptr[i + 1] + A->blockrow_ptr[i];
    A->balanced = A->is_balanced();
    if (!A->balanced) partition_init(A);
    return 0;
}
#endif
