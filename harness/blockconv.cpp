// Conversions to blocked formats: public entry points (impl_*) and references (spec_*), both only compiled to IR.
// Sorting, block numbering, block counting, the block payload conversions and the chunk partition are opaque here.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "common.h"
#include "utils.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;
#define OFFS IT * ro, IT nr, IT * co, IT nc

template <class M> static inline void ref_head(M * A, IT rows, IT columns, IT nnz, OFFS)
{
    A->rows = rows; A->columns = columns; A->nnz = nnz;
    A->blockrows = nr; A->blockcols = nc; A->blockrow_offset = ro; A->blockcol_offset = co;
}
static inline void ref_order(El * e, IT nnz, OFFS)
{
    calculate_block_id(e, nnz, ro, nr, co, nc);
    sort_elements_blocks(e, nnz);
}
template <class M> static inline void ref_ptr(M * A, IT nr)
{
    for (IT b = 0; b < nr; b++) A->blockrow_ptr[b + 1] = A->blockrow_ptr[b + 1] + A->blockrow_ptr[b];
}
// every run of equal block numbers becomes one block
template <class M, class F> static inline void ref_runs(M * A, El * e, IT nnz, OFFS, F make)
{
    A->blockcol_ind = new IT[A->nnzblocks];
    A->blockrow_ptr = new IT[nr + 1]();
    for (int t = 0; t < MATRIX_TYPE_NUM; t++) { A->type_block_count[t] = 0; A->type_nnz_count[t] = 0; }
    IT k = 0, i = 0;
    while (i < nnz) {
        IT b = e[i].block, j = i + 1, br = b / nc, bc = b % nc;
        while (j < nnz && e[j].block == b) j++;
        A->blockrow_ptr[br + 1]++;
        A->blockcol_ind[k] = bc;
        for (IT q = i; q < j; q++) { e[q].row -= ro[br]; e[q].col -= co[bc]; }
        MatrixType t = make(k, ro[br + 1] - ro[br], co[bc + 1] - co[bc], e + i, j - i);
        A->type_block_count[t]++;
        A->type_nnz_count[t] += j - i;
        k++; i = j;
    }
    ref_ptr(A, nr);
}
// each element goes to the block it starts or continues
template <class M, class F, class G> static inline void ref_each(M * A, El * e, IT nnz, OFFS, F start, G put)
{
    IT k = IT(-1), prev = std::numeric_limits<IT>::max(), r0 = 0, c0 = 0;
    for (IT i = 0; i < nnz; i++) {
        IT b = e[i].block;
        if (b != prev) {
            IT br = b / nc, bc = b % nc;
            r0 = ro[br]; c0 = co[bc]; k++; prev = b;
            A->blockrow_ptr[br + 1]++;
            start(k, i, bc, ro[br + 1] - r0);
        }
        put(k, i, e[i].row - r0, e[i].col - c0);
    }
}
extern "C" {
void impl_cgbr(Cgbr<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Cgbr(A, B, ro, nr, co, nc); }
void spec_cgbr(Cgbr<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS)
{
    ref_head(A, B->rows, B->columns, B->nnz, ro, nr, co, nc);
    ref_order(B->elements, B->nnz, ro, nr, co, nc);
    A->nnzblocks = count_blocks(B->elements, B->nnz);
    A->blocks = new MatrixBlock<T,IT,SIT>[A->nnzblocks];
    ref_runs(A, B->elements, B->nnz, ro, nr, co, nc, [A](IT k, IT r, IT c, El * e, IT n) { return Coo_to_MatrixBlock(A->blocks + k, r, c, e, n); });
    A->balanced = A->is_balanced();
    if (!A->balanced) partition_init(A);
}
void impl_cgbr2(Cgbr2<T,IT,SIT> * A, El * e, IT r, IT c, IT z, OFFS, BlockFactory<T,IT> & f) { A->create(e, r, c, z, ro, nr, co, nc, f); }
void spec_cgbr2(Cgbr2<T,IT,SIT> * A, El * e, IT r, IT c, IT z, OFFS, BlockFactory<T,IT> & f)
{
    ref_head(A, r, c, z, ro, nr, co, nc);
    ref_order(e, z, ro, nr, co, nc);
    A->nnzblocks = count_blocks(e, z);
    A->blocks = new BlockBase<T,IT>*[A->nnzblocks];
    ref_runs(A, e, z, ro, nr, co, nc, [A, &f](IT k, IT r, IT c, El * e, IT n) { return f.create(A->blocks + k, e, r, c, n); });
    A->balanced = false;
    partition_init(A);
}
void impl_csbr3(Csbr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void spec_csbr3(Csbr<T,IT> * A, Coo3<T,IT> * B, OFFS)
{
    El * e = B->elements; IT z = B->nnz;
    ref_head(A, B->rows, B->columns, z, ro, nr, co, nc);
    ref_order(e, z, ro, nr, co, nc);
    A->nnzblocks = count_blocks(e, z);
    A->blocks = (Csr<T,IT> *) malloc(A->nnzblocks * sizeof(Csr<T,IT>));
    A->blockcol_ind = (IT *) malloc(A->nnzblocks * sizeof(IT));
    A->blockrow_ptr = (IT *) calloc(nr + 1, sizeof(IT));
    A->val = (T *) malloc(z * sizeof(T));
    A->col_ind = (IT *) malloc(z * sizeof(IT));
    ref_each(A, e, z, ro, nr, co, nc,
        [A](IT k, IT i, IT bc, IT n) {
            A->blockcol_ind[k] = bc; A->blocks[k].rows = n; A->blocks[k].val = A->val + i; A->blocks[k].col_ind = A->col_ind + i;
            A->blocks[k].row_ptr = (IT *) calloc(n + 1, sizeof(IT)); },
        [A, e](IT k, IT i, IT r, IT c) { A->blocks[k].row_ptr[r + 1]++; A->col_ind[i] = c; A->val[i] = e[i].val; });
    for (IT k = 0; k < A->nnzblocks; k++)
        for (IT i = 0; i < A->blocks[k].rows; i++) A->blocks[k].row_ptr[i + 1] = A->blocks[k].row_ptr[i + 1] + A->blocks[k].row_ptr[i];
    ref_ptr(A, nr);
    partition_init(A);
}
void impl_csbr2(Csbr2<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void spec_csbr2(Csbr2<T,IT> * A, Coo3<T,IT> * B, OFFS)
{
    El * e = B->elements; IT z = B->nnz;
    ref_head(A, B->rows, B->columns, z, ro, nr, co, nc);
    ref_order(e, z, ro, nr, co, nc);
    A->nnzblocks = count_blocks(e, z);
    A->blockrow_ptr = (IT *) calloc(nr + 1, sizeof(IT));
    A->row_ptr = (IT **) malloc(A->nnzblocks * sizeof(IT *));
    A->val = (T *) malloc(z * sizeof(T));
    A->col_ind = (IT *) malloc(z * sizeof(IT));
    ref_each(A, e, z, ro, nr, co, nc,
        [A](IT k, IT, IT, IT n) { A->row_ptr[k] = (IT *) calloc(n + 1, sizeof(IT)); },
        [A, e](IT k, IT i, IT r, IT) { A->row_ptr[k][r + 1]++; A->col_ind[i] = e[i].col; A->val[i] = e[i].val; });
    ref_ptr(A, nr);
    IT t = 0;
    for (IT b = 0; b < nr; b++)
        for (IT k = A->blockrow_ptr[b]; k < A->blockrow_ptr[b + 1]; k++) {
            IT n = ro[b + 1] - ro[b];
            A->row_ptr[k][0] = t;
            for (IT i = 0; i < n; i++) A->row_ptr[k][i + 1] = A->row_ptr[k][i + 1] + A->row_ptr[k][i];
            t = A->row_ptr[k][n];
        }
}
void impl_csbr_coo2(Csbr<T,IT> * A, Coo2<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void spec_csbr_coo2(Csbr<T,IT> * A, Coo2<T,IT> * B, OFFS)
{
    Tr * e = B->triplets; IT z = B->nnz;
    ref_head(A, B->rows, B->columns, z, ro, nr, co, nc);
    sort_triplets_blocks(e, z, ro, nr, co, nc);
    IT * cnt = new IT[nr * nc]();
    for (IT i = 0; i < z; i++) cnt[index_to_blockindex(ro, nr, e[i].row) * nc + index_to_blockindex(co, nc, e[i].col)]++;
    A->blockrow_ptr = (IT *) malloc((nr + 1) * sizeof(IT));
    A->col_ind = (IT *) malloc(z * sizeof(IT));
    A->val = (T *) malloc(z * sizeof(T));
    IT nb = 0;
    A->blockrow_ptr[0] = 0;
    for (IT b = 0; b < nr; b++) {
        for (IT c = 0; c < nc; c++) if (cnt[b * nc + c] > 0) nb++;
        A->blockrow_ptr[b + 1] = nb;
    }
    A->nnzblocks = nb;
    A->blocks = (Csr<T,IT> *) malloc(nb * sizeof(Csr<T,IT>));
    A->blockcol_ind = (IT *) malloc(nb * sizeof(IT));
    IT k = 0, v = 0;
    for (IT b = 0; b < nr; b++)
        for (IT c = 0; c < nc; c++) {
            IT n = cnt[b * nc + c];
            if (n > 0) {
                A->blockcol_ind[k] = c;
                for (IT q = 0; q < n; q++) { e[v + q].row -= ro[b]; e[v + q].col -= co[c]; }
                A->blocks[k].col_ind = A->col_ind + v; A->blocks[k].val = A->val + v;
                Coo_to_Csr(A->blocks + k, e + v, ro[b + 1] - ro[b], co[c + 1] - co[c], n, false, false);
                v += n; k++;
            }
        }
    delete [] cnt;
    partition_init(A);
}
void impl_bcsr(Bcsr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Bcsr(A, B, ro, nr, co, nc); }
void spec_bcsr(Bcsr<T,IT> * A, Coo3<T,IT> * B, OFFS)
{
    El * e = B->elements; IT z = B->nnz;
    ref_head(A, B->rows, B->columns, z, ro, nr, co, nc);
    ref_order(e, z, ro, nr, co, nc);
    A->nnzblocks = count_blocks(e, z);
    A->blocks = (Csr<T,IT> *) malloc(nr * nc * sizeof(Csr<T,IT>));
    A->val = (T *) malloc(z * sizeof(T));
    A->col_ind = (IT *) malloc(z * sizeof(IT));
    for (IT b = 0; b < nr * nc; b++) A->blocks[b].rows = 0;
    IT prev = std::numeric_limits<IT>::max(), r0 = 0, c0 = 0;
    for (IT i = 0; i < z; i++) {
        IT b = e[i].block;
        if (b != prev) {
            prev = b; r0 = ro[b / nc]; c0 = co[b % nc];
            IT n = ro[b / nc + 1] - r0;
            A->blocks[b].rows = n; A->blocks[b].val = A->val + i; A->blocks[b].col_ind = A->col_ind + i;
            A->blocks[b].row_ptr = (IT *) calloc(n + 1, sizeof(IT));
        }
        A->blocks[b].row_ptr[e[i].row - r0 + 1]++; A->col_ind[i] = e[i].col - c0; A->val[i] = e[i].val;
    }
    for (IT k = 0; k < nr * nc; k++)
        for (IT i = 0; i < A->blocks[k].rows; i++) A->blocks[k].row_ptr[i + 1] = A->blocks[k].row_ptr[i + 1] + A->blocks[k].row_ptr[i];
}
void impl_csbr_3(Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT size) { Coo_to_Csbr(A, B, size); }
void spec_csbr_3(Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT size)
{
    El * e = B->elements; IT z = B->nnz;
    A->rows = B->rows; A->columns = B->columns; A->nnz = z; A->block_size = size;
    IT nr = (B->rows + size - 1) / size, nc = (B->columns + size - 1) / size;
    A->blockrows = nr; A->blockcols = nc;
    calculate_block_id(e, z, size, size, nc);
    sort_elements_blocks(e, z);
    A->nnzblocks = count_blocks(e, z);
    A->blockrow_ptr = new IT[nr + 1]();
    A->block_ptr = new IT[A->nnzblocks + 1];
    A->blockcol_ind = new IT[A->nnzblocks];
    A->row_ind = new SIT[z]; A->col_ind = new SIT[z]; A->val = new T[z];
    A->block_ptr[A->nnzblocks] = z;
    IT k = IT(-1), prev = std::numeric_limits<IT>::max(), r0 = 0, c0 = 0;
    for (IT i = 0; i < z; i++) {
        IT b = e[i].block;
        if (b != prev) {
            k++; prev = b; r0 = b / nc * size; c0 = b % nc * size;
            A->block_ptr[k] = i; A->blockcol_ind[k] = b % nc; A->blockrow_ptr[b / nc + 1]++;
        }
        A->row_ind[i] = e[i].row - r0; A->col_ind[i] = e[i].col - c0; A->val[i] = e[i].val;
    }
    ref_ptr(A, nr);
}
// ---- wrappers
void impl_w_bcsr(Bcsr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_bcsr(Bcsr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Bcsr(A, B, ro, nr, co, nc); }
void impl_w_csbr_3(Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT size) { Coo_to_Blocked(A, B, size, size); }
void spec_w_csbr_3(Csbr3<T,IT,SIT> * A, Coo3<T,IT> * B, IT size) { Coo_to_Csbr(A, B, size); }
void impl_w_csbr2c(Csbr<T,IT> * A, Coo2<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_csbr2c(Csbr<T,IT> * A, Coo2<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void impl_w_csbr3c(Csbr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_csbr3c(Csbr<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void impl_w_csbr2(Csbr2<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_csbr2(Csbr2<T,IT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Csbr(A, B, ro, nr, co, nc); }
void impl_w_cgbr(Cgbr<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_cgbr(Cgbr<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Cgbr(A, B, ro, nr, co, nc); }
void impl_w_cgbr2(Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS, BlockFactory<T,IT> & f) { Coo_to_Cgbr(A, B, ro, nr, co, nc, f); }
void spec_w_cgbr2(Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS, BlockFactory<T,IT> & f) { A->create(B->elements, B->rows, B->columns, B->nnz, ro, nr, co, nc, f); }
void impl_w_cgbr2d(Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS) { Coo_to_Blocked(A, B, ro, nr, co, nc); }
void spec_w_cgbr2d(Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B, OFFS) { BlockFactoryDefault<T,IT,SIT> f; Coo_to_Cgbr(A, B, ro, nr, co, nc, f); }
// ---- helpers
IT impl_count_blocks(El * e, IT z) { return count_blocks(e, z); }
IT spec_count_blocks(El * e, IT z)
{
    if (z == 0) return 0;
    IT n = 1, b = e[0].block;
    for (IT i = 0; i < z; i++) if (e[i].block > b) { b = e[i].block; n++; }
    return n;
}
void impl_block_id(El * e, IT z, OFFS) { calculate_block_id(e, z, ro, nr, co, nc); }
void spec_block_id(El * e, IT z, OFFS)
{ for (IT i = 0; i < z; i++) e[i].block = index_to_blockindex(ro, nr, e[i].row) * nc + index_to_blockindex(co, nc, e[i].col); }
void impl_block_id_const(El * e, IT z, IT rs, IT cs, IT nc) { calculate_block_id(e, z, rs, cs, nc); }
void spec_block_id_const(El * e, IT z, IT rs, IT cs, IT nc) { for (IT i = 0; i < z; i++) e[i].block = e[i].row / rs * nc + e[i].col / cs; }
}
