// Every construction of a matrix as a local object, followed by everything that reads its fields; only compiled to IR.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/blocks.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;
#define XY T const * x, T * y
#define ARR T * v, IT * I, IT * J, IT r, IT c, IT z
extern "C" void sink(IT);
template <class V> static inline void size(V const& A) { sink(A.rows); sink(A.columns); sink(A.nnz); }
template <class V> static inline void size2(V const& A) { sink(A.rows); sink(A.columns); }
#define M(V) A.V::spmv(x, y); sink(A.nonzeros());
#define S(V) A.V::spmv_serial(x, y);
extern "C" {
#define MAKE(NAME, PARAMS, TYPE, MADE, ...) void ini_##NAME(PARAMS, XY) { TYPE A; MADE; __VA_ARGS__; }
#define P(...) __VA_ARGS__
typedef Csr<T,IT> R1; typedef Csr2<T,IT> R2; typedef CompRowCsr<T,IT> R3; typedef Cswr<T,IT,SIT> R4; typedef BlockDense<T,IT> D1;
typedef Coo2<T,IT> C2; typedef Coo3<T,IT> C3;
MAKE(csr_t, P(Tr * n, IT r, IT c, IT z, bool s), R1, Coo_to_Csr(&A, n, r, c, z, s, true), M(R1) S(R1) size2(A); print_info(A); show(A); release(A))
MAKE(csr_e, P(El * n, IT r, IT c, IT z, bool s), R1, Coo_to_Csr(&A, n, r, c, z, s, true), M(R1) S(R1) size2(A); print_info(A); show(A); release(A))
MAKE(csr_coo2, C2 * B, R1, Coo_to_Csr(&A, B), M(R1) S(R1) size2(A); print_info(A); show(A); release(A))
MAKE(csr_coo3, C3 * B, R1, Coo_to_Csr(&A, B), M(R1) S(R1) size2(A); print_info(A); show(A); release(A))
MAKE(csr_arrays, P(T * v, IT * I, IT * J, IT r, IT c, IT z), R1, Coo_to_Csr(&A, v, I, J, r, c, z), M(R1) S(R1) size2(A); print_info(A); show(A); release(A))
MAKE(csr2_t, P(Tr * n, IT r, IT c, IT z, bool s), R2, Coo_to_Csr(&A, n, r, c, z, s, true), M(R2) S(R2) size2(A); print_info(A); release(A))
MAKE(csr2_coo2, C2 * B, R2, Coo_to_Csr(&A, B), M(R2) S(R2) size2(A); print_info(A); release(A))
MAKE(csr2_coo3, C3 * B, R2, Coo_to_Csr(&A, B), M(R2) S(R2) size2(A); print_info(A); release(A))
MAKE(crcsr_n, P(El * n, IT z, IT k), R3, Coo_to_CrCsr(&A, n, z, k), spmv(&A, x, y); spmv_serial(&A, x, y); sink(A.nonzeros()); release(A))
MAKE(crcsr_coo2, C2 * B, R3, Coo_to_CrCsr(&A, B), spmv(&A, x, y); spmv_serial(&A, x, y); sink(A.nonzeros()); release(A))
MAKE(crcsr_coo3, C3 * B, R3, Coo_to_CrCsr(&A, B), spmv(&A, x, y); spmv_serial(&A, x, y); sink(A.nonzeros()); release(A))
MAKE(cswr_t, P(Tr * n, IT r, IT c, IT z, IT w), R4, Coo_to_Cswr(&A, n, r, c, z, w), M(R4) size2(A); print_info(A); release(A))
MAKE(cswr_coo2, P(C2 * B, IT w), R4, Coo_to_Cswr(&A, B, w), M(R4) size2(A); print_info(A); release(A))
MAKE(cswr_coo3, P(C3 * B, IT w), R4, Coo_to_Cswr(&A, B, w), M(R4) size2(A); print_info(A); release(A))
MAKE(dense_t, P(Tr * n, IT r, IT c, IT z), D1, Coo_to_Dense(&A, n, r, c, z), A.spmv(x, y); S(D1) size2(A); release(A))
MAKE(dense_coo2, C2 * B, D1, Coo_to_Dense(&A, B), A.spmv(x, y); S(D1) size2(A); release(A))
MAKE(dense_coo3, C3 * B, D1, Coo_to_Dense(&A, B), A.spmv(x, y); S(D1) size2(A); release(A))
typedef Coo<T,IT,IT> V1; typedef Coo<T,IT,SIT> V2; typedef DenseSerial<T,IT> V3; typedef DenseParallel<T,IT> V4; typedef BlockCsrSerial<T,IT,SIT> V5; typedef BlockCsrParallel<T,IT,SIT> V6;
MAKE(coo_coo2, C2 * B, V1, Coo_to_Coo(&A, B), M(V1) show(A); release(A))
MAKE(coo_coo3, C3 * B, V1, Coo_to_Coo(&A, B), M(V1) show(A); release(A))
MAKE(coo_arrays, P(ARR), V1, Coo_to_Coo(&A, v, I, J, r, c, z), M(V1) sink(A.rows + A.columns); show(A))
MAKE(coo_none, IT k, V2, , sink(A.nonzeros()))
MAKE(coo2_arrays, P(ARR), C2, Coo_to_Coo(&A, v, I, J, r, c, z), M(C2) sink(A.rows + A.columns); show(A); release(A))
MAKE(coo3_arrays, P(ARR), C3, Coo_to_Coo(&A, v, I, J, r, c, z), M(C3) sink(A.rows + A.columns); show(A); release(A))
MAKE(coo3_coo2, C2 * B, C3, Coo_to_Coo(&A, B), M(C3) sink(A.rows + A.columns); show(A); release(A))
MAKE(coo2_coo3, C3 * B, C2, Coo_to_Coo(&A, B), M(C2) sink(A.rows + A.columns); show(A); release(A))
MAKE(dense_coo2s, C2 * B, V3, Coo_to_Dense(&A, B), M(V3) release(A))
MAKE(dense_coo3s, C3 * B, V3, Coo_to_Dense(&A, B), M(V3))
MAKE(dense_none, IT k, V3, , sink(A.nonzeros()))
// blocks
typedef BlockCoo<T,IT,SIT> B1; typedef BlockCoo2<T,IT,SIT> B2; typedef BlockCsr<T,IT,SIT> B3; typedef MatrixBlock<T,IT,SIT> B4;
MAKE(b_coo, P(El * n, IT z), B1, Coo_to_Coo(&A, n, z), M(B1) release(A))
MAKE(b_coo2, P(El * n, IT z), B2, Coo_to_Coo(&A, n, z), M(B2) release(A))
MAKE(b_csr, P(El * n, IT r, IT c, IT z, bool s), B3, Coo_to_Csr(&A, n, r, c, z, s), M(B3) S(B3) release(A))
MAKE(b_any, P(El * n, IT r, IT c, IT z), B4, Coo_to_MatrixBlock(&A, r, c, n, z), A.spmv(x, y); A.spmv_serial(x, y); sink(A.nonzeros()); release(&A))
void ini_b_vcoo(El * n, IT z, XY) { V2 A(n, z); M(V2) }
void ini_b_vcsr(El * n, IT r, IT c, IT z, XY) { V5 A(n, r, c, z); M(V5) }
void ini_b_vcsrp(El * n, IT r, IT c, IT z, XY) { V6 A(n, r, c, z); M(V6) }
void ini_b_vdense(El * n, IT r, IT c, IT z, XY) { V3 A(n, r, c, z); M(V3) }
void ini_b_vdensep(El * n, IT r, IT c, IT z, XY) { V4 A(n, r, c, z); M(V4) }
// blocked formats
typedef Csbr<T,IT> M1; typedef Csbr2<T,IT> M2; typedef Csbr3<T,IT,SIT> M3; typedef Bcsr<T,IT> M4; typedef Cgbr<T,IT,SIT> M5; typedef Cgbr2<T,IT,SIT> M6;
#define LIFE(NAME, TYPE, SRC, MADE, PRINT) \
MAKE(NAME, P(SRC * B, IT * ro, IT * co, IT nr, IT nc), TYPE, MADE(&A, B, ro, nr, co, nc), M(TYPE) size2(A); sink(A.blockrows + A.blockcols); PRINT; release(A)) \
MAKE(NAME##_same, P(SRC * B, IT * ro, IT nr), TYPE, MADE(&A, B, ro, nr, ro, nr), M(TYPE) size2(A); sink(A.blockrows + A.blockcols); PRINT; release(A)) \
MAKE(NAME##_const, P(SRC * B, IT r, IT c), TYPE, Coo_to_Blocked(&A, B, r, c), M(TYPE) size2(A); sink(A.blockrows + A.blockcols); PRINT; release(A))
LIFE(csbr_coo2, M1, C2, Coo_to_Csbr, print_info(A))
LIFE(csbr, M1, C3, Coo_to_Csbr, print_info(A))
LIFE(csbr2, M2, C3, Coo_to_Csbr, print_info(A))
LIFE(bcsr, M4, C3, Coo_to_Bcsr, print_info(A))
LIFE(cgbr, M5, C3, Coo_to_Cgbr, print_info(A))
LIFE(cgbr2, M6, C3, Coo_to_Cgbr, )
MAKE(csbr_coo2_own, P(C2 * B, IT r, IT c), M1, Coo_to_Csbr(&A, B, r, c), M(M1) size2(A); print_info(A); release(A))
MAKE(csbr_own, P(C3 * B, IT r, IT c), M1, Coo_to_Csbr(&A, B, r, c), M(M1) size2(A); print_info(A); release(A))
MAKE(csbr3, P(C3 * B, IT b), M3, Coo_to_Csbr(&A, B, b), M(M3) size2(A); print_info(A); release(A))
void ini_offsets(IT const * sizes, IT n) { IT * o = new IT[n + 1]; size_to_offset(o, sizes, n); for (IT i=0; i<=n; i++) sink(o[i]); delete [] o; }
}
