// Lives of matrices: every construction followed by the release of what it made (own_*), only compiled to IR.
#include "types.h"
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include <type_traits>
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "matrix/blocks.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/bcsr.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef Triplet<T,IT> Tr; typedef Element<T,IT> El;
#define OFFS IT * ro, IT nr, IT * co, IT nc
#define ARR T * v, IT * I, IT * J, IT r, IT c, IT z
template <class V> static inline void end(V * A) { A->V::~V(); }
template <class V, class = decltype(V((El *) 0, IT(), IT(), IT()))> static inline void fill(V * A, El * n, IT r, IT c, IT z, int) { new (A) V(n, r, c, z); }
template <class V, class = decltype(V((El *) 0, IT()))> static inline void fill(V * A, El * n, IT, IT, IT z, long) { new (A) V(n, z); }
template <class V> static inline void copied(V * A, V * B, El * n, IT r, IT c, IT z, int)
{
    fill(A, n, r, c, z, 0);
    if constexpr (std::is_copy_constructible<V>::value) { new (B) V(*A); end(B); }
    end(A);
}
extern "C" {
// flat formats
void own_csr_t(Csr<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s) { Coo_to_Csr(A, n, r, c, z, s, true); release(*A); }
void own_csr_e(Csr<T,IT> * A, El * n, IT r, IT c, IT z, bool s) { Coo_to_Csr(A, n, r, c, z, s, true); release(*A); }
void own_csr_coo2(Csr<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Csr(A, B); release(*A); }
void own_csr_coo3(Csr<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Csr(A, B); release(*A); }
void own_csr_arrays(Csr<T,IT> * A, IT * I, IT r, IT c, IT z) { T * v = new T[z]; IT * J = new IT[z]; Coo_to_Csr(A, v, I, J, r, c, z); release(*A); }
void own_csr2_t(Csr2<T,IT> * A, Tr * n, IT r, IT c, IT z, bool s) { Coo_to_Csr(A, n, r, c, z, s, true); release(*A); }
void own_csr2_coo2(Csr2<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Csr(A, B); release(*A); }
void own_csr2_coo3(Csr2<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Csr(A, B); release(*A); }
void own_crcsr_n(CompRowCsr<T,IT> * A, El * n, IT z, IT k) { Coo_to_CrCsr(A, n, z, k); release(*A); }
void own_crcsr_coo2(CompRowCsr<T,IT> * A, Coo2<T,IT> * B) { Coo_to_CrCsr(A, B); release(*A); }
void own_crcsr_coo3(CompRowCsr<T,IT> * A, Coo3<T,IT> * B) { Coo_to_CrCsr(A, B); release(*A); }
void own_cswr_t(Cswr<T,IT,SIT> * A, Tr * n, IT r, IT c, IT z, IT w) { Coo_to_Cswr(A, n, r, c, z, w); release(*A); }
void own_cswr_coo2(Cswr<T,IT,SIT> * A, Coo2<T,IT> * B, IT w) { Coo_to_Cswr(A, B, w); release(*A); }
void own_cswr_coo3(Cswr<T,IT,SIT> * A, Coo3<T,IT> * B, IT w) { Coo_to_Cswr(A, B, w); release(*A); }
void own_dense_t(BlockDense<T,IT> * A, Tr * n, IT r, IT c, IT z) { Coo_to_Dense(A, n, r, c, z); release(*A); }
void own_dense_coo2(BlockDense<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Dense(A, B); release(*A); }
void own_dense_coo3(BlockDense<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Dense(A, B); release(*A); }
// coordinate formats
void own_coo2_arrays(Coo2<T,IT> * A, ARR) { Coo_to_Coo(A, v, I, J, r, c, z); release(*A); }
void own_coo3_arrays(Coo3<T,IT> * A, ARR) { Coo_to_Coo(A, v, I, J, r, c, z); release(*A); }
void own_coo3_coo2(Coo3<T,IT> * A, Coo2<T,IT> * B) { Coo_to_Coo(A, B); release(*A); }
void own_coo2_coo3(Coo2<T,IT> * A, Coo3<T,IT> * B) { Coo_to_Coo(A, B); release(*A); }
void own_coo2_alloc(Coo2<T,IT> * A, IT z) { allocate(A, z); release(*A); }
void own_coo3_alloc(Coo3<T,IT> * A, IT z) { allocate(A, z); release(*A); }
// released by hand and then by the destructor, or by the destructor only
typedef Coo<T,IT,IT> V1; typedef Coo<T,IT,SIT> V2; typedef DenseSerial<T,IT> V3; typedef DenseParallel<T,IT> V4; typedef BlockCsrSerial<T,IT,SIT> V5; typedef BlockCsrParallel<T,IT,SIT> V6;
void own_coo_coo2(V1 * A, Coo2<T,IT> * B) { new (A) V1; Coo_to_Coo(A, B); release(*A); end(A); }
void own_coo_coo3(V1 * A, Coo3<T,IT> * B) { new (A) V1; Coo_to_Coo(A, B); end(A); }
void own_coo_arrays(V1 * A, ARR) { new (A) V1; Coo_to_Coo(A, v, I, J, r, c, z); end(A); }
void own_coo_none(V2 * A) { new (A) V2; end(A); }
void own_coo_array(V2 * A, El * n, IT z) { new (A) V2(n, z); release(*A); end(A); }
void own_dense_coo2s(V3 * A, Coo2<T,IT> * B) { new (A) V3; Coo_to_Dense(A, B); end(A); }
void own_dense_coo2r(V3 * A, Coo2<T,IT> * B) { new (A) V3; Coo_to_Dense(A, B); release(*A); end(A); }
void own_dense_none(V3 * A) { new (A) V3; end(A); }
// copied, where that is possible
#define COPY(NAME, TYPE) \
void own_copy_##NAME(TYPE * A, TYPE * B, El * n, IT r, IT c, IT z) { copied(A, B, n, r, c, z, 0); }
COPY(coo, V2)
COPY(dense, V3)
COPY(densep, V4)
COPY(bcsr, V5)
COPY(bcsrp, V6)
// blocks
void own_b_coo(BlockCoo<T,IT,SIT> * A, El * n, IT z) { Coo_to_Coo(A, n, z); release(*A); }
void own_b_coo2(BlockCoo2<T,IT,SIT> * A, El * n, IT z) { Coo_to_Coo(A, n, z); release(*A); }
void own_b_csr(BlockCsr<T,IT,SIT> * A, El * n, IT r, IT c, IT z, bool s) { Coo_to_Csr(A, n, r, c, z, s); release(*A); }
void own_b_vcoo(V2 * A, El * n, IT z) { new (A) V2(n, z); end(A); }
void own_b_vcsr(V5 * A, El * n, IT r, IT c, IT z) { new (A) V5(n, r, c, z); end(A); }
void own_b_vcsrp(V6 * A, El * n, IT r, IT c, IT z) { new (A) V6(n, r, c, z); end(A); }
void own_b_vdense(V3 * A, El * n, IT r, IT c, IT z) { new (A) V3(n, r, c, z); end(A); }
void own_b_vdensep(V4 * A, El * n, IT r, IT c, IT z) { new (A) V4(n, r, c, z); end(A); }
void own_b_any(MatrixBlock<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { Coo_to_MatrixBlock(A, r, c, n, z); release(A); }
// blocked formats
static inline IT * offsets(IT n) { return new IT[n + 1]; }
#define LIFE(NAME, TYPE, SRC, MAKE) \
void own_##NAME(TYPE * A, SRC * B, IT nr, IT nc) { IT * ro = offsets(nr), * co = offsets(nc); MAKE(A, B, ro, nr, co, nc); release(*A); } \
void own_##NAME##_same(TYPE * A, SRC * B, IT nr) { IT * ro = offsets(nr); MAKE(A, B, ro, nr, ro, nr); release(*A); } \
void own_##NAME##_const(TYPE * A, SRC * B, IT r, IT c) { Coo_to_Blocked(A, B, r, c); release(*A); }
typedef Coo2<T,IT> C2; typedef Coo3<T,IT> C3; typedef Csbr<T,IT> M1; typedef Csbr2<T,IT> M2; typedef Csbr3<T,IT,SIT> M3; typedef Bcsr<T,IT> M4; typedef Cgbr<T,IT,SIT> M5; typedef Cgbr2<T,IT,SIT> M6;
LIFE(csbr_coo2, M1, C2, Coo_to_Csbr)
LIFE(csbr, M1, C3, Coo_to_Csbr)
LIFE(csbr2, M2, C3, Coo_to_Csbr)
LIFE(bcsr, M4, C3, Coo_to_Bcsr)
LIFE(cgbr, M5, C3, Coo_to_Cgbr)
LIFE(cgbr2, M6, C3, Coo_to_Cgbr)
void own_csbr_coo2_own(M1 * A, C2 * B, IT r, IT c) { Coo_to_Csbr(A, B, r, c); release(*A); }
void own_csbr_own(M1 * A, C3 * B, IT r, IT c) { Coo_to_Csbr(A, B, r, c); release(*A); }
void own_csbr3(M3 * A, C3 * B, IT b) { Coo_to_Csbr(A, B, b); release(*A); }
// made by the factory and deleted through the common base
#define OBJECT(NAME, TYPE, ...) void own_o_##NAME(TYPE ** A, El * n, IT r, IT c, IT z) { *A = new TYPE(__VA_ARGS__); delete *A; }
OBJECT(coo, V2, n, z)
OBJECT(csr, V5, n, r, c, z)
OBJECT(csrp, V6, n, r, c, z)
OBJECT(dense, V3, n, r, c, z)
OBJECT(densep, V4, n, r, c, z)
typedef BlockFactoryDefault<T,IT,SIT> BF;
void in_create(BlockBase<T,IT> ** A, El * n, IT r, IT c, IT z) { BF f; f.BF::create(A, n, r, c, z); delete *A; }
void in_block(MatrixBlock<T,IT,SIT> * A, El * n, IT r, IT c, IT z) { Coo_to_MatrixBlock(A, r, c, n, z); release(A); }
#define PARTS(X, TYPE) void in_part_##X(TYPE * A) { partition_init(A); partition_destroy(A); }
PARTS(csbr, M1)
PARTS(cgbr, M5)
PARTS(cgbr2, M6)
}
