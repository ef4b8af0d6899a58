// Every reader filling a local object, followed by everything that reads its fields; only compiled to IR.
#include "types.h"
#include <algorithm>
#include <numeric>
#include <vector>
#include <omp.h>
#include "stream.h"
#include "typedefs.h"
#include "utils.h"
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/bcsr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef const char * N;
#define XY T const * x, T * y
extern "C" void sink(IT); template <class V> static inline void size2(V const& A) { sink(A.rows); sink(A.columns); }
extern "C" void sinkv(T);
#define M(V) A.V::spmv(x, y); sink(A.nonzeros());
#define S(V) A.V::spmv_serial(x, y);
typedef Coo<T,IT,IT> C1; typedef Coo2<T,IT> C2; typedef Coo3<T,IT> C3; typedef Csr<T,IT> R1; typedef Csr2<T,IT> R2;
extern "C" {
void ini_rd_array_i(N f) { IT * d; size_t n; read_bin_array(f, &d, &n); for (size_t i = 0; i < n; i++) sink(d[i]); free(d); }
void ini_rd_array_v(N f) { T * d; size_t n; read_bin_array(f, &d, &n); for (size_t i = 0; i < n; i++) sinkv(d[i]); free(d); }
void ini_rd_coo_1(N r, N c, N v, XY) { C1 A; read_bin_COO(&A, r, c, v); M(C1) sink(A.rows + A.columns); show(A); }
void ini_rd_three_2(N r, N c, N v, XY) { C2 A; read_bin_COO(&A, r, c, v); M(C2) sink(A.rows + A.columns); show(A); release(A); }
void ini_rd_three_3(N r, N c, N v, XY) { C3 A; read_bin_COO(&A, r, c, v); M(C3) sink(A.rows + A.columns); show(A); release(A); }
void ini_rd_coo_2(N f, XY) { C2 A; read_bin_COO(&A, f); M(C2) sink(A.rows + A.columns); show(A); release(A); }
void ini_rd_coo_3(N f, XY) { C3 A; read_bin_COO(&A, f); M(C3) sink(A.rows + A.columns); show(A); release(A); }
void ini_rd_csr_1(N f, XY) { R1 A; read_bin_CSR(&A, f); M(R1) S(R1) size2(A); print_info(A); show(A); release(A); }
void ini_rd_csr_2(N f, XY) { R2 A; read_bin_CSR(&A, f); M(R2) S(R2) size2(A); print_info(A); release(A); }
#define BLK(NAME, TYPE) \
void ini_rd_##NAME(N f, IT * ro, IT nr, IT * co, IT nc, XY) { TYPE A; read_bin_blocked(&A, f, ro, nr, co, nc); M(TYPE) size2(A); print_info(A); release(A); } \
void ini_rd_##NAME##_same(N f, IT * ro, IT nr, XY) { TYPE A; read_bin_blocked(&A, f, ro, nr, ro, nr); M(TYPE) size2(A); print_info(A); release(A); }
typedef Csbr<T,IT> M1; typedef Csbr2<T,IT> M2; typedef Bcsr<T,IT> M4; typedef Cgbr<T,IT,SIT> M5;
BLK(csbr, M1)
BLK(csbr2, M2)
BLK(bcsr, M4)
BLK(cgbr, M5)
}
