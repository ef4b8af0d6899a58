// Lives of matrices read from files: every reader followed by the release of what it made; only compiled to IR.
#include "types.h"
#include <algorithm>
#include <numeric>
#include <vector>
#include <omp.h>
#include "stream.h"
#include "typedefs.h"
#include "utils.h"
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/bcsr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef const char * N;
extern "C" {
void own_rd_array_i(IT ** d, N f, size_t * n) { read_bin_array(f, d, n); free(*d); }
void own_rd_array_v(T ** d, N f, size_t * n) { read_bin_array(f, d, n); free(*d); }
void own_rd_coo_1(Coo<T,IT,IT> * __restrict A, N r, N c, N v) { read_bin_COO(A, r, c, v); release(*A); }
void own_rd_three_2(Coo2<T,IT> * __restrict A, N r, N c, N v) { read_bin_COO(A, r, c, v); release(*A); }
void own_rd_three_3(Coo3<T,IT> * __restrict A, N r, N c, N v) { read_bin_COO(A, r, c, v); release(*A); }
void own_rd_coo_2(Coo2<T,IT> * __restrict A, N f) { read_bin_COO(A, f); release(*A); }
void own_rd_coo_3(Coo3<T,IT> * __restrict A, N f) { read_bin_COO(A, f); release(*A); }
void own_rd_csr_1(Csr<T,IT> * __restrict A, N f) { read_bin_CSR(A, f); release(*A); }
void own_rd_csr_2(Csr2<T,IT> * __restrict A, N f) { read_bin_CSR(A, f); release(*A); }
#define BLK(NAME, TYPE) \
void own_rd_##NAME(TYPE * __restrict A, N f, IT nr, IT nc) { IT * ro = new IT[nr + 1], * co = new IT[nc + 1]; read_bin_blocked(A, f, ro, nr, co, nc); release(*A); } \
void own_rd_##NAME##_same(TYPE * __restrict A, N f, IT nr) { IT * ro = new IT[nr + 1]; read_bin_blocked(A, f, ro, nr, ro, nr); release(*A); }
typedef Csbr<T,IT> M1; typedef Csbr2<T,IT> M2; typedef Bcsr<T,IT> M4; typedef Cgbr<T,IT,SIT> M5;
BLK(csbr, M1)
BLK(csbr2, M2)
BLK(bcsr, M4)
BLK(cgbr, M5)
}
