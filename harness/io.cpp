// Entry points of the readers and writers.
#include "types.h"
#include <cstdio>
#include <cstring>
#include "typedefs.h"
#include "utils.h"
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/bcsr.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
typedef const char *N;
#define E extern "C"
E int rd_array_i(N f, I_ **d, size_t *n) { return read_bin_array(f, d, n); }
E int rd_array_v(N f, T_ **d, size_t *n) { return read_bin_array(f, d, n); }
E int rd_mm_2(Coo2<T_, I_> *A, N f) { return read_mm_COO(A, f); }
E int rd_mm_3(Coo3<T_, I_> *A, N f) { return read_mm_COO(A, f); }
E int rd_three_1(Coo<T_, I_, I_> *A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int rd_three_2(Coo2<T_, I_> *A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int rd_three_3(Coo3<T_, I_> *A, N r, N c, N v) { return read_bin_COO(A, r, c, v); }
E int rd_coo_2(Coo2<T_, I_> *A, N f) { return read_bin_COO(A, f); }
E int rd_coo_3(Coo3<T_, I_> *A, N f) { return read_bin_COO(A, f); }
E int rd_any_2(Coo2<T_, I_> *A, N f) { return read_COO(A, f); }
E int rd_csr_1(Csr<T_, I_> *A, N f) { return read_bin_CSR(A, f); }
#ifndef NOCSR2
E int rd_csr_2(Csr2<T_, I_> *A, N f) { return read_bin_CSR(A, f); }
#endif
E int rd_blk_csbr(Csbr<T_, I_> *A, N f, I_ *ro, I_ br, I_ *co, I_ bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int rd_blk_csbr2(Csbr2<T_, I_> *A, N f, I_ *ro, I_ br, I_ *co, I_ bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int rd_blk_bcsr(Bcsr<T_, I_> *A, N f, I_ *ro, I_ br, I_ *co, I_ bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int rd_blk_cgbr(Cgbr<T_, I_, S_> *A, N f, I_ *ro, I_ br, I_ *co, I_ bc) { return read_bin_blocked(A, f, ro, br, co, bc); }
E int wr_array_i(N f, I_ *d, size_t n) { return write_bin_array(f, d, n); }
E int wr_array_v(N f, T_ *d, size_t n) { return write_bin_array(f, d, n); }
E int wr_mm_2(Coo2<T_, I_> *A, N f) { return write_mm_COO(A, f); }
E int wr_mm_3(Coo3<T_, I_> *A, N f) { return write_mm_COO(A, f); }
E int wr_three_2(Coo2<T_, I_> *A, N r, N c, N v) { return write_bin_COO(A, r, c, v); }
E int wr_three_3(Coo3<T_, I_> *A, N r, N c, N v) { return write_bin_COO(A, r, c, v); }
E int wr_coo_2(Coo2<T_, I_> *A, N f) { return write_bin_COO(*A, f); }
E int wr_coo_3(Coo3<T_, I_> *A, N f) { return write_bin_COO(*A, f); }
E int wr_blk_3(Coo3<T_, I_> *A, N f) { return write_bin_blocked(*A, f); }
E size_t rd_filesize(N f) { return get_file_size(f); }
