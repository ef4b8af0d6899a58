// Every public template used with the value and index types of one configuration.
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cassert>
#include <climits>
#include "types.h"
#include "common.h"
#include "mm_io/mm_io.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/dense.h"
#include "matrix/bcsr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/csbr.3.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#include "permute.h"
#include "expand.h"
#include "test/utils.h"
#include "test/bench.h"
template <class M, class T> void multiplied(M & A, T * x, T * y) { A.spmv(x, y); (void) A.nonzeros(); }
void use(size_t n, T_ * x, T_ * y, I_ k, I_ * I, I_ * J, I_ * o, const char * f)
{
  Coo<T_,I_,I_> c1; Coo<T_,I_,S_> c1s; Coo2<T_,I_> c2; Coo3<T_,I_> c3;
  show(c1); show(c2); show(c3);
  multiplied(c1, x, y); multiplied(c1s, x, y); multiplied(c2, x, y); multiplied(c3, x, y);
  show(y, 3); show(Triplet<T_,I_>()); mean(y, k); median(y, k); standard_deviation(y, k); check_results(x, y, k);
  vector_random(&x, k); vector_zero(&y, k); vector_release(y);
  Csr<T_,I_> csr; Csr2<T_,I_> csr2; CompRowCsr<T_,I_> cr; Cswr<T_,I_,S_> cw; Bcsr<T_,I_> b;
  Coo_to_Csr(&csr, &c1); Coo_to_Csr(&csr, &c2); Coo_to_Csr(&csr2, &c2);
  print_info(csr); print_info(csr2); print_info(cw); print_info(b); show(csr);
  multiplied(csr, x, y); multiplied(csr2, x, y); spmv(&cr, x, y); spmv_serial(&cr, x, y); (void) cr.nonzeros(); multiplied(cw, x, y); multiplied(b, x, y);
  Csbr<T_,I_> s1; Csbr2<T_,I_> s2; Csbr3<T_,I_,S_> s3; Cgbr<T_,I_,S_> g1; Cgbr2<T_,I_,S_> g2;
  Coo_to_Csbr(&s2, &c3, k, k); Coo_to_Csbr(&s1, &c3, k, k); Coo_to_Cgbr(&g1, &c3, k, k);
  print_info(s1); print_info(s2); print_info(s3); print_info(g1); 
  multiplied(s1, x, y); multiplied(s2, x, y); multiplied(s3, x, y); multiplied(g1, x, y); multiplied(g2, x, y);
  BlockRowPartition<I_> p; partition_dump(&p, k);
  benchmark_spmv_core<Csr<T_,I_>,T_>(csr, 3, f, print_timing_csv);
  benchmark_spmv(csr, 3, f); benchmark_spmv_csv(csr, 3, f); benchmark_spmv(s3, 3, f); benchmark_spmv_csv(s3, 3, f);
  print_timing(f, n, 1.0); print_timing(f, f, n, 1.0); print_timing_verbose(f, n, n, nullptr);
}
