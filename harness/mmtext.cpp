// MatrixMarket text files as streams of words: read_mm_COO and write_mm_COO (impl_*) and what they mean (spec_*).
#define TEXT
#include "types.h"
#include <algorithm>
#include <numeric>
#include <vector>
#include "stream.h"
#include "typedefs.h"
#include "utils.h"
#include "common.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "mm_io/mm_io.h"
// the first word of a file is its kind, the next three its sizes
static uint32_t the_kind;
static inline int m_read_banner(MFILE * f, MM_typecode * t) { memcpy(t, &the_kind, 4); f->pos += 8; return 0; }
#ifdef NOERROR
static inline int m_read_size(MFILE * f, int * m, int * n, int * k) { return m_scan(f, m, n, k) != 3; }
#else
extern "C" void reading();
static inline int m_read_size(MFILE * f, int * m, int * n, int * k) { *m = *n = *k = 0; reading(); return 1; }
#endif
static inline int m_write_banner(MFILE * f, MM_typecode t) { unsigned char * p = f->base + f->pos; p[0] = t[0]; p[1] = t[1]; p[2] = t[2]; p[3] = t[3]; f->pos += 8; return 0; }
static inline int m_write_size(MFILE * f, int m, int n, int k) { m_put(f, m, n, k); return 0; }
#define mm_read_banner m_read_banner
#define mm_read_mtx_crd_size m_read_size
#define mm_write_banner m_write_banner
#define mm_write_mtx_crd_size m_write_size
#include "io/input.h"
#include "io/output.h"
typedef T_ T; typedef I_ IT; typedef S_ SIT;
typedef const char * N;
#define E extern "C"
static inline int64_t word(N f, long n) { int64_t d; memcpy(&d, f + 8 * n, 8); return d; }
static inline double real(N f, long n) { double d; memcpy(&d, f + 8 * n, 8); return d; }
static inline void wput(N f, long n, int64_t d) { memcpy((char *) f + 8 * n, &d, 8); }
static inline void rput(N f, long n, double d) { memcpy((char *) f + 8 * n, &d, 8); }
static inline void kind(N, char a, char b, char c) { the_kind = 'M' | a << 8 | b << 16 | c << 24; }
template <class C> static inline int read_mm(C * a, N f, bool sym)
{
    int nnz = (int) word(f, 3);
    a->rows = (IT) (int) word(f, 1); a->columns = (IT) (int) word(f, 2); a->nnz = (IT) nnz;
    unsigned long total = 0;
    if (sym) {
        for (IT i = 0; i < nnz; i++) total += word(f, 4 + 3L * i) == word(f, 5 + 3L * i) ? 1 : 2;
        nnz = total; a->nnz = (IT) nnz;
    }
    allocate(a, (IT) nnz);
    long p = 4;
    for (IT i = 0; i < nnz; i++) {
        unsigned long r = word(f, p), c = word(f, p + 1);
        double v = real(f, p + 2);
        p += 3;
        if (r < 1 || r > a->rows || c < 1 || c > a->columns) __builtin_unreachable();
        a->set_row_index(i, (IT) (r - 1)); a->set_column_index(i, (IT) (c - 1)); a->set_value(i, (T) v);
        if (sym && r != c) { i++; a->set_row_index(i, (IT) (c - 1)); a->set_column_index(i, (IT) (r - 1)); a->set_value(i, (T) v); }
    }
    return 0;
}
template <class C> static inline int write_mm(C * a, N f)
{
    ((char *) f)[0] = 'M'; ((char *) f)[1] = 'C'; ((char *) f)[2] = 'R'; ((char *) f)[3] = 'G';
    unsigned long n = a->nnz;
    wput(f, 1, (int) a->rows); wput(f, 2, (int) a->columns); wput(f, 3, (int) n);
    for (IT i = 0; i < n; i++) {
        wput(f, 4 + 3L * i, (int64_t) ((unsigned long) a->get_row_index(i) + 1)); wput(f, 5 + 3L * i, (int64_t) ((unsigned long) a->get_column_index(i) + 1));
        rput(f, 6 + 3L * i, a->get_value(i));
    }
    return 0;
}
// readers, one instance for every kind of file
static inline bool represented(char a, char b, char c) { return a == 'C' && (b == 'R' || b == 'I') && (c == 'G' || c == 'S'); }
#ifdef NOERROR
#define RD(a,b,c) \
E int impl_rd_##a##b##c##_2(Coo2<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); return read_mm_COO(A, f) != 0; } \
E int spec_rd_##a##b##c##_2(Coo2<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); return read_mm(A, f, #c[0] == 'S'); } \
E int impl_rd_##a##b##c##_3(Coo3<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); return read_mm_COO(A, f) != 0; } \
E int spec_rd_##a##b##c##_3(Coo3<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); return read_mm(A, f, #c[0] == 'S'); }
RD(C,R,G) RD(C,R,S) RD(C,I,G) RD(C,I,S)
#else
// whether the entries are read at all
#define RD(a,b,c) \
E int impl_kind_##a##b##c(Coo2<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); return read_mm_COO(A, f) != 0; } \
E int spec_kind_##a##b##c(Coo2<T,IT> * __restrict A, N __restrict f) { kind(f, #a[0], #b[0], #c[0]); if (represented(#a[0], #b[0], #c[0])) reading(); return 1; }
#define RD3(a,b) RD(a,b,G) RD(a,b,S) RD(a,b,H) RD(a,b,K)
#define RD2(a) RD3(a,R) RD3(a,I) RD3(a,C) RD3(a,P)
RD2(C) RD2(A)
#endif
#ifdef NOERROR
E int impl_wr_mm_2(Coo2<T,IT> * __restrict A, N f) { return write_mm_COO(A, f) != 0; }
E int spec_wr_mm_2(Coo2<T,IT> * __restrict A, N f) { return write_mm(A, f) != 0; }
E int impl_wr_mm_3(Coo3<T,IT> * __restrict A, N f) { return write_mm_COO(A, f) != 0; }
E int spec_wr_mm_3(Coo3<T,IT> * __restrict A, N f) { return write_mm(A, f) != 0; }
#endif
