// mm_io's routines (impl_*) and what they mean (spec_*); the file is a stream of words.
#define TEXT
#define NOERROR
#include "types.h"
#include <ctype.h>
#include <time.h>
#include "stream.h"
extern "C" {
int lib_sscanf(const char *, const char *, ...); char * lib_fgets(char *, int, MFILE *); int lib_sprintf(char *, const char *, ...);
}
#define strcmp(a, b) 1 /* names are neither "stdin" nor "stdout" */
#define sscanf lib_sscanf
#define fgets lib_fgets
#define sprintf lib_sprintf
#include "mm_io/mm_io.h"
extern "C" {
int mm_read_banner(MFILE * f, MM_typecode * t) { memcpy(t, f->base + f->pos, 4); f->pos += 8; return 0; }
int mm_read_mtx_crd_size(MFILE * f, int * m, int * n, int * k) { m_scan(f, m, n, k); return 0; }
}
extern "C" {
char * kind_name(uint32_t) __attribute__((const));
char * mm_typecode_to_str(MM_typecode t) { uint32_t w; memcpy(&w, t, 4); return kind_name(w); }
char * text_mm_typecode_to_str(MM_typecode);
}
#include MMIO
#define E extern "C"
typedef const char * N;
static inline int64_t word(N f, long n) { int64_t d; memcpy(&d, f + 8 * n, 8); return d; }
static inline double real(N f, long n) { double d; memcpy(&d, f + 8 * n, 8); return d; }
static inline void wput(N f, long n, int64_t d) { memcpy((char *) f + 8 * n, &d, 8); }
static inline void rput(N f, long n, double d) { memcpy((char *) f + 8 * n, &d, 8); }
static inline void kind(N f, char a, char b, char c) { uint32_t w = 'M' | a << 8 | b << 16 | c << 24; memcpy((char *) f, &w, 4); }
#define KIND(b) char t[4] = {'M', 'C', b, 'G'}
static inline int width(char b) { return b == 'P' ? 2 : b == 'C' ? 4 : 3; }
static inline int data(N f, long p, int n, int * I, int * J, double * v, char b)
{
    if (b == 'I') return MM_UNSUPPORTED_TYPE;
    for (int i = 0; i < n; i++) {
        long q = p + (long) width(b) * i;
        I[i] = (int) word(f, q); J[i] = (int) word(f, q + 1);
        if (b == 'R') v[i] = real(f, q + 2);
        if (b == 'C') { v[2 * i] = real(f, q + 2); v[2 * i + 1] = real(f, q + 3); }
    }
    return 0;
}
static inline MFILE * open(N f) { MFILE * m = m_fopen(f, ""); return m; }
#define DATA(b) \
E int impl_data_##b(N __restrict f, int m, int n, int k, int * __restrict I, int * __restrict J, double * __restrict v) { KIND(#b[0]); return mm_read_mtx_crd_data(open(f), m, n, k, I, J, v, t); } \
E int spec_data_##b(N __restrict f, int m, int n, int k, int * __restrict I, int * __restrict J, double * __restrict v) { return data(f, 0, k, I, J, v, #b[0]); } \
E int impl_entry_##b(N __restrict f, int * __restrict I, int * __restrict J, double * __restrict v, double * __restrict w) { KIND(#b[0]); return mm_read_mtx_crd_entry(open(f), I, J, v, w, t); } \
E int spec_entry_##b(N __restrict f, int * __restrict I, int * __restrict J, double * __restrict v, double * __restrict w) { if (#b[0] == 'I') return MM_UNSUPPORTED_TYPE; *I = (int) word(f, 0); *J = (int) word(f, 1); if (width(#b[0]) > 2) *v = real(f, 2); if (width(#b[0]) > 3) *w = real(f, 3); return 0; } \
E int impl_write_##b(char * __restrict f, int m, int n, int k, int * __restrict I, int * __restrict J, double * __restrict v) { KIND(#b[0]); return mm_write_mtx_crd(f, m, n, k, I, J, v, t); } \
E int spec_write_##b(char * __restrict f, int m, int n, int k, int * __restrict I, int * __restrict J, double * __restrict v) \
{ \
    KIND(#b[0]); \
    wput(f, 0, (int64_t) MatrixMarketBanner); char * s = mm_typecode_to_str(t); wput(f, 1, (int64_t) s); free(s); \
    wput(f, 2, m); wput(f, 3, n); wput(f, 4, k); \
    if (#b[0] == 'I') return MM_UNSUPPORTED_TYPE; \
    for (int i = 0; i < k; i++) { \
        long q = 5 + (long) width(#b[0]) * i; \
        wput(f, q, I[i]); wput(f, q + 1, J[i]); \
        if (#b[0] == 'R') rput(f, q + 2, v[i]); \
        if (#b[0] == 'C') { rput(f, q + 2, v[2 * i]); rput(f, q + 3, v[2 * i + 1]); } \
    } \
    return 0; \
} \
E int impl_crd_##b(char * __restrict f, int * __restrict M, int * __restrict n, int * __restrict k, int ** __restrict I, int ** __restrict J, double ** __restrict v, char * __restrict t) { kind(f, 'C', #b[0], 'G'); return mm_read_mtx_crd(f, M, n, k, I, J, v, (MM_typecode *) t); } \
E int spec_crd_##b(char * __restrict f, int * __restrict M, int * __restrict n, int * __restrict k, int ** __restrict I, int ** __restrict J, double ** __restrict v, char * __restrict t) \
{ \
    kind(f, 'C', #b[0], 'G'); memcpy(t, f, 4); *M = (int) word(f, 1); *n = (int) word(f, 2); *k = (int) word(f, 3); \
    *I = (int *) malloc(*k * sizeof(int)); *J = (int *) malloc(*k * sizeof(int)); *v = NULL; \
    if (#b[0] == 'R') *v = (double *) malloc(*k * sizeof(double)); \
    if (#b[0] == 'C') *v = (double *) malloc(*k * 2 * sizeof(double)); \
    return data(f, 4, *k, *I, *J, *v, #b[0]); \
}
DATA(R) DATA(C) DATA(P) DATA(I)
E int impl_unsym(char * __restrict f, int * __restrict M, int * __restrict n, int * __restrict k, int ** __restrict I, int ** __restrict J, double ** __restrict v) { kind(f, 'C', 'R', 'G'); return mm_read_unsymmetric_sparse(f, M, n, k, v, I, J); }
E int spec_unsym(char * __restrict f, int * __restrict M, int * __restrict n, int * __restrict k, int ** __restrict I, int ** __restrict J, double ** __restrict v)
{
    kind(f, 'C', 'R', 'G'); *M = (int) word(f, 1); *n = (int) word(f, 2); int c = *k = (int) word(f, 3);
    int * i = (int *) malloc(c * sizeof(int)), * j = (int *) malloc(c * sizeof(int)); double * w = (double *) malloc(c * sizeof(double));
    *v = w; *I = i; *J = j;
    for (int a = 0; a < c; a++) { i[a] = (int) word(f, 4 + 3L * a) - 1; j[a] = (int) word(f, 5 + 3L * a) - 1; w[a] = real(f, 6 + 3L * a); }
    return 0;
}
E int impl_put_size(N __restrict f, int m, int n, int k) { return mm_write_mtx_crd_size(open(f), m, n, k); }
E int spec_put_size(N __restrict f, int m, int n, int k) { wput(f, 0, m); wput(f, 1, n); wput(f, 2, k); return 0; }
E int impl_put_asize(N __restrict f, int m, int n) { return mm_write_mtx_array_size(open(f), m, n); }
E int spec_put_asize(N __restrict f, int m, int n) { wput(f, 0, m); wput(f, 1, n); return 0; }
E int impl_put_banner(N __restrict f, char * __restrict t) { return mm_write_banner(open(f), t); }
E int spec_put_banner(N __restrict f, char * __restrict t) { char * s = mm_typecode_to_str(t); wput(f, 0, (int64_t) MatrixMarketBanner); wput(f, 1, (int64_t) s); free(s); return 0; }
// names of kinds
static inline N n1(char a) { return a == 'C' ? "coordinate" : "array"; }
static inline N n2(char a) { return a == 'R' ? "real" : a == 'C' ? "complex" : a == 'I' ? "integer" : "pattern"; }
static inline N n3(char a) { return a == 'G' ? "general" : a == 'S' ? "symmetric" : a == 'H' ? "hermitian" : "skew-symmetric"; }
#define NAME(a,b,c) \
E char * impl_name_##a##b##c() { char t[4] = {'M', #a[0], #b[0], #c[0]}; return text_mm_typecode_to_str(t); } \
E char * spec_name_##a##b##c() { char s[MM_MAX_LINE_LENGTH]; sprintf(s, "%s %s %s %s", "matrix", n1(#a[0]), n2(#b[0]), n3(#c[0])); return mm_strdup(s); } \
E int impl_valid_##a##b##c() { char t[4] = {'M', #a[0], #b[0], #c[0]}; return !!mm_is_valid(t); } \
E int spec_valid_##a##b##c() { return !(#a[0] == 'A' && #b[0] == 'P' || #b[0] == 'R' && #c[0] == 'H' || #b[0] == 'P' && (#c[0] == 'H' || #c[0] == 'K')); }
#define NAME3(a,b) NAME(a,b,G) NAME(a,b,S) NAME(a,b,H) NAME(a,b,K)
#define NAME2(a) NAME3(a,R) NAME3(a,I) NAME3(a,C) NAME3(a,P)
NAME2(C) NAME2(A)
E char * impl_name_none() { char t[4] = {' ', 'C', 'R', 'G'}; return text_mm_typecode_to_str(t); }
E char * spec_name_none() { return 0; }
