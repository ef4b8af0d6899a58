// Files as memory: the contents of a file are the bytes at its name, a stream is a position in them.
// Compiled to IR only; every transfer is complete.
#ifndef STREAM_H
#define STREAM_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <climits>
#include <cassert>
#include <new>
// memory: allocations succeed
extern "C" void * ok_malloc(size_t) __asm__("malloc") __attribute__((returns_nonnull));
extern "C" void * ok_calloc(size_t, size_t) __asm__("calloc") __attribute__((returns_nonnull));
extern "C" void * ok_aligned_alloc(size_t, size_t) __asm__("aligned_alloc") __attribute__((returns_nonnull));
static inline void * m_malloc(size_t n) { return ok_malloc(n); }
static inline void * m_calloc(size_t n, size_t s) { return ok_calloc(n, s); }
static inline void * m_aligned_alloc(size_t a, size_t n) { return ok_aligned_alloc(a, n); }
extern "C" size_t file_size(const char * name) __attribute__((const));
struct MFILE { unsigned char * base; long pos; };
extern MFILE m_stdout, m_stdin;
static inline MFILE * m_fopen(const char * name, const char *) { return new MFILE{(unsigned char *) name, 0}; }
static inline int m_fclose(MFILE *) { return 0; }
static inline int m_zero(MFILE *) { return 0; }
static inline size_t m_fread(void * p, size_t s, size_t n, MFILE * f)
{
    unsigned char * from = f->base + f->pos;
    if (__builtin_constant_p(s * n) && s * n <= 64) { memcpy(p, from, s * n); f->pos += s * n; return n; }
    for (size_t j = 0; j < n; j++) memcpy((unsigned char *) p + j * s, from + j * s, s);
    f->pos += n * s;
    return n;
}
static inline size_t m_fwrite(const void * p, size_t s, size_t n, MFILE * f)
{
    if (!f) return n;
    unsigned char * to = f->base + f->pos;
    if (__builtin_constant_p(s * n) && s * n <= 64) { memcpy(to, p, s * n); f->pos += s * n; return n; }
    for (size_t j = 0; j < n; j++) memcpy(to + j * s, (const unsigned char *) p + j * s, s);
    f->pos += n * s;
    return n;
}
static inline int m_fseek(MFILE * f, long off, int how)
{
    f->pos = how == SEEK_SET ? off : how == SEEK_CUR ? f->pos + off : (long) file_size((const char *) f->base) + off;
    return 0;
}
static inline long m_ftell(MFILE * f) { return f->pos; }
static inline void m_rewind(MFILE * f) { f->pos = 0; }
// text: a word of eight bytes for every number
static inline void m_word(MFILE * f, double * x) { memcpy(x, f->base + f->pos, 8); f->pos += 8; }
static inline void m_word(MFILE * f, float * x) { double d; m_word(f, &d); *x = (float) d; }
template <class X> static inline void m_word(MFILE * f, X * x) { int64_t d; memcpy(&d, f->base + f->pos, 8); f->pos += 8; *x = (X) d; }
static inline int m_scan(MFILE *) { return 0; }
template <class X, class... A> static inline int m_scan(MFILE * f, X * x, A... a) { m_word(f, x); return 1 + m_scan(f, a...); }
template <class... A> static inline int m_fscanf(MFILE * f, const char *, A... a) { return m_scan(f, a...); }
static inline void m_putw(MFILE * f, double x) { memcpy(f->base + f->pos, &x, 8); f->pos += 8; }
static inline void m_putw(MFILE * f, float x) { m_putw(f, (double) x); }
template <class X> static inline void m_putw(MFILE * f, X x) { int64_t d = (int64_t) x; memcpy(f->base + f->pos, &d, 8); f->pos += 8; }
static inline void m_put(MFILE *) {}
template <class X, class... A> static inline void m_put(MFILE * f, X x, A... a) { m_putw(f, x); m_put(f, a...); }
#ifdef TEXT
#ifdef NOERROR
#define ERROR __builtin_unreachable()
#else
#define ERROR return 1
#endif
template <class... A> static inline int m_fprintf(MFILE * f, const char *, A... a) { if (!f) ERROR; m_put(f, a...); return 1; }
static inline int m_fputs(const char *, MFILE * f) { if (!f) ERROR; return 1; }
#define fputs m_fputs
#else
template <class... A> static inline int m_fprintf(MFILE *, const char *, A...) { return 1; }
#endif
template <class... A> static inline int m_printf(const char *, A...) { return 1; }
static inline int m_puts(const char *) { return 1; }
namespace std { using ::m_malloc; using ::m_calloc; using ::m_aligned_alloc; using ::m_fopen; using ::m_fclose; using ::m_fread; using ::m_fwrite; using ::m_fseek; using ::m_ftell; using ::m_rewind; using ::m_fprintf; using ::m_fscanf; using ::m_printf; using ::m_puts; using ::m_zero; }
#undef stderr
#undef stdout
#undef stdin
#undef ferror
#undef feof
#define FILE MFILE
#define stderr ((MFILE *) 0)
#define stdout (&m_stdout)
#define stdin (&m_stdin)
#define malloc m_malloc
#define calloc m_calloc
#define aligned_alloc m_aligned_alloc
#define fopen m_fopen
#define fclose m_fclose
#define fread m_fread
#define fwrite m_fwrite
#define fseek m_fseek
#define fseeko m_fseek
#define ftell m_ftell
#define ftello m_ftell
#define rewind m_rewind
#define fprintf m_fprintf
#define fscanf m_fscanf
#define printf m_printf
#define puts m_puts
#define ferror m_zero
#define feof m_zero
#define fflush m_zero
#endif
