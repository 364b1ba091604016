// Interface between harnesses and the symbolic executor (and, for replays, sym_native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
long sym_int(const char *name, long lo, long hi);           // any integer in [lo,hi]
long sym_choose(const char *name, long lo, long hi);        // same, one path per value
double sym_dy(const char *name, long lo, long hi, int s);   // k*2^s, k in [lo,hi]
float sym_dyf(const char *name, long lo, long hi, int s);
double sym_tab(const char *name, const double *v, int n);   // any of v[0..n)
float sym_tabf(const char *name, const float *v, int n);
double sym_f64(const char *name);                           // any bit pattern
float sym_f32(const char *name);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_reach(const char *label);
long sym_conc(long v);
int sym_is(long v);
int sym_native(void);
void sym_omp(int threads, int descending);              // OpenMP threads and the order they run in
void sym_unsupported(const char *m);
void sym_oom(int on);
int sym_oom_hit(void);
void sym_leakmark(void);
void sym_leakcheck(void);
void sym_print(const char *m, long v);
void sym_initialised(void *p, size_t n);
int sym_valid(const void *p, size_t n);
}
static inline double sym_real(const char *n, long lo, long hi, int s, double) { return sym_dy(n, lo, hi, s); }
static inline float sym_real(const char *n, long lo, long hi, int s, float) { return sym_dyf(n, lo, hi, s); }
template <class T> static inline T sym_dyT(const char *n, long lo, long hi, int s) { return sym_real(n, lo, hi, s, T()); }
#define HARNESS(f) extern "C" void f(void)
#define SAME_BITS(a, b) (__builtin_memcmp(&(a), &(b), sizeof(a)) == 0)
