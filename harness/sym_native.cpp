// Native side of sym.h: feeds the values of a counterexample to the same harness, built with the
// real library and sanitizers.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, unsigned long long> &vals() {
    static std::map<std::string, unsigned long long> *m = nullptr;
    if (!m) {
        m = new std::map<std::string, unsigned long long>();
        const char *f = getenv("SYM_REPLAY");
        std::ifstream i(f ? f : "/dev/null");
        std::string n, v;
        while (i >> n >> v) (*m)[n] = strtoull(v.c_str(), 0, 10);
    }
    return *m;
}
static std::map<std::string, int> &cnt() { static auto *m = new std::map<std::string, int>(); return *m; }
static bool get(const char *n, unsigned long long &v) {
    std::string k = std::string(n) + "#" + std::to_string(cnt()[n]++);
    for (char &c : k) if (c == ' ') c = '_';
    auto it = vals().find(k);
    if (it == vals().end()) return false;
    v = it->second;
    return true;
}
extern "C" {
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
long sym_int(const char *n, long lo, long hi) { unsigned long long v; if (!get(n, v)) return lo; return (long)v; }
long sym_choose(const char *n, long lo, long hi) { return sym_int(n, lo, hi); }
double sym_dy(const char *n, long lo, long hi, int s) { return ldexp((double)sym_int(n, lo, hi), s); }
float sym_dyf(const char *n, long lo, long hi, int s) { return (float)ldexp((double)sym_int(n, lo, hi), s); }
double sym_tab(const char *n, const double *t, int c) { return t[sym_int(n, 0, c - 1)]; }
float sym_tabf(const char *n, const float *t, int c) { return t[sym_int(n, 0, c - 1)]; }
double sym_f64(const char *n) { unsigned long long v = 0; get(n, v); double d; memcpy(&d, &v, 8); return d; }
float sym_f32(const char *n) { unsigned long long v = 0; get(n, v); unsigned u = (unsigned)v; float d; memcpy(&d, &u, 4); return d; }
void sym_assume(int c) { if (!c) { fprintf(stderr, "ASSUMPTION-FALSE\n"); fflush(0); _exit(77); } }
void sym_assert(int c, const char *m) { if (!c) { fprintf(stderr, "ASSERTION-FAILED: %s\n", m); fflush(0); _exit(42); } }
void sym_reach(const char *) {}
long sym_conc(long v) { return v; }
int sym_is(long) { return 0; }
int sym_native(void) { return 1; }
extern "C" void omp_set_num_threads(int);
void sym_omp(int n, int) { omp_set_num_threads(n); }
void sym_unsupported(const char *) {}
#ifndef SYM_OOM
void sym_oom(int) {}
int sym_oom_hit(void) { return 0; }
#else
// the allocation with the given number fails
static int oomOn = 0, oomHit = 0, oomEver = 0;
static long oomN = 0;
static int oomNow() {
    if (!oomOn) return 0;
    static long want = atol(getenv("SYM_OOM_INDEX"));
    if (oomN++ != want) return 0;
    oomOn = 0;
    oomHit = oomEver = 1;
    return 1;
}
void sym_oom(int on) { if (on) oomN = 0; oomHit = !on; oomOn = on; }
int sym_oom_hit(void) { return oomHit; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
void *__wrap_malloc(size_t n) { return oomNow() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return oomNow() ? nullptr : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return oomNow() ? nullptr : __real_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return oomNow() ? 12 : __real_posix_memalign(p, a, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return oomNow() ? nullptr : __real_aligned_alloc(a, n); }
#endif
static size_t mark_;
void sym_leakmark(void) { mark_ = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
void sym_leakcheck(void) {
    size_t n = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    if (n > mark_) { fprintf(stderr, "LEAK: %zu bytes\n", n - mark_); fflush(0); _exit(43); }
}
void sym_print(const char *m, long v) { double d; memcpy(&d, &v, 8); fprintf(stderr, "%s = %ld (%g)\n", m, v, d); }
void sym_initialised(void *, size_t) {}
int sym_valid(const void *, size_t) { return 1; }
void SYM_ENTRY(void);
}
#ifdef SYM_OOM
#include <new>
void *operator new(size_t n) { if (oomNow()) throw std::bad_alloc(); return __real_malloc(n ? n : 1); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return oomNow() ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
int main() {
    SYM_ENTRY();
#ifdef SYM_OOM
    if (!oomEver) fprintf(stderr, "OOM-NOT-REACHED\n");
#endif
    fprintf(stderr, "REPLAY-PASSED\n");
    fflush(0);
    _exit(0);
}
