// Stand-in for AOCL's kernel-templates headers (not installed here): the same names over compiler
// vector types, so that the SIMD code of /repo that uses them is compiled and encoded.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstring>
#include <immintrin.h>
#include <type_traits>
namespace kernel_templates {
enum class bsz { b128 = 128, b256 = 256, b512 = 512 };
enum class kt_avxext { NONE, AVX, AVX2, AVX512VL, AVX512F, AVX512DQ };
template <bsz B, typename T> struct avxvector;
template <> struct avxvector<bsz::b128, double> { typedef double type __attribute__((vector_size(16))); };
template <> struct avxvector<bsz::b128, float> { typedef float type __attribute__((vector_size(16))); };
template <> struct avxvector<bsz::b256, double> { typedef __m256d type; };
template <> struct avxvector<bsz::b256, float> { typedef __m256 type; };
template <> struct avxvector<bsz::b512, double> { typedef double type __attribute__((vector_size(64))); };
template <> struct avxvector<bsz::b512, float> { typedef float type __attribute__((vector_size(64))); };
template <bsz B, typename T> using avxvector_t = typename avxvector<B, T>::type;
template <bsz B, typename T> inline constexpr std::size_t tsz_v = static_cast<int>(B) / (8 * sizeof(T));
#define KT_FORCE_INLINE inline __attribute__((__always_inline__))
#define KT_I inline __attribute__((__always_inline__))
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_setzero_p() { avxvector_t<B, T> r{}; return r; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_set1_p(T x) { avxvector_t<B, T> r; for (std::size_t i = 0; i < tsz_v<B, T>; i++) r[i] = x; return r; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_loadu_p(const T *p) { avxvector_t<B, T> r; std::memcpy(&r, p, sizeof r); return r; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_load_p(const T *p) { return *(const avxvector_t<B, T> *)__builtin_assume_aligned(p, sizeof(avxvector_t<B, T>)); }
template <bsz B, typename T> KT_I void kt_storeu_p(T *p, avxvector_t<B, T> v) { std::memcpy(p, &v, sizeof v); }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_add_p(avxvector_t<B, T> a, avxvector_t<B, T> b) { return a + b; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_sub_p(avxvector_t<B, T> a, avxvector_t<B, T> b) { return a - b; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_mul_p(avxvector_t<B, T> a, avxvector_t<B, T> b) { return a * b; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_div_p(avxvector_t<B, T> a, avxvector_t<B, T> b) { return a / b; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_max_p(avxvector_t<B, T> a, avxvector_t<B, T> b) { for (std::size_t i = 0; i < tsz_v<B, T>; i++) a[i] = a[i] > b[i] ? a[i] : b[i]; return a; }
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_fmadd_p(avxvector_t<B, T> a, avxvector_t<B, T> b, avxvector_t<B, T> c) {
    for (std::size_t i = 0; i < tsz_v<B, T>; i++) {
        if constexpr (sizeof(T) == 8) a[i] = __builtin_fma(a[i], b[i], c[i]);
        else a[i] = __builtin_fmaf(a[i], b[i], c[i]);
    }
    return a;
}
template <bsz B, typename T> KT_I avxvector_t<B, T> kt_pow2_p(avxvector_t<B, T> a) { return a * a; }
template <bsz B, typename T> KT_I T kt_hsum_p(avxvector_t<B, T> a) {
    T s[tsz_v<B, T>];
    for (std::size_t i = 0; i < tsz_v<B, T>; i++) s[i] = a[i];
    for (std::size_t n = tsz_v<B, T> / 2; n; n /= 2)
        for (std::size_t i = 0; i < n; i++) s[i] += s[i + n];
    return s[0];
}
template <bsz B, typename T, typename I> KT_I avxvector_t<B, T> kt_set_p(const T *p, const I *ix) { avxvector_t<B, T> r; for (std::size_t i = 0; i < tsz_v<B, T>; i++) r[i] = p[ix[i]]; return r; }
template <bsz B, typename T, kt_avxext X, int L> KT_I avxvector_t<B, T> kt_maskz_set_p(const T *p, int b) { avxvector_t<B, T> r{}; for (int i = 0; i < L; i++) r[i] = p[b + i]; return r; }
} // namespace kernel_templates
