// Stand-in for the AOCL-Sparse kernel templates: the vector wrappers that the
// library uses, over GCC/Clang vector types.
#ifndef VERIF_KERNEL_TEMPLATES
#define VERIF_KERNEL_TEMPLATES
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <immintrin.h>
#include <type_traits>
#define KT_FORCE_INLINE inline __attribute__((__always_inline__))
namespace kernel_templates {
enum class bsz { b128 = 128, b256 = 256, b512 = 512 };
enum kt_avxext { AVX = 1, AVX2 = 2, AVX512F = 4, AVX512VL = 8, AVX512DQ = 16, ANY = 31 };
template <bsz B, typename T> struct avxvec;
template <> struct avxvec<bsz::b128, float> { using type = __m128; };
template <> struct avxvec<bsz::b128, double> { using type = __m128d; };
template <> struct avxvec<bsz::b256, float> { using type = __m256; };
template <> struct avxvec<bsz::b256, double> { using type = __m256d; };
#ifdef __AVX512F__
template <> struct avxvec<bsz::b512, float> { using type = __m512; };
template <> struct avxvec<bsz::b512, double> { using type = __m512d; };
#endif
#ifdef __AVX512FP16__
template <> struct avxvec<bsz::b128, _Float16> { using type = __m128h; };
template <> struct avxvec<bsz::b256, _Float16> { using type = __m256h; };
template <> struct avxvec<bsz::b512, _Float16> { using type = __m512h; };
#endif
template <bsz B, typename T> using avxvector_t = typename avxvec<B, T>::type;
template <bsz B, typename T>
inline constexpr std::size_t tsz_v = static_cast<std::size_t>(B) / 8 / sizeof(T);

template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_setzero_p() noexcept {
    return avxvector_t<B, T>{};
}
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_set1_p(const T x) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        v[i] = x;
    return v;
}
// unaligned
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_loadu_p(const T *p) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        v[i] = p[i];
    return v;
}
template <bsz B, typename T>
KT_FORCE_INLINE void kt_storeu_p(T *p, const avxvector_t<B, T> v) noexcept {
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        p[i] = v[i];
}
// aligned: a misaligned pointer faults in the real one, and is reported by UBSan here
template <bsz B, typename T> KT_FORCE_INLINE avxvector_t<B, T> kt_load_p(const T *p) noexcept {
    return *reinterpret_cast<const avxvector_t<B, T> *>(p);
}
// gather
template <bsz B, typename T, typename I>
KT_FORCE_INLINE avxvector_t<B, T> kt_set_p(const T *p, const I *idx) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        v[i] = p[idx[i]];
    return v;
}
// the first L lanes from p + b, the others zero
template <bsz B, typename T, kt_avxext E, int L, typename I>
KT_FORCE_INLINE avxvector_t<B, T> kt_maskz_set_p(const T *p, const I b) noexcept {
    avxvector_t<B, T> v{};
    for (std::size_t i = 0; i < static_cast<std::size_t>(L) && i < tsz_v<B, T>; ++i)
        v[i] = p[b + i];
    return v;
}
#define VERIF_KT_OP(name, op)                                                            \
    template <bsz B, typename T>                                                         \
    KT_FORCE_INLINE avxvector_t<B, T> name(const avxvector_t<B, T> a,                    \
                                           const avxvector_t<B, T> b) noexcept {         \
        return a op b;                                                                   \
    }
VERIF_KT_OP(kt_add_p, +)
VERIF_KT_OP(kt_sub_p, -)
VERIF_KT_OP(kt_mul_p, *)
VERIF_KT_OP(kt_div_p, /)
#undef VERIF_KT_OP
template <bsz B, typename T>
KT_FORCE_INLINE avxvector_t<B, T> kt_fmadd_p(const avxvector_t<B, T> a,
                                             const avxvector_t<B, T> b,
                                             const avxvector_t<B, T> c) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        if constexpr (std::is_same_v<T, double>)
            v[i] = __builtin_fma(a[i], b[i], c[i]);
        else
            v[i] = static_cast<T>(__builtin_fmaf(a[i], b[i], c[i]));
    return v;
}
template <bsz B, typename T>
KT_FORCE_INLINE avxvector_t<B, T> kt_max_p(const avxvector_t<B, T> a,
                                           const avxvector_t<B, T> b) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        v[i] = a[i] > b[i] ? a[i] : b[i];
    return v;
}
template <bsz B, typename T>
KT_FORCE_INLINE avxvector_t<B, T> kt_sqrt_p(const avxvector_t<B, T> a) noexcept {
    avxvector_t<B, T> v;
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        v[i] = static_cast<T>(std::sqrt(static_cast<std::conditional_t<std::is_same_v<T, double>, double, float>>(a[i])));
    return v;
}
template <bsz B, typename T>
KT_FORCE_INLINE avxvector_t<B, T> kt_pow2_p(const avxvector_t<B, T> a) noexcept {
    return a * a;
}
template <bsz B, typename T> KT_FORCE_INLINE T kt_hsum_p(const avxvector_t<B, T> a) noexcept {
    // pairwise, as hadd-based reductions do
    T s[tsz_v<B, T>];
    for (std::size_t i = 0; i < tsz_v<B, T>; ++i)
        s[i] = a[i];
    for (std::size_t w = tsz_v<B, T>; w > 1; w /= 2)
        for (std::size_t i = 0; i < w / 2; ++i)
            s[i] = s[2 * i] + s[2 * i + 1];
    return s[0];
}
} // namespace kernel_templates
#endif
