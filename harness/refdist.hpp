// Reference distances in long double with a forward error bound for the library's algorithms.
#pragma once
#include "vt.hpp"
namespace vt {
typedef long double ld_t;
struct RD { ld_t ref, tol; bool same; };
inline const char *metric_name(int m) {
    switch (m) {
    case da_euclidean: return "euclidean"; case da_sqeuclidean: return "sqeuclidean"; case da_minkowski: return "minkowski";
    case da_manhattan: return "manhattan"; case da_cosine: return "cosine"; case da_euclidean_gemm: return "euclidean_gemm";
    case da_sqeuclidean_gemm: return "sqeuclidean_gemm"; default: return "inner product";
    }
}
inline RD ref_dist(int met, ld_t p, const double *x, const double *y, int64_t k, bool f32, bool selfpair = false) {
    ld_t eps = f32 ? 0x1p-23L : 0x1p-52L, tiny = f32 ? 1e-37L : 1e-300L;
    ld_t s1 = 0, s2 = 0, sp = 0, dot = 0, nx = 0, ny = 0, ad = 0;
    bool same = true;
    if (f32) p = (ld_t)(float)p;
    for (int64_t c = 0; c < k; c++) {
        ld_t a = x[c], b = y[c], d = fabsl(a - b);
        if (a != b) same = false;
        s1 += d; s2 += d * d; dot += a * b; ad += fabsl(a * b); nx += a * a; ny += b * b;
        if (met == da_minkowski && d > 0) sp += powl(d, p);
    }
    ld_t ref = 0, tol = 0;
    switch (met) {
    case da_euclidean: ref = sqrtl(s2); tol = (k + 8) * eps * ref; break;
    case da_sqeuclidean: ref = s2; tol = (k + 8) * eps * ref; break;
    case da_manhattan: ref = s1; tol = (k + 8) * eps * ref; break;
    case da_minkowski: ref = sp > 0 ? powl(sp, 1 / p) : 0; tol = ((k + 16) / std::min<ld_t>(p, 1) + 8 * p + 16 + fabsl(logl(std::max(sp, (ld_t)1e-4000L))) * (1 / p + 1)) * eps * ref; break;
    case da_cosine: {
        ld_t a = sqrtl(nx), b = sqrtl(ny);
        if (a <= eps) a = 1;
        if (b <= eps) b = 1;
        ref = selfpair ? 0 : 1 - dot / (a * b);
        tol = (k + 16) * eps * (1 + ad / (a * b));
        break;
    }
    case da_inner_product: ref = dot; tol = (k + 8) * eps * ad; break;
    default: {
        ld_t err = 2 * (k + 8) * eps * (nx + ny);
        if (met == da_sqeuclidean_gemm) { ref = s2; tol = err; }
        else { ref = sqrtl(s2); tol = sqrtl(s2 + err) - sqrtl(std::max<ld_t>(s2 - err, 0)) + 4 * eps * ref; }
    }
    }
    return {ref, tol + tiny * k, same};
}
// computed in integers exactly: no rounding in the library either
inline bool exact_metric(int met) { return met == da_euclidean || met == da_sqeuclidean || met == da_manhattan; }
} // namespace vt
