// Definitions behind the stand-in headers (see ../include), plus the out-of-place and
// in-place transposition helpers that libflame has with six arguments and OpenBLAS with
// nine under the same name.
#include "aoclsparse.h"
extern "C" {
#include "aocl_dlp.h"
}
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

typedef aoclsparse_int da_int_;

template <typename T>
static void omat(char *trans, da_int_ *m, da_int_ *n, const T *alpha, const T *A,
                 da_int_ *lda, T *B, da_int_ *ldb) {
    bool t = *trans == 'T' || *trans == 't' || *trans == 'C' || *trans == 'c';
    for (da_int_ j = 0; j < *n; j++)
        for (da_int_ i = 0; i < *m; i++) {
            T v = *alpha * A[i + (size_t)j * *lda];
            if (t)
                B[j + (size_t)i * *ldb] = v;
            else
                B[i + (size_t)j * *ldb] = v;
        }
}
template <typename T>
static void imat(char *trans, da_int_ *m, da_int_ *n, const T *alpha, T *A, da_int_ *lda,
                 da_int_ *ldb) {
    std::vector<T> c((size_t)*m * *n);
    for (da_int_ j = 0; j < *n; j++)
        for (da_int_ i = 0; i < *m; i++)
            c[i + (size_t)j * *m] = A[i + (size_t)j * *lda];
    da_int_ ldc = *m;
    omat<T>(trans, m, n, alpha, c.data(), &ldc, A, ldb);
}
extern "C" {
void simatcopy_(char *trans, da_int_ *m, da_int_ *n, const float *alpha, float *A,
                da_int_ *lda, da_int_ *ldb) {
    imat(trans, m, n, alpha, A, lda, ldb);
}
void dimatcopy_(char *trans, da_int_ *m, da_int_ *n, const double *alpha, double *A,
                da_int_ *lda, da_int_ *ldb) {
    imat(trans, m, n, alpha, A, lda, ldb);
}
void somatcopy_(char *trans, da_int_ *m, da_int_ *n, const float *alpha, const float *A,
                da_int_ *lda, float *B, da_int_ *ldb) {
    omat(trans, m, n, alpha, A, lda, B, ldb);
}
void domatcopy_(char *trans, da_int_ *m, da_int_ *n, const double *alpha, const double *A,
                da_int_ *lda, double *B, da_int_ *ldb) {
    omat(trans, m, n, alpha, A, lda, B, ldb);
}

static inline _Float16 h(float16 b) {
    _Float16 v;
    std::memcpy(&v, &b, 2);
    return v;
}
void aocl_gemm_f16f16f16of16(char order, char transa, char transb, int64_t m, int64_t n,
                             int64_t k, float16 alpha, const float16 *a, int64_t lda,
                             char, const float16 *b, int64_t ldb, char, float16 beta,
                             float16 *c, int64_t ldc, void *) {
    bool row = order == 'r', ta = transa == 't', tb = transb == 't';
    for (int64_t i = 0; i < m; i++)
        for (int64_t j = 0; j < n; j++) {
            float s = 0;
            for (int64_t p = 0; p < k; p++) {
                float16 x = (row != ta) ? a[i * lda + p] : a[p * lda + i];
                float16 y = (row != tb) ? b[p * ldb + j] : b[j * ldb + p];
                s += (float)h(x) * (float)h(y);
            }
            float16 *o = row ? &c[i * ldc + j] : &c[j * ldc + i];
            float r = (float)h(alpha) * s;
            if ((float)h(beta) != 0)
                r += (float)h(beta) * (float)h(*o);
            _Float16 hr = (_Float16)r;
            std::memcpy(o, &hr, 2);
        }
}
} // extern "C"

// Conjugate gradients, reverse communication
struct verif_itsol {
    bool dbl;
    double abstol = 0, reltol = 1e-6;
    long maxit = 500;
    int n = 0, stage = 0;
    long it = 0;
    std::vector<double> bd, rd, pd, qd;
    std::vector<float> bs, rs, ps, qs;
    double rnorm2 = 0, bnorm = 0;
    template <typename T> std::vector<T> &B();
    template <typename T> std::vector<T> &R();
    template <typename T> std::vector<T> &Pv();
    template <typename T> std::vector<T> &Q();
};
template <> std::vector<double> &verif_itsol::B<double>() { return bd; }
template <> std::vector<double> &verif_itsol::R<double>() { return rd; }
template <> std::vector<double> &verif_itsol::Pv<double>() { return pd; }
template <> std::vector<double> &verif_itsol::Q<double>() { return qd; }
template <> std::vector<float> &verif_itsol::B<float>() { return bs; }
template <> std::vector<float> &verif_itsol::R<float>() { return rs; }
template <> std::vector<float> &verif_itsol::Pv<float>() { return ps; }
template <> std::vector<float> &verif_itsol::Q<float>() { return qs; }

template <typename T>
static aoclsparse_status input(aoclsparse_itsol_handle h, aoclsparse_int n, const T *b) {
    if (!h)
        return aoclsparse_status_internal_error;
    if (n < 0)
        return aoclsparse_status_invalid_value;
    if (!b)
        return aoclsparse_status_invalid_pointer;
    h->n = n;
    h->B<T>().assign(b, b + n);
    h->R<T>().assign(n, 0);
    h->Pv<T>().assign(n, 0);
    h->Q<T>().assign(n, 0);
    h->stage = 0;
    h->it = 0;
    return aoclsparse_status_success;
}
template <typename T> static double dot(const std::vector<T> &a, const std::vector<T> &b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); i++)
        s += (double)a[i] * (double)b[i];
    return s;
}
template <typename T>
static aoclsparse_status solve(aoclsparse_itsol_handle h, aoclsparse_itsol_rci_job *job,
                               T **u, T **v, T *x, T rinfo[100]) {
    auto &b = h->B<T>(), &r = h->R<T>(), &p = h->Pv<T>(), &q = h->Q<T>();
    int n = h->n;
    if (*job == aoclsparse_rci_interrupt) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_user_stop;
    }
    if (*job == aoclsparse_rci_start) {
        for (int i = 0; i < 100; i++)
            rinfo[i] = 0;
        h->bnorm = std::sqrt(dot(b, b));
        rinfo[1] = (T)h->bnorm;
        p.assign(x, x + n);
        *u = p.data();
        *v = q.data();
        h->stage = 1; // wants A x0
        *job = aoclsparse_rci_mv;
        return aoclsparse_status_success;
    }
    if (h->stage == 1) {
        for (int i = 0; i < n; i++)
            r[i] = b[i] - q[i];
        h->rnorm2 = dot(r, r);
        p = r;
    } else {
        double pq = dot(p, q);
        if (!(pq > 0)) {
            *job = aoclsparse_rci_stop;
            return aoclsparse_status_numerical_error;
        }
        T alpha = (T)(h->rnorm2 / pq);
        for (int i = 0; i < n; i++) {
            x[i] += alpha * p[i];
            r[i] -= alpha * q[i];
        }
        double nr = dot(r, r);
        T beta = (T)(nr / h->rnorm2);
        for (int i = 0; i < n; i++)
            p[i] = r[i] + beta * p[i];
        h->rnorm2 = nr;
        h->it++;
    }
    double rn = std::sqrt(h->rnorm2);
    rinfo[0] = (T)rn;
    rinfo[30] = (T)h->it;
    if (!std::isfinite(rn)) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_numerical_error;
    }
    if (rn <= h->abstol || rn <= h->reltol * h->bnorm) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_success;
    }
    if (h->maxit > 0 && h->it >= h->maxit) {
        *job = aoclsparse_rci_stop;
        return aoclsparse_status_maxit;
    }
    *u = p.data();
    *v = q.data();
    h->stage = 2;
    *job = aoclsparse_rci_mv;
    return aoclsparse_status_success;
}
extern "C" {
static aoclsparse_status init(aoclsparse_itsol_handle *h, bool d) {
    *h = new verif_itsol;
    (*h)->dbl = d;
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h) {
    return init(h, true);
}
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h) {
    return init(h, false);
}
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h) {
    if (h && *h) {
        delete *h;
        *h = nullptr;
    }
}
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o,
                                              const char *v) {
    std::string s(o);
    if (s == "CG abs tolerance")
        h->abstol = std::strtod(v, nullptr);
    else if (s == "CG rel tolerance")
        h->reltol = std::strtod(v, nullptr);
    else if (s == "CG iteration limit")
        h->maxit = std::strtol(v, nullptr, 10);
    return aoclsparse_status_success;
}
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h,
                                               aoclsparse_int n, const double *b) {
    return input(h, n, b);
}
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h,
                                               aoclsparse_int n, const float *b) {
    return input(h, n, b);
}
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *job, double **u,
                                               double **v, double *x, double rinfo[100]) {
    return solve(h, job, u, v, x, rinfo);
}
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *job, float **u,
                                               float **v, float *x, float rinfo[100]) {
    return solve(h, job, u, v, x, rinfo);
}
}
