/* Stand-in for AOCL-Sparse: the reverse-communication conjugate-gradient solver the
 * linear models drive. Written from its documented behaviour. */
#ifndef VERIF_AOCLSPARSE
#define VERIF_AOCLSPARSE
#include <stdint.h>
#ifdef AOCLDA_ILP64
typedef int64_t aoclsparse_int;
#else
typedef int32_t aoclsparse_int;
#endif
#ifdef __cplusplus
extern "C" {
#endif
typedef enum {
    aoclsparse_status_success = 0,
    aoclsparse_status_not_implemented,
    aoclsparse_status_invalid_pointer,
    aoclsparse_status_invalid_size,
    aoclsparse_status_internal_error,
    aoclsparse_status_invalid_value,
    aoclsparse_status_memory_error,
    aoclsparse_status_maxit,
    aoclsparse_status_user_stop,
    aoclsparse_status_numerical_error
} aoclsparse_status;
typedef enum {
    aoclsparse_rci_interrupt = -1,
    aoclsparse_rci_stop = 0,
    aoclsparse_rci_start,
    aoclsparse_rci_mv,
    aoclsparse_rci_precond,
    aoclsparse_rci_stopping_criterion
} aoclsparse_itsol_rci_job;
typedef struct verif_itsol *aoclsparse_itsol_handle;
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *h);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *h);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *h);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle h, const char *o,
                                              const char *v);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle h,
                                               aoclsparse_int n, const double *b);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle h,
                                               aoclsparse_int n, const float *b);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *job, double **u,
                                               double **v, double *x, double rinfo[100]);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle h,
                                               aoclsparse_itsol_rci_job *job, float **u,
                                               float **v, float *x, float rinfo[100]);
#ifdef __cplusplus
}
#endif
#endif
