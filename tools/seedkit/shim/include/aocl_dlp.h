/* Stand-in for AOCL-DLP: the one half-precision GEMM the library calls. */
#ifndef VERIF_AOCL_DLP
#define VERIF_AOCL_DLP
#include <stdint.h>
typedef uint16_t float16;
void aocl_gemm_f16f16f16of16(char order, char transa, char transb, int64_t m, int64_t n,
                             int64_t k, float16 alpha, const float16 *a, int64_t lda,
                             char mtag_a, const float16 *b, int64_t ldb, char mtag_b,
                             float16 beta, float16 *c, int64_t ldc, void *post);
#endif
