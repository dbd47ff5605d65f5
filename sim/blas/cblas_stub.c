/* Plain reference BLAS for the optional USE_CBLAS build (row major only). */
#include "cblas.h"
#include <stddef.h>
void (*cblas_hook)(const float *c, size_t n);     /* a scenario may look at the first product */
void cblas_sgemm(int order, int ta, int tb, int m, int n, int k, float alpha, const float *a, int lda, const float *b, int ldb, float beta, float *c, int ldc)
{ (void)order; (void)ta; (void)tb; if (cblas_hook) cblas_hook(c, (size_t)(m - 1) * ldc + n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { float s = 0; for (int t = 0; t < k; t++) s += a[i * lda + t] * b[t * ldb + j]; c[i * ldc + j] = alpha * s + beta * c[i * ldc + j]; } }
void cblas_sgemv(int order, int ta, int m, int n, float alpha, const float *a, int lda, const float *x, int incx, float beta, float *y, int incy)
{ (void)order;
  if (ta == CblasNoTrans) for (int i = 0; i < m; i++) { float s = 0; for (int j = 0; j < n; j++) s += a[i * lda + j] * x[j * incx]; y[i * incy] = alpha * s + (beta == 0 ? 0 : beta * y[i * incy]); }
  else for (int j = 0; j < n; j++) { float s = 0; for (int i = 0; i < m; i++) s += a[i * lda + j] * x[i * incx]; y[j * incy] = alpha * s + (beta == 0 ? 0 : beta * y[j * incy]); } }
void cblas_sger(int order, int m, int n, float alpha, const float *x, int incx, const float *y, int incy, float *a, int lda)
{ (void)order; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i * lda + j] += alpha * x[i * incx] * y[j * incy]; }
void cblas_saxpy(int n, float a, const float *x, int incx, float *y, int incy) { for (int i = 0; i < n; i++) y[i * incy] += a * x[i * incx]; }
void cblas_saxpby(int n, float a, const float *x, int incx, float b, float *y, int incy) { for (int i = 0; i < n; i++) y[i * incy] = a * x[i * incx] + b * y[i * incy]; }
