#pragma once
enum { CblasRowMajor = 101, CblasNoTrans = 111, CblasTrans = 112 };
void cblas_sgemm(int order, int ta, int tb, int m, int n, int k, float alpha, const float *a, int lda, const float *b, int ldb, float beta, float *c, int ldc);
void cblas_sgemv(int order, int ta, int m, int n, float alpha, const float *a, int lda, const float *x, int incx, float beta, float *y, int incy);
void cblas_sger(int order, int m, int n, float alpha, const float *x, int incx, const float *y, int incy, float *a, int lda);
void cblas_saxpy(int n, float a, const float *x, int incx, float *y, int incy);
void cblas_sscal(int n, float a, float *x, int incx);
void cblas_scopy(int n, const float *x, int incx, float *y, int incy);
float cblas_sdot(int n, const float *x, int incx, const float *y, int incy);
void cblas_saxpby(int n, float a, const float *x, int incx, float b, float *y, int incy);
