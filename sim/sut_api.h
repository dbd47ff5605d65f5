// C shim over the macros of the library; compiled with the library's own flags, per build variant.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "activation.h"
#include "metrics.h"
#include "loss.h"
#include "evaluate.h"
#include "progress.h"
#include "npy_array.h"
#include "npy_array_list.h"
typedef struct _optimizer_t optimizer_t;
typedef struct _callback_t callback_t;
extern const char *sut_variant;
extern const int sut_align;         /* SIMD alignment the library assumes, bytes */
extern const int sut_instrumented;  /* memory accesses are simulator steps */
enum { OPT_SGD, OPT_ADAGRAD, OPT_RMSPROP, OPT_ADAM };
/* hp: SGD lr decay momentum nesterov; Adagrad lr decay; RMSprop lr rho decay momentum nesterov; Adam lr b1 b2 wd */
optimizer_t *sut_opt_new(int kind, neuralnet_t *nn, int batchsize, int shuffle, metric_func *metrics, void (*progress)(int, int, const char *, ...), const float *hp);
void sut_opt_free(optimizer_t *o);
int sut_opt_n_metrics(optimizer_t *o);
metric_func *sut_opt_metrics(optimizer_t *o);
void sut_opt_epoch(optimizer_t *o, unsigned n, const float *X, const float *Y, unsigned nv, const float *VX, const float *VY, float *results);
void sut_opt_set_shuffle(optimizer_t *o, int s);
callback_t *sut_logger_new(int epoch_count, const char *filename, int no_stdout);
callback_t *sut_es_new(int patience, int monitor, int greater);
callback_t *sut_mcp_new(const char *filename, int monitor, int greater, int verbose);
int sut_es_stop(callback_t *c);
void sut_cb_run(callback_t *c, optimizer_t *o, const float *res, int has_valid);
void sut_cb_free(callback_t *c);
/* a stand-in optimizer carrying only what callbacks read */
optimizer_t *sut_opt_fake(neuralnet_t *nn, metric_func *metrics);
void sut_opt_fake_free(optimizer_t *o);
void sut_npy_fill(npy_array_t *a, void *data, int ndim, const size_t *shape, char type, size_t elem, int fortran);
void *sut_simd_malloc(size_t n); void sut_simd_free(void *p);
#ifdef __cplusplus
}
#endif
