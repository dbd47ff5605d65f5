#include "optimizer.h"
#include "optimizer_implementations.h"
#include "callback.h"
#include "logger.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "simd.h"
#include "sut_api.h"
#include <string.h>
const char *sut_variant = SUT_VARIANT;
#ifdef ALIGN_SIZE
const int sut_align = ALIGN_SIZE;
#else
const int sut_align = 16;
#endif
#ifdef SUT_TSAN
const int sut_instrumented = 1;
#else
const int sut_instrumented = 0;
#endif
optimizer_t *sut_opt_new(int kind, neuralnet_t *nn, int batchsize, int shuffle, metric_func *metrics, void (*progress)(int, int, const char *, ...), const float *hp)
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES(.batchsize = batchsize, .shuffle = shuffle, .metrics = metrics, .progress = progress);
    // A plan that asks for what the published defaults are leaves them out, as most callers do.
    if (batchsize == 32 && shuffle && progress && !metrics) p = OPTIMIZER_PROPERTIES(.progress = progress);
    static const float DEF[4][5] = { { 0.01f, 0, 0, 0, 0 }, { 0.01f, 0, 0, 0, 0 }, { 0.001f, 0.9f, 0, 0, 0 }, { 0.001f, 0.9f, 0.999f, 1e-4f, 0 } };
    const float *d = DEF[kind == OPT_SGD ? 0 : kind == OPT_ADAGRAD ? 1 : kind == OPT_RMSPROP ? 2 : 3];
    if (!memcmp(hp + 1, d + 1, 4 * sizeof *hp)) {
        int all = hp[0] == d[0];
        switch (kind) {
        case OPT_SGD: return OPTIMIZER(all ? SGD_new(nn, p, SGD_PROPERTIES()) : SGD_new(nn, p, SGD_PROPERTIES(.learning_rate = hp[0])));
        case OPT_ADAGRAD: return OPTIMIZER(all ? adagrad_new(nn, p, ADAGRAD_PROPERTIES()) : adagrad_new(nn, p, ADAGRAD_PROPERTIES(.learning_rate = hp[0])));
        case OPT_RMSPROP: return OPTIMIZER(all ? RMSprop_new(nn, p, RMSPROP_PROPERTIES()) : RMSprop_new(nn, p, RMSPROP_PROPERTIES(.learning_rate = hp[0])));
        default: return OPTIMIZER(all ? adam_new(nn, p, ADAM_PROPERTIES()) : adam_new(nn, p, ADAM_PROPERTIES(.learning_rate = hp[0])));
        }
    }
    switch (kind) {
    case OPT_SGD: return OPTIMIZER(SGD_new(nn, p, SGD_PROPERTIES(.learning_rate = hp[0], .decay = hp[1], .momentum = hp[2], .nesterov = hp[3] != 0)));
    case OPT_ADAGRAD: return OPTIMIZER(adagrad_new(nn, p, ADAGRAD_PROPERTIES(.learning_rate = hp[0], .decay = hp[1])));
    case OPT_RMSPROP: return OPTIMIZER(RMSprop_new(nn, p, RMSPROP_PROPERTIES(.learning_rate = hp[0], .rho = hp[1], .decay = hp[2], .momentum = hp[3], .nesterov = hp[4] != 0)));
    default: return OPTIMIZER(adam_new(nn, p, ADAM_PROPERTIES(.learning_rate = hp[0], .beta_1 = hp[1], .beta_2 = hp[2], .weight_decay = hp[3])));
    }
}
void sut_opt_free(optimizer_t *o) { optimizer_free(o); }
int sut_opt_n_metrics(optimizer_t *o) { return optimizer_get_n_metrics(o); }
metric_func *sut_opt_metrics(optimizer_t *o) { return o->metrics; }
void sut_opt_epoch(optimizer_t *o, unsigned n, const float *X, const float *Y, unsigned nv, const float *VX, const float *VY, float *r) { optimizer_run_epoch(o, n, X, Y, nv, VX, VY, r); }
void sut_opt_set_shuffle(optimizer_t *o, int s) { o->shuffle = s; }
callback_t *sut_logger_new(int ec, const char *fn, int ns) { if (!ec && !fn && !ns) return CALLBACK(logger_new(LOGGER_SETTINGS())); if (!ec && !ns) return CALLBACK(logger_new(LOGGER_SETTINGS(.filename = fn))); return CALLBACK(logger_new(LOGGER_SETTINGS(.epoch_count = ec, .filename = fn, .no_stdout = ns))); }
callback_t *sut_es_new(int patience, int monitor, int greater) { if (monitor == -1 && !greater) return CALLBACK(patience == 10 ? earlystopping_new(EARLYSTOPPING_SETTINGS()) : earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = patience))); return CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = patience, .monitor_idx = monitor, .greater_is_better = greater))); }
callback_t *sut_mcp_new(const char *fn, int monitor, int greater, int verbose) { if (monitor == -1 && !greater && !verbose) return CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = fn))); return CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = fn, .monitor_idx = monitor, .greater_is_better = greater, .verbose = verbose))); }
int sut_es_stop(callback_t *c) { return earlystopping_do_stop(EARLYSTOPPING(c)); }
void sut_cb_run(callback_t *c, optimizer_t *o, const float *res, int v) { callback_run(c, o, res, v); }
void sut_cb_free(callback_t *c) { callback_free(c); }
optimizer_t *sut_opt_fake(neuralnet_t *nn, metric_func *metrics) { optimizer_t *o = malloc(sizeof *o); if (!o) return NULL; memset(o, 0, sizeof *o); o->nn = nn; o->metrics = metrics; o->batchsize = 1; return o; }
void sut_opt_fake_free(optimizer_t *o) { free(o); }
void sut_npy_fill(npy_array_t *a, void *data, int ndim, const size_t *shape, char type, size_t elem, int fortran)
{
    // as a caller writes it: with the header's macros
    char *d = data; const size_t *s = shape;
    static const struct { char t; size_t n; npy_array_t h; } D[] = {
        { 'f', 2, { NPY_DTYPE_FLOAT16 } }, { 'f', 4, { NPY_DTYPE_FLOAT32 } }, { 'f', 8, { NPY_DTYPE_FLOAT64 } }, { 'f', 16, { NPY_DTYPE_FLOAT128 } },
        { 'i', 1, { NPY_DTYPE_INT8 } }, { 'i', 2, { NPY_DTYPE_INT16 } }, { 'i', 4, { NPY_DTYPE_INT32 } }, { 'i', 8, { NPY_DTYPE_INT64 } },
        { 'u', 1, { NPY_DTYPE_UINT8 } }, { 'u', 2, { NPY_DTYPE_UINT16 } }, { 'u', 4, { NPY_DTYPE_UINT32 } }, { 'u', 8, { NPY_DTYPE_UINT64 } },
        { 'c', 8, { NPY_DTYPE_COMPLEX64 } }, { 'c', 16, { NPY_DTYPE_COMPLEX128 } }, { 'c', 32, { NPY_DTYPE_COMPLEX256 } }, { 'b', 1, { NPY_DTYPE_BOOL } } };
    npy_array_t e; memset(&e, 0, sizeof e); e.typechar = type; e.elem_size = elem;
    for (unsigned i = 0; i < sizeof D / sizeof *D; i++) if (D[i].t == type && D[i].n == elem) e = D[i].h;
#define B(...) *a = *NPY_ARRAY_BUILDER(d, SHAPE(__VA_ARGS__), .typechar = e.typechar, .elem_size = e.elem_size, .fortran_order = fortran)
    switch (ndim) {
    case 1: B(s[0]); break;
    case 2: B(s[0], s[1]); break;
    case 3: B(s[0], s[1], s[2]); break;
    case 4: B(s[0], s[1], s[2], s[3]); break;
    case 5: B(s[0], s[1], s[2], s[3], s[4]); break;
    case 6: B(s[0], s[1], s[2], s[3], s[4], s[5]); break;
    case 7: B(s[0], s[1], s[2], s[3], s[4], s[5], s[6]); break;
    case 8: B(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]); break;
    default: memset(a, 0, sizeof *a); a->data = d; a->ndim = ndim; a->typechar = e.typechar; a->elem_size = e.elem_size; a->fortran_order = fortran;
    }
#undef B
}
void *sut_simd_malloc(size_t n) { return simd_malloc(n); }
void sut_simd_free(void *p) { simd_free(p); }
