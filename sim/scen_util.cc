#include "scen.h"
#include <zlib.h>
#include <sstream>

namespace sim {
#define W10 "abcdefghij"
#define W100 W10 W10 W10 W10 W10 W10 W10 W10 W10 W10
#define W300 W100 W100 W100
const char *act_name[A_NUM] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential", "cubic@libcustom.so", "leaky@libcustom.so", "scaled@./lib/other.so",
    "leaky_with_a_long_name@/opt/models/a_directory_with_quite_a_long_name/and_a_library_with_a_long_name.so", W300 "@libcustom.so", "relu@libmine.so" };
const char *loss_name[L_NUM] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy" };
const char *metric_name[7] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "categorical_crossentropy", "binary_crossentropy", "categorical_accuracy", "binary_accuracy" };

static void need(const char *lib) { if (!lib_loaded(lib)) violation("call-into-unloaded-library", "the network calls an activation of %s, which is not loaded", lib); }
static void cubic(int n, float *a) { need("libcustom.so"); for (int i = 0; i < n; i++) { float x = a[i] < -3 ? -3 : a[i] > 3 ? 3 : a[i]; a[i] = x * x * x * 0.1f + x; } }
static void cubic_d(int n, const float *y, float *g) { need("libcustom.so"); for (int i = 0; i < n; i++) g[i] *= 1.0f + 0.01f * y[i]; }
static void leaky(int n, float *a) { need("libcustom.so"); for (int i = 0; i < n; i++) if (a[i] < 0) a[i] *= 0.125f; }
static void leaky_d(int n, const float *y, float *g) { need("libcustom.so"); for (int i = 0; i < n; i++) if (y[i] <= 0) g[i] *= 0.125f; }
static void scaled(int n, float *a) { need("./lib/other.so"); for (int i = 0; i < n; i++) a[i] *= 0.5f; }
static void scaled_d(int n, const float *, float *g) { need("./lib/other.so"); for (int i = 0; i < n; i++) g[i] *= 0.5f; }
static const char *LONGLIB = strchr(act_name[A_CUSTOM3], '@') + 1;
static void leaky3(int n, float *a) { need(LONGLIB); for (int i = n; i--; ) a[i] = a[i] < 0 ? a[i] * 0.125f : a[i]; }
static void leaky3_d(int n, const float *y, float *g) { need(LONGLIB); for (int i = n; i--; ) g[i] = y[i] <= 0 ? g[i] * 0.125f : g[i]; }
static void scaled4(int n, float *a) { need("libcustom.so"); for (int i = n; i--; ) a[i] *= 0.5f; }
static void scaled4_d(int n, const float *, float *g) { need("libcustom.so"); for (int i = n; i--; ) g[i] *= 0.5f; }
static void relu5(int n, float *a) { need("libmine.so"); for (int i = 0; i < n; i++) a[i] = a[i] > 0 ? a[i] : a[i] / 8; }      // (not what the built-in relu does)
static void relu5_d(int n, const float *y, float *g) { need("libmine.so"); for (int i = 0; i < n; i++) g[i] = y[i] > 0 ? g[i] : g[i] / 8; }
void (*custom_fn[NCUSTOM])(int, float *) = { cubic, leaky, scaled, leaky3, scaled4, relu5 };
void register_custom() {
    register_lib("libcustom.so", { {"cubic", (void *)cubic}, {"cubic_derivative", (void *)cubic_d}, {"leaky", (void *)leaky}, {"leaky_derivative", (void *)leaky_d}, {"noderiv", (void *)cubic}, {W300, (void *)scaled4}, {W300 "_derivative", (void *)scaled4_d} });
    register_lib(LONGLIB, { {"leaky_with_a_long_name", (void *)leaky3}, {"leaky_with_a_long_name_derivative", (void *)leaky3_d} });
    register_lib("libmine.so", { {"relu", (void *)relu5}, {"relu_derivative", (void *)relu5_d} });
    register_lib("./lib/other.so", { {"scaled", (void *)scaled}, {"scaled_derivative", (void *)scaled_d} });
}

std::vector<int> gen_metrics(Rng &r, int usual) { std::vector<int> m; int k = r.chance(0.08) ? (int)r.range(usual + 1, r.chance(0.2) ? 140 : 40) : (int)r.range(1, usual); while (k--) m.push_back((int)r.below(7)); return m; }
int gen_callers(Rng &r, int usual) { return r.chance(0.06) ? (int)r.range(usual + 1, 3 * usual + 4) : (int)r.range(1, usual); }
int gen_size(Rng &r, int maxsize) {
    static const int c[] = { 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 80 };
    for (;;) { int v = r.chance(0.6) ? c[r.below(sizeof c / sizeof *c)] : (int)r.range(1, maxsize); if (v <= maxsize) return v; }
}
void gen_net(Rng &r, Plan &p, const NetOpt &o, const char *pre) {
    std::string P_ = pre; NetSpec n;
    for (;;) {
        double u = r.unit();
        if (u < o.deep && o.maxl > 2) {          // many small layers
            n.nl = r.chance(0.15) ? (int)r.range(25, MAXL - 5) : (int)r.range(5, 24); int m = n.nl > 24 ? 2 : 5;
            for (int i = 0; i <= n.nl; i++) n.s[i] = (int)r.range(1, m);
            break;
        }
        n.nl = (int)r.range(1, o.maxl);
        for (int i = 0; i <= n.nl; i++) n.s[i] = gen_size(r, o.maxsize);
        if (u > 1 - o.wide && o.maxparams >= 200) {   // one wide layer
            for (int i = 0; i <= n.nl; i++) n.s[i] = (int)r.range(1, 3);
            n.s[r.below(n.nl + 1)] = (int)r.range(100, std::min(1100, std::max(110, o.maxparams / 2))); break;
        }
        if ((int)spec_params(n) <= o.maxparams) break;
    }
    for (int i = 0; i < n.nl; i++) {
        bool last = i == n.nl - 1;
        static const int hid[] = { A_RELU, A_SIGMOID, A_TANH, A_LINEAR, A_SOFTPLUS, A_SOFTSIGN, A_HARDSIG };
        static const int smooth[] = { A_SIGMOID, A_TANH, A_SOFTSIGN, A_TANH, A_SOFTPLUS };
        static const int any[] = { A_LINEAR, A_RELU, A_SIGMOID, A_TANH, A_SOFTMAX, A_SOFTPLUS, A_SOFTSIGN, A_HARDSIG, A_EXP };
        n.act[i] = o.smooth && !last ? r.pick(smooth) : o.train && !last ? r.pick(hid) : r.pick(any);
        if (n.act[i] == A_EXP && !last) n.act[i] = A_TANH;
        if (o.custom && r.chance(0.4)) n.act[i] = A_CUSTOM0 + (int)r.below(NCUSTOM);
    }
    if (o.train || o.smooth) {
        switch (r.below(6)) {
        case 0: n.loss = L_BCE; n.act[n.nl - 1] = A_SIGMOID; break;
        case 1: n.loss = L_CCE; n.act[n.nl - 1] = A_SOFTMAX; break;
        case 2: n.loss = L_MAE; if (n.act[n.nl - 1] == A_SOFTMAX) n.act[n.nl - 1] = A_LINEAR; break;
        case 3: n.loss = r.chance(0.3) ? L_MAPE : L_MSE; if (n.act[n.nl - 1] == A_SOFTMAX) n.act[n.nl - 1] = A_SIGMOID; break;
        default: n.loss = L_MSE; if (n.act[n.nl - 1] == A_SOFTMAX) n.act[n.nl - 1] = A_TANH; break;
        }
        if (n.act[n.nl - 1] == A_EXP && r.chance(0.7)) n.act[n.nl - 1] = A_LINEAR;
    }
    p.set[P_ + "nl"] = n.nl; for (int i = 0; i <= n.nl; i++) p.set[P_ + "s" + std::to_string(i)] = n.s[i];
    for (int i = 0; i < n.nl; i++) p.set[P_ + "a" + std::to_string(i)] = n.act[i];
    p.set[P_ + "loss"] = n.loss; p.set[P_ + "wseed"] = r.below(1u << 30); p.set[P_ + "wscale"] = r.range(20, 120);
}
NetSpec get_net(const char *pre) {
    std::string Q = pre; NetSpec n; n.nl = (int)P->get((Q + "nl").c_str(), 1);
    if (n.nl < 1) n.nl = 1; if (n.nl > MAXL - 1) n.nl = MAXL - 1;
    for (int i = 0; i <= n.nl; i++) n.s[i] = (int)P->get((Q + "s" + std::to_string(i)).c_str(), 1);
    for (int i = 0; i < n.nl; i++) n.act[i] = (int)P->get((Q + "a" + std::to_string(i)).c_str(), 0);
    n.loss = (int)P->get((Q + "loss").c_str(), 0); n.wseed = P->get((Q + "wseed").c_str(), 1); n.wscale = (int)P->get((Q + "wscale").c_str(), 100);
    return n;
}
size_t spec_params(const NetSpec &n) { size_t t = 0; for (int i = 0; i < n.nl; i++) t += (size_t)(n.s[i] + 1) * n.s[i + 1]; return t; }
neuralnet_t *try_create(const NetSpec &n) {
    int sizes[MAXL + 2]; const char *names[MAXL + 1]; for (int i = 0; i <= n.nl; i++) sizes[i] = n.s[i]; for (int i = 0; i < n.nl; i++) names[i] = act_name[n.act[i]];
    names[n.nl] = nullptr;
    return SUT(neuralnet_create(n.nl, sizes, (char **)names));
}
void fill_net(neuralnet_t *nn, const NetSpec &n) {
    Rng r(mix(n.wseed, 11));
    for (int l = 0; l < n.nl; l++) {
        double sc = n.wscale * 0.01 / std::sqrt((double)n.s[l]);
        for (int i = 0; i < n.s[l] * n.s[l + 1]; i++) nn->layer[l].weight[i] = (float)(r.normal() * sc);
        for (int i = 0; i < n.s[l + 1]; i++) nn->layer[l].bias[i] = (float)(r.sym() * 0.3);
    }
}
int other_loss(const NetSpec &n, uint64_t seed) {
    uint64_t u = mix(seed, 19); int a = n.act[n.nl - 1]; if (a == A_SOFTMAX) return L_CCE; if (a == A_SIGMOID) return (int)(u % 3 == 2 ? (int)L_BCE : (int)(u % 3)); return (int)(u % 2);
}
const char *loss_spelling(int l, uint64_t) { return loss_name[l]; }
neuralnet_t *build_net(const NetSpec &n, bool with_loss) {
    neuralnet_t *nn = try_create(n);
    if (!nn) violation("create-failed", "neuralnet_create returned NULL without any failure");
    fill_net(nn, n);
    if (with_loss) {
        if (mix(n.wseed, 9) % 4 == 0) SUT(neuralnet_set_loss(nn, loss_name[other_loss(n, n.wseed)]));      // the last one counts
        SUT(neuralnet_set_loss(nn, loss_name[n.loss]));
    }
    return nn;
}
void raw_params(const neuralnet_t *nn, std::vector<float> &v) {
    size_t t = 0; for (int l = 0; l < nn->n_layers; l++) t += (size_t)(nn->layer[l].n_input + 1) * nn->layer[l].n_output;
    v.resize(t); float *p = v.data();
    for (int l = 0; l < nn->n_layers; l++) { const layer_t &y = nn->layer[l]; memcpy(p, y.bias, 4 * y.n_output); p += y.n_output; memcpy(p, y.weight, 4ul * y.n_output * y.n_input); p += (size_t)y.n_output * y.n_input; }
}
void raw_set(neuralnet_t *nn, const float *p) {
    for (int l = 0; l < nn->n_layers; l++) { const layer_t &y = nn->layer[l]; memcpy(y.bias, p, 4 * y.n_output); p += y.n_output; memcpy(y.weight, p, 4ul * y.n_output * y.n_input); p += (size_t)y.n_output * y.n_input; }
}
bool same_bits(const std::vector<float> &a, const std::vector<float> &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * 4); }
std::string net_diff(const neuralnet_t *nn, const NetSpec &n, const std::vector<float> &want, bool check_act) {
    char b[300];
    if (nn->n_layers != n.nl) { snprintf(b, sizeof b, "%d layers instead of %d", nn->n_layers, n.nl); return b; }
    for (int l = 0; l < n.nl; l++) if (nn->layer[l].n_input != n.s[l] || nn->layer[l].n_output != n.s[l + 1]) { snprintf(b, sizeof b, "layer %d is %dx%d instead of %dx%d", l, nn->layer[l].n_input, nn->layer[l].n_output, n.s[l], n.s[l + 1]); return b; }
    if (check_act) for (int l = 0; l < n.nl; l++) {
        bool ok; std::string got;
        { SutScope s; const char *g = get_activation_name(nn->layer[l].activation_func); got = g ? g : "(null)"; }
        if (n.act[l] >= A_CUSTOM0) ok = (void *)nn->layer[l].activation_func == (void *)custom_fn[n.act[l] - A_CUSTOM0]; else ok = got == act_name[n.act[l]];
        if (!ok) { snprintf(b, sizeof b, "layer %d has activation %s instead of %s", l, got.c_str(), act_name[n.act[l]]); return b; }
    }
    std::vector<float> v; raw_params(nn, v);
    if (!same_bits(v, want)) { size_t i = 0; while (i < v.size() && i < want.size() && !memcmp(&v[i], &want[i], 4)) i++; snprintf(b, sizeof b, "parameter %zu is %.9g instead of %.9g", i, i < v.size() ? v[i] : 0.f, i < want.size() ? want[i] : 0.f); return b; }
    return "";
}
void gen_input(Rng &r, float *x, int n) { for (int i = 0; i < n; i++) { uint64_t k = r.below(12); x[i] = k == 0 ? 0.0f : k == 1 ? 1.0f : (float)(r.sym() * 1.5); } }
void gen_target(Rng &r, float *y, int n, int loss) {
    if (loss == L_CCE) { double t = 0; for (int i = 0; i < n; i++) { y[i] = (float)(r.unit() + 1e-3); t += y[i]; } for (int i = 0; i < n; i++) y[i] = (float)(y[i] / t); if (n == 1) y[0] = (float)(0.2 + 0.8 * r.unit()); return; }
    for (int i = 0; i < n; i++) y[i] = loss == L_BCE || loss == L_MAPE ? (float)(0.05 + 0.9 * r.unit()) : (float)r.sym();
}
std::vector<uint8_t> net_image(const neuralnet_t *nn) {
    std::vector<uint8_t> v; auto add = [&](const void *p, size_t n) { v.insert(v.end(), (const uint8_t *)p, (const uint8_t *)p + n); };
    add(nn, sizeof *nn); add(nn->layer, sizeof(layer_t) * nn->n_layers);
    for (int l = 0; l < nn->n_layers; l++) { add(nn->layer[l].weight, 4ul * nn->layer[l].n_input * nn->layer[l].n_output); add(nn->layer[l].bias, 4ul * nn->layer[l].n_output); }
    return v;
}

Guard::Guard(size_t n_, size_t mis, uint32_t pat_) : n(n_), pat(pat_) {
    pre = 16 + mis; post = 24; base = galloc<float>(pre + n + post, 64);
    for (size_t i = 0; i < pre + n + post; i++) memcpy(base + i, &pat, 4);
    p = base + pre;
}
Guard::~Guard() { gfree(base); }
std::string Guard::check() {
    char b[160];
    for (size_t i = 0; i < pre; i++) if (memcmp(base + i, &pat, 4)) { snprintf(b, sizeof b, "float %zu before the buffer overwritten", pre - i); return b; }
    for (size_t i = 0; i < post; i++) if (memcmp(base + pre + n + i, &pat, 4)) { snprintf(b, sizeof b, "float %zu after the buffer of %zu overwritten", i + 1, n); return b; }
    return "";
}

// ------------------------------------------------------------ reference network in double precision with error bounds
static void ref_act(int a, std::vector<VE> &z) {
    size_t n = z.size();
    if (a == A_SOFTMAX) {
        double m = z[0].v, em = 0; for (auto &q : z) { m = std::max(m, q.v); em = std::max(em, q.e); }
        double s = 0; for (auto &q : z) s += std::exp(q.v - m);
        for (auto &q : z) { double y = std::exp(q.v - m) / s; double arg = std::fabs(q.v - m); double rel = std::expm1(2 * em + 4 * U * arg) + (n + 20) * 2 * U + 4e-7; q = {y, y * rel + 1e-30}; }
        return;
    }
    for (auto &q : z) {
        double x = q.v, e = q.e, y = x, ye = e;
        switch (a) {
        case A_RELU: y = x > 0 ? x : 0; ye = e; break;
        case A_SIGMOID: y = 1 / (1 + std::exp(-x)); ye = e * 0.25 + 6e-7 * y + 1e-37; { double lo = 1 / (1 + std::exp(-(x - e))), hi = 1 / (1 + std::exp(-(x + e))); ye = std::max(hi - y, y - lo) * 1.01 + y * (6e-7 + 2 * U * std::fabs(x)) + 1e-30; } break;
        case A_TANH: y = std::tanh(x); ye = e * (std::fabs(x) < 20 ? 1 : 1e-3) + 8e-7; break;
        case A_SOFTPLUS: y = std::log1p(std::exp(x)); ye = e + 6e-7 * (1 + std::fabs(y)); break;
        case A_SOFTSIGN: y = x / (1 + std::fabs(x)); ye = e / ((1 + std::max(0.0, std::fabs(x) - e)) * (1 + std::max(0.0, std::fabs(x) - e))) + 4 * U * std::fabs(y); break;
        case A_HARDSIG: y = x < -2.5 ? 0 : x > 2.5 ? 1 : 0.2 * x + 0.5; ye = 0.2 * e + 4 * U; break;
        case A_EXP: y = std::exp(x); ye = y * (std::expm1(e) + 2 * U * std::fabs(x) + 4e-7) + 1e-37; break;
        case A_CUSTOM0: { double c = x < -3 ? -3 : x > 3 ? 3 : x; y = c * c * c * 0.1 + c; ye = e * 3.7 + 8 * U * (std::fabs(y) + std::fabs(c)); break; }
        case A_CUSTOM1: case A_CUSTOM3: case A_CUSTOM5: y = x < 0 ? x * 0.125 : x; ye = e; break;
        case A_CUSTOM2: case A_CUSTOM4: y = x * 0.5; ye = e * 0.5; break;
        }
        q = {y, ye};
    }
}
void Ref::forward(const NetSpec &n, const std::vector<float> &par, const float *x) {
    act.clear(); pre.clear(); big = false; std::vector<VE> a; for (int i = 0; i < n.s[0]; i++) a.push_back({x[i], 0}); act.push_back(a);
    size_t off = 0;
    for (int l = 0; l < n.nl; l++) {
        const float *b = par.data() + off, *w = b + n.s[l + 1]; off += (size_t)(n.s[l] + 1) * n.s[l + 1];
        std::vector<VE> z(n.s[l + 1]);
        for (int j = 0; j < n.s[l + 1]; j++) {
            double v = b[j], mag = std::fabs(b[j]), e = 0;
            for (int i = 0; i < n.s[l]; i++) { double t = (double)w[(size_t)i * n.s[l + 1] + j]; v += t * act[l][i].v; mag += std::fabs(t) * (std::fabs(act[l][i].v) + act[l][i].e); e += std::fabs(t) * act[l][i].e; }
            z[j] = {v, e + (n.s[l] + 6) * 2 * U * mag + 1e-37};
        }
        if (n.act[l] == A_SOFTPLUS) for (auto &q : z) if (q.v + q.e > 80) big = true;    // log(exp(x)+1) overflows: accuracy of the function itself, C22
        pre.push_back(z); ref_act(n.act[l], z); act.push_back(z);
    }
}
static bool sane_row(const std::vector<VE> &v) { for (auto &x : v) if (!(std::fabs(x.v) + x.e < 1e30)) return false; return true; }
bool Ref::sane() const { for (auto &r : act) if (!sane_row(r)) return false; for (auto &r : pre) if (!sane_row(r)) return false; return !big; }
bool Ref::backward(const NetSpec &n, const std::vector<float> &par, const float *y) {
    int L = n.nl, m = n.s[L]; std::vector<VE> g(m);
    bool matched = false;
    if (!sane()) return false;
    for (int i = 0; i < m; i++) {
        VE p = act[L][i]; double t = y[i];
        switch (n.loss) {
        case L_MSE: g[i] = {2 * (p.v - t) / m, 2 * (p.e + 2 * U * (std::fabs(p.v) + std::fabs(t))) / m}; break;
        case L_MAE: g[i] = {(p.v >= t ? 1.0 : -1.0) / m, U / m}; if (std::fabs(p.v - t) <= p.e) g[i].e = 2.5 / m; break;
        case L_MAPE: { double d = std::max(t, 1e-7) * m; g[i] = {(p.v >= t ? 100.0 : -100.0) / d, 400 * U / d}; if (std::fabs(p.v - t) <= p.e) g[i].e = 250 / d; break; }
        case L_CCE: g[i] = {p.v - t, p.e + 2 * U * (std::fabs(p.v) + std::fabs(t))}; if (n.act[L - 1] == A_SOFTMAX) matched = true; break;
        case L_BCE: g[i] = {(p.v - t) / m, (p.e + 4 * U) / m}; if (n.act[L - 1] == A_SIGMOID) matched = true; break;
        }
    }
    if (n.act[L - 1] == A_SOFTMAX && !matched) return false;
    for (int l = 0; l < L - 1; l++) if (n.act[l] == A_SOFTMAX) return false;
    std::vector<std::vector<VE>> gb(L);
    for (int l = L - 1; l >= 0; l--) {
        if (l < L - 1) {
            size_t off = 0; for (int q = 0; q <= l; q++) off += (size_t)(n.s[q] + 1) * n.s[q + 1];
            const float *w = par.data() + off + n.s[l + 2]; int rows = n.s[l + 1], cols = n.s[l + 2];
            g.assign(rows, {0, 0});
            for (int i = 0; i < rows; i++) { double v = 0, e = 0, mag = 0; for (int j = 0; j < cols; j++) { double t = w[(size_t)i * cols + j]; v += t * gb[l + 1][j].v; e += std::fabs(t) * gb[l + 1][j].e; mag += std::fabs(t) * (std::fabs(gb[l + 1][j].v) + gb[l + 1][j].e); } g[i] = {v, e + (cols + 6) * 2 * U * mag + 1e-37}; }
        }
        for (size_t i = 0; i < g.size(); i++) {
            VE a = act[l + 1][i]; double d = 1, ed = 0;
            if (!(l == L - 1 && matched)) switch (n.act[l]) {
            case A_RELU: d = pre[l][i].v > 0 ? 1 : 0; if (std::fabs(pre[l][i].v) <= pre[l][i].e) ed = 1.1; break;
            case A_SIGMOID: d = a.v * (1 - a.v); ed = std::fabs(1 - 2 * a.v) * a.e + a.e * a.e + 4 * U * a.v; break;
            case A_TANH: d = 1 - a.v * a.v; ed = 2 * std::fabs(a.v) * a.e + a.e * a.e + 4 * U; break;
            case A_SOFTPLUS: d = -std::expm1(-a.v); ed = std::exp(-a.v) * a.e * 1.01 + a.e * a.e + 8 * U; break;
            case A_SOFTSIGN: { double q = 1 - std::fabs(a.v); d = q * q; ed = 2 * q * (a.e + 8 * U) + a.e * a.e + 16 * U * d; break; }
            case A_HARDSIG: { double x = pre[l][i].v, e = pre[l][i].e + 1e-6; d = std::fabs(x) < 2.5 ? 0.2 : 0; ed = U; if (std::fabs(std::fabs(x) - 2.5) <= e) ed = 0.25; break; }
            case A_EXP: d = a.v; ed = a.e; break;
            case A_CUSTOM0: d = 1 + 0.01 * a.v; ed = 0.01 * a.e + 4 * U; break;
            case A_CUSTOM1: case A_CUSTOM3: case A_CUSTOM5: d = pre[l][i].v > 0 ? 1 : 0.125; if (std::fabs(pre[l][i].v) <= pre[l][i].e) ed = 1; break;
            case A_CUSTOM2: case A_CUSTOM4: d = 0.5; break;
            default: break;
            }
            double v = g[i].v * d; g[i] = {v, std::fabs(g[i].v) * ed + std::fabs(d) * g[i].e + g[i].e * ed + 4 * U * std::fabs(v) + 1e-37};
        }
        if (!sane_row(g)) return false;              // out of the range of single precision
        gb[l] = g;
    }
    grad.clear();
    for (int l = 0; l < L; l++) {
        for (auto &q : gb[l]) grad.push_back(q);
        for (int i = 0; i < n.s[l]; i++) for (int j = 0; j < n.s[l + 1]; j++) { VE x = act[l][i], q = gb[l][j]; double v = x.v * q.v; grad.push_back({v, std::fabs(x.v) * q.e + std::fabs(q.v) * x.e + x.e * q.e + 2 * U * std::fabs(v) + 1e-37}); }
    }
    return sane_row(grad);
}

// ------------------------------------------------------------ npy / npz, written from the format documents
uint32_t crc32_of(const uint8_t *p, size_t n) { return (uint32_t)crc32(crc32(0, nullptr, 0), p, (uInt)n); }
static void p16(std::vector<uint8_t> &v, unsigned x) { v.push_back(x & 255); v.push_back(x >> 8 & 255); }
static void p32(std::vector<uint8_t> &v, uint32_t x) { p16(v, x & 0xffff); p16(v, x >> 16); }
std::vector<uint8_t> npy_bytes(const NpyArr &a, int style) {
    std::ostringstream d; d << "{'descr': '" << a.descr << "', 'fortran_order': " << (a.fortran ? "True" : "False") << ", 'shape': (";
    for (size_t i = 0; i < a.shape.size(); i++) { d << a.shape[i]; if (i + 1 < a.shape.size()) d << (style & 1 ? "," : ", "); else if (a.shape.size() == 1) d << ","; }
    d << "), }"; std::string h = d.str();
    size_t unit = style == 4 ? 16 : 64; size_t pad = unit - (10 + h.size() + 1) % unit; if (pad == unit) pad = 0;
    if (style == 2) pad += 64; if (style == 3) pad += 192; if (style == 5) pad = 0; if (style == 6) pad += 64 * 5;
    h += std::string(pad, ' '); h += "\n";
    std::vector<uint8_t> v = { 0x93, 'N', 'U', 'M', 'P', 'Y', 1, 0 }; p16(v, (unsigned)h.size());
    v.insert(v.end(), h.begin(), h.end()); v.insert(v.end(), a.data.begin(), a.data.end());
    return v;
}
static std::vector<uint8_t> deflate_raw(const std::vector<uint8_t> &in, int level) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
    std::vector<uint8_t> out(deflateBound(&z, in.size()) + 64); z.next_in = (Bytef *)in.data(); z.avail_in = (uInt)in.size(); z.next_out = out.data(); z.avail_out = (uInt)out.size();
    deflate(&z, Z_FINISH); out.resize(z.total_out); deflateEnd(&z); return out;
}
std::vector<uint8_t> zip_bytes(const std::vector<NpzMember> &m, int style) {
    std::vector<uint8_t> v, cd;
    for (auto &e : m) {
        std::vector<uint8_t> body = e.method == 8 ? deflate_raw(e.content, style & 1 ? 9 : 1) : e.content;
        uint32_t crc = crc32_of(e.content.data(), e.content.size()), off = (uint32_t)v.size();
        bool dd = (style & 2) && e.method == 8;     // sizes in a data descriptor
        unsigned flags = dd ? 8 : 0;
        p32(v, 0x04034b50); p16(v, 20); p16(v, flags); p16(v, e.method); p16(v, 0); p16(v, 0x21); p32(v, dd ? 0 : crc); p32(v, dd ? 0 : (uint32_t)body.size()); p32(v, dd ? 0 : (uint32_t)e.content.size()); p16(v, (unsigned)e.name.size()); p16(v, 0);
        v.insert(v.end(), e.name.begin(), e.name.end()); v.insert(v.end(), body.begin(), body.end());
        if (dd) { p32(v, 0x08074b50); p32(v, crc); p32(v, (uint32_t)body.size()); p32(v, (uint32_t)e.content.size()); }
        p32(cd, 0x02014b50); p16(cd, 20); p16(cd, 20); p16(cd, flags); p16(cd, e.method); p16(cd, 0); p16(cd, 0x21); p32(cd, crc); p32(cd, (uint32_t)body.size()); p32(cd, (uint32_t)e.content.size()); p16(cd, (unsigned)e.name.size()); p16(cd, 0); p16(cd, 0); p16(cd, 0); p16(cd, 0); p32(cd, 0); p32(cd, off);
        cd.insert(cd.end(), e.name.begin(), e.name.end());
    }
    uint32_t off = (uint32_t)v.size(); v.insert(v.end(), cd.begin(), cd.end());
    p32(v, 0x06054b50); p16(v, 0); p16(v, 0); p16(v, (unsigned)m.size()); p16(v, (unsigned)m.size()); p32(v, (uint32_t)cd.size()); p32(v, off); p16(v, 0);
    return v;
}
static unsigned g16(const std::vector<uint8_t> &v, size_t o) { return o + 2 <= v.size() ? v[o] | v[o + 1] << 8 : 0; }
static uint32_t g32(const std::vector<uint8_t> &v, size_t o) { return o + 4 <= v.size() ? v[o] | v[o + 1] << 8 | v[o + 2] << 16 | (uint32_t)v[o + 3] << 24 : 0; }
bool zip_read(const std::vector<uint8_t> &z, std::vector<NpzMember> &out, std::string *err) {
    out.clear(); if (z.size() < 22) { *err = "too short for a zip archive"; return false; }
    size_t e = z.size() - 22; for (;; e--) { if (g32(z, e) == 0x06054b50) break; if (e == 0) { *err = "no end record"; return false; } }
    unsigned n = g16(z, e + 10); size_t cd = g32(z, e + 16);
    for (unsigned i = 0; i < n; i++) {
        if (g32(z, cd) != 0x02014b50) { *err = "bad directory entry"; return false; }
        unsigned method = g16(z, cd + 10), nl = g16(z, cd + 28), xl = g16(z, cd + 30), cl = g16(z, cd + 32); uint32_t crc = g32(z, cd + 16), cs = g32(z, cd + 20), us = g32(z, cd + 24), lo = g32(z, cd + 42);
        if (cd + 46 + nl > z.size()) { *err = "directory overruns"; return false; }
        NpzMember m; m.name.assign(z.begin() + cd + 46, z.begin() + cd + 46 + nl); m.method = (int)method;
        if (g32(z, lo) != 0x04034b50) { *err = "bad local header"; return false; }
        size_t st = lo + 30 + g16(z, lo + 26) + g16(z, lo + 28);
        if (st + cs > z.size()) { *err = "member overruns the file"; return false; }
        if (method == 0) { if (cs != us) { *err = "stored size mismatch"; return false; } m.content.assign(z.begin() + st, z.begin() + st + cs); }
        else if (method == 8) { m.content.resize(us); z_stream s; memset(&s, 0, sizeof s); inflateInit2(&s, -15); s.next_in = (Bytef *)z.data() + st; s.avail_in = cs; uint8_t dummy; s.next_out = us ? m.content.data() : &dummy; s.avail_out = us; int r = inflate(&s, Z_FINISH); bool ok = r == Z_STREAM_END && s.total_out == us; inflateEnd(&s); if (!ok) { *err = "bad deflate data"; return false; } }
        else { *err = "unknown method"; return false; }
        if (crc32_of(m.content.data(), m.content.size()) != crc) { *err = "CRC mismatch in " + m.name; return false; }
        out.push_back(m); cd += 46 + nl + xl + cl;
    }
    return true;
}
bool npy_parse(const std::vector<uint8_t> &b, NpyArr &a, std::string *err) {
    if (b.size() < 10 || b[0] != 0x93 || memcmp(&b[1], "NUMPY", 5)) { *err = "no npy magic"; return false; }
    if (b[6] != 1) { *err = "npy version"; return false; }
    size_t hl = b[8] | b[9] << 8; if (10 + hl > b.size()) { *err = "npy header overruns"; return false; }
    std::string h(b.begin() + 10, b.begin() + 10 + hl);
    if (h.empty() || h.back() != '\n') { *err = "npy header does not end in a newline"; return false; }
    auto val = [&](const char *k) -> std::string { size_t p = h.find(std::string("'") + k + "'"); if (p == std::string::npos) return ""; p = h.find(':', p) + 1; while (p < h.size() && h[p] == ' ') p++; return h.substr(p); };
    std::string d = val("descr"); if (d.size() < 4 || d[0] != '\'') { *err = "no descr"; return false; } a.descr = d.substr(1, d.find('\'', 1) - 1);
    std::string f = val("fortran_order"); if (f.compare(0, 4, "True") == 0) a.fortran = true; else if (f.compare(0, 5, "False") == 0) a.fortran = false; else { *err = "no fortran_order"; return false; }
    std::string s = val("shape"); if (s.empty() || s[0] != '(') { *err = "no shape"; return false; } a.shape.clear();
    size_t i = 1; while (i < s.size() && s[i] != ')') { if (isdigit((unsigned char)s[i])) { size_t v = 0; while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0'); a.shape.push_back(v); } else i++; }
    size_t n = 1; for (auto x : a.shape) n *= x; size_t es = strtoul(a.descr.c_str() + 2, nullptr, 10); if (a.descr[1] == 'U') es *= 4;
    a.data.assign(b.begin() + 10 + hl, b.end());
    if (a.data.size() != n * es) { *err = "data is " + std::to_string(a.data.size()) + " bytes, header says " + std::to_string(n * es); return false; }
    return true;
}
std::vector<uint8_t> net_npz(const NetSpec &n, const std::vector<float> &par, Rng &r, bool vary) {
    std::vector<NpzMember> m; size_t off = 0; size_t longest = 1; for (int l = 0; l < n.nl; l++) longest = std::max(longest, strlen(act_name[n.act[l]]));
    int nstyle = vary ? (int)r.below(7) : 0; int meth = vary ? (int)r.below(3) : 0;
    auto add = [&](const std::string &name, const NpyArr &a) { NpzMember e; e.name = name; e.content = npy_bytes(a, vary && r.chance(0.3) ? (int)r.below(7) : nstyle); e.method = meth == 0 ? 0 : meth == 1 ? 8 : r.chance(0.5) ? 8 : 0; m.push_back(e); };
    for (int l = 0; l < n.nl; l++) {
        size_t nb = n.s[l + 1], nw = (size_t)n.s[l] * n.s[l + 1];
        NpyArr b; b.descr = "<f4"; b.shape = { nb }; b.data.assign((uint8_t *)(par.data() + off), (uint8_t *)(par.data() + off + nb)); off += nb;
        NpyArr w; w.descr = "<f4"; w.shape = { (size_t)n.s[l], nb }; w.data.assign((uint8_t *)(par.data() + off), (uint8_t *)(par.data() + off + nw)); off += nw;
        std::string ext = vary ? ".npy" : "";
        add("weight_" + std::to_string(l) + ext, w); add("bias_" + std::to_string(l) + ext, b);
    }
    NpyArr a; if (vary && r.chance(0.3)) longest += r.range(1, 9);
    a.descr = "|S" + std::to_string(longest); a.shape = { (size_t)n.nl }; a.data.assign(longest * n.nl, 0);
    for (int l = 0; l < n.nl; l++) memcpy(&a.data[longest * l], act_name[n.act[l]], strlen(act_name[n.act[l]]));
    add(vary ? "activations.npy" : "activations", a);
    if (vary) { size_t pos = r.below(m.size()); NpzMember e = m.back(); m.pop_back(); m.insert(m.begin() + pos, e); }
    return zip_bytes(m, vary ? (int)r.below(4) : 0);
}
std::string check_npz_is_net(const std::vector<uint8_t> &z, const NetSpec &n, const std::vector<float> &par) {
    std::vector<NpzMember> m; std::string err; if (!zip_read(z, m, &err)) return err;
    size_t off = 0; int fi = 0; bool act = false; std::vector<const float *> bias, weight;
    for (int l = 0; l < n.nl; l++) { bias.push_back(par.data() + off); off += n.s[l + 1]; weight.push_back(par.data() + off); off += (size_t)n.s[l] * n.s[l + 1]; }
    for (auto &e : m) {
        NpyArr a; if (!npy_parse(e.content, a, &err)) return e.name + ": " + err;
        if (a.descr[1] == 'S') {
            if (act) return "two activation arrays"; act = true;
            size_t w = strtoul(a.descr.c_str() + 2, nullptr, 10); if (a.shape.size() != 1 || a.shape[0] != (size_t)n.nl) return "activation array has the wrong shape";
            for (int l = 0; l < n.nl; l++) { std::string s((char *)&a.data[w * l], strnlen((char *)&a.data[w * l], w)); if (s != act_name[n.act[l]]) return "activation " + std::to_string(l) + " is '" + s + "' instead of '" + act_name[n.act[l]] + "'"; }
        } else {
            if (a.descr != "<f4" && a.descr != "|f4") return "parameter array of type " + a.descr;
            int l = fi / 2; if (l >= n.nl) return "too many arrays"; bool isb = fi & 1; fi++;
            if (a.fortran) return "fortran order";
            if (isb ? (a.shape.size() != 1 || a.shape[0] != (size_t)n.s[l + 1]) : (a.shape.size() != 2 || a.shape[0] != (size_t)n.s[l] || a.shape[1] != (size_t)n.s[l + 1])) return e.name + " has the wrong shape";
            if (memcmp(a.data.data(), isb ? bias[l] : weight[l], a.data.size())) return e.name + " holds other values than the network";
        }
    }
    if (!act) return "no activation array"; if (fi != 2 * n.nl) return "arrays missing";
    return "";
}
}
