// Helpers shared by the scenarios.
#pragma once
#include "internal.h"
#include "sut_api.h"
#include <cmath>
#include <algorithm>
#include <set>
#include <cerrno>

namespace sim {
enum { A_LINEAR, A_RELU, A_SIGMOID, A_TANH, A_SOFTMAX, A_SOFTPLUS, A_SOFTSIGN, A_HARDSIG, A_EXP, A_CUSTOM0, A_CUSTOM1, A_CUSTOM2, A_CUSTOM3, A_CUSTOM4, A_CUSTOM5, A_NUM };
constexpr int NCUSTOM = A_NUM - A_CUSTOM0;
enum { L_MSE, L_MAE, L_MAPE, L_CCE, L_BCE, L_NUM };
extern const char *act_name[A_NUM];
extern const char *loss_name[L_NUM];
extern const char *metric_name[7];
extern void (*custom_fn[NCUSTOM])(int, float *);
void register_custom();                 // the fake libraries with the custom activations

constexpr int MAXL = 150;
struct NetSpec { int nl = 1; int s[MAXL + 1] = {1, 1}; int act[MAXL] = {0}; int loss = 0; uint64_t wseed = 1; int wscale = 100; };
struct NetOpt { int maxl = 4, maxsize = 40, maxparams = 1800; bool custom = false; bool train = false; bool smooth = false; double deep = 0.025, wide = 0.025; };
int gen_size(Rng &r, int maxsize);
void gen_net(Rng &r, Plan &p, const NetOpt &o, const char *prefix = "");
NetSpec get_net(const char *prefix = "");
size_t spec_params(const NetSpec &n);
neuralnet_t *build_net(const NetSpec &n, bool with_loss);      // fills in deterministic weights
int other_loss(const NetSpec &n, uint64_t seed);                // a loss the network can be trained with
const char *loss_spelling(int loss, uint64_t seed);
neuralnet_t *try_create(const NetSpec &n);                      // only neuralnet_create
void fill_net(neuralnet_t *nn, const NetSpec &n);
void raw_params(const neuralnet_t *nn, std::vector<float> &v);  // order: bias, weight per layer
void raw_set(neuralnet_t *nn, const float *v);
bool same_bits(const std::vector<float> &a, const std::vector<float> &b);
std::string net_diff(const neuralnet_t *nn, const NetSpec &n, const std::vector<float> &want, bool check_act = true);   // "" if equal
std::vector<int> gen_metrics(Rng &r, int usual);                 // indices of built-in metrics, sometimes many
int gen_callers(Rng &r, int usual);                             // number of threads, sometimes many
void gen_input(Rng &r, float *x, int n);
void gen_target(Rng &r, float *y, int n, int loss);
std::vector<uint8_t> net_image(const neuralnet_t *nn);          // every byte of the network, for immutability checks

// ------------------------------------------------------------ double reference with error bounds
struct VE { double v, e; };
struct Ref {
    std::vector<std::vector<VE>> act;   // activations per layer (0: input)
    std::vector<std::vector<VE>> pre;
    bool big = false;
    std::vector<VE> grad;               // bias, weight per layer
    bool sane() const;                  // all values well inside the range of single precision
    void forward(const NetSpec &n, const std::vector<float> &par, const float *x);
    bool backward(const NetSpec &n, const std::vector<float> &par, const float *y);   // false: combination without a defined gradient
};

// ------------------------------------------------------------ independent npz writer and reader
struct NpyArr { std::string name, descr; bool fortran = false; std::vector<size_t> shape; std::vector<uint8_t> data; };
struct NpzMember { std::string name; std::vector<uint8_t> content; int method = 0; };
std::vector<uint8_t> npy_bytes(const NpyArr &a, int style = 0);     // style: header padding variants
std::vector<uint8_t> zip_bytes(const std::vector<NpzMember> &m, int style = 0);
bool zip_read(const std::vector<uint8_t> &z, std::vector<NpzMember> &out, std::string *err);
bool npy_parse(const std::vector<uint8_t> &b, NpyArr &a, std::string *err);
std::vector<uint8_t> net_npz(const NetSpec &n, const std::vector<float> &par, Rng &r, bool vary);
std::vector<uint8_t> damaged_npz(const NetSpec &n, const std::vector<float> &par, Rng &r);   // a damaged or malformed archive
std::string check_npz_is_net(const std::vector<uint8_t> &z, const NetSpec &n, const std::vector<float> &par);   // "" if the archive holds exactly the network
uint32_t crc32_of(const uint8_t *p, size_t n);

// intervals for the update-rule models
struct Iv { double lo, hi; };
static inline Iv iv(double x) { return {x, x}; }
static inline Iv widen(Iv a, double rel, double ab = 0) { double m = std::max(std::fabs(a.lo), std::fabs(a.hi)) * rel + ab; return {a.lo - m, a.hi + m}; }
constexpr double U = 5.9604644775390625e-08, TINY = 1e-38;
static inline Iv fl(Iv a, double k = 2) { return widen(a, k * U, 1e-44); }
static inline Iv operator+(Iv a, Iv b) { return fl({a.lo + b.lo, a.hi + b.hi}); }
static inline Iv operator-(Iv a, Iv b) { return fl({a.lo - b.hi, a.hi - b.lo}); }
static inline Iv operator*(Iv a, Iv b) { double x[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; return fl({*std::min_element(x, x + 4), *std::max_element(x, x + 4)}); }
static inline Iv operator/(Iv a, Iv b) { if (b.lo <= 0 && b.hi >= 0) return {-1e300, 1e300}; double x[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; return fl({*std::min_element(x, x + 4), *std::max_element(x, x + 4)}); }
static inline Iv ivsqrt(Iv a) { return fl({std::sqrt(std::max(0.0, a.lo)), std::sqrt(std::max(0.0, a.hi))}); }
static inline Iv ivsq(Iv a) { double h = std::max(a.lo * a.lo, a.hi * a.hi), l = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(a.lo * a.lo, a.hi * a.hi); return widen({l, h}, 2 * U, TINY); }

struct Guard {                          // caller buffer with canaries inside one arena block
    float *base, *p; size_t n, pre, post; uint32_t pat;
    Guard(size_t n, size_t misalign_floats, uint32_t pat = 0x7fc01234); ~Guard();
    std::string check();                // "" if the canaries are intact
};
enum { F_CRASH = 1, F_ERR = 2, F_MALLOC = 4, F_SHORT = 8, F_CAP = 16, F_DL = 32, F_STDOUT = 64 };
void one_fault(Rng &r, Plan &p, const Result &dry, unsigned kinds);      // a fault at a random call of the fault-free run
void rand_faults(Rng &r, Plan &p, const Result &dry, unsigned kinds, double none);
void apply_diskcap(size_t expected_growth);   // parameter diskcap: per mille of what the run would write
#define CHECK(cond, cls, ...) do { if (!(cond)) sim::violation(cls, __VA_ARGS__); } while (0)
template<class T> T &model() { static_assert(sizeof(T) <= sizeof(Shared::model), ""); return *(T *)S->model; }
}
