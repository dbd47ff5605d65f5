// Initialization, custom activations, exhausted memory, and the life of resources.
#include "scen.h"
#include "models.h"

namespace sim {
using std::string; using std::vector;
static const char *REAL_L = "all of /repo/src and /repo/npy_array, the installed libzip and zlib, glibc stdio buffering";
static const char *STUB_L = "allocator, file system, memory mappings, dynamic loader, clock, rand, terminal, OpenMP runtime, thread scheduler (simulated)";
static void wild(neuralnet_t *nn, uint64_t seed) { Rng r(seed); vector<float> p; raw_params(nn, p); for (auto &x : p) { static const uint32_t b[] = { 0x7fc00001, 0xff800000, 0x7f7fffff, 0x00000001, 0x3f800000, 0xdeadbeef }; uint32_t u = r.pick(b); memcpy(&x, &u, 4); } raw_set(nn, p.data()); }

// ------------------------------------------------------------------ C20: initialization
static double norm_cdf(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static const char *SCH[] = { "xavier", "kaiming", "", "normal", "Xavier", "kaiming ", "he", "xavie" };
enum { SC_X, SC_K, SC_N };
static int scheme_of(const char *named, int act) {
    if (named && !strcmp(named, "xavier")) return SC_X; if (named && !strcmp(named, "kaiming")) return SC_K;
    switch (act) { case A_SIGMOID: case A_TANH: case A_SOFTMAX: case A_HARDSIG: case A_SOFTSIGN: return SC_X; case A_RELU: case A_SOFTPLUS: return SC_K; default: return SC_N; }
}
static void init_check(neuralnet_t *nn, const NetSpec &n, const vector<int> &sch, bool natural, const string &err, bool alone) {
    bool other = false;
    for (int l = 0; l < n.nl; l++) {
        int in = n.s[l], out = n.s[l + 1]; size_t cnt = (size_t)in * out; const float *w = nn->layer[l].weight; const float *b = nn->layer[l].bias; int sc = sch[l];
        for (int i = 0; i < out; i++) CHECK(b[i] == 0, "bias-not-zero", "layer %d: bias %d is %.9g after initialization", l, i, b[i]);
        double lim = sc == SC_X ? std::sqrt(6.0 / (in + out)) : sc == SC_K ? std::sqrt(2.0 / in) : 1.0; vector<double> u; u.reserve(cnt);
        for (size_t i = 0; i < cnt; i++) {
            CHECK(std::isfinite(w[i]), "not-finite", "layer %d (%dx%d, %s): weight %zu is %.9g after initialization", l, in, out, sc == SC_X ? "Xavier" : sc == SC_K ? "Kaiming" : "normal", i, w[i]);
            if (sc == SC_X) CHECK(std::fabs(w[i]) <= lim * (1 + 4 * U), "out-of-range", "layer %d (%dx%d, Xavier): weight %zu is %.9g, the limit is %.9g", l, in, out, i, w[i], lim);
            u.push_back(sc == SC_X ? (w[i] / lim + 1) / 2 : norm_cdf(w[i] / lim));
        }
        other |= sc == SC_N;
        if (natural && cnt >= 60) {       // bounds that a correct generator exceeds once in 10^9 layers or less
            double r1 = 0; for (size_t i = 1; i < cnt; i++) r1 += (u[i] - 0.5) * (u[i - 1] - 0.5) * 12; r1 /= cnt; std::sort(u.begin(), u.end()); double D = 0; for (size_t i = 0; i < cnt; i++) D = std::max(D, std::max(std::fabs(u[i] - (double)i / cnt), std::fabs(u[i] - (double)(i + 1) / cnt)));
            CHECK(D <= std::sqrt(12.0 / cnt) + 1e-3, "wrong-distribution", "layer %d (%dx%d): the weights are not distributed as %s: largest distance %.4f for %zu weights", l, in, out, sc == SC_X ? "Xavier" : sc == SC_K ? "Kaiming" : "unit normal", D, cnt);
            CHECK(std::fabs(r1) <= 7.0 / std::sqrt((double)cnt), "not-independent", "layer %d (%dx%d): neighbouring weights are correlated: %.4f for %zu weights", l, in, out, r1, cnt);
            if (sc != SC_X) { double s = 0; for (size_t i = 0; i < cnt; i++) s += (double)w[i] * w[i]; s = std::sqrt(s / cnt); double dev = 6.5 / std::sqrt(2.0 * cnt) + 1e-3; CHECK(std::fabs(s / lim - 1) <= dev, "wrong-deviation", "layer %d (%dx%d): the standard deviation is %.6g instead of %.6g", l, in, out, s, lim); }
            PROBE(sc == SC_X ? "Xavier layer compared with its distribution" : "normal layer compared with its distribution");
        }
    }
    if (alone && other) CHECK(!err.empty(), "no-warning", "a layer without a scheme was initialized without a warning");
}
static const char *IPRE[3] = { "a", "b", "c" };
static void init_op(neuralnet_t *nn, const NetSpec &n, const Op &op, bool natural, bool alone) {
    vector<int> sch; vector<char *> names; bool given = op.at(1); for (int l = 0; l < n.nl; l++) { int q = (int)(mix(op.at(2), l) % 8); if (given) { names.push_back((char *)SCH[q]); } sch.push_back(scheme_of(given ? SCH[q] : nullptr, n.act[l])); } names.push_back(nullptr);
    if (op.at(3)) { SUT(neuralnet_set_loss(nn, loss_name[other_loss(n, op.at(2))])); PROBE("initialized after the loss was set"); }
    wild(nn, op.at(2)); if (alone) out_mark(); SUT(neuralnet_initialize(nn, given ? names.data() : nullptr)); init_check(nn, n, sch, natural, alone ? take_stderr() : "x", alone);
}
// the same network again and again: every weight on its own, and every pair of neighbours, has the distribution of its scheme
static void init_many(neuralnet_t *nn, const NetSpec &n, const Op &op) {
    vector<int> sch; vector<char *> names; bool given = op.at(1); for (int l = 0; l < n.nl; l++) { int q = (int)(mix(op.at(2), l) % 8); if (given) names.push_back((char *)SCH[q]); sch.push_back(scheme_of(given ? SCH[q] : nullptr, n.act[l])); } names.push_back(nullptr);
    struct Pos { int l; size_t i; double lim; bool uni; double s = 0, s2 = 0, c = 0; }; vector<Pos> ps;
    for (int l = 0; l < n.nl; l++) { int in = n.s[l], out = n.s[l + 1]; size_t cnt = (size_t)in * out; double lim = sch[l] == SC_X ? std::sqrt(6.0 / (in + out)) : sch[l] == SC_K ? std::sqrt(2.0 / in) : 1.0; for (size_t i = 0; i < cnt; i++) if (i < 12 || i + 12 >= cnt) ps.push_back({ l, i, lim, sch[l] == SC_X }); }
    int K = (int)op.at(4);
    for (int k = 0; k < K; k++) { SUT(neuralnet_initialize(nn, given ? names.data() : nullptr)); double last = 0; for (auto &p : ps) { double u = nn->layer[p.l].weight[p.i] / p.lim * (p.uni ? std::sqrt(3.0) : 1); p.s += u; p.s2 += u * u; p.c += u * last; last = u; } }
    double z = 8, w = 2.0 / (9 * K), lo = K * std::pow(std::max(0.0, 1 - w - z * std::sqrt(w)), 3), hi = K * std::pow(1 - w + z * std::sqrt(w), 3);
    for (auto &p : ps) {
        const char *who = p.uni ? "Xavier" : "normal or Kaiming"; double dv = 7.5 * std::sqrt(0.8 * K);
        CHECK(p.uni ? std::fabs(p.s2 - K) <= dv : p.s2 >= lo && p.s2 <= hi, "wrong-deviation", "layer %d (%dx%d, %s): over %d initializations weight %zu has standard deviation %.5g times what it should be", p.l, n.s[p.l], n.s[p.l + 1], who, K, p.i, std::sqrt(p.s2 / K));
        CHECK(std::fabs(p.s) <= 7.5 * std::sqrt((double)K), "wrong-mean", "layer %d (%dx%d, %s): over %d initializations weight %zu has mean %.5g deviations", p.l, n.s[p.l], n.s[p.l + 1], who, K, p.i, p.s / K);
        CHECK(std::fabs(p.c) <= 8 * std::sqrt((double)K) + 20, "not-independent", "layer %d (%dx%d, %s): over %d initializations weight %zu is correlated with the one before: %.4f", p.l, n.s[p.l], n.s[p.l + 1], who, K, p.i, p.c / K);
    }
    PROBE("each weight compared with its distribution over many initializations");
}
static void init_run() {
    register_custom(); int k3 = (int)std::max<int64_t>(1, P->get("ni", 1)); NetSpec N[3]; neuralnet_t *nn[3]; bool natural = !P->get("rburst"); for (int k = 0; k < k3; k++) { N[k] = get_net(IPRE[k]); nn[k] = build_net(N[k], false); }
    if (P->get("srand")) SUT(srand((unsigned)P->get("srand")));
    if (P->get("mode") == 1) { for (int k = 0; k < k3; k++) spawn([&, k] { for (auto &op : P->ops) if (op.at(0) % k3 == k) init_op(nn[k], N[k], op, natural, false); }, "user"); join_all(); PROBE("networks initialized in concurrent threads"); }
    else for (size_t i = 0; i < P->ops.size(); i++) { S->res.cur_op = (int)i; int k = (int)(P->ops[i].at(0) % k3); if (P->ops[i].name == "many") { if (natural) init_many(nn[k], N[k], P->ops[i]); } else init_op(nn[k], N[k], P->ops[i], natural, true); }
    for (int k = 0; k < k3; k++) SUT(neuralnet_free(nn[k])); run_atexit();
}
static void init_gen(Rng &r, Plan &p) {
    int ni = (int)r.range(1, 3); p.set["ni"] = ni; p.set["mode"] = ni > 1 && r.chance(0.35); for (int k = 0; k < ni; k++) { NetOpt o; o.maxl = 4; o.maxsize = r.chance(0.3) ? 80 : 24; o.maxparams = p.set["mode"] ? 700 : r.chance(0.4) ? 9000 : 1500; o.custom = r.chance(0.2); gen_net(r, p, o, IPRE[k]); }
    p.set["nontrivial"] = 1; if (r.chance(0.5)) { p.set["rburst"] = r.chance(0.3) ? r.range(1, 4) : r.range(5, 400); p.set["rfrom"] = r.chance(0.5) ? r.below(8) : r.below(1500); p.set["rmode"] = r.below(8); } if (r.chance(0.5)) p.set["srand"] = r.range(1, 1 << 30);
    int n = (int)r.range(1, 4); for (int i = 0; i < n + ni - 1; i++) p.ops.push_back({ "init", { i < ni ? i : (int64_t)r.below(ni), (int64_t)r.below(2), (int64_t)r.below(1u << 30), (int64_t)r.chance(0.3) } }); if (!p.set["mode"] && !p.has("rburst") && r.chance(0.2)) { NetOpt o; o.maxl = 4; o.maxsize = 6; o.maxparams = 80; o.deep = o.wide = 0; gen_net(r, p, o, "a"); p.ops.push_back({ "many", { 0, (int64_t)r.chance(0.7), (int64_t)r.below(1u << 30), r.range(0, 1), r.range(150, 500) } }); } if (p.set["mode"]) gen_sched(r, p, 6000);
}
#define SHN(q) {q "nl", 1}, {q "s0", 1}, {q "s1", 1}, {q "s2", 1}, {q "s3", 1}, {q "s4", 1}, {q "a0", 0}, {q "a1", 0}, {q "a2", 0}, {q "a3", 0}
Scenario sc_init = { "initialize", init_gen, init_run, nullptr, "neuralnet_initialize, activation registry", "rand(), allocator, dynamic loader, thread scheduler (simulated)", "1-6 (sometimes 500) initializations of up to 3 networks with every way to name a scheme, natural random streams and streams with extreme stretches, in turn and in concurrent threads; nontrivial: every run", { SHN("a"), SHN("b"), {"ni", 1}, {"mode", 0}, {"rburst", 0}, {"srand", 0} } };

// ------------------------------------------------------------------ C18: custom activations
static void chk_lib(const char *l) { if (!lib_loaded(l)) violation("call-into-unloaded-library", "the network calls an activation of %s, which is not loaded", l); }
static void c_nod(int n, float *a) { chk_lib("libcustom2.so"); for (int i = 0; i < n; i++) a[i] *= 0.5f; }
static void c_long(int n, float *a) { chk_lib("libcustom2.so"); for (int i = 0; i < n; i++) if (a[i] < 0) a[i] *= 0.125f; }
static void c_long_d(int n, const float *y, float *g) { chk_lib("libcustom2.so"); for (int i = 0; i < n; i++) if (y[i] <= 0) g[i] *= 0.125f; }
static void c_long3(int n, float *a) { chk_lib("libcustom2.so"); for (int i = n; i--; ) a[i] = a[i] < 0 ? a[i] * 0.125f : a[i]; }
static void c_long3_d(int n, const float *y, float *g) { chk_lib("libcustom2.so"); for (int i = n; i--; ) g[i] *= y[i] <= 0 ? 0.125f : 1; }
static void c_at(int n, float *a) { chk_lib("./models@2/lib@at.so"); for (int i = 0; i < n; i++) if (!(a[i] >= 0)) a[i] *= 0.125f; }
static void c_at_d(int n, const float *y, float *g) { chk_lib("./models@2/lib@at.so"); for (int i = 0; i < n; i++) if (!(y[i] > 0)) g[i] *= 0.125f; }
// symbols that begin like, or are, the name of a built-in activation
template<int I> static void pre(int n, float *a) { chk_lib("libpre.so"); volatile int k = I; (void)k; for (int i = 0; i < n; i++) if (a[i] < 0) a[i] *= 0.125f; }
template<int I> static void pre_d(int n, const float *y, float *g) { chk_lib("libpre.so"); volatile int k = I; (void)k; for (int i = 0; i < n; i++) if (y[i] <= 0) g[i] *= 0.125f; }
static const char *const PRENAME[] = { "relu8", "sigmoid_l", "tanh", "tanh_", "linear", "softmax2", "soft", "hard_sigmoid_x", "exponential", "cubic" };
constexpr int NPRE = 10;
static void (*const c_pre[NPRE])(int, float *) = { pre<0>, pre<1>, pre<2>, pre<3>, pre<4>, pre<5>, pre<6>, pre<7>, pre<8>, pre<9> };
static void (*const c_pre_d[NPRE])(int, const float *, float *) = { pre_d<0>, pre_d<1>, pre_d<2>, pre_d<3>, pre_d<4>, pre_d<5>, pre_d<6>, pre_d<7>, pre_d<8>, pre_d<9> };
struct Cname { string name; void *fn; int ref; bool deriv; const char *lib; };      // ref: what the reference network uses
static vector<Cname> *cn;
static void c18_names() {
    static const string L250(250, 'w'), L300(300, 'z'), L900(900, 'y'); cn = new vector<Cname>;
    register_lib("libcustom2.so", { {"nod", (void *)c_nod}, {L250, (void *)c_long}, {L250 + "_derivative", (void *)c_long_d}, {L300, (void *)c_long3}, {L300 + "_derivative", (void *)c_long3_d} });
    std::map<string, void *> pm; for (int i = 0; i < NPRE; i++) { pm[PRENAME[i]] = (void *)c_pre[i]; pm[string(PRENAME[i]) + "_derivative"] = (void *)c_pre_d[i]; } register_lib("libpre.so", pm);
    register_lib("./models@2/lib@at.so", { {"leaky_at", (void *)c_at}, {"leaky_at_derivative", (void *)c_at_d} });
    auto c = [&](const string &n, void *f, int ref, bool d, const char *lib) { cn->push_back({ n, f, ref, d, lib }); };
    for (int i = 0; i < NCUSTOM; i++) c(act_name[A_CUSTOM0 + i], (void *)custom_fn[i], A_CUSTOM0 + i, true, strchr(act_name[A_CUSTOM0 + i], '@') + 1);
    c("nod@libcustom2.so", (void *)c_nod, A_CUSTOM2, false, "libcustom2.so");
    c(L250 + "@libcustom2.so", (void *)c_long, A_CUSTOM1, true, "libcustom2.so"); c(L300 + "@libcustom2.so", (void *)c_long3, A_CUSTOM1, true, "libcustom2.so");
    c("leaky_at@./models@2/lib@at.so", (void *)c_at, A_CUSTOM1, true, "./models@2/lib@at.so");
    c("missing@libcustom.so", nullptr, A_LINEAR, true, nullptr); c("cubic@missing.so", nullptr, A_LINEAR, true, nullptr); c("nosuchname", nullptr, A_LINEAR, true, nullptr); c(L900 + "@libcustom.so", nullptr, A_LINEAR, true, nullptr);
    c("@libcustom.so", nullptr, A_LINEAR, true, nullptr); c("cubic@", nullptr, A_LINEAR, true, nullptr); c("cubic@libcustom.so@x", nullptr, A_LINEAR, true, nullptr); c("cubic@./libcustom.so", nullptr, A_LINEAR, true, nullptr); c("cubicc@libcustom.so", nullptr, A_LINEAR, true, nullptr); c("Sigmoid", nullptr, A_LINEAR, true, nullptr);
    static string pn[NPRE]; for (int i = 0; i < NPRE; i++) { pn[i] = string(PRENAME[i]) + "@libpre.so"; c(pn[i], (void *)c_pre[i], A_CUSTOM1, true, "libpre.so"); }
    for (auto s : { "relu8", "sigmoi", "tanhh", "soft", "relu ", "linear@", "sigmoid@missing.so", "re" }) c(s, nullptr, A_LINEAR, true, nullptr);
}
struct Cnet { neuralnet_t *nn = nullptr; NetSpec n; vector<string> names; vector<int> want; vector<float> par; bool trainable = true; };   // n.act: what the layers really have
struct C18Model { int op; bool init; struct { bool used; int spec; int64_t v; char acts[MAXL][1000]; } f[3]; };
static string layer_name(const NetSpec &n, int64_t seed, int l) { uint64_t u = mix(seed, l + 50); return u % 100 < 70 ? (*cn)[u / 100 % cn->size()].name : act_name[n.act[l] >= A_CUSTOM0 ? A_TANH : n.act[l]]; }
static const Cname *find_cn(const string &s) { for (auto &c : *cn) if (c.name == s) return &c; return nullptr; }
static int builtin(const string &s) { for (int i = 0; i < A_CUSTOM0; i++) if (s == act_name[i]) return i; return -1; }
// after a network came into being: every layer has what its name asks for, or is linear with a warning
static void c18_adopt(Cnet &c, bool faulted, const string &err, const char *how) {
    c.trainable = true;
    for (int l = 0; l < c.n.nl; l++) {
        layer_t &y = c.nn->layer[l]; string is; { SutScope s; const char *g = get_activation_name(y.activation_func); is = g ? g : "(null)"; } const Cname *q = find_cn(c.names[l]); int b = builtin(c.names[l]);
        if (b >= 0) { CHECK(is == c.names[l], "wrong-activation", "%s: layer %d has %s instead of %s", how, l, is.c_str(), c.names[l].c_str()); c.n.act[l] = b; continue; }
        if (q && q->fn && (void *)y.activation_func == q->fn) {
            c.n.act[l] = q->ref; CHECK(lib_loaded(q->lib), "call-into-unloaded-library", "%s: layer %d uses %s, whose library is not loaded", how, l, q->name.substr(0, 60).c_str()); activation_derivative d = SUT(get_activation_derivative(y.activation_func));
            if (!d) { CHECK(!q->deriv || faulted || P->get("dlfault"), "no-derivative", "%s: the derivative of %s is not used for training", how, q->name.substr(0, 60).c_str()); c.trainable = false; PROBE("custom activation without a derivative"); }
            CHECK(is == q->name, "wrong-name", "%s: layer %d is named %.80s instead of %.80s", how, l, is.c_str(), q->name.c_str());   // (it is saved under this name)
            PROBE("custom activation in use");
        } else {
            CHECK(is == "linear", "wrong-activation", "%s: layer %d has %s instead of %.80s or linear", how, l, is.c_str(), c.names[l].c_str()); CHECK(!err.empty(), "no-warning", "%s: layer %d became linear without a warning", how, l);
            CHECK(faulted || !q || !q->fn, "custom-not-used", "%s: layer %d became linear though %.80s is there: %.200s", how, l, c.names[l].c_str(), err.c_str()); c.n.act[l] = A_LINEAR; PROBE("fell back to linear");
        }
    }
}
static void c18_use(Cnet &c, uint64_t seed, const char *how) {
    int ni = c.n.s[0], no = c.n.s[c.n.nl]; Rng r(mix(seed, 6)); float *x = galloc<float>(ni), *y = galloc<float>(no), *t = galloc<float>(no); gen_input(r, x, ni); SUT(neuralnet_predict(c.nn, x, y)); raw_params(c.nn, c.par); Ref f; f.forward(c.n, c.par, x);
    if (f.sane()) for (int j = 0; j < no; j++) { VE e = f.act[c.n.nl][j]; CHECK(std::fabs(y[j] - e.v) <= e.e, "wrong-prediction", "%s: output %d is %.9g, the network's definition gives %.9g", how, j, y[j], e.v); }
    if (c.trainable) {
        gen_target(r, t, no, L_MSE); c.n.loss = L_MSE; { SutScope s; neuralnet_set_loss(c.nn, "mean_squared_error"); }
        size_t np = spec_params(c.n); float *g = galloc<float>(np); SUT(neuralnet_backpropagation(c.nn, x, t, g)); Ref q; q.forward(c.n, c.par, x);
        if (q.backward(c.n, c.par, t)) { for (size_t j = 0; j < np; j++) CHECK(std::fabs(g[j] - q.grad[j].v) <= q.grad[j].e, "wrong-gradient", "%s: gradient element %zu is %.9g, the network's definition gives %.9g", how, j, g[j], q.grad[j].v); PROBE("gradient through custom activations"); }
        gfree(g);
    }
    gfree(x); gfree(y); gfree(t);
}
static NetSpec c18_spec(int k) { return get_net(IPRE[k % 3]); }
static void c18_create(Cnet &c, int k, int64_t seed, bool threads) {
    c.n = c18_spec(k); c.names.clear(); vector<char *> nm; int sizes[MAXL + 2]; for (int l = 0; l < c.n.nl; l++) c.names.push_back(layer_name(c.n, seed, l)); for (auto &s : c.names) nm.push_back((char *)s.c_str()); nm.push_back(nullptr); for (int i = 0; i <= c.n.nl; i++) sizes[i] = c.n.s[i];
    if (!threads) out_mark(); uint64_t f0 = faults_so_far(); c.nn = SUT(neuralnet_create(c.n.nl, sizes, nm.data())); bool f = faults_so_far() != f0; NoFaults nf; string err = threads ? "x" : take_stderr();
    if (!c.nn) { CHECK(f, "create-failed", "the network could not be created"); CHECK(!err.empty(), "silent-failure", "no network and no message"); return; }
    c18_adopt(c, f, err, "created"); c.n.wseed = seed; fill_net(c.nn, c.n); c18_use(c, seed, "created");
}
static void c18_run() {
    register_custom(); c18_names(); C18Model &M = model<C18Model>(); Cnet net[3];
    if (P->get("mode") == 1) {
        vector<Cnet> all(4); int nt = 2 + (int)P->get("nt"); for (int k = 0; k < nt; k++) spawn([&, k] { for (auto &op : P->ops) if (op.at(0) % nt == k) { Cnet c; c18_create(c, (int)op.at(0), op.at(1), true); if (c.nn) { c18_use(c, op.at(2), "concurrent"); SUT(neuralnet_free(c.nn)); } } }, "user"); join_all(); PROBE("custom activations resolved in concurrent threads");
        run_atexit(); CHECK(lib_refs_total() == 0, "library-leak", "%d library handles open at exit", lib_refs_total()); return;
    }
    M.init = true;
    for (; M.op < (int)P->ops.size(); M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op; int k = (int)(op.at(0) % 3); string fn = "c" + std::to_string(k) + ".npz"; Cnet &c = net[k];
        if (op.name == "create") { if (c.nn) SUT(neuralnet_free(c.nn)); c.nn = nullptr; c18_create(c, k, op.at(1), false); }
        else if (op.name == "free") { if (c.nn) SUT(neuralnet_free(c.nn)); c.nn = nullptr; }
        else if (op.name == "save" && c.nn) {
            vector<uint8_t> z, z0; bool ex0; { NoFaults nf; ex0 = disk_get(fn.c_str(), z0); } out_mark(); uint64_t f0 = faults_so_far(); SUT(neuralnet_save(c.nn, "%s", fn.c_str())); NoFaults nf; bool f = faults_so_far() != f0; bool ex = disk_get(fn.c_str(), z); vector<NpzMember> m; string e; NpyArr a; bool ok = false; string why = "there is no file"; raw_params(c.nn, c.par);
            if (ex) { if (zip_read(z, m, &why)) for (auto &q : m) if (npy_parse(q.content, a, &e) && a.descr.size() > 1 && a.descr[1] == 'S') { size_t w = strtoul(a.descr.c_str() + 2, nullptr, 10); ok = a.shape.size() == 1 && (int)a.shape[0] == c.n.nl; if (!ok) why = "shape of the names"; for (int l = 0; l < c.n.nl && ok; l++) { string s((char *)&a.data[w * l], strnlen((char *)&a.data[w * l], w)), want; { SutScope q2; want = get_activation_name(c.nn->layer[l].activation_func); } if (s != want) { ok = false; why = "name " + std::to_string(l) + " is " + s.substr(0, 80); } } } }
            if (f && M.f[k].used && ex && ex0 && z == z0) continue;      // (the file is as it was)
            if (!ok) { CHECK(f, "wrong-file", "the names of the activations are not saved: %s", why.c_str()); M.f[k].used = false; disk_del(fn.c_str()); }
            else { M.f[k].used = true; M.f[k].spec = k; M.f[k].v = (int64_t)c.n.wseed; for (int l = 0; l < c.n.nl; l++) { bool cust = c.n.act[l] >= A_CUSTOM0; snprintf(M.f[k].acts[l], sizeof M.f[k].acts[l], "%s", cust ? c.names[l].c_str() : act_name[c.n.act[l]]); } PROBE("network with custom names saved"); }
        } else if (op.name == "load" && M.f[k].used) {
            if (c.nn) SUT(neuralnet_free(c.nn)); c.nn = nullptr; out_mark(); uint64_t f0 = faults_so_far(); c.nn = SUT(neuralnet_load(fn.c_str())); NoFaults nf; bool f = faults_so_far() != f0; string err = take_stderr(); if (!c.nn) { CHECK(f, "load-failed", "a saved network with custom names does not load: %.300s", err.c_str()); continue; }
            c.n = c18_spec(k); c.names.clear(); for (int l = 0; l < c.n.nl; l++) c.names.push_back(M.f[k].acts[l]); c18_adopt(c, f, err, "loaded"); c.n.wseed = M.f[k].v; neuralnet_t *t = build_net(get_net(IPRE[k]), false); NetSpec q = get_net(IPRE[k]); q.wseed = M.f[k].v; fill_net(t, q); vector<float> p1, p2; raw_params(t, p1); raw_params(c.nn, p2); CHECK(same_bits(p1, p2), "loads-differently", "a network with custom names loads with other parameters"); SUT(neuralnet_free(t)); c18_use(c, op.at(1), "loaded"); PROBE("network with custom names loaded");
        } else if (op.name == "use" && c.nn) { c18_use(c, op.at(1), "later"); }
        else if (op.name == "train" && c.nn && c.trainable) {
            NoFaults nf; SUT(neuralnet_set_loss(c.nn, "mean_squared_error")); static const float hp[5] = { 0.01f, 0, 0, 0, 0 }; optimizer_t *o = SUT(sut_opt_new(OPT_SGD, c.nn, 2, 1, nullptr, nullptr, hp)); CHECK(o, "create-failed", "no optimizer"); int ni = c.n.s[0], no = c.n.s[c.n.nl]; Rng r(op.at(1)); float *X = galloc<float>(4 * ni), *Y = galloc<float>(4 * no), res[2]; gen_input(r, X, 4 * ni); gen_target(r, Y, 4 * no, L_MSE); SUT(sut_opt_epoch(o, 4, X, Y, 0, nullptr, nullptr, res)); SUT(sut_opt_free(o)); gfree(X); gfree(Y);
            vector<float> p; raw_params(c.nn, p); bool bad = false; for (float x : p) bad |= !std::isfinite(x) || std::fabs(x) > 1e6; if (bad) fill_net(c.nn, c.n); c.n.wseed = 0; PROBE("trained with custom activations"); M.f[k].used = M.f[k].used && true; c18_use(c, op.at(1), "trained");
            NetSpec q = c.n; q.wseed = 1 + op.at(1); fill_net(c.nn, q); c.n.wseed = q.wseed;
        } else if (op.name == "restart") { M.op++; restart_clean(); }
        { NoFaults nf; for (auto &x : net) if (x.nn) c18_use(x, M.op, "afterwards"); }
    }
    for (auto &x : net) if (x.nn) SUT(neuralnet_free(x.nn));
    run_atexit(); CHECK(lib_refs_total() == 0, "library-leak", "%d library handles open at exit", lib_refs_total());
}
static void c18_gen(Rng &r, Plan &p) {
    for (int k = 0; k < 3; k++) { NetOpt o; o.maxl = 4; o.maxsize = 9; o.maxparams = 120; gen_net(r, p, o, IPRE[k]); p.set[string(IPRE[k]) + "wscale"] = 60; }
    p.set["mode"] = r.chance(0.2); p.set["nt"] = r.below(2); p.set["nontrivial"] = 1; int n = (int)r.range(2, 10);
    for (int i = 0; i < n; i++) { int64_t k = r.below(p.set["mode"] ? 12 : 3); static const char *o[] = { "create", "create", "create", "save", "load", "use", "train", "free", "restart" }; const char *w = p.set["mode"] || i == 0 ? "create" : r.pick(o); p.ops.push_back({ w, { k, (int64_t)r.below(1u << 24), (int64_t)r.below(1000) } }); if (!strcmp(w, "save") && r.chance(0.6)) { if (r.chance(0.5)) p.ops.push_back({ "restart", {} }); p.ops.push_back({ "load", { k, (int64_t)r.below(1000) } }); } }
    if (p.set["mode"]) gen_sched(r, p, n * 600);
}
static void c18_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, p.get("mode") ? F_DL | F_MALLOC : r.chance(0.3) ? F_DL | F_MALLOC | F_ERR | F_SHORT : F_DL | F_MALLOC, 0.3); for (auto &f : p.faults) if (f.seam == SE_DLSYM || f.seam == SE_DLOPEN) p.set["dlfault"] = 1; }
Scenario sc_custom = { "custom", c18_gen, c18_run, c18_faults, REAL_L, "dynamic loader (libraries whose functions notice when their library is closed), allocator, file system, thread scheduler (simulated)", "2-15 creations, saves, loads, trainings and restarts of networks whose layers name present and missing symbols and libraries, malformed and very long names, failing lookups and allocations, in turn and in concurrent threads; nontrivial: every run", { SHN("a"), SHN("b"), SHN("c"), {"mode", 0} } };

// ------------------------------------------------------------------ C13 and C17: one world of objects
struct World {
    bool c13; NetSpec N[2]; neuralnet_t *net[2] = {}; optimizer_t *opt[2] = {}; neuralnet_t *tnet[2] = {}; optimizer_t *topt[2] = {}; npy_array_t *arr = nullptr; npy_array_list_t *list = nullptr; vector<float> goodpar[2]; float *X = nullptr, *Y = nullptr; int maxn = 12; bool lib[2] = {};
};
static World *W;
static void w_free_opt(int k) { if (W->opt[k]) { SUT(sut_opt_free(W->opt[k])); W->opt[k] = nullptr; } if (W->topt[k]) { NoFaults nf; SUT(sut_opt_free(W->topt[k])); SUT(neuralnet_free(W->tnet[k])); W->topt[k] = nullptr; W->tnet[k] = nullptr; } }
static void w_free_net(int k) { w_free_opt(k); if (W->net[k]) { SUT(neuralnet_free(W->net[k])); W->net[k] = nullptr; } }
static string w_is(const neuralnet_t *nn, const NetSpec &n, bool faulted, const string &err) {     // sizes and activations, linear with a warning allowed after a fault
    if (nn->n_layers != n.nl) return "wrong number of layers"; for (int l = 0; l < n.nl; l++) { if (nn->layer[l].n_input != n.s[l] || nn->layer[l].n_output != n.s[l + 1]) return "wrong sizes"; if (!arena_range_ok(nn->layer[l].weight, 4ul * n.s[l] * n.s[l + 1]) || !arena_range_ok(nn->layer[l].bias, 4ul * n.s[l + 1])) return "less memory than the layer needs";
        string is; { SutScope s; is = get_activation_name(nn->layer[l].activation_func); } if (n.act[l] >= A_CUSTOM0 ? (void *)nn->layer[l].activation_func == (void *)custom_fn[n.act[l] - A_CUSTOM0] : is == act_name[n.act[l]]) continue; if (is == "linear" && n.act[l] >= A_CUSTOM0 && faulted && !err.empty()) { PROBE("custom activation fell back to linear"); continue; } return "layer " + std::to_string(l) + " has " + is; }
    return "";
}
static const float HP[4][5] = { { 0.02f, 0.01f, 0.5f, 0, 0 }, { 0.01f, 0, 0, 0, 0 }, { 0.005f, 0.9f, 0, 0.5f, 0 }, { 0.005f, 0.9f, 0.99f, 0.01f, 0 } };
static const char *GOOD[2] = { "good0.npz", "good1.npz" };
struct Shot { vector<vector<uint8_t>> img; std::map<string, vector<uint8_t>> files; };
static Shot snap() { Shot s; for (int k = 0; k < 2; k++) s.img.push_back(W->net[k] ? net_image(W->net[k]) : vector<uint8_t>()); for (auto &f : disk_list()) disk_get(f.c_str(), s.files[f]); return s; }
static void intact(const Shot &a, int exceptnet, const string &exceptfile, const char *what) {
    Shot b = snap(); for (int k = 0; k < 2; k++) if (k != exceptnet) CHECK(a.img[k] == b.img[k], "network-damaged", "%s damaged network %d", what, k);
    for (auto &f : a.files) if (f.first != exceptfile) { CHECK(b.files.count(f.first), "file-damaged", "%s removed %s", what, f.first.c_str()); CHECK(f.second == b.files[f.first], "file-damaged", "%s changed %s", what, f.first.c_str()); }
    for (auto &f : b.files) if (f.first != exceptfile && !a.files.count(f.first)) violation("stray-file", "%s left a file %s", what, f.first.c_str());
}
// one call under faults; returns whether it took effect. With c13: judged, and repeated with memory available if it failed.
static bool w_call(const Op &op, bool retry) {
    int k = (int)(op.at(0) & 1); bool c13 = W->c13; const NetSpec &n = W->N[k]; int ni = n.s[0], no = n.s[n.nl]; const string &w = op.name; Shot before; if (c13) { NoFaults nf; before = snap(); out_mark(); } uint64_t f0 = faults_so_far(); auto faulted = [&] { return faults_so_far() != f0 || (!c13 && P->has("diskcap")); };
    auto err = [&] { NoFaults nf; return take_stderr(); };
    auto failed = [&](bool rep, const char *what) { if (c13) { NoFaults nf; CHECK(!retry, "still-failing", "%s fails though memory is available again", what); CHECK(faulted(), "failed-without-cause", "%s failed without any failed allocation: %.200s", what, take_stderr().c_str()); CHECK(rep, "silent-failure", "%s failed and nothing was reported", what); PROBE("failure reported"); } return false; };
    if (w == "create") {
        w_free_net(k); if (c13) { NoFaults nf; before = snap(); } W->net[k] = try_create(n); string e = err(); if (c13) intact(before, k, "", "creating a network"); if (!W->net[k]) return failed(true, "creating a network");
        NoFaults nf; string d = w_is(W->net[k], n, faulted(), e); if (c13) CHECK(d.empty(), "wrong-network", "created: %s", d.c_str()); fill_net(W->net[k], n); SUT(neuralnet_set_loss(W->net[k], loss_name[n.loss])); W->lib[k] = true; if (retry) CHECK(w_is(W->net[k], n, false, "").empty(), "still-failing", "a network created with memory available is not what was asked for");
        if (c13 && faulted() && !w_is(W->net[k], n, false, "").empty() && !retry) return failed(!e.empty(), "resolving an activation"); return true;
    }
    if (w == "badcreate") { int sz[4] = { 3, (int)(op.at(1) % 3) - 1, 2, 0 }; char *nm[4] = { (char *)"tanh", (char *)(op.at(1) & 4 ? "nope@libcustom.so" : "gone@nolib.so"), (char *)"linear", nullptr }; int nl = op.at(1) & 8 ? 3 : op.at(1) & 16 ? 0 : 2; neuralnet_t *t = SUT(neuralnet_create(nl, sz, nm)); string e = err(); bool impossible = nl < 1 || sz[1] < 1 || (nl == 3 && sz[3] < 1); if (t) { if (c13) CHECK(!impossible, "impossible-network", "a network of %d layers with a size of %d and %d was created", nl, sz[1], sz[3]); SUT(neuralnet_free(t)); } else if (c13) CHECK((impossible || faulted()) && !e.empty(), "silent-failure", "creating a network of %d layers failed: '%s'", nl, e.c_str()); if (c13) intact(before, -1, "", "creating an impossible network"); return true; }
    if (w == "hugecreate") {    // more parameters than there is memory for, or than can be counted
        static const int SZ[][4] = { { 65536, 65536, 2, 2 }, { 46341, 46341, 1, 1 }, { 2147483647, 2, 3, 1 }, { 1 << 20, 1 << 12, 7, 3 }, { 3, 2147483647, 4, 2 }, { 65535, 65537, 5, 2 }, { 1 << 30, 8, 2, 2 }, { 5, 1 << 16, 1 << 16, 3 }, { 20000, 20000, 2, 1 }, { 1 << 15, 1 << 17, 3, 2 }, { 2, 1 << 30, 4, 2 }, { 3, 3, 2147483647, 2147483647 }, { 92682, 46341, 3, 3 }, { 1 << 16, 1 << 17, 9, 3 } };
        const int *z = SZ[op.at(1) % 14]; int sz[4] = { z[0], z[1], z[2], z[3] }, nl = 1 + (int)(op.at(2) % 3); if (op.at(1) % 14 == 7 || op.at(1) % 14 == 11) nl = std::max(nl, 2 + (op.at(1) % 14 == 11)); char *nm[4] = { (char *)"tanh", (char *)"relu", (char *)"linear", nullptr };
        neuralnet_t *t = SUT(neuralnet_create(nl, sz, nm)); string e = err(); if (c13) { CHECK(!t, "impossible-network", "a network of %d layers of sizes %d, %d, %d, %d was created, in a process with far less memory", nl, sz[0], sz[1], sz[2], sz[3]); CHECK(!e.empty(), "silent-failure", "creating a network too big failed without a message"); intact(before, -1, "", "creating a network too big"); }
        else if (t) SUT(neuralnet_free(t)); PROBE("network too big for memory"); return true;
    }
    if (w == "load") {
        int src = (int)(op.at(1) % 4); string fn = src == 0 || src == 3 ? GOOD[k] : src == 1 ? "out" + std::to_string(k) + ".npz" : "bad.npz"; if (src == 2) { NoFaults nf; Rng r(op.at(2)); auto z = damaged_npz(n, W->goodpar[k], r); disk_put("bad.npz", z.data(), z.size()); if (c13) before = snap(); }
        w_free_net(k); if (c13) { NoFaults nf; before = snap(); } neuralnet_t *t = SUT(neuralnet_load(fn.c_str())); string e = err(); if (c13) intact(before, k, "", "loading a network"); bool there = disk_exists(fn.c_str());
        if (!t) { if (src == 2 || !there) return true; return failed(!e.empty(), "loading a network"); } NoFaults nf;
        if (src == 2) { SUT(neuralnet_free(t)); return true; }
        W->net[k] = t; string d = w_is(t, n, faulted(), e); if (c13) CHECK(d.empty(), "wrong-network", "loaded: %s", d.c_str()); if (c13 && src != 1) { vector<float> p; raw_params(t, p); CHECK(same_bits(p, W->goodpar[k]), "wrong-network", "loaded with other parameters"); }
        if (d.empty()) { SUT(neuralnet_set_loss(t, loss_name[n.loss])); vector<float> p; raw_params(t, p); bool bad = false; for (float x : p) bad |= !(std::fabs(x) < 1e6); if (bad) fill_net(t, n); } else w_free_net(k);
        if (c13 && !retry && W->net[k] && !w_is(t, n, false, "").empty()) return failed(!e.empty(), "resolving an activation"); return true;
    }
    if (w == "free") { w_free_net(k); return true; }
    if (w == "nullargs") {     // calls that are documented or written to do nothing but warn
        bool warn = true;
        switch (op.at(1) % 8) {
        case 0: SUT(neuralnet_save(nullptr, "null.npz")); break; case 1: if (!W->net[k]) return true; SUT(neuralnet_save(W->net[k], nullptr)); break;
        case 2: SUT(npy_array_save("null.npy", nullptr)); break; case 3: SUT(npy_array_free(nullptr)); break; case 4: SUT(npy_array_dump(nullptr)); break;
        case 5: SUT(npy_array_list_free(nullptr)); warn = false; break; case 6: SUT(neuralnet_free(nullptr)); warn = false; break;
        default: { warn = false; int c = SUT(npy_array_list_save("null.npz", nullptr)); size_t l = SUT(npy_array_list_length(nullptr)); if (c13) CHECK(c == 0 && l == 0, "false-success", "an empty list has length %zu, and %d arrays of it were saved", l, c); }
        }
        string e = err(); if (c13) { intact(before, -1, "", "a call without an object"); NoFaults nf; if (warn) CHECK(!e.empty() || faulted(), "silent-failure", "a call without an object did nothing and said nothing"); } PROBE("call without an object"); return true;
    }
    if (w == "npyfree") { if (W->arr) SUT(npy_array_free(W->arr)); W->arr = nullptr; if (W->list) SUT(npy_array_list_free(W->list)); W->list = nullptr; return true; }
    if (w == "npysave") { npy_array_t a; static char data[240]; size_t sh[2] = { 3, 10 }; sut_npy_fill(&a, data, 2, sh, 'f', 4, 0); memset(data, (int)op.at(1), sizeof data); SUT(npy_array_save("arr.npy", &a)); string e = err(); NoFaults nf; vector<uint8_t> f; bool ok = disk_get("arr.npy", f) && f.size() > 120 && !memcmp(&f[f.size() - 120], data, 120); if (c13) intact(before, -1, "arr.npy", "saving an array"); if (!ok) { disk_del("arr.npy"); return failed(!e.empty(), "saving an array"); } return true; }
    if (w == "npyload" || w == "npymmap") { if (W->arr) SUT(npy_array_free(W->arr)); bool there = disk_exists("arr.npy"); W->arr = w == "npyload" ? SUT(npy_array_load("arr.npy")) : SUT(npy_array_mmap("arr.npy")); string e = err(); if (c13) intact(before, -1, "", "loading an array"); if (!W->arr) return there ? failed(true, "loading an array") : true; if (c13) CHECK(W->arr->ndim == 2 && W->arr->shape[0] == 3 && W->arr->shape[1] == 10, "wrong-array", "loaded with another shape"); return true; }
    if (w == "listload") { if (W->list) SUT(npy_array_list_free(W->list)); int src = (int)(op.at(1) % 3); string fn = src == 0 ? GOOD[k] : src == 1 ? "out" + std::to_string(k) + ".npz" : "bad.npz"; bool there = disk_exists(fn.c_str()); if (src == 2) { NoFaults nf; Rng r(op.at(2)); auto z = damaged_npz(n, W->goodpar[k], r); disk_put("bad.npz", z.data(), z.size()); if (c13) before = snap(); } W->list = SUT(npy_array_list_load(fn.c_str())); string e = err(); if (c13) { intact(before, -1, "", "loading a list of arrays"); size_t len = W->list ? SUT(npy_array_list_length(W->list)) : 0; if (src != 2 && there && len != (size_t)(2 * n.nl + 1)) return failed(!e.empty(), "loading a list of arrays"); } return true; }
    if (w == "listsave") {     // build a list of copies and save it
        int c = 1 + (int)(op.at(1) % 4); npy_array_list_t *l = nullptr; bool built = true; static float data[4][12]; static npy_array_t heads[4]; int linked = 0;
        for (int i = 0; i < c; i++) { size_t sh[1] = { 12 }; sut_npy_fill(&heads[i], data[i], 1, sh, 'f', 4, 0); heads[i].map_addr = nullptr; for (auto &x : data[i]) x = (float)i; npy_array_t *a; { NoFaults nf; a = (npy_array_t *)SUT(malloc(sizeof *a)); memcpy(a, &heads[i], sizeof *a); a->data = (char *)SUT(malloc(48)); memcpy(a->data, data[i], 48); }
            size_t len0 = l ? SUT(npy_array_list_length(l)) : 0; npy_array_list_t *m = op.at(2) & 1 ? SUT(npy_array_list_prepend(l, a, "a%d.npy", i)) : SUT(npy_array_list_append(l, a, "a%d.npy", i)); size_t len1 = m ? SUT(npy_array_list_length(m)) : 0; NoFaults nf;
            if (len1 == len0) { if (c13) CHECK(faulted(), "failed-without-cause", "appending to a list failed without any failed allocation"); SUT(npy_array_free(a)); built = false; PROBE("appending to a list failed"); } else linked++; if (!m && l) violation("list-lost", "a failed append lost the list of %zu arrays", len0); if (m) l = m; }
        int r = 0; bool did = l; if (l) r = op.at(2) & 2 ? SUT(npy_array_list_save_compressed("list.npz", l, ZIP_CM_DEFLATE, 1)) : SUT(npy_array_list_save("list.npz", l)); string e = err(); NoFaults nf; if (c13) { intact(before, -1, "list.npz", "saving a list"); vector<uint8_t> f; vector<NpzMember> m; string er; bool ok = disk_get("list.npz", f) && zip_read(f, m, &er) && (int)m.size() == linked; if (did && r == linked) CHECK(ok, "false-success", "saving a list returned %d: %s", r, er.c_str()); if (did && r != linked) { CHECK(before.files.count("list.npz") ? f == before.files["list.npz"] : !disk_exists("list.npz"), "file-damaged", "a failed save of a list changed the file"); SUT(npy_array_list_free(l)); return failed(!e.empty() || true, "saving a list"); } } SUT(npy_array_list_free(l)); return built || retry ? true : (c13 ? failed(true, "building a list") : false);
    }
    if (!W->net[k]) return true;
    // ---- calls on an existing network
    neuralnet_t *nn = W->net[k];
    if (w == "init") { SUT(neuralnet_initialize(nn, NULL)); NoFaults nf; err(); if (c13) intact(before, k, "", "initializing"); w_free_opt(k); fill_net(nn, n); return true; }
    if (w == "save") {
        string fn = "out" + std::to_string(k) + ".npz"; vector<float> par; raw_params(nn, par); SUT(neuralnet_save(nn, "%s", fn.c_str())); string e = err(); NoFaults nf; vector<uint8_t> f; bool ex = disk_get(fn.c_str(), f); NetSpec q = n; for (int l = 0; l < n.nl; l++) if (q.act[l] >= A_CUSTOM0 && (void *)nn->layer[l].activation_func != (void *)custom_fn[q.act[l] - A_CUSTOM0]) q.act[l] = A_LINEAR;
        if (!c13) { if (ex && !check_npz_is_net(f, q, par).empty()) disk_del(fn.c_str()); return true; }
        intact(before, -1, fn, "saving a network"); bool old = ex == (before.files.count(fn) > 0) && (!ex || f == before.files[fn]); string d = ex ? check_npz_is_net(f, q, par) : "there is no file"; CHECK(old || d.empty(), "file-damaged", "a save under failing allocations left a damaged file: %s", d.c_str()); if (!d.empty()) return failed(!e.empty(), "saving a network"); return true;
    }
    if (w == "opt") {
        w_free_opt(k); int kind = (int)(op.at(1) % 4), bs = 1 + (int)(op.at(2) % 5), sh = (int)(op.at(2) & 1); metric_func *mf = nullptr; static metric_func two[3]; if (op.at(2) & 8) { two[0] = get_metric_func("mean_squared_error"); two[1] = get_metric_func("mean_absolute_error"); two[2] = nullptr; mf = two; } if (c13) { NoFaults nf; before = snap(); }
        W->opt[k] = SUT(sut_opt_new(kind, nn, bs, sh, mf, nullptr, HP[kind])); string e = err(); if (c13) intact(before, -1, "", "creating an optimizer"); if (!W->opt[k]) return failed(!e.empty(), "creating an optimizer");
        if (c13) { NoFaults nf; vector<float> p; raw_params(nn, p); W->tnet[k] = try_create(n); for (int l = 0; l < n.nl; l++) W->tnet[k]->layer[l].activation_func = nn->layer[l].activation_func; raw_set(W->tnet[k], p.data()); SUT(neuralnet_set_loss(W->tnet[k], loss_name[n.loss])); for (int l = 0; l < n.nl; l++) W->tnet[k]->layer[l].activation_derivative = nn->layer[l].activation_derivative; W->topt[k] = SUT(sut_opt_new(kind, W->tnet[k], bs, sh, mf, nullptr, HP[kind])); } return true;
    }
    if (w == "epoch") {
        if (!W->opt[k]) return true; for (int l = 0; l < n.nl; l++) if (n.act[l] >= A_CUSTOM0) { NoFaults nf; if (!SUT(get_activation_derivative(nn->layer[l].activation_func))) return true; }
        int cnt = 1 + (int)(op.at(1) % W->maxn), nv = (int)(op.at(2) % 4); vector<float> p0, p1, p2; raw_params(nn, p0); Guard res(8, 1), tres(8, 1); Rng dr(op.at(1)); gen_input(dr, W->X, W->maxn * ni); for (int i = 0; i < W->maxn; i++) gen_target(dr, W->Y + (size_t)i * no, no, n.loss); const float *VX = nv ? W->X + ni : nullptr, *VY = nv ? W->Y + no : nullptr; if (nv > W->maxn - 1) nv = W->maxn - 1; uint64_t rs = S->rand_state, rc = S->rand_calls;   // (the twin draws the same random numbers)
        if (W->topt[k] && !retry) { NoFaults nf; SUT(sut_opt_epoch(W->topt[k], cnt, W->X, W->Y, nv, VX, VY, tres.p)); S->rand_state = rs; S->rand_calls = rc; out_mark(); } f0 = faults_so_far();
        SUT(sut_opt_epoch(W->opt[k], cnt, W->X, W->Y, nv, VX, VY, res.p)); string e = err(); raw_params(nn, p1); CHECK(res.check().empty(), "wrote-outside", "the results of an epoch were written outside of their memory"); bool done = true;
        if (c13) { NoFaults nf; intact(before, k, "", "an epoch"); raw_params(W->tnet[k], p2); if (same_bits(p1, p2)) { PROBE("epoch as with memory"); } else { CHECK(same_bits(p1, p0), "half-trained", "an epoch under failing allocations left parameters that are neither those before nor those after it"); CHECK(faulted() && !e.empty(), "silent-failure", "an epoch did not train and nothing was reported"); PROBE("epoch reported as not trained"); S->rand_state = rs; S->rand_calls = rc; out_mark(); SUT(sut_opt_epoch(W->opt[k], cnt, W->X, W->Y, nv, VX, VY, res.p)); raw_params(nn, p1); CHECK(same_bits(p1, p2), "still-failing", "an epoch with memory available again does not train as it should"); done = true; } }
        bool bad = false; for (float x : p1) bad |= !(std::fabs(x) < 1e5); if (bad) { w_free_opt(k); fill_net(nn, n); } return done;
    }
    NoFaults *nf0 = nullptr; (void)nf0; Rng r(op.at(1)); int cnt = 1 + (int)(op.at(1) % 9); gen_input(r, W->X, W->maxn * ni); for (int i = 0; i < W->maxn; i++) gen_target(r, W->Y + (size_t)i * no, no, n.loss);
    bool der = true; for (int l = 0; l < n.nl; l++) if (n.act[l] >= A_CUSTOM0) { NoFaults nf; der &= SUT(get_activation_derivative(nn->layer[l].activation_func)) != nullptr; }
    if (w == "predict" || w == "batch" || w == "bp" || w == "eval") {
        size_t np = spec_params(n), sz = std::max(np, (size_t)W->maxn * no) + 4; size_t mis = w == "bp" ? 0 : 2; Guard g(sz, mis), h(sz, mis); static metric_func one[2]; one[0] = get_metric_func("mean_absolute_error"); one[1] = nullptr; if (w == "bp" && !der) return true;
        for (int pass = 0; pass < 2; pass++) { Guard &o = pass ? h : g; NoFaults *q = nullptr; { if (pass) { NoFaults nf; q = &nf; if (w == "predict") SUT(neuralnet_predict(nn, W->X, o.p)); else if (w == "batch") SUT(neuralnet_predict_batch(nn, cnt, W->X, o.p)); else if (w == "bp") SUT(neuralnet_backpropagation(nn, W->X, W->Y, o.p)); else SUT(evaluate(nn, cnt, W->X, W->Y, one, o.p)); } else { if (w == "predict") SUT(neuralnet_predict(nn, W->X, o.p)); else if (w == "batch") SUT(neuralnet_predict_batch(nn, cnt, W->X, o.p)); else if (w == "bp") SUT(neuralnet_backpropagation(nn, W->X, W->Y, o.p)); else SUT(evaluate(nn, cnt, W->X, W->Y, one, o.p)); } } (void)q; }
        string e = err(); if (c13) { intact(before, -1, "", w.c_str()); if (memcmp(g.p, h.p, 4 * sz)) { CHECK(!e.empty(), "silent-failure", "%s with failing allocations gave another result and nothing was reported", w.c_str()); } } CHECK(g.check().empty() && h.check().empty(), "wrote-outside", "%s wrote outside of its memory", w.c_str()); return true;
    }
    if (w == "callbacks") {
        static metric_func mf[2]; mf[0] = get_metric_func("mean_squared_error"); mf[1] = nullptr; optimizer_t *o; { NoFaults nf; o = sut_opt_fake(nn, mf); } float res[2] = { -(float)op.at(1), 1 }; callback_t *cb = nullptr; int kd = (int)(op.at(2) % 3); string fn = "ck" + std::to_string(k) + ".npz"; cb = kd == 0 ? SUT(sut_es_new(1, -1, 0)) : kd == 1 ? SUT(sut_mcp_new(fn.c_str(), -1, 0, 0)) : SUT(sut_logger_new(0, "train.log", (int)(op.at(1) & 1))); string e = err(); bool ok = cb; if (c13) intact(before, -1, "", "creating a callback");
        if (cb) { if (c13) { NoFaults nf; before = snap(); out_mark(); } uint64_t f1 = faults_so_far(); SUT(sut_cb_run(cb, o, res, 0)); string e2 = err(); if (c13) { NoFaults nf; intact(before, -1, kd == 1 ? fn : kd == 2 ? "train.log" : "", "a callback"); vector<uint8_t> f; if (kd == 1) { vector<float> par; raw_params(nn, par); NetSpec q = n; for (int l = 0; l < n.nl; l++) if (q.act[l] >= A_CUSTOM0 && (void *)nn->layer[l].activation_func != (void *)custom_fn[q.act[l] - A_CUSTOM0]) q.act[l] = A_LINEAR; bool ex = disk_get(fn.c_str(), f), neu = ex && check_npz_is_net(f, q, par).empty(), old = ex == (before.files.count(fn) > 0) && (!ex || f == before.files[fn]); CHECK(neu || old, "file-damaged", "a checkpoint under failing allocations is damaged"); CHECK(neu || (faults_so_far() != f1 && !e2.empty()), "silent-failure", "a checkpoint was not saved and nothing was reported"); } if (kd == 2 && before.files.count("train.log")) { disk_get("train.log", f); auto &q = before.files["train.log"]; CHECK(f.size() >= q.size() && std::equal(q.begin(), q.end(), f.begin()), "file-damaged", "the log's earlier content changed"); } } SUT(sut_cb_free(cb)); }
        sut_opt_fake_free(o); if (!ok) return failed(!e.empty(), "creating a callback"); return true;
    }
    return true;
}
static void world_start(bool c13) {
    register_custom(); W = new World; W->c13 = c13; W->N[0] = get_net("a"); W->N[1] = get_net("b"); int ni = std::max(W->N[0].s[0], W->N[1].s[0]), no = std::max(W->N[0].s[W->N[0].nl], W->N[1].s[W->N[1].nl]); W->X = galloc<float>((size_t)ni * (W->maxn + 1)); W->Y = galloc<float>((size_t)no * (W->maxn + 1)); memset(W->X, 0, 4ul * ni * (W->maxn + 1)); memset(W->Y, 0, 4ul * no * (W->maxn + 1));
    NoFaults nf; for (int k = 0; k < 2; k++) { Rng r(mix(W->N[k].wseed, 1)); W->goodpar[k].resize(spec_params(W->N[k])); for (auto &x : W->goodpar[k]) x = (float)(r.normal() * 0.3); auto z = net_npz(W->N[k], W->goodpar[k], r, true); disk_put(GOOD[k], z.data(), z.size()); }
}
static void oom_run() {
    world_start(true); clock_stop(true);     // (an optimizer and its twin are seeded at the same time)
    for (size_t i = 0; i < P->ops.size(); i++) { S->res.cur_op = (int)i; const Op &op = P->ops[i]; if (!w_call(op, false)) { NoFaults nf; PROBE("repeated with memory available"); bool ok = w_call(op, true); CHECK(ok, "still-failing", "%s fails though memory is available again", op.name.c_str()); } CHECK(open_handles() == 0 || W->arr, "handle-leak", "after %s: %s", op.name.c_str(), open_handles_desc().c_str()); }
    P->faults.clear(); static const char *last[] = { "create", "load", "save", "opt", "epoch", "eval", "callbacks", "npysave", "npyload", "listload" }; for (int k = 0; k < 2; k++) for (auto s : last) CHECK(w_call({ s, { k, 0, 1 } }, false), "still-failing", "%s fails after memory became available again", s);
    for (int k = 0; k < 2; k++) w_free_net(k); w_call({ "npyfree", {} }, false); run_atexit();
}
static string leak_desc(const vector<AllocInfo> &v) { char b[200]; size_t t = 0; for (auto &a : v) t += a.n; snprintf(b, sizeof b, "%zu blocks, %zu bytes, the first of %zu bytes", v.size(), t, v[0].n); return b; }
static void leak_run() {
    vector<AllocInfo> v; uint64_t s00 = arena_serial(); world_start(false);
    if (P->get("warm")) { NoFaults nf; for (int i = 0; i < NCUSTOM; i++) { NetSpec q; q.nl = 1; q.act[0] = A_CUSTOM0 + i; neuralnet_t *t = try_create(q); SUT(neuralnet_free(t)); } }
    int base = lib_refs_total(); uint64_t s0 = arena_serial(); std::set<string> known = { "good0.npz", "good1.npz", "out0.npz", "out1.npz", "ck0.npz", "ck1.npz", "train.log", "arr.npy", "bad.npz", "list.npz" }; int cycles = (int)std::max<int64_t>(1, P->get("cycles", 2)); { size_t est = 9000; apply_diskcap(est); } int maxrefs = 0;
    for (int c = 0; c < cycles; c++) {
        for (size_t i = 0; i < P->ops.size(); i++) { S->res.cur_op = (int)i; w_call(P->ops[i], false); }
        for (int k = 0; k < 2; k++) w_free_net(k); w_call({ "npyfree", {} }, false); NoFaults nf; out_mark();
        v.clear(); arena_live_list(v, s0); vector<AllocInfo> mine; for (auto &a : v) if (a.sut) mine.push_back(a);
        if (P->get("warm")) CHECK(mine.empty(), "memory-leak", "cycle %d left memory behind: %s", c + 1, leak_desc(mine).c_str()); else { int refs = lib_refs_total(); maxrefs = std::max(maxrefs, refs); CHECK(refs <= NCUSTOM, "library-leak", "cycle %d left %d library handles for %d names", c + 1, refs, NCUSTOM); CHECK(mine.size() <= 2 * NCUSTOM, "memory-leak", "cycle %d left memory behind: %s", c + 1, leak_desc(mine).c_str()); }
        CHECK(open_handles() == 0, "handle-leak", "cycle %d left open: %s", c + 1, open_handles_desc().c_str()); if (P->get("warm")) CHECK(lib_refs_total() == base, "library-leak", "cycle %d changed the library handles from %d to %d", c + 1, base, lib_refs_total());
        if (!S->res.seam_faults[SE_REMOVE] && !S->res.seam_faults[SE_DISK]) for (auto &f : disk_list()) CHECK(known.count(f), "stray-file", "cycle %d left a file %s behind", c + 1, f.c_str()); else PROBE("deleting a file failed");
        PROBE("cycle ended with everything released");
    }
    NoFaults nf; gfree(W->X); gfree(W->Y); run_atexit(); v.clear(); arena_live_list(v, s00); vector<AllocInfo> mine; for (auto &a : v) if (a.sut) mine.push_back(a); CHECK(mine.empty(), "memory-leak", "at exit: %s", leak_desc(mine).c_str()); CHECK(lib_refs_total() == 0, "library-leak", "%d library handles open at exit", lib_refs_total());
}
static void world_gen(Rng &r, Plan &p, bool c13) {
    NetOpt o; o.maxl = 3; o.maxsize = r.chance(0.2) ? 20 : 8; o.maxparams = r.chance(0.2) ? 500 : 120; o.train = true; o.custom = r.chance(0.5); gen_net(r, p, o, "a"); gen_net(r, p, o, "b"); p.set["team"] = 1; p.set["nontrivial"] = 0; if (!c13) { p.set["cycles"] = r.range(1, 3); p.set["warm"] = r.chance(0.7); } if (r.chance(0.25)) p.set["shortread"] = r.range(1, 300); if (r.chance(0.25)) p.set["iobuf"] = r.range(16, 700);
    for (const char *q : { "a", "b" }) { string s = q; if (p.set[s + "loss"] == L_MAPE) p.set[s + "loss"] = L_MSE; int nl = (int)p.set[s + "nl"]; int last = (int)p.set[s + "a" + std::to_string(nl - 1)]; if (last == A_SOFTMAX && p.set[s + "loss"] != L_CCE) p.set[s + "a" + std::to_string(nl - 1)] = A_TANH; }
    static const char *ops[] = { "create", "load", "save", "opt", "epoch", "epoch", "eval", "batch", "predict", "bp", "callbacks", "npysave", "npyload", "npymmap", "listload", "listsave", "init", "free", "badcreate", "hugecreate", "load", "save", "opt", "nullargs" };
    int n = (int)r.range(2, 9); bool have[2] = { false, false }; for (int i = 0; i < n; i++) { int64_t k = r.below(2); const char *w = r.pick(ops); bool needs = strcmp(w, "create") && strcmp(w, "load") && strncmp(w, "npy", 3) && strncmp(w, "list", 4) && strcmp(w, "badcreate") && strcmp(w, "hugecreate") && strcmp(w, "nullargs"); if (needs && !have[k]) { p.ops.push_back({ r.chance(0.6) ? "create" : "load", { k, 0, 0 } }); have[k] = true; } if (!strcmp(w, "epoch")) p.ops.push_back({ "opt", { k, (int64_t)r.below(4), (int64_t)r.below(64) } }); p.ops.push_back({ w, { k, (int64_t)r.below(1000), (int64_t)r.below(1u << 20) } }); if (!strcmp(w, "free")) have[k] = false; if (!strcmp(w, "npysave") && r.chance(0.6)) p.ops.push_back({ r.chance(0.5) ? "npyload" : "npymmap", { 0 } }); }
}
static void oom_gen(Rng &r, Plan &p) { world_gen(r, p, true); }
static void leak_gen(Rng &r, Plan &p) { world_gen(r, p, false); }
static void oom_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, F_MALLOC, 0.02); }
static void leak_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, F_ERR | F_MALLOC | F_SHORT | F_CAP | F_DL | F_STDOUT, 0.1); }
Scenario sc_oom = { "oom", oom_gen, oom_run, oom_faults, REAL_L, STUB_L, "2-20 calls over two networks, optimizers, callbacks, array files and lists in which the n-th allocation, a stretch of them or all from then on fail, each failed call repeated with memory available; nontrivial: an allocation failed", { SHN("a"), SHN("b"), {"shortread", 0}, {"iobuf", 0} } };
Scenario sc_leak = { "cycles", leak_gen, leak_run, leak_faults, REAL_L, STUB_L, "1-3 repetitions of a cycle of 2-20 calls over networks, optimizers, callbacks, array files and lists, with failing allocations, file operations, library lookups, full disk and damaged files; nontrivial: a fault happened", { SHN("a"), SHN("b"), {"cycles", 1}, {"shortread", 0}, {"iobuf", 0} } };
}
