// Scenarios on a network nobody modifies: shared use, batch prediction, evaluation, placement.
#include "scen.h"
#include "models.h"
#include <memory>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
using std::string; using std::vector;
static const char *REAL_ALL = "all of /repo/src and /repo/npy_array, libzip, glibc stdio buffering";
static const char *STUB_ALL = "OpenMP runtime, thread scheduler, allocator, file system, clock, rand, dynamic loader, terminal (simulated)";

static float *place(size_t n, size_t mis) { return galloc<float>(n ? n : 1, 64, mis * 4); }
static bool blas() { return strstr(sut_variant, "blas") != nullptr; }

// the double-precision value of a network at x, and whether y lies within the rounding bounds
static void check_pred(const NetSpec &n, const vector<float> &par, const float *x, const float *y, const char *who) {
    Ref r; r.forward(n, par, x);
    if (!r.sane()) return;
    for (int j = 0; j < n.s[n.nl]; j++) { VE e = r.act[n.nl][j];
        CHECK(std::fabs(y[j] - e.v) <= e.e, "wrong-prediction", "%s: output %d is %.9g, the network's definition gives %.9g (bound %.3g)", who, j, y[j], e.v, e.e); }
}
static bool check_grad(const NetSpec &n, const vector<float> &par, const float *x, const float *t, const float *g, const char *who) {
    Ref r; r.forward(n, par, x); if (!r.backward(n, par, t)) return false;
    for (size_t j = 0; j < r.grad.size(); j++) CHECK(std::fabs(g[j] - r.grad[j].v) <= r.grad[j].e, "wrong-gradient", "%s: gradient element %zu is %.9g, the network's definition gives %.9g (bound %.3g)", who, j, g[j], r.grad[j].v, r.grad[j].e);
    return true;
}
// mean of the metrics over samples from the library's own single-sample predictions
void check_eval(neuralnet_t *nn, const NetSpec &n, int cnt, const float *X, const float *Y, const vector<int> &ms, const float *res, const char *who) {
    int ni = n.s[0], no = n.s[n.nl]; vector<double> sum(ms.size()), mag(ms.size());
    float *y = place(no, 0);
    // with BLAS the evaluation predicts in batch, which rounds differently
    float *yb = nullptr; if (blas()) { yb = place((size_t)cnt * no, 0); SUT(neuralnet_predict_batch(nn, cnt, X, yb)); }
    auto mean_of = [&] { for (int i = 0; i < cnt; i++) {
        if (yb) memcpy(y, yb + (size_t)i * no, 4 * no); else SUT(neuralnet_predict(nn, X + (size_t)i * ni, y));
        for (size_t k = 0; k < ms.size(); k++) { double v; { SutScope s; v = get_metric_func(metric_name[ms[k]])(no, y, Y + (size_t)i * no); } sum[k] += v; mag[k] += std::fabs(v); }
    } };
    if (cnt > 10000) SUT(mean_of()); else mean_of();
    for (size_t k = 0; k < ms.size(); k++) {
        double want = sum[k] / cnt, tol = (cnt + 4) * 2 * U * mag[k] / cnt + 1e-37;
        if (blas()) tol += 1e-4 * (1 + mag[k] / cnt);
        if (!(mag[k] <= 3e38)) continue;      // not a number, or more than a float holds
        CHECK(std::fabs(res[k] - want) <= tol, "wrong-evaluation", "%s: metric %zu (%s) over %d samples is %.9g, the mean of the per-sample values is %.9g (tolerance %.2g)", who, k, metric_name[ms[k]], cnt, res[k], want, tol);
    }
    gfree(y); if (yb) gfree(yb);
}
static vector<int> pick_metrics(uint64_t seed) { Rng r(seed); return gen_metrics(r, 5); }
static metric_func *metric_list(const vector<int> &m) { metric_func *f = (metric_func *)arena_alloc(sizeof(metric_func) * (m.size() + 1), 16, 0, true); for (size_t i = 0; i < m.size(); i++) f[i] = get_metric_func(metric_name[m[i]]); f[m.size()] = nullptr; return f; }

// ------------------------------------------------------------------ share (C01)
enum { K_PREDICT, K_BATCH, K_EVAL, K_BACKPROP, K_PARAMS, K_SAVE };
static const char *kname[] = { "predict", "batch", "evaluate", "backprop", "params", "save" };
static int kindof(const string &s) { for (int i = 0; i < 6; i++) if (s == kname[i]) return i; return -1; }

struct SOp { int kind, caller, n; uint64_t seed; size_t mis; float *X, *Y, *out, *again; size_t outn; vector<int> ms; metric_func *mf; string file; };

static void share_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = true; o.custom = r.chance(0.35); o.maxsize = r.chance(0.2) ? 65 : 24; o.maxparams = 1500; gen_net(r, p, o);
    int nc = std::max(2, gen_callers(r, 4)); p.set["callers"] = nc; p.set["team"] = r.range(1, 4); p.set["solofirst"] = r.below(2); p.set["adjacent"] = r.below(2); p.set["nontrivial"] = 1;
    int nops = std::max((int)r.range(2, 8), nc > 4 ? nc : 0);
    for (int i = 0; i < nops; i++) {
        static const int w[] = { K_PREDICT, K_PREDICT, K_BATCH, K_BATCH, K_EVAL, K_EVAL, K_BACKPROP, K_BACKPROP, K_BACKPROP, K_PARAMS, K_SAVE };
        int k = r.pick(w);
        p.ops.push_back({ kname[k], { (int64_t)(i < (int)p.get("callers") ? i : r.below(p.get("callers"))), (int64_t)r.below(1000000), (int64_t)(r.chance(0.03) ? r.range(13, 100) : r.range(1, 12)), (int64_t)r.below(16) } });
    }
    gen_sched(r, p, 6000 * nops);
}
static void do_op(neuralnet_t *nn, const NetSpec &n, SOp &o, float *out) {
    (void)n;
    switch (o.kind) {
    case K_PREDICT: SUT(neuralnet_predict(nn, o.X, out)); break;
    case K_BATCH: SUT(neuralnet_predict_batch(nn, o.n, o.X, out)); break;
    case K_EVAL: SUT(evaluate(nn, o.n, o.X, o.Y, o.mf, out)); break;
    case K_BACKPROP: SUT(neuralnet_backpropagation(nn, o.X, o.Y, out)); break;
    case K_PARAMS: SUT(neuralnet_get_parameters(nn, out)); break;
    case K_SAVE: SUT(neuralnet_save(nn, o.file.c_str())); break;
    }
}
static void share_run() {
    register_custom();
    NetSpec n = get_net(); neuralnet_t *nn = build_net(n, true);
    int ni = n.s[0], no = n.s[n.nl]; size_t np = spec_params(n);
    vector<float> par; raw_params(nn, par); auto img = net_image(nn);
    vector<SOp> ops; int ncall = (int)P->get("callers", 2); bool adj = P->get("adjacent");
    size_t total = 0;
    for (auto &op : P->ops) {
        int k = kindof(op.name); if (k < 0) continue;
        SOp o{}; o.kind = k; o.caller = (int)(op.at(0) % ncall); o.seed = op.at(1); o.n = (int)op.at(2, 1); o.mis = op.at(3);
        Rng r(mix(o.seed, 5)); int rows = k == K_BATCH || k == K_EVAL ? o.n : 1;
        if (k != K_PARAMS && k != K_SAVE) { o.X = place((size_t)ni * rows, o.mis); gen_input(r, o.X, ni * rows); o.Y = place((size_t)no * rows, (o.mis * 3) % 16); for (int i = 0; i < rows; i++) gen_target(r, o.Y + (size_t)i * no, no, n.loss); }
        if (k == K_EVAL) { o.ms = pick_metrics(o.seed); o.mf = metric_list(o.ms); }
        o.outn = k == K_PREDICT ? no : k == K_BATCH ? (size_t)no * o.n : k == K_EVAL ? o.ms.size() : k == K_SAVE ? 0 : np;
        o.file = "shared-" + std::to_string(ops.size()) + ".npz";
        total += o.outn; ops.push_back(o);
    }
    // output slots: adjacent in one array, or each in its own guarded buffer; gradients need alignment
    float *slab = place(total + 64, 0); size_t pos = P->get("adjacent") ? (size_t)P->get("aseed") % 16 : 0;
    for (size_t i = 0; i < total + 64; i++) { uint32_t c = 0x7fc0aaaa; memcpy(slab + i, &c, 4); }
    for (auto &o : ops) {
        if (o.kind == K_BACKPROP || o.kind == K_PARAMS || !adj) { o.out = (float *)arena_alloc((o.outn + 1) * 4, 64, 0, false); if (o.kind != K_BACKPROP && o.kind != K_PARAMS) { gfree(o.out); o.out = place(o.outn, o.mis / 2); } o.again = (float *)arena_alloc((o.outn + 1) * 4, 64, ((uintptr_t)o.out & 63), false); }
        else { o.out = slab + pos; pos += o.outn; o.again = (float *)arena_alloc((o.outn + 1) * 4, 64, ((uintptr_t)o.out & 63), false); }
    }
    size_t used = pos;
    bool first = P->get("solofirst");
    if (first) for (auto &o : ops) if (o.kind != K_SAVE) do_op(nn, n, o, o.again);
    for (int c = 0; c < ncall; c++) spawn([&, c] { for (auto &o : ops) if (o.caller == c) do_op(nn, n, o, o.out); }, "caller");
    join_all();
    CHECK(net_image(nn) == img, "network-changed", "read-only use by several threads changed the network");
    if (!first) for (auto &o : ops) if (o.kind != K_SAVE) do_op(nn, n, o, o.again);
    int i = 0;
    for (auto &o : ops) {
        char who[80]; snprintf(who, sizeof who, "%s by caller %d (operation %d)", kname[o.kind], o.caller, i++);
        switch (o.kind) {
        case K_PREDICT: case K_BATCH: case K_BACKPROP: case K_PARAMS: {
            if (!(blas() && o.kind == K_BATCH))   // with BLAS the rounding follows the placement of the work memory
            for (size_t k = 0; k < o.outn; k++) CHECK(!memcmp(o.out + k, o.again + k, 4) || (std::isnan(o.out[k]) && std::isnan(o.again[k])), "differs-from-solo", "%s: element %zu is %.9g, alone it is %.9g", who, k, o.out[k], o.again[k]);
            if (o.kind == K_PREDICT) check_pred(n, par, o.X, o.out, who);
            if (o.kind == K_BATCH) for (int b = 0; b < o.n; b++) check_pred(n, par, o.X + (size_t)b * ni, o.out + (size_t)b * no, who);
            if (o.kind == K_BACKPROP) check_grad(n, par, o.X, o.Y, o.out, who);
            if (o.kind == K_PARAMS) CHECK(!memcmp(o.out, par.data(), 4 * np), "wrong-parameters", "%s: parameters differ from the network's", who);
            break; }
        case K_EVAL: check_eval(nn, n, o.n, o.X, o.Y, o.ms, o.out, who); break;
        case K_SAVE: {
            vector<uint8_t> z; CHECK(disk_get(o.file.c_str(), z), "save-lost", "%s: no file was written", who);
            string e = check_npz_is_net(z, n, par); CHECK(e.empty(), "wrong-file", "%s: the saved file is not the network: %s", who, e.c_str()); break; }
        }
    }
    if (adj) for (size_t k = used; k < total + 64; k++) { uint32_t c; memcpy(&c, slab + k, 4); CHECK(c == 0x7fc0aaaa, "wrote-outside", "float %zu past the last output slot was overwritten", k - used); }
    CHECK(net_image(nn) == img, "network-changed", "read-only use changed the network");
    SUT(neuralnet_free(nn)); run_atexit();
}
Scenario sc_share = { "share", share_gen, share_run, nullptr, REAL_ALL, STUB_ALL, "2-4 (sometimes 14) caller threads, each with its own list of read-only calls on one shared network, nested OpenMP teams; nontrivial: more than one simulated thread ran", { {"callers", 1}, {"nl", 1}, {"team", 1}, {"s0", 1}, {"s1", 1}, {"s2", 1}, {"s3", 1}, {"s4", 1} } };

// now and then very many samples of a very small network
static bool many_rows(Rng &r, Plan &p, NetOpt &o, int64_t *rows) {
    if (!r.chance(0.012)) return false;
    o.maxl = 2; o.maxsize = 3; o.deep = o.wide = 0; *rows = r.chance(0.5) ? r.range(100, 600) : r.chance(0.85) ? r.range(600, 6000) : r.range(32000, 70000); (void)p; return true;
}
// a second network takes the place of the first one
static void renew_net(neuralnet_t *&nn, NetSpec &n, bool &second, bool loss) { SUT(neuralnet_free(nn)); second = !second; n = get_net(second && P->has("bnl") ? "b" : ""); nn = build_net(n, loss); PROBE("another network takes the place of a freed one"); }
// ------------------------------------------------------------------ batch (C02)
static void batch_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = r.chance(0.5); o.custom = r.chance(0.15); o.maxsize = r.chance(0.3) ? 80 : 33; o.maxparams = 2600; int64_t rows = 0; bool many = many_rows(r, p, o, &rows); gen_net(r, p, o); bool two = r.chance(0.2); if (two) gen_net(r, p, o, "b");
    p.set["team"] = gen_callers(r, 6); p.set["teamdyn"] = r.chance(0.2); p.set["nontrivial"] = 1;
    int k = (int)r.range(1, many ? 1 : 3);
    for (int i = 0; i < k; i++) { if (two && r.chance(0.5)) p.ops.push_back({ "renew", {} }); p.ops.push_back({ "batch", { (int64_t)(many ? rows : r.chance(0.02) ? r.range(25, 200) : r.chance(0.12) ? 0 : r.chance(0.3) ? r.range(1, 3) : r.range(1, 24)), (int64_t)r.below(1000000), (int64_t)r.below(16), (int64_t)r.below(16) } }); }
    gen_sched(r, p, many ? rows * 60 : 30000);
}
static void batch_run() {
    register_custom();
    NetSpec n = get_net(); neuralnet_t *nn = build_net(n, false); int ni = n.s[0], no = n.s[n.nl];
    vector<float> par; raw_params(nn, par); auto img = net_image(nn); int opno = 0; bool second = false;
    for (auto &op : P->ops) {
        S->res.cur_op = opno; if (op.name == "renew") { CHECK(net_image(nn) == img, "network-changed", "batch prediction changed the network"); renew_net(nn, n, second, false); ni = n.s[0]; no = n.s[n.nl]; raw_params(nn, par); img = net_image(nn); continue; }
        int cnt = (int)op.at(0); Rng r(mix(op.at(1), 3)); char who[60]; snprintf(who, sizeof who, "batch %d of %d samples", opno++, cnt);
        float *X = place((size_t)cnt * ni, op.at(2)); gen_input(r, X, cnt * ni); vector<float> Xc(X, X + (size_t)cnt * ni);
        Guard out((size_t)cnt * no, op.at(3)); vector<float> got;
        SUT(neuralnet_predict_batch(nn, cnt, X, out.p));
        string e = out.check(); CHECK(e.empty(), "wrote-outside", "%s: %s", who, e.c_str());
        CHECK(!memcmp(X, Xc.data(), Xc.size() * 4), "input-changed", "%s: the input was modified", who);
        got.assign(out.p, out.p + (size_t)cnt * no);
        for (int b = 0; b < cnt; b++) {
            float *dst = out.p + (size_t)b * no; float *mine = got.data() + (size_t)b * no;
            check_pred(n, par, X + (size_t)b * ni, mine, who);
            if (blas()) continue;
            SUT(neuralnet_predict(nn, X + (size_t)b * ni, dst));     // same place, so the same rounding
            for (int j = 0; j < no; j++) CHECK(!memcmp(dst + j, mine + j, 4), "batch-differs", "%s: row %d output %d is %.9g, predicting the row alone gives %.9g", who, b, j, mine[j], dst[j]);
        }
        gfree(X);
    }
    CHECK(net_image(nn) == img, "network-changed", "batch prediction changed the network");
    SUT(neuralnet_free(nn)); run_atexit();
}
Scenario sc_batch = { "batch", batch_gen, batch_run, nullptr, REAL_ALL, STUB_ALL, "batch calls of 0..24 (sometimes hundreds to 70000) rows at arbitrary buffer placements on teams of 1-6 workers; nontrivial: every run", { {"nl", 1}, {"team", 1}, {"s0", 1}, {"s1", 1}, {"s2", 1}, {"s3", 1}, {"s4", 1} } };

// ------------------------------------------------------------------ evaluate (C03)
static void eval_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = true; o.custom = r.chance(0.1); o.maxsize = r.chance(0.2) ? 65 : 20; o.maxparams = 1500; int64_t rows = 0; bool many = many_rows(r, p, o, &rows); gen_net(r, p, o); bool two = r.chance(0.2); if (two) gen_net(r, p, o, "b");
    p.set["team"] = gen_callers(r, 6); p.set["teamdyn"] = r.chance(0.2); p.set["nontrivial"] = 1;
    int k = (int)r.range(1, many ? 1 : 4);
    for (int i = 0; i < k; i++) { if (two && r.chance(0.5)) p.ops.push_back({ "renew", {} }); p.ops.push_back({ "evaluate", { many ? rows : r.chance(0.2) ? 1 : r.chance(0.03) ? r.range(41, 300) : r.range(1, 40), (int64_t)r.below(1000000), (int64_t)r.below(16) } }); }
    gen_sched(r, p, many ? rows * 60 : 30000);
}
static void eval_run() {
    register_custom();
    NetSpec n = get_net(); neuralnet_t *nn = build_net(n, true); int ni = n.s[0], no = n.s[n.nl];
    auto img = net_image(nn); int opno = 0; bool second = false;
    for (auto &op : P->ops) {
        S->res.cur_op = opno; if (op.name == "renew") { CHECK(net_image(nn) == img, "network-changed", "evaluation changed the network"); renew_net(nn, n, second, true); ni = n.s[0]; no = n.s[n.nl]; img = net_image(nn); continue; }
        int cnt = (int)op.at(0, 1); Rng r(mix(op.at(1), 4)); char who[60]; snprintf(who, sizeof who, "evaluation %d", opno++);
        float *X = place((size_t)cnt * ni, op.at(2)), *Y = place((size_t)cnt * no, (op.at(2) * 5) % 16);
        gen_input(r, X, cnt * ni); for (int i = 0; i < cnt; i++) gen_target(r, Y + (size_t)i * no, no, n.loss);
        // one outlier so that a dropped or doubled sample shows
        if (cnt > 1 && n.loss != L_CCE) { int b = (int)r.below(cnt); for (int j = 0; j < no; j++) Y[(size_t)b * no + j] *= 5; }
        auto ms = pick_metrics(op.at(1)); metric_func *mf = metric_list(ms);
        Guard res(ms.size(), op.at(2) % 7);
        SUT(evaluate(nn, cnt, X, Y, mf, res.p));
        string e = res.check(); CHECK(e.empty(), "wrote-outside", "%s: %s", who, e.c_str());
        check_eval(nn, n, cnt, X, Y, ms, res.p, who);
        gfree(X); gfree(Y); gfree(mf);
    }
    CHECK(net_image(nn) == img, "network-changed", "evaluation changed the network");
    SUT(neuralnet_free(nn)); run_atexit();
}
Scenario sc_eval = { "eval", eval_gen, eval_run, nullptr, REAL_ALL, STUB_ALL, "evaluations of 1..40 (sometimes hundreds to 70000) samples with 1-5 (sometimes 140) metrics on teams of 1-6 workers; nontrivial: every run", { {"nl", 1}, {"team", 1}, {"s0", 1}, {"s1", 1}, {"s2", 1}, {"s3", 1}, {"s4", 1} } };

// ------------------------------------------------------------------ placement (C21)
static void place_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = r.chance(0.8); o.custom = r.chance(0.15); o.maxsize = r.chance(0.4) ? 80 : 40; o.maxparams = 6000; gen_net(r, p, o); bool two = r.chance(0.3); if (two) gen_net(r, p, o, "b");
    p.set["team"] = 1; p.set["nontrivial"] = 1; p.set["lossset"] = o.train;
    int k = (int)r.range(3, 10);
    for (int i = 0; i < k; i++) { if (two && r.chance(0.3)) p.ops.push_back({ "renew", {} }); if (p.get("lossset") && r.chance(0.25)) p.ops.push_back({ "setloss", { (int64_t)r.below(1000000) } }); p.ops.push_back({ p.get("lossset") && r.chance(0.5) ? "backprop" : "predict", { (int64_t)r.below(1000000), (int64_t)r.below(16), (int64_t)r.below(16), (int64_t)r.below(4) } }); }
    gen_sched(r, p, 1000); p.sched = "run";
}
__attribute__((noinline)) static void dirty_stack(uint32_t w) { volatile uint32_t a[24000]; for (size_t i = 0; i < 24000; i++) a[i] = w; }
static void place_run() {
    register_custom();
    NetSpec n = get_net(); bool ls = P->get("lossset"); neuralnet_t *nn = build_net(n, ls); int ni = n.s[0], no = n.s[n.nl]; size_t np = spec_params(n);
    vector<float> par; raw_params(nn, par); auto img = net_image(nn); int opno = 0; bool second = false;
    std::map<std::pair<string, std::vector<int64_t>>, vector<float>> seen;
    for (auto &op : P->ops) {
        S->res.cur_op = opno; Rng r(mix(op.at(0), 4)); char who[60]; snprintf(who, sizeof who, "%s %d", op.name.c_str(), opno++);
        if (op.name == "renew") { CHECK(net_image(nn) == img, "network-changed", "prediction or gradient computation changed the network"); renew_net(nn, n, second, ls); ni = n.s[0]; no = n.s[n.nl]; np = spec_params(n); raw_params(nn, par); img = net_image(nn); continue; }
        if (op.name == "setloss") { if (ls) { n.loss = other_loss(n, op.at(0)); SUT(neuralnet_set_loss(nn, loss_name[n.loss])); img = net_image(nn); PROBE("another loss set"); } continue; }
        bool bp = op.name == "backprop" && ls;
        float *X = place(ni, op.at(1)), *Y = place(no, op.at(2)); gen_input(r, X, ni); gen_target(r, Y, no, n.loss);
        vector<float> xc(X, X + ni), yc(Y, Y + no);
        static const uint32_t junk[] = { 0, 0xffffffffu, 0x7f7fffffu, 0xa5a5a5a5u };
        Guard out(bp ? np : no, bp ? 0 : op.at(2), junk[op.at(3) & 3] ^ 0x00400000u);
        dirty_stack(junk[op.at(3) & 3]);
        if (bp) SUT(neuralnet_backpropagation(nn, X, Y, out.p)); else SUT(neuralnet_predict(nn, X, out.p));
        string e = out.check(); CHECK(e.empty(), "wrote-outside", "%s: %s", who, e.c_str());
        CHECK(!memcmp(X, xc.data(), 4 * ni) && !memcmp(Y, yc.data(), 4 * no), "input-changed", "%s: the input was modified", who);
        if (bp) check_grad(n, par, X, Y, out.p, who); else check_pred(n, par, X, out.p, who);
        // the same call again, after unrelated stack and heap activity
        vector<float> a(out.p, out.p + out.n);
        dirty_stack(junk[(op.at(3) + 1) & 3]); void *noise = SUT(sut_simd_malloc(64 + op.at(0) % 500));
        if (bp) SUT(neuralnet_backpropagation(nn, X, Y, out.p)); else SUT(neuralnet_predict(nn, X, out.p));
        CHECK(!memcmp(a.data(), out.p, 4 * out.n), "not-repeatable", "%s: the same call gives different results", who);
        SUT(sut_simd_free(noise)); gfree(X); gfree(Y);
    }
    CHECK(net_image(nn) == img, "network-changed", "prediction or gradient computation changed the network");
    SUT(neuralnet_free(nn)); run_atexit();
}
Scenario sc_place = { "place", place_gen, place_run, nullptr, REAL_ALL, STUB_ALL, "predictions and gradients at arbitrary placements of network, input and output, with dirty stack and heap; nontrivial: every run", { {"nl", 1}, {"s0", 1}, {"s1", 1}, {"s2", 1}, {"s3", 1}, {"s4", 1} } };

// ------------------------------------------------------------------ huge (C02, C03): more numbers than an int counts, layers wider than the work memory
extern "C" void (*cblas_hook)(const float *c, size_t n) __attribute__((weak));
static bool plain() { return strncmp(sut_variant, "plain", 5) == 0 || strncmp(sut_variant, "asan", 4) == 0; }
static void huge_gen(Rng &r, Plan &p) {
    NetSpec n; n.nl = 2; bool ev = p.prop == "C03"; int kind = p.prop == "C05" ? (strncmp(sut_variant, "plain", 5) ? 5 : 4) : plain() ? 2 : blas() && !ev && r.chance(0.6) ? 0 : ev ? 3 : 1; int rows = 1;
    static const int hid[] = { A_RELU, A_TANH, A_LINEAR, A_SIGMOID, A_SOFTSIGN };
    n.act[0] = r.pick(hid); n.act[1] = r.pick(hid);
    if (kind == 0) {            // the work memory of the whole batch in numbers: around a multiple of 2^32 or just past 2^31
        n.s[0] = 1; n.s[2] = (int)r.range(1, 2); n.s[1] = r.chance(0.5) ? 32768 - n.s[2] : (int)r.range(20000, 65000); int64_t sum = n.s[1] + n.s[2];
        int64_t goal = r.pick({ (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)3 << 31 }); rows = (int)((goal + sum - 1) / sum + (r.chance(0.5) ? 0 : r.below(3)));
    } else if (kind == 1) { n.s[0] = (int)r.range(1, 2); n.s[1] = (int)r.range(65400, 66500); n.s[2] = (int)r.range(1, 2); rows = (int)r.range(0, 3); }
    else if (kind == 2) { n.s[0] = r.chance(0.5) ? 2047 : (int)r.range(1500, 2100); n.s[1] = 16; n.s[2] = (int)r.range(1, 2); rows = (int)(((int64_t)1 << 31) / 15 * 16 / n.s[0] + r.range(16, 40)); }    // the last of 16 workers begins past 2^31
    else if (kind == 4) { n.nl = 1; n.s[0] = r.chance(0.5) ? 2047 : (int)r.range(1500, 2100); n.s[1] = 1; n.act[0] = A_LINEAR; rows = (int)(((int64_t)1 << 32) / n.s[0] + r.range(20, 40)); p.set["shuffle"] = r.below(2); p.set["opt"] = OPT_SGD; }
    else if (kind == 5) { n.nl = (int)r.range(1, 2); n.s[0] = (int)r.range(100, 500); n.s[1] = (int)r.range(100, 500); n.s[2] = (int)r.range(1, 3); if (n.nl == 1) n.act[0] = A_LINEAR; rows = (int)r.range(1, 3); p.set["shuffle"] = r.below(2); }
    else { n.nl = 1; n.s[0] = (int)r.range(1, 2); n.s[1] = (int)r.range(1500, 2500); rows = (int)r.range(300, 1100); if (!blas()) rows /= 10; }
    p.set["nl"] = n.nl; for (int i = 0; i <= n.nl; i++) p.set["s" + std::to_string(i)] = n.s[i]; for (int i = 0; i < n.nl; i++) p.set["a" + std::to_string(i)] = n.act[i];
    p.set["loss"] = L_MSE; p.set["wseed"] = (int64_t)r.below(1u << 30); p.set["wscale"] = 100; if (kind == 2) p.set["slow"] = 3; if (kind == 4) p.set["slow"] = 8;
    p.set["team"] = kind == 2 ? 16 : r.range(1, 3); p.set["nontrivial"] = 1;
    int64_t os = (int64_t)r.below(1000000); while (kind == 3 && pick_metrics(os).size() > 2) os++;     // (few metrics: the samples are many)
    if (kind == 3) p.set["slow"] = 3;
    p.ops.push_back({ kind == 0 ? "gemm" : kind == 2 ? "far" : kind == 4 ? "farepoch" : kind == 5 ? "bigepoch" : ev ? "evaluate" : "batch", { rows, os, (int64_t)r.below(16), (int64_t)r.below(16) } });
    gen_sched(r, p, 30000); if (kind != 1) p.sched = "run";
}
static struct { const float *out; size_t n; } gemm_at;
static void on_gemm(const float *c, size_t n) {
    const char *a = (const char *)c, *b = (const char *)(c + n), *here = (const char *)__builtin_frame_address(0);
    bool stack = a > here && b < here + (8 << 20), out = c >= gemm_at.out && c + n <= gemm_at.out + gemm_at.n, heap = in_arena(a) && arena_range_ok(a, n * 4);
    CHECK(stack || out || heap, "wrote-outside", "a matrix product of %zu numbers is to be written where there is no memory for it", n);
    PROBE("batch of more numbers than an int counts"); finish_ok();      // the product itself would take minutes
}
static void huge_run() {
    if (P->ops.empty()) return; const Op op = P->ops[0]; if (op.name == "batch") { batch_run(); return; } if (op.name == "evaluate") { eval_run(); return; }
    register_custom(); NetSpec n = get_net(); neuralnet_t *nn = build_net(n, true); int ni = n.s[0], no = n.s[n.nl], cnt = (int)op.at(0); bool ev = P->prop == "C03"; Rng r(mix(op.at(1), 3)); auto img = net_image(nn);
    size_t mis = op.at(3) % 8;
    if (op.name == "gemm") {
        if (!&cblas_hook) return;
        float *X = place((size_t)cnt * ni, op.at(2)), *y = place((size_t)cnt * no, op.at(3)); gen_input(r, X, cnt * ni); gemm_at = { y, (size_t)cnt * no }; cblas_hook = on_gemm;
        SUT(neuralnet_predict_batch(nn, cnt, X, y)); cblas_hook = nullptr;
        vector<float> par; raw_params(nn, par); for (int i : { 0, cnt / 2, cnt - 1 }) check_pred(n, par, X + (size_t)i * ni, y + (size_t)i * no, "huge batch");
        gfree(X); gfree(y); SUT(neuralnet_free(nn)); return;
    }
    static const float hp[5] = { 0.125f, 0, 0, 0, 0 }; bool shuffle = P->get("shuffle");
    if (op.name == "bigepoch") {    // one batch of a network whose gradients are large
        vector<float> par, after; raw_params(nn, par); float *X = place((size_t)cnt * ni, op.at(2)), *Y = place((size_t)cnt * no, op.at(3)); gen_input(r, X, cnt * ni); for (int i = 0; i < cnt; i++) gen_target(r, Y + (size_t)i * no, no, n.loss);
        vector<VE> sum(par.size(), VE{ 0, 0 }); bool sane = true; for (int i = 0; i < cnt; i++) { Ref f; f.forward(n, par, X + (size_t)i * ni); if (!f.backward(n, par, Y + (size_t)i * no) || !f.sane()) { sane = false; break; } for (size_t k = 0; k < sum.size(); k++) { sum[k].v += f.grad[k].v; sum[k].e += f.grad[k].e + std::fabs(f.grad[k].v) * 4 * U * cnt; } }
        optimizer_t *o = SUT(sut_opt_new(OPT_SGD, nn, cnt + (int)(op.at(1) % 3), shuffle, nullptr, nullptr, hp)); float res[8]; SUT(sut_opt_epoch(o, cnt, X, Y, 0, nullptr, nullptr, res)); raw_params(nn, after);
        if (sane) for (size_t k = 0; k < par.size(); k++) { double want = par[k] - hp[0] * sum[k].v / cnt, tol = hp[0] * sum[k].e / cnt + 8 * U * (std::fabs(par[k]) + std::fabs(want)) + 1e-37; CHECK(std::fabs(after[k] - want) <= tol, "wrong-update", "parameter %zu of %zu is %.9g after a batch, expected %.9g (tolerance %.2g)", k, par.size(), after[k], want, tol); }
        PROBE("epoch on a network of many parameters"); SUT(sut_opt_free(o)); gfree(X); gfree(Y); SUT(neuralnet_free(nn)); run_atexit(); return;
    }
    // a large file of inputs, mapped: the same 4 MB again and again
    constexpr size_t W = 4 << 20; size_t want = ((size_t)cnt * ni * 4 + 256 + W - 1) / W * W; HarnessScope hs;
    bool fe = op.name == "farepoch"; int fd = (int)syscall(SYS_memfd_create, "input", 0); char *base = fd < 0 || ftruncate(fd, W) ? (char *)MAP_FAILED : (char *)syscall(SYS_mmap, nullptr, want, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bool ok = base != (char *)MAP_FAILED; for (size_t o = 0; ok && o < want; o += W) ok = (fe && o + 2 * W >= want ? (char *)syscall(SYS_mmap, base + o, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) : (char *)syscall(SYS_mmap, base + o, W, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0)) == base + o;
    if (!ok) { PROBE("no address space for huge data"); return; }
    if (fe) {                       // only the last three samples teach anything, and they lie past 2^32 numbers
        float *Y = place(cnt, op.at(3)), *L = (float *)(base + mis * 4) + (size_t)(cnt - 3) * ni; memset(Y, 0, 4 * (size_t)cnt); gen_input(r, L, 3 * ni); for (int i = 0; i < 3; i++) Y[cnt - 1 - i] = (float)(1 + i);
        vector<float> zero(spec_params(n), 0.f), after; raw_set(nn, zero.data()); vector<double> sum(zero.size()); for (int i = 0; i < 3; i++) { Ref f; f.forward(n, zero, L + (size_t)i * ni); if (!f.backward(n, zero, Y + cnt - 3 + i)) return; for (size_t k = 0; k < sum.size(); k++) sum[k] += f.grad[k].v; }
        float lr[5] = { (float)cnt / 64, 0, 0, 0, 0 }, res[8]; optimizer_t *o = SUT(sut_opt_new(OPT_SGD, nn, cnt, shuffle, nullptr, nullptr, lr)); SUT(sut_opt_epoch(o, cnt, (float *)(base + mis * 4), Y, 0, nullptr, nullptr, res)); raw_params(nn, after);
        for (size_t k = 0; k < sum.size(); k++) { double want = -sum[k] / 64; CHECK(std::fabs(after[k] - want) <= 1e-4 * (1 + std::fabs(want)), "wrong-update", "an epoch of %d samples with %d inputs each: parameter %zu is %.9g, its samples give %.9g", cnt, ni, k, after[k], want); }
        PROBE("epoch over data of more than 2^32 numbers"); SUT(sut_opt_free(o)); syscall(SYS_munmap, base, want); close(fd); gfree(Y); SUT(neuralnet_free(nn)); run_atexit(); return;
    }
    for (size_t i = r.below(150); i < W / 4; i += 1 + r.below(150)) ((float *)base)[i] = (float)r.normal();   // mostly zeros: quickly multiplied
    const float *X = (const float *)(base + mis * 4);
    float *y = place((size_t)cnt * no, op.at(3)); uint32_t bad = 0x7fc0bbbb; for (size_t i = 0; i < (size_t)cnt * no; i++) memcpy(y + i, &bad, 4);
    if (ev) {
        float *Y = place((size_t)cnt * no, op.at(2)); for (int i = 0; i < cnt; i++) gen_target(r, Y + (size_t)i * no, no, n.loss); for (int i = cnt - 6; i < cnt; i++) for (int j = 0; j < no; j++) Y[(size_t)i * no + j] *= 1e5f;
        vector<int> ms = { 0, 1 }; metric_func *mf = metric_list(ms); Guard res(ms.size(), 1); SUT(evaluate(nn, cnt, X, Y, mf, res.p));
        string e = res.check(); CHECK(e.empty(), "wrote-outside", "huge evaluation: %s", e.c_str()); check_eval(nn, n, cnt, X, Y, ms, res.p, "huge evaluation"); gfree(Y); gfree(mf);
    } else {
        SUT(neuralnet_predict_batch(nn, cnt, X, y)); float *one = place(no, 0); vector<int> rows = { 0, 1, cnt / 2 }; for (int i = cnt - 6; i < cnt; i++) rows.push_back(i); for (int i = 0; i < 6; i++) rows.push_back((int)r.below(cnt));
        for (int i : rows) { float *dst = y + (size_t)i * no; vector<float> got(dst, dst + no); SUT(neuralnet_predict(nn, X + (size_t)i * ni, dst)); for (int j = 0; j < no; j++) CHECK(!memcmp(dst + j, &got[j], 4), "batch-differs", "row %d of %d with %d inputs each: output %d is %.9g, predicting the row alone gives %.9g", i, cnt, ni, j, got[j], dst[j]); }
        for (size_t i = 0; i < (size_t)cnt * no; i++) CHECK(memcmp(y + i, &bad, 4), "batch-differs", "output %zu of a huge batch was not written", i);
        gfree(one);
    }
    PROBE("data of more than 2^31 numbers"); CHECK(net_image(nn) == img, "network-changed", "prediction changed the network");
    syscall(SYS_munmap, base, want); close(fd); gfree(y); SUT(neuralnet_free(nn)); run_atexit();
}
Scenario sc_huge = { "huge", huge_gen, huge_run, nullptr, REAL_ALL, STUB_ALL, "batches and evaluations of more than 2^31 numbers, of layers wider than the work memory on the stack, and of more predictions than fit on it; nontrivial: every run", { {"team", 1} } };
}
