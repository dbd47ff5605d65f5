// Training scenarios: minibatch gradients, epochs, update rules, results, isolation of sessions.
#include "scen.h"
#include "models.h"
#include <deque>

namespace sim {
using std::string; using std::vector;
static const char *REAL_T = "optimizers, back propagation, evaluation, callbacks, metrics, losses (all of /repo/src), libzip for checkpoints";
static const char *STUB_T = "OpenMP runtime, thread scheduler, allocator, file system, clock, rand, terminal (simulated); the loss of the network is wrapped by a recording function that calls the real one";

// ------------------------------------------------------------------ one training session
constexpr int NS = 3;
struct Rec { int sample, snap; };
struct Prog { int x, n; size_t seen; };
struct EpochRec { int n, nv; bool shuffle; vector<Rec> recs; vector<Prog> prog; vector<vector<float>> snaps; vector<float> end, results; vector<vector<float>> evalsnaps; bool stop = false; vector<uint8_t> ck; bool ckexists = false; };
struct Session {
    int id = 0; bool on = false; NetSpec n; neuralnet_t *nn = nullptr, *ref = nullptr; optimizer_t *opt = nullptr;
    int kind = 0, bs = 1; bool shuffle = false, prog = false; float hp[5] = {0}; vector<int> ms; bool nullmetrics = false; int spypos = -1;
    float *X = nullptr, *Y = nullptr, *VX = nullptr, *VY = nullptr; int maxn = 0, maxv = 0;
    void (*real_loss)(unsigned, const float *, const float *, float *) = nullptr;
    vector<float> start; vector<EpochRec> ep; EpochRec *curp = nullptr;
    callback_t *es = nullptr, *mcp = nullptr, *log = nullptr; int cbmask = 0, patience = 0, monitor = -1; bool greater = false; string ckfile, logfile; int logstart = 0;
    metric_func *mf = nullptr;
};
static Session *ses[NS]; static vector<Session *> *done_;
static std::deque<Op> *nestq; static void run_op(const Op &op);

static void record(Session *s, const float *yt) {
    HarnessScope h;
    EpochRec *e = s->curp; int no = s->n.s[s->n.nl];
    if (!e) return;                                  // a gradient outside of an epoch
    long d = yt - s->Y; int idx = -1;
    if (d >= 0 && d < (long)s->maxn * no && d % no == 0) idx = (int)(d / no);
    else for (int i = 0; i < s->maxn && idx < 0; i++) if (!memcmp(yt, s->Y + (size_t)i * no, 4 * no)) idx = i;
    CHECK(idx >= 0, "unknown-sample", "session %d: a gradient was computed for a target that is not in the training set", s->id);
    CHECK(idx < e->n, "unknown-sample", "session %d: sample %d was used but the training set has %d", s->id, idx, e->n);
    for (int l = 0; l < s->nn->n_layers; l++) { layer_t &y = s->nn->layer[l]; harness_read(y.weight, 4ul * y.n_input * y.n_output); harness_read(y.bias, 4ul * y.n_output); }
    vector<float> p; raw_params(s->nn, p);
    if (e->snaps.empty() || !same_bits(e->snaps.back(), p)) e->snaps.push_back(p);
    e->recs.push_back({ idx, (int)e->snaps.size() - 1 });
}
static void progressed(Session *s, int x, int n) {
    { HarnessScope h; if (s->curp) s->curp->prog.push_back({ x, n, s->curp->recs.size() }); }
    if (nestq && s->id == 0) {
        Op op; bool got = false; { HarnessScope h; if (!nestq->empty()) { op = nestq->front(); nestq->pop_front(); got = true; } }
        if (got) { HarnessScope h; PROBE("epoch of another session inside a progress callback"); run_op(op); }
    }
}
template<int K> static void spy(unsigned n, const float *yp, const float *yt, float *g) { record(ses[K], yt); ses[K]->real_loss(n, yp, yt, g); }
template<int K> static void prog(int x, int n, const char *, ...) { progressed(ses[K], x, n); }
// a user-defined metric that also notes the parameters it is evaluated with
template<int K> static float spymetric(const int n, const float *yp, const float *yt) {
    Session *s = ses[K]; float v = 0; for (int i = 0; i < n; i++) v += yp[i] * 0.5f + yt[i] * 0.25f;
    if (s && s->curp) { HarnessScope h; vector<float> p; raw_params(s->nn, p); auto &q = s->curp->evalsnaps; if (q.empty() || !same_bits(q.back(), p)) q.push_back(p); }
    return v;
}
static void (*const SPY[NS])(unsigned, const float *, const float *, float *) = { spy<0>, spy<1>, spy<2> };
static void (*const PROG[NS])(int, int, const char *, ...) = { prog<0>, prog<1>, prog<2> };
static const metric_func SPYM[NS] = { spymetric<0>, spymetric<1>, spymetric<2> };

static string pre(int k) { return "q" + std::to_string(k); }
static void gen_session(Rng &r, Plan &p, int k, const NetOpt &o, int kind, int maxn, bool plain) {
    string q = pre(k); gen_net(r, p, o, q.c_str());
    auto set = [&](const char *n, int64_t v) { p.set[q + n] = v; };
    set("kind", kind); set("bs", r.chance(0.15) ? 1 : r.chance(0.15) ? r.range(maxn, maxn + 9) : r.range(1, std::max(1, std::min(maxn, 12)))); set("shuf", r.chance(0.6)); set("prog", r.chance(0.7)); set("metr", r.chance(0.15) ? 0 : 1 + r.below(1000000));
    set("maxn", maxn); set("maxv", r.range(1, 9)); set("dseed", r.below(1u << 30)); if (r.chance(0.12)) { set("alias", 1); set("aliasoff", r.chance(0.6) ? 0 : r.range(0, maxn - 1)); }
    int64_t mom = plain || r.chance(0.35) ? 0 : r.range(300000, 950000), dec = plain || r.chance(0.5) ? 0 : r.chance(0.3) ? r.range(100000, 600000) : r.range(1000, 80000);
    switch (kind) {
    case OPT_SGD: set("hp0", plain ? r.range(200000, 1000000) : r.range(5000, 300000)); set("hp1", dec); set("hp2", mom); set("hp3", mom && r.chance(0.55)); break;
    case OPT_ADAGRAD: set("hp0", r.range(1000, 100000)); set("hp1", dec); break;
    case OPT_RMSPROP: set("hp0", r.range(500, 20000)); set("hp1", r.range(400000, 990000)); set("hp2", dec); set("hp3", mom); set("hp4", mom && r.chance(0.55)); break;
    case OPT_ADAM: set("hp0", r.range(500, 30000)); set("hp1", r.range(500000, 950000)); set("hp2", r.range(800000, 999000)); set("hp3", r.chance(0.3) ? 0 : r.range(50, 20000)); break;
    }
    if (!plain && r.chance(0.12)) {     // the published defaults, with or without a learning rate of the caller's
        static const int D[4][5] = { { 10000, 0, 0, 0, 0 }, { 10000, 0, 0, 0, 0 }, { 1000, 900000, 0, 0, 0 }, { 1000, 900000, 999000, 100, 0 } }; const int *d = D[kind == OPT_SGD ? 0 : kind == OPT_ADAGRAD ? 1 : kind == OPT_RMSPROP ? 2 : 3];
        for (int i = r.chance(0.5); i < 5; i++) set(("hp" + std::to_string(i)).c_str(), d[i]);
    }
    if (r.chance(0.04)) { set("bs", 32); set("shuf", 1); set("metr", 0); set("prog", 1); }
}
static void start_session(int k) {
    Session *s = new Session; s->id = k; string q = pre(k); s->n = get_net(q.c_str()); auto get = [&](const char *n, int64_t d = 0) { return P->get((q + n).c_str(), d); };
    s->kind = (int)get("kind"); s->bs = (int)std::max<int64_t>(1, get("bs", 1)); s->shuffle = get("shuf"); s->prog = get("prog"); s->maxn = (int)get("maxn", 4); s->maxv = (int)get("maxv", 3);
    for (int i = 0; i < 5; i++) s->hp[i] = (float)(get(("hp" + std::to_string(i)).c_str()) * 1e-6);
    int ni = s->n.s[0], no = s->n.s[s->n.nl]; Rng r(mix(get("dseed"), 8));
    auto mk = [&](int c, int w) { return galloc<float>((size_t)c * w, 64, (r.below(16)) * 4); };
    s->X = mk(s->maxn, ni); s->Y = mk(s->maxn, no); s->VX = mk(s->maxv, ni); s->VY = mk(s->maxv, no);
    if (get("alias")) { gfree(s->VX); gfree(s->VY); int off = (int)std::min<int64_t>(get("aliasoff"), s->maxn - 1); s->VX = s->X + (size_t)off * ni; s->VY = s->Y + (size_t)off * no; s->maxv = s->maxn - off; PROBE("validation set inside the training set"); }
    gen_input(r, s->X, s->maxn * ni); if (!get("alias")) gen_input(r, s->VX, s->maxv * ni);
    for (int i = 0; i < s->maxn; i++) gen_target(r, s->Y + (size_t)i * no, no, s->n.loss);
    if (!get("alias")) for (int i = 0; i < s->maxv; i++) gen_target(r, s->VY + (size_t)i * no, no, s->n.loss);
    s->nn = try_create(s->n); CHECK(s->nn, "create-failed", "session %d: the network could not be created", k);
    if (P->get("init")) SUT(neuralnet_initialize(s->nn, NULL));
    fill_net(s->nn, s->n); SUT(neuralnet_set_loss(s->nn, loss_name[s->n.loss]));
    if (get("metr")) {
        Rng m(get("metr")); s->ms = gen_metrics(m, 4);
        s->cbmask = (int)get("cb"); if (!(s->cbmask & 4) && m.chance(0.6)) s->spypos = (int)m.below(s->ms.size() + 1);
        s->mf = (metric_func *)arena_alloc(sizeof(metric_func) * (s->ms.size() + 2), 16, 0, true); size_t j = 0;
        for (size_t i = 0; i <= s->ms.size(); i++) { if ((int)i == s->spypos) s->mf[j++] = SPYM[k]; if (i < s->ms.size()) s->mf[j++] = get_metric_func(metric_name[s->ms[i]]); }
        s->mf[j] = nullptr;
    } else { s->nullmetrics = true; s->ms = { s->n.loss }; s->cbmask = (int)get("cb"); }
    s->opt = SUT(sut_opt_new(s->kind, s->nn, s->bs, s->shuffle, s->mf, s->prog ? PROG[k] : nullptr, s->hp));
    CHECK(s->opt, "optimizer-failed", "session %d: the optimizer could not be created", k);
    s->patience = (int)get("patience", 1); s->monitor = (int)get("monitor", -1); s->greater = get("greater");
    s->ckfile = "ck" + std::to_string(k) + "-" + std::to_string(done_->size()) + ".npz"; s->logfile = "log" + std::to_string(k) + "-" + std::to_string(done_->size()); s->logstart = (int)get("logstart");
    if (s->cbmask & 1) s->es = SUT(sut_es_new(s->patience, s->monitor, s->greater));
    if (s->cbmask & 2) s->mcp = SUT(sut_mcp_new(s->ckfile.c_str(), s->monitor, s->greater, 0));
    if (s->cbmask & 4) s->log = SUT(sut_logger_new(s->logstart, s->logfile.c_str(), 1));
    s->real_loss = (decltype(s->real_loss))s->nn->loss; s->nn->loss = (decltype(s->nn->loss))SPY[k];
    raw_params(s->nn, s->start); s->on = true; ses[k] = s; done_->push_back(s);
}
static void end_session(int k) {
    Session *s = ses[k]; if (!s || !s->on) return;
    s->on = false; ses[k] = nullptr; s->nn->loss = (decltype(s->nn->loss))s->real_loss;
    if (s->es) SUT(sut_cb_free(s->es)); if (s->mcp) SUT(sut_cb_free(s->mcp)); if (s->log) SUT(sut_cb_free(s->log));
    SUT(sut_opt_free(s->opt)); SUT(neuralnet_free(s->nn));
}
static size_t n_slots(const Session *s) { return s->ms.size() + (s->spypos >= 0); }
static void epoch_op(int k, int n, int nv, int shuf) {
    if (!ses[k]) start_session(k);
    Session *s = ses[k]; n = std::max(1, std::min(n, s->maxn)); nv = std::max(0, std::min(nv, s->maxv));
    if (shuf >= 0) { s->shuffle = shuf; sut_opt_set_shuffle(s->opt, shuf); }
    s->ep.push_back(EpochRec()); EpochRec e; e.n = n; e.nv = nv; e.shuffle = s->shuffle; size_t at = s->ep.size() - 1; s->ep[at] = e; s->curp = new EpochRec(e);
    size_t slots = n_slots(s) * (nv ? 2 : 1); Guard res(slots, (size_t)(n * 7 + nv) % 13);
    SUT(sut_opt_epoch(s->opt, n, s->X, s->Y, nv, nv ? s->VX : nullptr, nv ? s->VY : nullptr, res.p));
    EpochRec &c = *s->curp; raw_params(s->nn, c.end); c.results.assign(res.p, res.p + slots);
    string w = res.check(); CHECK(w.empty(), "wrote-outside", "session %d: results of an epoch with %zu values: %s", k, slots, w.c_str());
    for (callback_t *cb : { s->es, s->mcp, s->log }) if (cb) SUT(sut_cb_run(cb, s->opt, res.p, nv > 0));
    if (s->es) c.stop = SUT(sut_es_stop(s->es));
    if (s->mcp) c.ckexists = disk_get(s->ckfile.c_str(), c.ck);
    vector<float> after; raw_params(s->nn, after); CHECK(same_bits(after, c.end), "callback-changed-parameters", "session %d: a callback changed the parameters", k);
    CHECK(!memcmp(res.p, c.results.data(), 4 * slots), "callback-changed-results", "session %d: a callback changed the results", k);
    s->ep[at] = c; delete s->curp; s->curp = nullptr;
}
static void run_op(const Op &op) {
    int k = (int)op.at(0) % NS;
    if (op.name == "epoch") epoch_op(k, (int)op.at(1, 4), (int)op.at(2), (int)op.at(3, -1));
    else if (op.name == "end") end_session(k);
    else if (op.name == "start") { if (!ses[k]) start_session(k); }
}

// ------------------------------------------------------------------ verification after the fact
struct Want { bool perm, upd, res, cb; };
static bool finite_all(const vector<float> &v) { for (float x : v) if (!(std::fabs(x) < 1e12f)) return false; return true; }
static void mean_gradient(Session *s, const vector<float> &par, const Rec *b, int m, vector<Iv> &g, float *buf) {
    raw_set(s->ref, par.data()); size_t np = par.size(); vector<double> S(np, 0), A(np, 0); int ni = s->n.s[0], no = s->n.s[s->n.nl];
    vector<int> order; for (int i = 0; i < m; i++) order.push_back(b[i].sample); std::sort(order.begin(), order.end());
    for (int i : order) { SUT(neuralnet_backpropagation(s->ref, s->X + (size_t)i * ni, s->Y + (size_t)i * no, buf)); for (size_t j = 0; j < np; j++) { S[j] += buf[j]; A[j] += std::fabs(buf[j]); } }
    g.resize(np); for (size_t j = 0; j < np; j++) { double e = (m + 4) * U * A[j] / m + 1e-44; g[j] = { S[j] / m - e, S[j] / m + e }; }
}
static const char *KN[] = { "SGD", "Adagrad", "RMSprop", "Adam" };
static void inside(Session *s, const vector<float> &p, const vector<Iv> &w, int ep, int batch, const char *when) {
    for (size_t j = 0; j < p.size(); j++) CHECK((p[j] >= w[j].lo && p[j] <= w[j].hi) || std::isnan(w[j].lo), "wrong-update",
        "session %d, %s (batch size %d): %s minibatch %d of epoch %d parameter %zu is %.9g, the update rule gives [%.9g, %.9g]", s->id, KN[s->kind], s->bs, when, batch, ep, j, p[j], w[j].lo, w[j].hi);
}
static void verify(Session *s, const Want &w) {
    size_t np = spec_params(s->n); int no = s->n.s[s->n.nl], ni = s->n.s[0];
    NetSpec rn = s->n; s->ref = build_net(rn, true); float *buf = galloc<float>(np, 64, 0);
    vector<Iv> expect(np), v(np, iv(0)), r(np, iv(0)), ss(np, iv(0)), g; for (size_t j = 0; j < np; j++) expect[j] = iv(s->start[j]);
    const float *hp = s->hp; int K = s->kind; Iv lr = iv(hp[0]), b1t = iv(1), b2t = iv(1); unsigned it = 0; bool live = w.upd;
    float mom = K == OPT_SGD ? hp[2] : K == OPT_RMSPROP ? hp[3] : 0, decay = K == OPT_SGD || K == OPT_ADAGRAD ? hp[1] : K == OPT_RMSPROP ? hp[2] : 0; bool nest = K == OPT_SGD ? hp[3] > 0 : K == OPT_RMSPROP ? hp[4] > 0 : false;
    EsModel em(s->patience, s->greater), em2(s->patience, s->greater, false); BestModel bm(s->greater), bm2(s->greater, false); vector<float> best2; vector<uint8_t> lastck; bool hasck = false; vector<float> best; int identity = 0, shuffled = 0; 
    vector<LogEntry> logs;
    // a parameter that is not a number where nothing large went in
    bool calm = true; auto overflowed = [&](const vector<float> &p, int e, int k, const char *when) { for (auto &x : expect) calm = calm && x.lo > -1e6 && x.hi < 1e6; if (calm) inside(s, p, expect, e, k, when); };
    for (size_t e = 0; e < s->ep.size(); e++) {
        EpochRec &E = s->ep[e]; int n = E.n, bs = s->bs, nb = (n + bs - 1) / bs;
        if (E.results.empty()) continue;
        CHECK((int)E.recs.size() == n, "sample-count", "session %d, epoch %zu: %zu gradients were computed for %d samples (batch size %d)", s->id, e, E.recs.size(), n, bs);
        if (w.perm) {
            vector<int> cnt(n, 0); for (auto &q : E.recs) cnt[q.sample]++;
            for (int i = 0; i < n; i++) CHECK(cnt[i] == 1, "not-a-permutation", "session %d, epoch %zu: sample %d of %d was visited %d times", s->id, e, i, n, cnt[i]);
            bool ident = true;
            for (int k = 0; k < nb; k++) for (int i = k * bs; i < std::min(n, (k + 1) * bs); i++) if (E.recs[i].sample < k * bs || E.recs[i].sample >= (k + 1) * bs) { ident = false;
                CHECK(E.shuffle, "not-in-order", "session %d, epoch %zu without shuffling: sample %d is in minibatch %d of size %d", s->id, e, E.recs[i].sample, k, bs); }
            if (E.shuffle && bs == 1 && n >= 16 && !P->get("rburst")) { shuffled++; identity += ident; }
            if (s->prog) {
                CHECK((int)E.prog.size() == nb, "progress", "session %d, epoch %zu: progress was reported %zu times for %d minibatches", s->id, e, E.prog.size(), nb);
                for (int k = 0; k < nb; k++) { int x = std::min(n, (k + 1) * bs); CHECK(E.prog[k].x == x && E.prog[k].n == n && (int)E.prog[k].seen == x, "progress", "session %d, epoch %zu: report %d says %d of %d when %zu samples were consumed, should be %d of %d", s->id, e, k, E.prog[k].x, E.prog[k].n, E.prog[k].seen, x, n); }
            }
        }
        for (int k = 0; k < nb; k++) {
            int a = k * bs, z = std::min(n, a + bs);
            for (int i = a; i < z; i++) CHECK(E.recs[i].snap == E.recs[a].snap, "parameters-changed-in-batch", "session %d, epoch %zu: the gradients of minibatch %d were taken at different parameters", s->id, e, k);
            if (!live) continue;
            const vector<float> &pk = E.snaps[E.recs[a].snap];
            if (!finite_all(pk)) { overflowed(pk, (int)e, k, "before"); live = false; PROBE("training diverged, rest unchecked"); continue; }
            if (mom > 0) for (size_t j = 0; j < np; j++) { v[j] = iv(mom) * v[j]; if (nest) expect[j] = expect[j] + v[j]; }
            inside(s, pk, expect, (int)e, k, mom > 0 && nest ? "at the look-ahead point of" : "before");
            mean_gradient(s, pk, &E.recs[a], z - a, g, buf);
            for (auto &x : g) calm = calm && x.lo > -1e6 && x.hi < 1e6;
            if (P->prop == "C04" && k % 3 == 0) { int i = E.recs[a].sample; Ref R; R.forward(s->n, pk, s->X + (size_t)i * ni); SUT(neuralnet_backpropagation(s->ref, s->X + (size_t)i * ni, s->Y + (size_t)i * no, buf));
                if (R.backward(s->n, pk, s->Y + (size_t)i * no)) for (size_t j = 0; j < np; j++) CHECK(std::fabs(buf[j] - R.grad[j].v) <= R.grad[j].e, "wrong-gradient", "the gradient of sample %d: element %zu is %.9g, should be %.9g", i, j, buf[j], R.grad[j].v); }
            if (decay > 0) lr = lr * (iv(1) / (iv(1) + iv(decay) * iv((double)it)));
            it++;
            if (K == OPT_ADAM) { b1t = b1t * iv(hp[1]); b2t = b2t * iv(hp[2]); }
            Iv nlr = { -lr.hi, -lr.lo };
            for (size_t j = 0; j < np; j++) {
                Iv d, base = iv(pk[j]);
                switch (K) {
                case OPT_SGD: d = nlr * g[j]; break;
                case OPT_ADAGRAD: r[j] = r[j] + ivsq(g[j]); d = g[j] * (nlr / (iv(1e-7f) + ivsqrt(r[j]))); break;
                case OPT_RMSPROP: r[j] = iv(hp[1]) * r[j] + (iv(1) - iv(hp[1])) * ivsq(g[j]); d = g[j] * (nlr / (iv(1e-7f) + ivsqrt(r[j]))); break;
                default: ss[j] = iv(hp[1]) * ss[j] + (iv(1) - iv(hp[1])) * g[j]; r[j] = iv(hp[2]) * r[j] + (iv(1) - iv(hp[2])) * ivsq(g[j]);
                    d = nlr * (ss[j] / (iv(1) - b1t)) / (ivsqrt(r[j] / (iv(1) - b2t)) + iv(1e-8f)); if (hp[3] > 0) d = d - iv(hp[3]) * base; break;
                }
                // float underflow in the squares
                d = widen(d, 0, 1e-37);
                if (mom > 0) v[j] = v[j] + d;
                expect[j] = base + (mom > 0 && !nest ? v[j] : d);
            }
            double wide = 0; for (size_t j = 0; j < np; j++) wide = std::max(wide, expect[j].hi - expect[j].lo); if (wide > 1e-3) PROBE("wide interval in an update check");
            PROBE("minibatch update checked");
        }
        if (live && finite_all(E.end)) { inside(s, E.end, expect, (int)e, nb - 1, "after"); for (size_t j = 0; j < np; j++) expect[j] = iv(E.end[j]); } else { if (live) overflowed(E.end, (int)e, nb - 1, "after"); live = false; }
        if (w.res && finite_all(E.end)) {
            for (auto &q : E.evalsnaps) CHECK(same_bits(q, E.end), "evaluated-elsewhere", "session %d, epoch %zu: the metrics were evaluated with other parameters than the epoch ended with", s->id, e);
            raw_set(s->ref, E.end.data());
            auto cmp = [&](const float *res, int cnt, const float *x, const float *y, const char *what) {
                vector<int> ms = s->ms; vector<float> vals(res, res + n_slots(s));
                if (s->spypos >= 0) { double want = 0, mag = 0; for (int i = 0; i < cnt; i++) { SUT(neuralnet_predict(s->ref, x + (size_t)i * ni, buf)); double t = 0; for (int q = 0; q < no; q++) { double c = buf[q] * 0.5 + y[(size_t)i * no + q] * 0.25; t += c; mag += std::fabs(buf[q] * 0.5) + std::fabs(y[(size_t)i * no + q] * 0.25); } want += t; }
                    CHECK(!(mag <= 3e38) || std::isnan(want) || std::fabs(vals[s->spypos] - want / cnt) <= (cnt + no + 4) * 2 * U * mag / cnt + 1e-37, "wrong-result", "session %d, epoch %zu: user metric at slot %d on the %s set is %.9g, should be %.9g", s->id, e, s->spypos, what, vals[s->spypos], want / cnt);
                    vals.erase(vals.begin() + s->spypos); }
                char who[80]; snprintf(who, sizeof who, "session %d, epoch %zu, %s set", s->id, e, what); check_eval(s->ref, s->n, cnt, x, y, ms, vals.data(), who);
            };
            cmp(E.results.data(), n, s->X, s->Y, "training"); if (E.nv) cmp(E.results.data() + n_slots(s), E.nv, s->VX, s->VY, "validation");
        }
        if (w.cb) {
            size_t mi = s->monitor >= 0 ? (size_t)s->monitor : E.nv ? n_slots(s) : 0; float sc = mi < E.results.size() ? E.results[mi] : NAN;
            if (s->es) { bool st = em.epoch(sc), st2 = em2.epoch(sc); CHECK(st == E.stop || st2 == E.stop, "early-stopping", "session %d: early stopping after epoch %zu says %d, the history of this session gives %d (patience %d)", s->id, e, E.stop, st, s->patience); }
            if (s->mcp) {
                if (bm.epoch(sc)) best = E.end;
                if (bm2.epoch(sc)) best2 = E.end;
                bool alt = !same_bits(best, best2) && (best2.empty() ? !E.ckexists : E.ckexists && check_npz_is_net(E.ck, s->n, best2).empty());
                if (!best.empty() && !alt) { CHECK(E.ckexists, "checkpoint-missing", "session %d: no checkpoint after epoch %zu", s->id, e); string er = check_npz_is_net(E.ck, s->n, best); CHECK(er.empty(), "wrong-checkpoint", "session %d: the checkpoint after epoch %zu is not the best model of this session: %s", s->id, e, er.c_str()); }
            }
            if (s->log) { LogEntry le; le.epoch = s->logstart + (int)e; for (int ph = 0; ph <= (E.nv > 0); ph++) for (size_t i = 0; i < n_slots(s); i++) { le.names.push_back((ph ? "val_" : "") + string(metric_name[s->ms[i]])); le.vals.push_back(E.results[ph * n_slots(s) + i]); } logs.push_back(le); }
        }
    }
    if (w.cb && s->log) { vector<uint8_t> t; bool ok = disk_get(s->logfile.c_str(), t); CHECK(ok || logs.empty(), "log-missing", "session %d: no log file", s->id); string er = check_log(string(t.begin(), t.end()), logs, false); CHECK(er.empty(), "wrong-log", "session %d: %s", s->id, er.c_str()); }
    if (shuffled >= 2) CHECK(identity < shuffled, "no-shuffle", "session %d: %d epochs with shuffling all took the samples in dataset order", s->id, shuffled);
    SUT(neuralnet_free(s->ref)); gfree(buf);
}
static void train_run() {
    register_custom(); done_ = new vector<Session *>; nestq = nullptr;
    const string &pr = P->prop; Want w; bool c8 = pr == "C08"; w.perm = pr == "C05" || c8; w.upd = pr == "C04" || pr == "C06" || pr == "C07" || c8; w.res = pr == "C19" || c8; w.cb = c8;
    int mode = (int)P->get("mode");
    if (mode == 1) {
        PROBE("sessions in concurrent threads");
        if (!P->get("startin")) for (int k = 0; k < NS; k++) { bool used = false; for (auto &o : P->ops) used |= o.at(0) % NS == k; if (used) start_session(k); }
        for (int k = 0; k < NS; k++) { bool used = false; for (auto &o : P->ops) used |= o.at(0) % NS == k; if (used) spawn([k] { for (auto &o : P->ops) if (o.at(0) % NS == k) run_op(o); }, "session"); }
        join_all();
    } else if (mode == 2) {
        nestq = new std::deque<Op>; for (auto &o : P->ops) if (o.at(0) % NS != 0) nestq->push_back(o);
        for (auto &o : P->ops) if (o.at(0) % NS == 0) { S->res.cur_op++; run_op(o); }
        auto *q = nestq; nestq = nullptr; while (!q->empty()) { Op o = q->front(); q->pop_front(); run_op(o); }
    } else for (auto &o : P->ops) { S->res.cur_op++; run_op(o); }
    for (int k = 0; k < NS; k++) end_session(k);
    for (auto s : *done_) verify(s, w);
    run_atexit();
}

// ------------------------------------------------------------------ generators
static int est_steps(Plan &p, int k, int samples) { string q = pre(k); int64_t np = 0; for (int i = 0; i < p.get((q + "nl").c_str()); i++) np += (p.get((q + "s" + std::to_string(i)).c_str()) + 1) * p.get((q + "s" + std::to_string(i + 1)).c_str()); return (int)(samples * (np / 3 + 60)); }
static void one_session(Rng &r, Plan &p, const NetOpt &o, int kind, int maxn, bool plain, int epochs) {
    gen_session(r, p, 0, o, kind, maxn, plain); p.set["nontrivial"] = 1; int tot = 0;
    bool same = r.chance(0.4); int n0 = (int)r.range(1, maxn);
    for (int e = 0; e < epochs; e++) { int n = same ? n0 : r.chance(0.3) ? n0 : (int)r.range(1, maxn); tot += n; p.ops.push_back({ "epoch", { 0, n, r.chance(0.5) ? 0 : r.chance(0.15) ? n : r.range(1, 9), r.chance(0.2) ? (int64_t)r.below(2) : -1 } }); }
    p.set["team"] = gen_callers(r, 5); p.set["teamdyn"] = r.chance(0.15);
    gen_sched(r, p, est_steps(p, 0, tot));
}
// now and then a long history of a very small network
static bool long_session(Rng &r, Plan &p, int kind, bool plain, int maxn, int epochs) { if (!r.chance(0.012)) return false; NetOpt o; o.train = true; o.maxl = 2; o.maxsize = 2; o.maxparams = 8; one_session(r, p, o, kind, maxn, plain, epochs); p.set["team"] = r.range(1, 3); return true; }
static void grad_gen(Rng &r, Plan &p) { if (long_session(r, p, OPT_SGD, true, (int)r.range(50, 400), 1)) { p.set["q0bs"] = r.range(1, 400); p.set["team"] = gen_callers(r, 8); return; } NetOpt o; o.train = true; o.custom = r.chance(0.1); o.maxl = 3; o.maxsize = r.chance(0.25) ? 40 : 17; o.maxparams = 500; one_session(r, p, o, r.chance(0.8) ? OPT_SGD : (int)r.below(4), (int)r.range(1, 20), true, (int)r.range(1, 2)); }
static void epoch_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = true; o.maxl = 2; o.maxsize = 4; o.maxparams = 24; int maxn = r.chance(0.2) ? (int)r.range(60, 200) : (int)r.range(1, 40); if (r.chance(0.008)) { maxn = r.chance(0.8) ? (int)r.range(200, 5000) : (int)r.range(32000, 70000); o.maxl = 1; o.maxsize = 1; one_session(r, p, o, (int)r.below(4), maxn, false, 1); p.ops[0].a[1] = maxn; p.set["q0bs"] = r.chance(0.5) ? r.range(50, 1000) : r.range(50, maxn); p.set["team"] = r.range(1, 3); return; }
    one_session(r, p, o, (int)r.below(4), maxn, false, (int)r.range(1, 6)); p.set["team"] = r.range(1, 3);
    if (r.chance(0.4)) { p.set["rburst"] = r.range(1, 400); p.set["rfrom"] = r.chance(0.5) ? 0 : r.below(60); p.set["rmode"] = r.below(6); }
    if (r.chance(0.35)) {   // a second optimizer takes part
        gen_session(r, p, 1, o, (int)r.below(4), maxn, false); vector<Op> ops; int n0 = (int)p.ops[0].at(1);
        for (auto &op : p.ops) { ops.push_back(op); if (r.chance(0.7)) ops.push_back({ "epoch", { 1, r.chance(0.5) ? n0 : r.range(1, maxn), 0, -1 } }); }
        if (r.chance(0.3)) { ops.push_back({ "end", { 0 } }); ops.push_back({ "epoch", { 0, n0, 0, -1 } }); }
        p.ops = ops;
    }
}
static void sgd_gen(Rng &r, Plan &p) { if (long_session(r, p, OPT_SGD, false, 80, (int)r.range(3, 14))) { p.set["q0bs"] = r.range(1, 3); return; } NetOpt o; o.train = true; o.maxl = 3; o.maxsize = r.chance(0.2) ? 33 : 12; o.maxparams = 260; one_session(r, p, o, OPT_SGD, (int)r.range(1, 14), false, (int)r.range(1, 5)); }
static void adapt_gen(Rng &r, Plan &p) { if (long_session(r, p, 1 + (int)r.below(3), false, 80, (int)r.range(3, 14))) { p.set["q0bs"] = r.range(1, 3); return; } NetOpt o; o.train = true; o.maxl = 3; o.maxsize = r.chance(0.2) ? 33 : 12; o.maxparams = 260; one_session(r, p, o, 1 + (int)r.below(3), (int)r.range(1, 14), false, (int)r.range(1, 5));
    if (r.chance(0.3)) { p.ops.push_back({ "end", { 0 } }); p.ops.push_back({ "epoch", { 0, r.range(1, 10), 0, -1 } }); } }
static void result_gen(Rng &r, Plan &p) { NetOpt o; o.train = true; o.custom = r.chance(0.1); o.maxl = 3; o.maxsize = r.chance(0.2) ? 33 : 16; o.maxparams = 400; one_session(r, p, o, (int)r.below(4), (int)r.range(1, 20), false, (int)r.range(1, 4)); p.set["q0cb"] = r.below(8); p.set["q0patience"] = r.below(3); p.set["q0monitor"] = -1; }
static void iso_gen(Rng &r, Plan &p) {
    p.set["nontrivial"] = 1; int mode = (int)r.below(5); mode = mode >= 3 ? 0 : mode; p.set["mode"] = mode; int ns = (int)r.range(2, NS); bool samekind = r.chance(0.6), samen = r.chance(0.5); int kind = (int)r.below(4), n0 = (int)r.range(1, 10), tot = 0;
    p.set["startin"] = mode == 1 && r.chance(0.5); p.set["init"] = r.chance(0.5);
    for (int k = 0; k < ns; k++) { NetOpt o; o.train = true; o.maxl = 2; o.maxsize = r.chance(0.2) ? 20 : 8; o.maxparams = 120; o.custom = r.chance(0.25); gen_session(r, p, k, o, samekind ? kind : (int)r.below(4), 12, false); string q = pre(k); p.set[q + "cb"] = r.below(8); p.set[q + "patience"] = r.below(3); p.set[q + "greater"] = r.chance(0.4); p.set[q + "monitor"] = -1; p.set[q + "logstart"] = r.chance(0.3) ? r.range(1, 200) : 0; if (r.chance(0.3)) p.set[q + "metr"] = 0; }
    if (mode != 1 && r.chance(0.25)) {          // one after the other: the next one may get the memory of the last one
        p.set["mode"] = 0; p.set["reuse"] = 100; int c = (int)r.range(2, 6); for (int i = 0; i < c; i++) { int k = i % ns, q = (int)r.range(1, 2); while (q--) { int n = samen ? n0 : (int)r.range(1, 12); tot += n; p.ops.push_back({ "epoch", { k, n, r.chance(0.5) ? 0 : r.range(1, 5), -1 } }); } p.ops.push_back({ "end", { k } }); }
        p.set["team"] = r.range(1, 4); gen_sched(r, p, est_steps(p, 0, tot)); return;
    }
    int nops = (int)r.range(ns, 9);
    for (int i = 0; i < nops; i++) { int k = i < ns ? i : (int)r.below(ns); if (i >= ns && r.chance(0.12)) p.ops.push_back({ "end", { k } }); int n = samen ? n0 : (int)r.range(1, 12); tot += n; p.ops.push_back({ "epoch", { k, n, r.chance(0.5) ? 0 : r.range(1, 5), -1 } }); }
    p.set["team"] = mode == 1 ? r.range(1, 3) : r.range(1, 4); gen_sched(r, p, est_steps(p, 0, tot));
}
#define SHR1(q) {q "nl", 1}, {q "bs", 1}, {q "metr", 1}, {q "cb", 0}, {q "s0", 1}, {q "s1", 1}, {q "s2", 1}, {q "s3", 1}, {q "shuf", 0}, {q "prog", 0}
static const vector<std::pair<const char *, int64_t>> SH = { {"team", 1}, SHR1("q0"), SHR1("q1"), SHR1("q2"), {"rburst", 0}, {"init", 0} };
Scenario sc_grad = { "gradient", grad_gen, train_run, nullptr, REAL_T, STUB_T, "one session, 1-2 epochs of up to 20 samples, teams of 1-5, every minibatch compared with the mean of solo gradients; nontrivial: every run", SH };
Scenario sc_epoch = { "epoch", epoch_gen, train_run, nullptr, REAL_T, STUB_T, "1-6 epochs of up to 200 (sometimes 70000) samples with changing dataset sizes, extreme random streams, one or two optimizers; nontrivial: every run", SH };
Scenario sc_sgd = { "sgd", sgd_gen, train_run, nullptr, REAL_T, STUB_T, "1-5 epochs of SGD with random hyper-parameters, every minibatch step compared with the rule; nontrivial: every run", SH };
Scenario sc_adapt = { "adaptive", adapt_gen, train_run, nullptr, REAL_T, STUB_T, "1-5 epochs of Adagrad, RMSprop or Adam with random hyper-parameters, every minibatch step compared with the rule; nontrivial: every run", SH };
Scenario sc_result = { "results", result_gen, train_run, nullptr, REAL_T, STUB_T, "1-4 epochs with and without validation set, with callbacks and a recording metric; nontrivial: every run", SH };
Scenario sc_iso = { "isolation", iso_gen, train_run, nullptr, REAL_T, STUB_T, "2-3 sessions interleaved, nested, in sequence or concurrent, each with callbacks; nontrivial: every run", SH };
}
