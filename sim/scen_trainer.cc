// A whole training program: data and network from files, epochs with log, checkpoint and early stopping, its
// result back to files; killed, stopped by failures, and started again from its files.
#include "scen.h"
#include "models.h"

namespace sim {
using std::string; using std::vector;
constexpr size_t TRMAX = 256 << 10; constexpr int TRP = 8000, TRRES = 160;
struct TrFile { bool pend, ex, may; size_t n; uint8_t before[TRMAX]; float par[TRP]; };     // a file being replaced: what it was, what it is to be
struct TrModel { LogModel log; bool init, done, left; int op, tries, session; TrFile best, fin; bool hasbest; float bestpar[TRP]; bool logpend, valid; float res[TRRES]; bool haspred; };
static const char *BESTF = "best.npz", *FINF = "final.npz", *PREDF = "pred.npy";
static const char *PARTS[4] = { "train_x", "train_y", "valid_x", "valid_y" };
struct TrData { int n, nv, ni, no; vector<float> d[4]; size_t rows(int i) const { return i < 2 ? n : nv; } size_t cols(int i) const { return i & 1 ? no : ni; } };
static TrData tr_data(const NetSpec &N) {
    TrData t; t.n = (int)std::max<int64_t>(1, P->get("n", 3)); t.nv = (int)std::max<int64_t>(0, P->get("nv")); t.ni = N.s[0]; t.no = N.s[N.nl]; Rng r(mix(P->get("dseed"), 21));
    for (int i = 0; i < 4; i++) { t.d[i].resize(t.rows(i) * t.cols(i)); if (i & 1) for (size_t k = 0; k < t.rows(i); k++) gen_target(r, &t.d[i][k * t.no], t.no, N.loss); else gen_input(r, t.d[i].data(), (int)t.d[i].size()); }
    return t;
}
static vector<float> tr_init(const NetSpec &N) { vector<float> p(spec_params(N)); Rng r(mix(N.wseed, 5)); size_t off = 0; for (int l = 0; l < N.nl; l++) { double sc = N.wscale * 0.01 / std::sqrt((double)N.s[l]); size_t k = (size_t)(N.s[l] + 1) * N.s[l + 1]; for (size_t i = 0; i < k; i++) p[off + i] = (float)(r.normal() * sc); off += k; } return p; }
static void tr_expect(TrFile &f, const char *name, bool may, const vector<float> &par) { vector<uint8_t> b; f.ex = disk_get(name, b); if (b.size() > TRMAX || par.size() > TRP) harness_error("file too big for the model"); f.n = b.size(); memcpy(f.before, b.data(), b.size()); f.may = may; memcpy(f.par, par.data(), 4 * par.size()); f.pend = true; }
// after a call or a death: whether the file is the new one now; anything but the old or the new one is torn
static bool tr_judge(TrFile &f, const char *name, const NetSpec &N, const char *when, string *why) {
    f.pend = false; vector<uint8_t> b; bool ex = disk_get(name, b), old = ex == f.ex && b.size() == f.n && !memcmp(b.data(), f.before, f.n); vector<float> par(f.par, f.par + spec_params(N)); *why = ex ? check_npz_is_net(b, N, par) : "there is no file";
    CHECK(old || why->empty(), "torn-file", "%s %s is neither what it was nor the network: %s", when, name, why->c_str()); CHECK(f.may || old, "wrong-checkpoint", "%s %s was replaced by a network that is not better", when, name); return why->empty() && (f.may || old);
}
static const char *TW = "(the harness's twin)";
static bool tr_session(TrModel &M) {
    NetSpec N = get_net("a"); TrData D = tr_data(N); size_t np = spec_params(N); int nv = D.nv, kind = (int)P->get("kind") % 4, bs = (int)std::max<int64_t>(1, P->get("bs", 1)); bool shuf = P->get("shuf"), nostd = P->get("nostd"); int src = (int)P->get("src"), perm = (int)P->get("perm");
    uint64_t s0 = arena_serial(), f0 = faults_so_far(); int deaths0 = (int)S->res.crashes; out_mark(); M.session++;
    auto faulted = [&](uint64_t since) { return faults_so_far() != since || P->has("diskcap"); };
    npy_array_t *arr[4] = {}; npy_array_list_t *list = nullptr; neuralnet_t *nn = nullptr, *tn = nullptr; optimizer_t *opt = nullptr, *topt = nullptr; callback_t *log = nullptr, *es = nullptr, *mcp = nullptr; float *T[4] = {};
    auto gone = [&](const char *what, uint64_t since) { NoFaults nf; string e = take_stderr(); CHECK(faulted(since), "failed-without-cause", "run %d: %s failed though nothing went wrong: %.200s", M.session, what, e.c_str()); CHECK(!e.empty(), "silent-failure", "run %d: %s failed and nothing was reported", M.session, what); PROBE("a run ended early and said why"); };
    auto cleanup = [&](bool result) {
        if (log) SUT(sut_cb_free(log)); if (es) SUT(sut_cb_free(es)); if (mcp) SUT(sut_cb_free(mcp)); if (opt) SUT(sut_opt_free(opt)); SUT(neuralnet_free(nn)); if (list) SUT(npy_array_list_free(list)); else for (auto a : arr) if (a) SUT(npy_array_free(a));
        NoFaults nf; if (topt) SUT(sut_opt_free(topt)); if (tn) SUT(neuralnet_free(tn)); for (auto t : T) if (t) gfree(t); run_atexit();
        vector<AllocInfo> v, mine; arena_live_list(v, s0); for (auto &a : v) if (a.sut) mine.push_back(a); if (!mine.empty()) violation("memory-leak", "run %d ended with %zu blocks of memory, the first of %zu bytes", M.session, mine.size(), mine[0].n);
        CHECK(open_handles() == 0, "handle-leak", "run %d ended with %s", M.session, open_handles_desc().c_str()); CHECK(lib_refs_total() == 0, "library-leak", "run %d ended with %d library handles", M.session, lib_refs_total());
        if (!S->res.crashes && !S->res.seam_faults[SE_REMOVE] && !S->res.seam_faults[SE_DISK]) for (auto &f : disk_list()) { bool known = f == BESTF || f == FINF || f == PREDF || f == LOGF || f == "init.npz" || f == "data.npz"; for (auto q : PARTS) known |= f == string(q) + ".npy"; CHECK(known, "stray-file", "run %d left a file %s", M.session, f.c_str()); }
        (void)deaths0; return result;
    };
    // ---- data
    float *X[4] = {};
    if (src == 0) { list = SUT(npy_array_list_load("data.npz")); if (!list) { gone("loading the data", f0); return cleanup(false); } auto *q = list; for (int i = 0; i < (nv ? 4 : 2); i++, q = q ? q->next : nullptr) { CHECK(q && q->array, "wrong-data", "run %d: the data file has fewer arrays than were stored in it", M.session); CHECK(q->filename && !strcmp(q->filename, (string(PARTS[i]) + (P->get("style") & 1 ? ".npy" : "")).c_str()), "wrong-data", "run %d: array %d of the data is named %s", M.session, i, q->filename ? q->filename : "(null)"); arr[i] = q->array; } CHECK(!q, "wrong-data", "run %d: the data file has more arrays than were stored in it", M.session); }
    else for (int i = 0; i < (nv ? 4 : 2); i++) { string fn = string(PARTS[i]) + ".npy"; arr[i] = src == 1 ? SUT(npy_array_load(fn.c_str())) : SUT(npy_array_mmap(fn.c_str())); if (!arr[i]) { gone("loading the data", f0); return cleanup(false); } }
    for (int i = 0; i < (nv ? 4 : 2); i++) { npy_array_t *a = arr[i]; CHECK(a->typechar == 'f' && a->elem_size == 4 && a->ndim == 2 && a->shape[0] == D.rows(i) && a->shape[1] == D.cols(i) && !a->fortran_order, "wrong-data", "run %d: %s has another type or shape than was stored", M.session, PARTS[i]); CHECK(!memcmp(a->data, D.d[i].data(), 4 * D.d[i].size()), "wrong-data", "run %d: %s was loaded with other values", M.session, PARTS[i]); X[i] = (float *)a->data; }
    // ---- network, optimizer, callbacks
    bool resume = disk_exists(BESTF); vector<float> par; if (resume) { CHECK(M.hasbest, "wrong-checkpoint", "run %d: there is a checkpoint though none was ever written", M.session); par.assign(M.bestpar, M.bestpar + np); } else par = tr_init(N);
    uint64_t f1 = faults_so_far(); nn = SUT(neuralnet_load(resume ? BESTF : "init.npz")); if (!nn) { gone(resume ? "loading the checkpoint" : "loading the network", f1); return cleanup(false); }
    { NoFaults nf; string d = net_diff(nn, N, par); if (!d.empty() && faulted(f1) && net_diff(nn, N, par, false).empty()) { gone("resolving an activation", f1); return cleanup(false); } CHECK(d.empty(), "wrong-network", "run %d loads %s as another network: %s", M.session, resume ? "its checkpoint" : "its network", d.c_str()); }
    f1 = faults_so_far(); SUT(neuralnet_set_loss(nn, loss_name[N.loss])); { bool der = true; for (int l = 0; l < N.nl; l++) der &= nn->layer[l].activation_derivative != nullptr || nn->layer[l].activation_func == nullptr; if (!der && faulted(f1)) { gone("resolving a derivative", f1); return cleanup(false); } }
    if (resume) PROBE("resumed from the checkpoint");
    vector<int> ms; if (P->get("nm")) for (int i = 0; i < std::min<int64_t>(P->get("nm"), 40); i++) ms.push_back((int)(mix(P->get("mseed"), i) % 7)); size_t nm = std::max<size_t>(1, ms.size()); metric_func *mf = nullptr;
    if (!ms.empty()) { mf = (metric_func *)arena_alloc(sizeof(metric_func) * (nm + 1), 16, 0, true); for (size_t i = 0; i < nm; i++) mf[i] = get_metric_func(metric_name[ms[i]]); mf[nm] = nullptr; } else ms.push_back(N.loss);
    static const float HPT[2][4][5] = { { { 0.05f, 0.01f, 0.5f, 1, 0 }, { 0.02f, 0.01f, 0, 0, 0 }, { 0.005f, 0.9f, 0, 0.5f, 0 }, { 0.005f, 0.9f, 0.99f, 0.01f, 0 } }, { { 0.01f, 0, 0, 0, 0 }, { 0.01f, 0, 0, 0, 0 }, { 0.001f, 0.9f, 0, 0, 0 }, { 0.001f, 0.9f, 0.999f, 1e-4f, 0 } } };
    const float *hp = HPT[P->get("hp") & 1][kind]; uint64_t rs = S->rand_state, rc = S->rand_calls; f1 = faults_so_far();
    opt = SUT(sut_opt_new(kind, nn, bs, shuf, mf, P->get("prog") ? progress_ascii : nullptr, hp)); if (!opt) { gone("creating the optimizer", f1); return cleanup(false); }
    bool twin = P->get("team", 1) == 1; uint64_t trs = rs, trc = rc;       // the random numbers of the twin
    if (twin) { NoFaults nf; uint64_t a = S->rand_state, b = S->rand_calls; S->rand_state = rs; S->rand_calls = rc; tn = try_create(N); raw_set(tn, par.data()); SUT(neuralnet_set_loss(tn, loss_name[N.loss])); topt = SUT(sut_opt_new(kind, tn, bs, shuf, mf, nullptr, hp)); CHECK(tn && topt, "create-failed", "%s", TW); trs = S->rand_state; trc = S->rand_calls; S->rand_state = a; S->rand_calls = b;
        for (int i = 0; i < (nv ? 4 : 2); i++) { T[i] = galloc<float>(D.d[i].size(), 64, (uintptr_t)X[i] & 60); memcpy(T[i], D.d[i].data(), 4 * D.d[i].size()); } out_mark(); }
    int patience = (int)P->get("patience", 2), mon = -1; bool gr = P->get("greater"); string t0 = log_text(); bool lex = disk_exists(LOGF);
    f1 = faults_so_far(); log = SUT(sut_logger_new(0, LOGF, nostd)); if (!log) { gone("creating the log", f1); return cleanup(false); } bool lf = faulted(f1); es = SUT(sut_es_new(patience, mon, gr)); mcp = SUT(sut_mcp_new(BESTF, mon, gr, (int)P->get("verbose"))); if (!es || !mcp) { gone("creating a callback", f1); return cleanup(false); }
    cand_set(M.log, continuations(M.log, t0, 0, lex, lf)); CHECK(log_text() == t0, "log-changed", "run %d changed the log before its first epoch", M.session); if (lex && M.session > 1) PROBE("numbering continues an earlier log");
    EsModel ea(patience, gr), eb(patience, gr, false); bool la = true, lb = true; BestModel ba(gr), bb(gr, false); bool lost = false; float saved = NAN; bool sf = false; vector<float> tres(2 * nm), p0, p1; bool stop = false;
    // ---- epochs
    for (; M.op < (int)P->ops.size() && !stop; M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op;
        if (op.name == "jump") { clock_jump(op.at(0)); continue; }
        if (op.name == "quit") { M.op++; PROBE("a run ended by itself, to be resumed"); return cleanup(false); }
        size_t slots = nm * (nv ? 2 : 1); Guard g(slots, 3); raw_params(nn, p0); { NoFaults nf; out_mark(); } rs = S->rand_state; rc = S->rand_calls; f1 = faults_so_far(); uint64_t so1 = S->res.seam_faults[SE_STDOUT];
        SUT(sut_opt_epoch(opt, D.n, X[0], X[1], nv, nv ? X[2] : nullptr, nv ? X[3] : nullptr, g.p)); string err; { NoFaults nf; err = take_stderr(); take_stdout(); } if (S->res.seam_faults[SE_STDOUT] != so1) sf = true; raw_params(nn, p1); CHECK(g.check().empty(), "wrote-outside", "run %d: results of an epoch with %zu values: %s", M.session, slots, g.check().c_str());
        for (int i = 0; i < (nv ? 4 : 2); i++) CHECK(!memcmp(X[i], D.d[i].data(), 4 * D.d[i].size()), "data-changed", "run %d: an epoch changed %s", M.session, PARTS[i]);
        bool trained = true;
        if (twin) {
            NoFaults nf; uint64_t a = S->rand_state, b = S->rand_calls; S->rand_state = shuf ? rs : trs; S->rand_calls = shuf ? rc : trc; bool untouched = same_bits(p0, p1) && faulted(f1) && !err.empty();
            if (untouched) { trained = twin = false; PROBE("epoch reported as not trained"); }
            else { SUT(sut_opt_epoch(topt, D.n, T[0], T[1], nv, nv ? T[2] : nullptr, nv ? T[3] : nullptr, tres.data())); vector<float> q; raw_params(tn, q); size_t at = 0; while (at < np && !memcmp(&p1[at], &q[at], 4)) at++;
                CHECK(at == np, "wrong-epoch", "run %d, epoch %d: %s ends with parameter %zu at %.9g, training with nothing else going on ends with %.9g", M.session, M.op, resume ? "the resumed run" : "the run", at, p1[at], q[at]);
                CHECK(err.empty() || faulted(f1), "noise", "run %d: an epoch wrote '%.100s'", M.session, err.c_str());
                for (size_t i = 0; i < slots; i++) CHECK(!memcmp(&g.p[i], &tres[i], 4) || (std::isnan(g.p[i]) && std::isnan(tres[i])) || (faulted(f1) && !err.empty()), "wrong-result", "run %d, epoch %d: result %zu is %.9g, with nothing else going on %.9g", M.session, M.op, i, g.p[i], tres[i]); PROBE("epoch as that of the undisturbed twin"); }
            S->rand_state = a; S->rand_calls = b; out_mark();
        }
        bool fin = true; for (float x : p1) fin &= std::fabs(x) < 1e12f;
        if (trained && fin && (err.empty() || !faulted(f1))) { NoFaults nf; neuralnet_t *q = tn; if (!q) { q = try_create(N); SUT(neuralnet_set_loss(q, loss_name[N.loss])); } vector<float> keep; raw_params(q, keep); raw_set(q, p1.data()); check_eval(q, N, D.n, D.d[0].data(), D.d[1].data(), ms, g.p, "training set"); if (nv) check_eval(q, N, nv, D.d[2].data(), D.d[3].data(), ms, g.p + nm, "validation set"); raw_set(q, keep.data()); if (!tn) SUT(neuralnet_free(q)); out_mark(); }
        vector<float> res(g.p, g.p + slots); float sc = res[nv ? nm : 0];
        for (int c = 0; c < 3; c++) {
            static const int ORD[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } }; uint64_t f2 = faults_so_far(), so = S->res.seam_faults[SE_STDOUT]; { NoFaults nf; out_mark(); }
            switch (ORD[perm % 6][c]) {
            case 0: { string t = log_text(); if (t.size() > LOGMAX) harness_error("log too long for the model"); M.log.beforeexists = disk_exists(LOGF); M.log.n = t.size(); memcpy(M.log.before, t.data(), t.size()); memcpy(M.res, res.data(), 4 * slots); M.valid = nv > 0; int64_t c0 = now_seconds(); M.logpend = true; SUT(sut_cb_run(log, opt, g.p, nv > 0)); M.logpend = false; int64_t c1 = now_seconds(); string out; { NoFaults nf; out = take_stdout(); } if (S->res.seam_faults[SE_STDOUT] != so) sf = true;
                log_check(M.log, opt, ms, res.data(), nv > 0, faults_so_far() - f2 != S->res.seam_faults[SE_STDOUT] - so || P->has("diskcap"), false, out, nostd, sf, c0, c1); break; }
            case 1: { SUT(sut_cb_run(es, opt, g.p, nv > 0)); bool st = SUT(sut_es_stop(es)), wa = ea.epoch(sc), wb = eb.epoch(sc); if (wa != st) la = false; if (wb != st) lb = false; CHECK(la || lb, "early-stopping", "run %d: after epoch %d with score %.9g the flag is %d, the history of this run gives %d (patience %d)", M.session, M.op, sc, st, wa, patience); if (st && P->get("obey")) stop = true; break; }
            default: { bool ia = ba.epoch(sc), ib = bb.epoch(sc), better = lost && !std::isnan(sc) && (std::isnan(saved) || (gr ? sc > saved : sc < saved)); string why; tr_expect(M.best, BESTF, ia || ib || better, p1); vector<float> prev(M.bestpar, M.bestpar + np); bool hadbest = M.hasbest; SUT(sut_cb_run(mcp, opt, g.p, nv > 0)); NoFaults nf; string diag = take_stderr(); bool neu = tr_judge(M.best, BESTF, N, "after an epoch", &why);
                if (S->res.seam_faults[SE_STDOUT] != so) sf = true;
                if (neu && (ia || ib || better)) { M.hasbest = true; memcpy(M.bestpar, p1.data(), 4 * np); lost = false; saved = sc; PROBE("new best saved"); }
                else if (ia && ib) { CHECK(faulted(f2), "checkpoint-missed", "run %d: epoch %d with score %.9g is the best of this run so far and was not saved: %s", M.session, M.op, sc, why.c_str()); CHECK(!diag.empty(), "silent-failure", "run %d: a checkpoint failed and nothing was reported", M.session); lost = true; PROBE("failed checkpoint reported, training goes on"); }
                else CHECK(hadbest || !disk_exists(BESTF), "wrong-checkpoint", "run %d: a checkpoint out of nowhere", M.session);
                break; }
            }
            vector<float> now; raw_params(nn, now); CHECK(same_bits(now, p1), "callback-changed-parameters", "run %d: a callback changed the parameters", M.session); CHECK(!memcmp(res.data(), g.p, 4 * slots) && g.check().empty(), "callback-changed-results", "run %d: a callback changed the results", M.session);
        }
        PROBE("epoch trained, evaluated, logged and checkpointed");
    }
    if (stop) { M.op = (int)P->ops.size(); PROBE("stopped early"); }
    // ---- the result
    raw_params(nn, p1); { NoFaults nf; out_mark(); } f1 = faults_so_far(); string why; tr_expect(M.fin, FINF, true, p1); SUT(neuralnet_save(nn, "%s", FINF)); bool ok; { NoFaults nf; ok = tr_judge(M.fin, FINF, N, "after the final save", &why); if (!ok) { gone("saving the result", f1); } }
    if (ok && P->get("pred")) {      // predictions to an array file
        float *yp = galloc<float>((size_t)D.n * D.no); SUT(neuralnet_predict_batch(nn, D.n, X[0], yp)); { NoFaults nf; out_mark(); if (!strstr(sut_variant, "blas")) for (int i = 0; i < D.n; i++) { float *y = yp + (size_t)i * D.no; vector<float> was(y, y + D.no); SUT(neuralnet_predict(nn, X[0] + (size_t)i * D.ni, y)); CHECK(!memcmp(y, was.data(), 4 * D.no), "wrong-prediction", "run %d: row %d of the batch is not the prediction of that row", M.session, i); } out_mark(); }
        npy_array_t a; size_t sh[2] = { (size_t)D.n, (size_t)D.no }; sut_npy_fill(&a, yp, 2, sh, 'f', 4, 0); f1 = faults_so_far(); SUT(npy_array_save(PREDF, &a)); NoFaults nf; vector<uint8_t> f; NpyArr b; string e = "there is no file"; bool good = disk_get(PREDF, f) && npy_parse(f, b, &e) && b.shape.size() == 2 && b.shape[0] == sh[0] && b.shape[1] == sh[1] && b.data.size() == 4ul * D.n * D.no && !memcmp(b.data.data(), yp, b.data.size());
        gfree(yp); if (!good) { gone("saving the predictions", f1); ok = false; } else PROBE("predictions saved");
    }
    return cleanup(ok);
}
static void tr_run() {
    register_custom(); TrModel &M = model<TrModel>(); NetSpec N = get_net("a"); clock_stop(true);
    if (!M.init) {
        M.init = true; NoFaults nf; TrData D = tr_data(N); Rng r(mix(P->get("dseed"), 4)); auto z = net_npz(N, tr_init(N), r, true); disk_put("init.npz", z.data(), z.size()); vector<NpzMember> m; int style = (int)P->get("style");
        for (int i = 0; i < (D.nv ? 4 : 2); i++) { NpyArr a; a.descr = "<f4"; a.shape = { D.rows(i), D.cols(i) }; a.data.assign((uint8_t *)D.d[i].data(), (uint8_t *)(D.d[i].data() + D.d[i].size())); auto b = npy_bytes(a, 0); if (P->get("src")) disk_put((string(PARTS[i]) + ".npy").c_str(), b.data(), b.size()); else m.push_back({ string(PARTS[i]) + (style & 1 ? ".npy" : ""), b, style & 2 ? 8 : 0 }); }
        if (!P->get("src")) { auto q = zip_bytes(m, style & 4 ? 1 : 0); disk_put("data.npz", q.data(), q.size()); }
        size_t ep = 0; for (auto &op : P->ops) ep += op.name == "epoch"; apply_diskcap(2 * (spec_params(N) * 4 + 1500) + ep * 80);
    } else {
        NoFaults nf; string why;
        if (M.best.pend) { PROBE("died in a checkpoint"); if (tr_judge(M.best, BESTF, N, "after the program died in a checkpoint", &why)) { M.hasbest = true; memcpy(M.bestpar, M.best.par, sizeof M.bestpar); } }
        if (M.fin.pend) { PROBE("died in the final save"); tr_judge(M.fin, FINF, N, "after the program died in its final save", &why); }
        if (M.logpend) { M.logpend = false; PROBE("died in the log"); neuralnet_t *nn = build_net(N, false); vector<int> ms; for (int i = 0; i < std::min<int64_t>(P->get("nm"), 40); i++) ms.push_back((int)(mix(P->get("mseed"), i) % 7)); if (ms.empty()) ms.push_back(N.loss); vector<metric_func> mf; for (int x : ms) mf.push_back(get_metric_func(metric_name[x])); mf.push_back(nullptr); optimizer_t *o = sut_opt_fake(nn, mf.data()); log_check(M.log, o, ms, M.res, M.valid, true, true, "", true, true, 0, 0); sut_opt_fake_free(o); SUT(neuralnet_free(nn)); }
        M.tries++;
    }
    if (M.tries > 8) { P->faults.clear(); S->disk.cap = 0; P->set.erase("diskcap"); }      // faults stop: the program gets to its end
    bool ok = tr_session(M); if (!ok) { if (M.tries > 60) violation("no-progress", "the program does not get to its end though nothing fails any more"); restart_clean(); }
    vector<uint8_t> z; CHECK(disk_get(FINF, z), "result-missing", "the program ended without its result");
}
static void tr_gen(Rng &r, Plan &p) {
    NetOpt o; o.train = true; o.maxl = 3; o.maxsize = r.chance(0.2) ? 20 : 8; o.maxparams = r.chance(0.2) ? 700 : 140; o.custom = r.chance(0.15); o.wide = o.deep = 0.01; gen_net(r, p, o, "a"); p.set["awscale"] = r.range(20, 80); if (p.set["aloss"] == L_MAPE) p.set["aloss"] = L_MSE; { int nl = (int)p.set["anl"]; string q = "aa" + std::to_string(nl - 1); if (p.set[q] == A_SOFTMAX && p.set["aloss"] != L_CCE) p.set[q] = A_TANH; }
    p.set["n"] = r.range(1, 14); p.set["nv"] = r.chance(0.4) ? 0 : r.range(1, 6); p.set["dseed"] = r.below(1u << 30); p.set["mseed"] = r.below(1u << 30); p.set["nm"] = r.chance(0.25) ? 0 : r.chance(0.9) ? r.range(1, 4) : r.range(5, 40); p.set["kind"] = r.below(4); p.set["bs"] = r.range(1, 8); p.set["hp"] = r.chance(0.25); p.set["shuf"] = r.chance(0.6); p.set["prog"] = r.chance(0.2); p.set["nostd"] = r.chance(0.5); p.set["src"] = r.chance(0.5) ? 0 : r.range(1, 2); p.set["style"] = r.below(8); p.set["perm"] = r.below(6); p.set["patience"] = r.range(0, 3); p.set["greater"] = r.chance(0.25); p.set["verbose"] = r.chance(0.2); p.set["obey"] = r.chance(0.7); p.set["pred"] = r.chance(0.4); p.set["team"] = r.chance(0.85) ? 1 : r.range(2, 3); p.set["outmode"] = r.below(4); if (r.chance(0.3)) p.set["shortread"] = r.range(1, 300); if (r.chance(0.3)) p.set["iobuf"] = r.range(8, 500); p.set["nontrivial"] = 0;
    int n = (int)(r.chance(0.12) ? r.range(8, 14) : r.range(1, 7)); for (int i = 0; i < n; i++) { if (r.chance(0.12)) p.ops.push_back({ "quit", {} }); if (r.chance(0.1)) p.ops.push_back({ "jump", { r.range(-90000, 90000) } }); p.ops.push_back({ "epoch", {} }); }
    if (p.set["team"] > 1) gen_sched(r, p, n * 3000);
}
static void tr_faults(Rng &r, Plan &p, const Result &d) {
    rand_faults(r, p, d, F_CRASH | F_ERR | F_MALLOC | F_SHORT | F_CAP | F_STDOUT, 0.15); int k = (int)r.below(3); while (k--) one_fault(r, p, d, F_CRASH);
    if (r.chance(0.2)) { static const int s[] = { SE_MALLOC, SE_RAND, SE_TIME }; int q = r.pick(s); if (d.seam_calls[q]) p.faults.push_back({ q, 1 + (int64_t)r.below(d.seam_calls[q]), FA_CRASH, 0, 0 }); }
}
Scenario sc_trainer = { "trainer", tr_gen, tr_run, tr_faults, "the whole library: array files, network files, optimizers, evaluation, log, checkpoint, early stopping, libzip and zlib", "file system, clock, allocator, rand, terminal, thread scheduler (simulated); the program itself is the harness's, written like examples/general-trainer.c", "a training program of 1-14 epochs, killed at any operation, stopped by itself or by failing storage and memory, and started again from its files until it gets to its end; nontrivial: a fault or restart happened", { {"anl", 1}, {"as0", 1}, {"as1", 1}, {"as2", 1}, {"as3", 1}, {"aa0", 0}, {"aa1", 0}, {"aa2", 0}, {"n", 1}, {"nv", 0}, {"nm", 0}, {"bs", 1}, {"prog", 0}, {"src", 0}, {"style", 0}, {"perm", 0}, {"pred", 0}, {"shuf", 0}, {"shortread", 0}, {"iobuf", 0}, {"team", 1} } };
}
