// Callbacks and progress: early stopping, checkpoint, log, progress display.
#include "scen.h"
#include "models.h"

namespace sim {
using std::string; using std::vector;
static const char *STUB_C = "file system, clock, terminal, allocator, thread scheduler (simulated); the optimizer the callback reads carries only the network and the metrics";

static metric_func *metric_list(const vector<int> &ms) {
    metric_func *m = (metric_func *)arena_alloc(sizeof(metric_func) * (ms.size() + 1), 16, 0, true);
    for (size_t i = 0; i < ms.size(); i++) m[i] = get_metric_func(metric_name[ms[i]]);
    m[ms.size()] = nullptr; return m;
}
static neuralnet_t *tiny_net() { NetSpec n; n.nl = 1; n.s[0] = 2; n.s[1] = 1; return build_net(n, false); }
// scores: ties, neighbours, undefined and infinite values; v is the code of the operation
static float score_of(int pal, int64_t v) {
    static const float special[] = { 0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, NAN, -NAN, 3.402823466e38f, -3.402823466e38f, 1e-45f, -1e-45f, 0.5f, 0.50000006f, 0.49999997f, 2.0f };
    uint64_t u = mix((uint64_t)v, 77);
    switch (pal) {
    case 0: return (float)(int)(v % 4);                                   // many ties
    case 1: { float x = 0.5f; for (int i = 0; i < v % 5; i++) x = std::nextafterf(x, 1.0f); return x; }
    case 2: return special[v % 16];
    case 3: return (float)((double)(u % 100000) * 1e-3);
    case 4: { uint32_t b = (uint32_t)u; float f; memcpy(&f, &b, 4); return f; }   // any bit pattern
    case 5: return v % 3 ? (float)(v % 6) : NAN;
    default: return v % 7 == 0 ? special[v / 7 % 16] : -2.0f + (float)(u % 9);
    }
}
constexpr int NPAL = 7;

// ------------------------------------------------------------------ C15: early stopping
struct EsState { callback_t *cb = nullptr; EsModel a{0, false}, b{0, false}; bool la = true, lb = true; int epochs = 0, since = 0; };
static void es_fresh(EsState &e, int k) {
    string q = "i" + std::to_string(k); int pat = (int)P->get((q + "pat").c_str(), 1), mon = (int)P->get((q + "mon").c_str(), -1); bool gr = P->get((q + "gr").c_str());
    e.cb = SUT(sut_es_new(pat, mon, gr)); CHECK(e.cb, "create-failed", "early stopping could not be created");
    e.a = EsModel(pat, gr, true); e.b = EsModel(pat, gr, false); e.la = e.lb = true; e.epochs = 0;
    CHECK(!SUT(sut_es_stop(e.cb)), "early-stopping", "instance %d stops before its first epoch", k);
}
static int es_monitor(int k, int nm, bool valid) { int m = (int)P->get(("i" + std::to_string(k) + "mon").c_str(), -1); int n = nm * (valid ? 2 : 1); return m < 0 ? (valid ? nm : 0) : m % n; }
static void es_op(EsState &e, int k, const Op &op, optimizer_t *o, int nm) {
    if (op.name == "renew") { if (e.cb) SUT(sut_cb_free(e.cb)); es_fresh(e, k); PROBE("instance replaced by a fresh one"); return; }
    if (!e.cb) es_fresh(e, k);
    int reps = (int)std::max<int64_t>(1, op.at(3, 1));
    for (int rep = 0; rep < reps; rep++) {
        bool valid = op.at(1) & 1; int n = nm * (valid ? 2 : 1); Guard g(n, 3); for (int i = 0; i < n; i++) g.p[i] = score_of(4, mix(op.at(2), i * 31 + rep) & 0xffffff);
        float sc = score_of((int)P->get("pal"), op.at(2) + (op.at(4) ? rep : 0)); int mi = P->get(("i" + std::to_string(k) + "mon").c_str(), -1) < 0 ? (valid ? nm : 0) : es_monitor(k, nm, valid); if (mi >= n) mi = 0;
        g.p[mi] = sc; vector<float> img(g.p, g.p + n);
        SUT(sut_cb_run(e.cb, o, g.p, valid)); bool st = SUT(sut_es_stop(e.cb));
        CHECK(!memcmp(img.data(), g.p, 4 * n) && g.check().empty(), "results-changed", "early stopping changed the results");
        ev("score", (uint64_t)(mi * 2 + st), (uint64_t)(uint32_t)(sc == sc ? sc * 64 : 7777)); bool wa = e.a.epoch(sc), wb = e.b.epoch(sc); e.epochs++;
        if (e.la && wa != st) e.la = false; if (e.lb && wb != st) e.lb = false;
        CHECK(e.la || e.lb, "early-stopping", "instance %d (patience %d, %s is better): after epoch %d with score %.9g the flag is %d, its history gives %d", k, e.a.patience, e.a.greater ? "greater" : "less", e.epochs, sc, st, wa);
        CHECK(SUT(sut_es_stop(e.cb)) == st, "early-stopping", "asking twice gives two answers");
        if (st) PROBE("stopping signalled"); else if (e.a.since > 0) PROBE("epoch without improvement within patience"); if (std::isnan(sc)) PROBE("undefined score");
    }
}
static void es_run() {
    int ni = (int)std::max<int64_t>(1, P->get("ni", 1)), nm = (int)std::max<int64_t>(1, P->get("nm", 1)); neuralnet_t *nn = tiny_net(); vector<int> ms; for (int i = 0; i < nm; i++) ms.push_back(i % 7);
    optimizer_t *o = sut_opt_fake(nn, metric_list(ms)); vector<EsState> e(ni);
    CHECK(!SUT(sut_es_stop(nullptr)), "early-stopping", "no instance at all signals a stop");
    if (P->get("mode") == 1) { for (int k = 0; k < ni; k++) spawn([&, k] { for (auto &op : P->ops) if (op.at(0) % ni == k) es_op(e[k], k, op, o, nm); }, "trainer"); join_all(); PROBE("instances in concurrent threads"); }
    else for (size_t i = 0; i < P->ops.size(); i++) { S->res.cur_op = (int)i; int k = (int)(P->ops[i].at(0) % ni); es_op(e[k], k, P->ops[i], o, nm); }
    for (auto &x : e) if (x.cb) SUT(sut_cb_free(x.cb));
    sut_opt_fake_free(o); SUT(neuralnet_free(nn)); run_atexit();
}
static void es_gen(Rng &r, Plan &p) {
    int ni = gen_callers(r, 3), nm = gen_callers(r, 4); p.set["ni"] = ni; p.set["nm"] = nm; p.set["pal"] = r.below(NPAL); p.set["mode"] = ni > 1 && r.chance(0.3); p.set["nontrivial"] = 1;
    int maxpat = 0; int both = r.chance(0.6) ? (int)r.below(2) : -1;                  // validation data in every epoch or in none, or changing
    for (int k = 0; k < ni; k++) { string q = "i" + std::to_string(k); static const int big[] = { 63, 64, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000 }; int pat = r.chance(0.78) ? (int)r.range(0, 6) : r.chance(0.7) ? (int)r.range(7, 40) : r.pick(big); maxpat = std::max(maxpat, pat); p.set[q + "pat"] = pat; p.set[q + "gr"] = r.below(2); p.set[q + "mon"] = r.chance(0.5) ? -1 : r.range(0, nm - 1 + (both == 1 ? nm : 0)); if (r.chance(0.06)) { p.set[q + "pat"] = 10; p.set[q + "gr"] = 0; p.set[q + "mon"] = -1; } }
    int n = (int)r.range(1, r.chance(0.3) ? 60 : 16);
    for (int i = 0; i < n; i++) { int k = (int)r.below(ni); if (r.chance(0.04)) p.ops.push_back({ "renew", { k } }); else p.ops.push_back({ "epoch", { k, both >= 0 ? both : (int64_t)r.below(2), r.range(0, 200), maxpat > 40 && r.chance(0.3) ? std::max<int64_t>(1, maxpat + r.range(-3, 3)) : maxpat > 6 && r.chance(0.2) ? r.range(1, maxpat + 3) : r.chance(0.1) ? r.range(2, 12) : 1, (int64_t)(maxpat > 40 ? r.chance(0.2) : r.below(2)) } }); }
    if (p.set["mode"]) gen_sched(r, p, n * 60);
}
Scenario sc_es = { "earlystop", es_gen, es_run, nullptr, "earlystopping, optimizer_get_n_metrics", STUB_C, "1-3 (sometimes 13) instances with their own patience, direction and monitor over up to 60 (sometimes 1000) epochs of tied, neighbouring, undefined and infinite scores, interleaved or in concurrent threads, instances replaced; nontrivial: every run", { {"ni", 1}, {"nm", 1}, {"mode", 0} } };

// ------------------------------------------------------------------ C14: checkpoint
constexpr int NCK = 3; constexpr size_t CKMAX = 200 << 10;
struct CkInst { bool on; BestModel a, b; bool la, lb, lost; float saved; };
struct CkModel { int op; bool init, pending, beforeexists, imp; int pk; int64_t pv; size_t n; uint8_t before[CKMAX]; };
static const char *CKPRE[2] = { "a", "b" };
static string ck_name(int k) { return k == 0 ? (P->get("fname") == 1 ? "dir/best.npz" : P->get("fname") == 2 ? "50%done %s.npz" : "best.npz") : k == 1 ? "checkpoint.npz" : "other.npz"; }
static callback_t *ck_new(int k) { static string nm[NCK]; nm[k] = ck_name(k); string q = "i" + std::to_string(k); callback_t *c = SUT(sut_mcp_new(k == 1 ? nullptr : nm[k].c_str(), (int)P->get((q + "mon").c_str(), -1), (int)P->get((q + "gr").c_str()), (int)P->get((q + "vb").c_str()))); CHECK(c, "create-failed", "the checkpoint callback could not be created"); return c; }
static void ck_fresh(CkInst &c, int k) { bool g = P->get(("i" + std::to_string(k) + "gr").c_str()); c.on = true; c.a = BestModel(g, true); c.b = BestModel(g, false); c.la = c.lb = true; c.lost = false; c.saved = NAN; }
static int64_t ck_variant(const Op &op) { return op.at(4); }
static vector<float> ck_params(const NetSpec &n0, int64_t v) { NetSpec n = n0; n.wseed = mix(n.wseed, 300 + v); vector<float> p(spec_params(n)); Rng r(n.wseed); for (auto &x : p) x = (float)(r.normal() * 0.5); if (v % 5 == 4) { uint32_t q = 0x7fc00001; memcpy(&p[r.below(p.size())], &q, 4); p[0] = INFINITY; } return p; }
static void ck_epoch(CkInst &c, callback_t *cb, int k, const Op &op, neuralnet_t *nn, const NetSpec &n, optimizer_t *o, int nm, CkModel *M) {
    bool valid = op.at(1) & 1; int cnt = nm * (valid ? 2 : 1); Guard g(cnt, 5); for (int i = 0; i < cnt; i++) g.p[i] = score_of(4, mix(op.at(2), i) & 0xffffff);
    int mon = (int)P->get(("i" + std::to_string(k) + "mon").c_str(), -1), mi = mon < 0 ? (valid ? nm : 0) : mon % cnt; float sc = score_of((int)P->get("pal"), op.at(2)); g.p[mi] = sc; vector<float> res(g.p, g.p + cnt);
    string t = ck_name(k); vector<float> par = ck_params(n, ck_variant(op)); raw_set(nn, par.data()); vector<uint8_t> img = net_image(nn), before, after; bool bex = disk_get(t.c_str(), before);
    BestModel a0 = c.a, b0 = c.b; bool ia = c.a.epoch(sc), ib = c.b.epoch(sc); uint64_t f0 = faults_so_far();
    if (M) { if (before.size() > CKMAX) harness_error("checkpoint too big for the model"); M->beforeexists = bex; M->n = before.size(); memcpy(M->before, before.data(), before.size()); M->pk = k; M->pv = ck_variant(op); M->imp = (c.la && ia) || (c.lb && ib) || (c.lost && !std::isnan(sc)); M->pending = true; out_mark(); }
    SUT(sut_cb_run(cb, o, g.p, valid));
    bool diag = false, faulted = false; if (M) { M->pending = false; diag = !take_stderr().empty(); faulted = faults_so_far() != f0 || P->has("diskcap"); }
    NoFaults nf; bool aex = disk_get(t.c_str(), after);
    CHECK(!memcmp(res.data(), g.p, 4 * cnt) && g.check().empty(), "results-changed", "the checkpoint changed the results"); CHECK(img == net_image(nn), "network-changed", "the checkpoint changed the network");
    bool same = aex == bex && after == before; string e = aex ? check_npz_is_net(after, n, par) : "there is no file"; bool neu = e.empty();
    bool wasnew = same && neu;                              // the same parameters again: both readings agree
    CHECK(same || neu, "torn-checkpoint", "instance %d: after an epoch the checkpoint is neither what it was nor the network: %s", k, e.c_str());
    if (neu && !wasnew) {
        bool pa = c.la && ia, pb = c.lb && ib;
        if (!pa && !pb) {   // an outstanding failed save may be made up for by an epoch better than what the file holds
            bool better = c.lost && !std::isnan(sc) && (std::isnan(c.saved) || (c.a.greater ? sc > c.saved : sc < c.saved));
            CHECK(better, "wrong-checkpoint", "instance %d (%s is better): the epoch with score %.9g replaced the checkpoint of the best score %.9g", k, c.a.greater ? "greater" : "less", sc, a0.best);
            c.a.best = c.b.best = sc; c.a.has = c.b.has = true;
        }
        if (pa != pb && (pa || pb)) { c.la = pa; c.lb = pb; }
        c.saved = sc; c.lost = false; PROBE("new best saved");
    } else if (!wasnew) {
        bool pa = c.la && ia, pb = c.lb && ib;
        if (c.la && c.lb && ia != ib) { if (!faulted) { if (ia) c.la = false; else c.lb = false; } }
        else if (pa || pb) {
            CHECK(faulted, "checkpoint-missed", "instance %d (%s is better): the epoch with score %.9g is the best so far (before: %s %.9g) and was not saved: %s", k, c.a.greater ? "greater" : "less", sc, a0.has ? "best" : "none", a0.best, e.c_str());
            CHECK(diag, "silent-failure", "instance %d: saving the best model failed and nothing was reported", k); c.lost = true; PROBE("failed save reported, old checkpoint kept");
        } else PROBE("epoch without improvement left the file alone");
        if (c.la && c.lb && ia != ib && faulted) { c.lost = true; }
    } else { c.saved = sc; }
    (void)b0;
    if (P->get("reload") && aex && !(op.at(2) & 3)) { neuralnet_t *l = SUT(neuralnet_load(t.c_str())); if (neu) { CHECK(l, "not-loadable", "the checkpoint does not load"); string d = net_diff(l, n, par); CHECK(d.empty(), "loads-differently", "the checkpoint loads as another network: %s", d.c_str()); } SUT(neuralnet_free(l)); }
}
static void ck_run() {
    register_custom(); CkModel &M = model<CkModel>(); int ni = (int)std::max<int64_t>(1, P->get("ni", 1)), nm = (int)std::max<int64_t>(1, P->get("nm", 1)); NetSpec N[2] = { get_net("a"), get_net("b") };
    vector<int> ms; for (int i = 0; i < nm; i++) ms.push_back(i % 7); metric_func *mf = metric_list(ms); neuralnet_t *nn[NCK]; optimizer_t *o[NCK]; callback_t *cb[NCK] = {}; CkInst c[NCK] = { {false, BestModel(false), BestModel(false), true, true, false, NAN}, {false, BestModel(false), BestModel(false), true, true, false, NAN}, {false, BestModel(false), BestModel(false), true, true, false, NAN} };
    { NoFaults nf; for (int k = 0; k < ni; k++) { nn[k] = build_net(N[k % 2], false); o[k] = sut_opt_fake(nn[k], mf); } }
    if (!M.init) { M.init = true; NoFaults nf; if (P->get("fname") == 1) disk_mkdir("dir"); if (P->get("prior")) for (int k = 0; k < ni; k++) { string s = ck_name(k); if (P->get("prior") == 1) disk_put(s.c_str(), "old", 3); else { Rng r(9); auto z = net_npz(N[k % 2], ck_params(N[k % 2], 1000), r, false); disk_put(s.c_str(), z.data(), z.size()); } }
        size_t est = 0; for (auto &op : P->ops) if (op.name == "epoch") est += spec_params(N[op.at(0) % ni % 2]) * 4 + 1200; apply_diskcap(est / 2 + 1200); }
    else if (M.pending) {
        M.pending = false; M.op++; PROBE("checked the checkpoint after the process died"); vector<uint8_t> cur; string t = ck_name(M.pk); bool ex = disk_get(t.c_str(), cur); const NetSpec &n = N[M.pk % 2];
        bool old = ex == M.beforeexists && cur.size() == M.n && !memcmp(cur.data(), M.before, M.n); string e = ex ? check_npz_is_net(cur, n, ck_params(n, M.pv)) : "there is no file";
        CHECK(old || (M.imp && e.empty()), "torn-checkpoint", "after the process died in a checkpoint the file is neither the previous best nor the new one: %s%s", e.c_str(), M.imp ? "" : " (this epoch was no improvement)");
    }
    auto ensure = [&](int k) { if (!cb[k]) { NoFaults nf; cb[k] = ck_new(k); ck_fresh(c[k], k); } };
    if (P->get("mode") == 1) {
        for (int k = 0; k < ni; k++) spawn([&, k] { cb[k] = ck_new(k); ck_fresh(c[k], k); for (auto &op : P->ops) if (op.at(0) % ni == k && op.name == "epoch") ck_epoch(c[k], cb[k], k, op, nn[k], N[k % 2], o[k], nm, nullptr); }, "trainer");
        join_all(); PROBE("checkpoints in concurrent threads");
    } else for (; M.op < (int)P->ops.size(); M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op; int k = (int)(op.at(0) % ni);
        if (op.name == "epoch") { ensure(k); ck_epoch(c[k], cb[k], k, op, nn[k], N[k % 2], o[k], nm, &M); }
        else if (op.name == "renew") { if (cb[k]) SUT(sut_cb_free(cb[k])); cb[k] = nullptr; }
        else if (op.name == "restart") { M.op++; restart_clean(); }
    }
    P->faults.clear(); S->disk.cap = 0;            // faults stop: the next best is saved
    for (int k = 0; k < ni; k++) {
        ensure(k); CkInst &x = c[k]; float best = x.a.has ? x.a.best : 0, nb = x.a.greater ? (x.a.has ? std::nextafterf(best, INFINITY) : 0) : (x.a.has ? std::nextafterf(best, -INFINITY) : 0); if (x.a.has && (x.a.greater ? !(nb > best) : !(nb < best))) continue;
        int cnt = 2 * nm; Guard g(cnt, 1); for (int i = 0; i < cnt; i++) g.p[i] = nb; vector<float> par = ck_params(N[k % 2], 5000); raw_set(nn[k], par.data()); SUT(sut_cb_run(cb[k], o[k], g.p, true)); vector<uint8_t> f; string t = ck_name(k); bool ex = disk_get(t.c_str(), f);
        string e = ex ? check_npz_is_net(f, N[k % 2], par) : "there is no file"; if (std::isinf(nb) || std::fabs(nb) >= 3.4028e38f) continue; CHECK(e.empty(), "checkpoint-missed", "instance %d: a better epoch (%.9g after %.9g) with working storage was not saved: %s", k, nb, best, e.c_str());
    }
    for (int k = 0; k < ni; k++) { if (cb[k]) SUT(sut_cb_free(cb[k])); sut_opt_fake_free(o[k]); SUT(neuralnet_free(nn[k])); } run_atexit();
}
static void ck_gen(Rng &r, Plan &p) {
    NetOpt o; o.maxl = 3; o.maxsize = r.chance(0.2) ? 33 : 9; o.maxparams = r.chance(0.15) ? 1500 : 150; o.custom = r.chance(0.2); gen_net(r, p, o, "a"); gen_net(r, p, o, "b");
    int ni = (int)r.range(1, NCK), nm = gen_callers(r, 3); bool lng = r.chance(0.03); p.set["ni"] = ni; p.set["nm"] = nm; p.set["pal"] = r.below(NPAL); p.set["prior"] = r.below(3); p.set["fname"] = r.chance(0.6) ? 0 : r.range(1, 2); p.set["reload"] = r.chance(0.4); p.set["mode"] = ni > 1 && r.chance(0.12);
    int both = r.chance(0.7) ? (int)r.below(2) : -1; if (r.chance(0.3)) p.set["shortread"] = r.range(1, 300); if (r.chance(0.3)) p.set["iobuf"] = r.range(16, 700);
    for (int k = 0; k < ni; k++) { string q = "i" + std::to_string(k); p.set[q + "gr"] = r.below(2); p.set[q + "mon"] = r.chance(0.5) ? -1 : r.range(0, nm - 1 + (both == 1 ? nm : 0)); p.set[q + "vb"] = r.below(2); }
    p.set["nontrivial"] = p.set["mode"] ? 1 : 0; int n = lng ? (int)r.range(40, 300) : (int)r.range(2, 12); for (int i = 0; i < n; i++) { int k = (int)r.below(ni); if (r.chance(0.05)) p.ops.push_back({ "renew", { k } }); else if (r.chance(0.05)) p.ops.push_back({ "restart", {} }); else p.ops.push_back({ "epoch", { k, both >= 0 ? both : (int64_t)r.below(2), r.range(0, 200), 0, r.chance(0.1) ? 0 : i } }); }
    if (p.set["mode"]) gen_sched(r, p, n * 2000);
}
static void ck_faults(Rng &r, Plan &p, const Result &d) { if (p.get("mode")) return; rand_faults(r, p, d, F_CRASH | F_ERR | F_MALLOC | F_SHORT | F_CAP | F_STDOUT, 0.12); if (r.chance(0.2)) one_fault(r, p, d, F_CRASH); }
#define SHN(q) {q "nl", 1}, {q "s0", 1}, {q "s1", 1}, {q "s2", 1}, {q "s3", 1}, {q "a0", 0}, {q "a1", 0}, {q "a2", 0}
Scenario sc_ck = { "checkpoint", ck_gen, ck_run, ck_faults, "modelcheckpoint, neuralnet_save/load, npy_array, npy_array_list, the installed libzip and zlib", STUB_C, "1-3 (sometimes 13) checkpoint instances over 1-30 (sometimes 300) epochs of two networks whose parameters change every epoch, tied, undefined and infinite scores, process deaths, failing and torn operations, full disk, failing allocations, restarts, concurrent trainers; nontrivial: a fault or restart happened", { SHN("a"), SHN("b"), {"ni", 1}, {"nm", 1}, {"mode", 0}, {"prior", 0}, {"fname", 0}, {"reload", 0}, {"shortread", 0}, {"iobuf", 0} } };

// ------------------------------------------------------------------ C16: log
string log_text() { vector<uint8_t> f; disk_get(LOGF, f); return string(f.begin(), f.end()); }
void cand_set(LogModel &M, const std::set<int> &s) { M.ncand = 0; for (int x : s) if (M.ncand < 64) M.cand[M.ncand++] = x; }
static vector<int> epochs_in(const string &line) { vector<int> v; size_t p = 0; while ((p = line.find("Epoch", p)) != string::npos) { int e; if (sscanf(line.c_str() + p + 5, "%d", &e) == 1) v.push_back(e); p += 5; } return v; }
// the numbers a new logger without a configured count may start from
std::set<int> continuations(const LogModel &M, const string &t, int conf, bool usesfile, bool faulted) {
    std::set<int> s; if (conf != 0 || !usesfile) { s.insert(conf); return s; }
    int strict = 0; size_t end = 0; for (int i = 0; i < M.nrec; i++) if (M.rec[i].end <= t.size() && t[M.rec[i].end - 1] == '\n') { strict = M.rec[i].epoch + 1; end = M.rec[i].end; }
    s.insert(strict);
    string rest = t.substr(std::min(end, t.size()));                         // torn and foreign text after the last complete line
    size_t p = 0; while (p < rest.size()) { size_t nl = rest.find('\n', p); string line = rest.substr(p, nl == string::npos ? nl : nl - p); bool whole = nl != string::npos;
        bool intact = false; if (!whole) for (int i = 0; i < M.nrec; i++) if (M.rec[i].end == t.size() + 1) intact = true;    // everything but the newline
        if (whole || intact) for (int e : epochs_in(line)) s.insert(e + 1);
        if (nl == string::npos) break; p = nl + 1; }
    if (faulted) { s.insert(0); for (int e : epochs_in(t)) s.insert(e + 1); for (size_t q = 0; (q = t.find("Epoch", q)) != string::npos; q += 5) { int d = 0; const char *z = t.c_str() + q + 5; while (*z == ' ') z++; while (isdigit((unsigned char)*z) && d < 100000) { d = d * 10 + (*z++ - '0'); s.insert(d + 1); } } }
    return s;
}
static LogEntry log_entry(const vector<int> &ms, const float *res, bool valid, int epoch) { LogEntry le; le.epoch = epoch; for (int ph = 0; ph <= (int)valid; ph++) for (size_t i = 0; i < ms.size(); i++) { le.names.push_back((ph ? "val_" : "") + string(metric_name[ms[i]])); le.vals.push_back(res[ph * ms.size() + i]); } return le; }
static void log_results(int pal, int64_t v, float *res, size_t n) { for (size_t i = 0; i < n; i++) { uint64_t u = mix((uint64_t)v, i); switch (pal) { case 0: res[i] = (float)((double)(u % 1000000) * 1e-5); break; case 1: { uint32_t b = (uint32_t)u; memcpy(&res[i], &b, 4); if (std::isnan(res[i])) res[i] = std::signbit(res[i]) ? -NAN : NAN; break; } default: res[i] = score_of(2, (int64_t)(u % 16)); } } }
// what a logger writes for this epoch, from a logger of its own under fair weather (only the time differs)
static string fair_line(optimizer_t *o, const float *res, bool valid, int epoch) { NoFaults nf; disk_del("fair.log"); callback_t *c = SUT(sut_logger_new(epoch, "fair.log", 1)); SUT(sut_cb_run(c, o, res, valid)); SUT(sut_cb_free(c)); vector<uint8_t> f; disk_get("fair.log", f); disk_del("fair.log"); return string(f.begin(), f.end()); }
static bool prefix_masked(const string &x, const string &line) { if (x.size() > line.size()) return false; for (size_t i = 0; i < x.size(); i++) { bool tm = i >= 1 && i <= 8 && i != 3 && i != 6; if (tm ? !isdigit((unsigned char)x[i]) : x[i] != line[i]) return false; } return true; }
static int64_t local_sec(int64_t t) { time_t tt = (time_t)t; struct tm tmv; HarnessScope h; localtime_r(&tt, &tmv); return tmv.tm_hour * 3600 + tmv.tm_min * 60 + tmv.tm_sec; }
// checks what one epoch (complete or cut short by a death) appended; narrows the candidates
void log_check(LogModel &M, optimizer_t *o, const vector<int> &ms, const float *res, bool valid, bool faulted, bool crashed, const string &out, bool nostd, bool stdoutfault, int64_t t0, int64_t t1) {
    NoFaults nf; string before(M.before, M.n), cur; bool ex = disk_exists(LOGF); bool usesfile = !P->get("nofile"); cur = log_text(); std::set<int> ok;
    CHECK(cur.size() >= before.size() && !cur.compare(0, before.size(), before), "log-changed", "the log's earlier content (%zu bytes) is not what it was (%zu bytes now)", before.size(), cur.size());
    string X = cur.substr(before.size()); bool torn = !before.empty() && before.back() != '\n';
    if (!usesfile) CHECK(X.empty() && !ex, "log-unwanted", "a log was written though no file is configured");
    auto times_ok = [&](const string &l) { int hh, mm, ss; if (sscanf(l.c_str(), "[%d:%d:%d]", &hh, &mm, &ss) != 3) return false; int64_t got = hh * 3600 + mm * 60 + ss, a = local_sec(t0), span = ((t1 - t0) % 86400 + 86400) % 86400, d = ((got - a) % 86400 + 86400) % 86400; return d <= span + 1 || d >= 86399; };
    if (usesfile) {
        string why; bool whole = false;
        if (X.size() > (size_t)torn || !X.empty()) {
            for (int lead = torn ? 1 : 0; lead >= (faulted && torn ? 0 : torn ? 1 : 0); lead--) {
                string L = X; if (lead) { if (L.empty() || L[0] != '\n') { why = "the torn line before it is not ended first"; continue; } L = L.substr(1); }
                if (!L.empty() && L.find('\n') == L.size() - 1) for (int i = 0; i < M.ncand; i++) { string e = check_log_line(L.substr(0, L.size() - 1), log_entry(ms, res, valid, M.cand[i]), false); if (e.empty()) { ok.insert(M.cand[i]); whole = true; CHECK(crashed || times_ok(L), "wrong-time", "the line '%.30s' was written between second %lld and %lld of the day", L.c_str(), (long long)local_sec(t0), (long long)local_sec(t1)); if (lead || !torn) { if (M.nrec >= MAXREC) harness_error("log model full"); M.rec[M.nrec].epoch = M.cand[i]; M.rec[M.nrec].end = cur.size(); M.nrec++; } } else why = e; }
                if (whole) break;
                if (faulted || crashed) for (int i = 0; i < M.ncand; i++) if (prefix_masked(L, fair_line(o, res, valid, M.cand[i]))) { ok.insert(M.cand[i]); if (lead || !torn) { string fl = fair_line(o, res, valid, M.cand[i]); if (L.size() + 1 == fl.size()) { if (M.nrec < MAXREC) { M.rec[M.nrec].epoch = M.cand[i]; M.rec[M.nrec].end = cur.size() + 1; M.nrec++; } } } }
                if (!ok.empty()) break;
            }
            if ((faulted || crashed) && ok.empty() && X == "\n") for (int i = 0; i < M.ncand; i++) ok.insert(M.cand[i]);
            CHECK(!ok.empty(), "wrong-log", "%s epoch the log got '%.150s': %s (epoch %d%s is due)", crashed ? "after the process died in an" : "after an", X.c_str(), why.c_str(), M.cand[0], M.ncand > 1 ? " or another" : "");
            if (!whole) PROBE("line torn by a fault"); else PROBE("line appended");
        } else { CHECK(faulted || crashed, "log-missing", "an epoch left no line in the log"); for (int i = 0; i < M.ncand; i++) ok.insert(M.cand[i]); PROBE("line lost to a fault"); }
    } else for (int i = 0; i < M.ncand; i++) ok.insert(M.cand[i]);
    if (!crashed && !stdoutfault) {
        if (nostd) CHECK(out.empty(), "log-stdout", "the epoch was printed though printing is off: '%.100s'", out.c_str());
        else { std::set<int> ok2; string e; CHECK(!out.empty() && out.find('\n') == out.size() - 1, "log-stdout", "an epoch printed '%.100s' instead of one line", out.c_str()); for (int x : ok) { e = check_log_line(out.substr(0, out.size() - 1), log_entry(ms, res, valid, x), false); if (e.empty()) ok2.insert(x); } CHECK(!ok2.empty(), "log-stdout", "the printed line is wrong: %s", e.c_str()); CHECK(times_ok(out), "wrong-time", "the printed line '%.30s' has the wrong time", out.c_str()); ok = ok2; }
    }
    std::set<int> next; for (int x : ok) next.insert(x + 1); cand_set(M, next);
}
static void log_run() {
    LogModel &M = model<LogModel>(); int nm = (int)P->get("nm", 1); if (nm < 1) nm = 1; vector<int> ms; for (int i = 0; i < nm; i++) ms.push_back((int)(mix(P->get("mseed"), i) % 7)); int conf = (int)P->get("start"); bool nostd = P->get("nostd"), usesfile = !P->get("nofile");
    neuralnet_t *nn; optimizer_t *o; { NoFaults nf; nn = tiny_net(); o = sut_opt_fake(nn, metric_list(ms)); }
    if (P->get("mode") == 1) {     // several loggers in concurrent threads, each with its own file
        int ni = 2 + (int)P->get("ni3"); vector<vector<LogEntry>> want(ni); vector<string> fn; for (int k = 0; k < ni; k++) fn.push_back("log" + std::to_string(k));
        for (int k = 0; k < ni; k++) spawn([&, k] { callback_t *c = SUT(sut_logger_new(conf + k, fn[k].c_str(), 1)); CHECK(c, "create-failed", "no logger"); int e = conf + k; for (auto &op : P->ops) if (op.name == "epoch" && op.at(0) % ni == k) { bool v = op.at(1) & 1; size_t n = ms.size() * (1 + v); Guard g(n, 2); log_results((int)P->get("pal"), op.at(2), g.p, n); SUT(sut_cb_run(c, o, g.p, v)); LogEntry le = log_entry(ms, g.p, v, e++); le.sec = -1; want[k].push_back(le); CHECK(g.check().empty(), "results-changed", "the logger wrote around the results"); } SUT(sut_cb_free(c)); }, "trainer");
        join_all(); PROBE("loggers in concurrent threads"); for (int k = 0; k < ni; k++) { vector<uint8_t> f; disk_get(fn[k].c_str(), f); string e = check_log(string(f.begin(), f.end()), want[k], false); CHECK(e.empty(), "wrong-log", "concurrent logger %d: %s", k, e.c_str()); }
        sut_opt_fake_free(o); SUT(neuralnet_free(nn)); run_atexit(); return;
    }
    if (!M.init) {
        M.init = true; NoFaults nf; Rng r(P->get("pseed")); string t; int e = (int)r.below(120); auto line = [&](int ep) { float res[64]; log_results(0, ep, res, ms.size()); string s = fair_line(o, res, false, ep); if (ep == 0) s = "[01:02:03] Epoch   0 x: 1.0 \n"; return s; };
        int pk = usesfile ? (int)P->get("prior") : 0;
        if (pk) { if (pk == 4 || pk == 5) { t = "# a log by another hand\nloss 0.3\n"; if (pk == 5) t += "half a line"; }
            else if (pk >= 2 && pk != 4) { int c = pk == 2 ? 1 : (int)r.range(2, 6); while (c--) { e++; t += line(e); M.rec[M.nrec].epoch = e; M.rec[M.nrec].end = t.size(); M.nrec++; }
                if (pk == 6) { size_t q = t.find_last_of('\n', t.size() - 2); size_t st = q == string::npos ? 0 : q + 1; t.resize(st + r.below(t.size() - st)); while (M.nrec && M.rec[M.nrec - 1].end > t.size() + 1) M.nrec--; }
                if (pk == 7) t += "(interrupted)\n"; }
            disk_put(LOGF, t.data(), t.size()); }
        size_t est = 0; for (auto &op : P->ops) if (op.name == "epoch") est += 40 + 45 * ms.size() * (1 + (op.at(1) & 1)); apply_diskcap(est);
    } else if (M.pending) {
        M.pending = false; const Op &op = P->ops[M.op]; M.op++; bool v = op.at(1) & 1; size_t n = ms.size() * (1 + v); vector<float> res(n); log_results((int)P->get("pal"), op.at(2), res.data(), n); PROBE("checked the log after the process died in it"); log_check(M, o, ms, res.data(), v, true, true, "", true, true, 0, 0);
    }
    callback_t *cb = nullptr; bool sf = false;      // sf: a failure of standard output happened, what it shows later is open
    auto ensure = [&] { if (cb) return; uint64_t f0 = faults_so_far(); string t = log_text(); bool ex = disk_exists(LOGF); out_mark(); cb = SUT(sut_logger_new(conf, usesfile ? LOGF : nullptr, nostd)); bool f = faults_so_far() != f0;
        if (!cb) { CHECK(f, "create-failed", "the logger could not be created"); CHECK(!take_stderr().empty(), "silent-failure", "no logger and no message"); NoFaults nf; f = false; cb = SUT(sut_logger_new(conf, usesfile ? LOGF : nullptr, nostd)); CHECK(cb, "create-failed", "the logger could not be created"); }
        cand_set(M, continuations(M, t, conf, usesfile && ex, f)); CHECK(log_text() == t, "log-changed", "creating a logger changed the log"); if (M.nrec && !conf && usesfile) PROBE("numbering continues an earlier log"); };
    for (; M.op < (int)P->ops.size(); M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op;
        if (op.name == "epoch") {
            ensure(); bool v = op.at(1) & 1; size_t n = ms.size() * (1 + v); Guard g(n, 2); log_results((int)P->get("pal"), op.at(2), g.p, n); vector<float> res(g.p, g.p + n); string t = log_text(); if (t.size() > LOGMAX) harness_error("log too long for the model"); M.beforeexists = disk_exists(LOGF); M.n = t.size(); memcpy(M.before, t.data(), t.size());
            out_mark(); uint64_t f0 = faults_so_far(), s0 = S->res.seam_faults[SE_STDOUT];     // (a failure of standard output excuses nothing in the file)
            vector<uint8_t> img = net_image(nn); int64_t t0 = now_seconds(); M.pending = true; int h0 = open_handles(); SUT(sut_cb_run(cb, o, g.p, v)); M.pending = false; int64_t t1 = now_seconds(); string out; { NoFaults nf; out = take_stdout(); }
            if (S->res.seam_faults[SE_STDOUT] != s0) sf = true; CHECK(!memcmp(res.data(), g.p, 4 * n) && g.check().empty(), "results-changed", "the logger changed the results"); CHECK(img == net_image(nn), "network-changed", "the logger changed the network"); CHECK(open_handles() == h0, "handle-leak", "after logging: %s", open_handles_desc().c_str());
            log_check(M, o, ms, res.data(), v, faults_so_far() - f0 != S->res.seam_faults[SE_STDOUT] - s0 || P->has("diskcap"), false, out, nostd, sf, t0, t1);
        } else if (op.name == "jump") clock_jump(op.at(0));
        else if (op.name == "renew") { if (cb) SUT(sut_cb_free(cb)); cb = nullptr; }
        else if (op.name == "restart") { M.op++; restart_clean(); }
        else if (op.name == "tear" && usesfile) {   // the death of an earlier process cut the last line short
            NoFaults nf; string t = log_text(); if (t.empty()) continue; size_t q = t.size() >= 2 ? t.find_last_of('\n', t.size() - 2) : string::npos, st = q == string::npos ? 0 : q + 1; size_t keep = op.at(0) % 4 == 0 ? t.size() - 1 : st + (size_t)op.at(0) % (t.size() - st); t.resize(keep); disk_put(LOGF, t.data(), t.size());
            while (M.nrec && M.rec[M.nrec - 1].end > keep + 1) M.nrec--; PROBE("torn last line"); M.op++; restart_clean();
        }
    }
    if (cb) { P->faults.clear(); S->disk.cap = 0; if (usesfile) { NoFaults nf; string t = log_text(); M.n = t.size(); memcpy(M.before, t.data(), t.size()); vector<float> res(ms.size(), 1.5f); out_mark(); SUT(sut_cb_run(cb, o, res.data(), false)); log_check(M, o, ms, res.data(), false, false, false, "", true, true, now_seconds() - 10, now_seconds()); } SUT(sut_cb_free(cb)); }
    sut_opt_fake_free(o); SUT(neuralnet_free(nn)); run_atexit();
}
static void log_gen(Rng &r, Plan &p) {
    p.set["nm"] = r.chance(0.7) ? r.range(1, 5) : r.range(6, 60); p.set["mseed"] = r.below(1u << 30); p.set["start"] = r.chance(0.65) ? 0 : r.chance(0.85) ? r.range(1, 1200) : r.chance(0.5) ? r.range(9990, 100010) : r.range(1000000, 2000000000); p.set["nostd"] = r.chance(0.6); p.set["nofile"] = r.chance(0.06); p.set["prior"] = r.below(8); p.set["pseed"] = r.below(1u << 30); p.set["pal"] = r.below(3); p.set["clock0"] = r.chance(0.2) ? r.range(-100000, 100000) : r.chance(0.3) ? r.range(4000000000ll, 90000000000ll) : r.range(1000000000, 2000000000);
    p.set["outmode"] = r.below(4); p.set["mode"] = r.chance(0.1); p.set["ni3"] = r.below(2); p.set["nontrivial"] = p.set["mode"] ? 1 : 0; if (r.chance(0.3)) p.set["shortread"] = r.range(1, 100); if (r.chance(0.3)) p.set["iobuf"] = r.range(8, 400); int both = r.chance(0.7) ? (int)r.below(2) : -1;
    int n = (int)r.range(2, 12); for (int i = 0; i < n; i++) switch (r.below(12)) { case 0: p.ops.push_back({ "jump", { r.chance(0.5) ? r.range(-90000, 90000) : r.range(-1000000000, 3000000000ll) } }); break; case 1: p.ops.push_back({ "renew", {} }); break; case 2: p.ops.push_back({ "restart", {} }); break; case 3: p.ops.push_back({ "tear", { (int64_t)r.below(10000) } }); break;
        default: p.ops.push_back({ "epoch", { (int64_t)r.below(3), both >= 0 ? both : (int64_t)r.below(2), (int64_t)r.below(1u << 20) } }); }
    if (p.set["mode"]) gen_sched(r, p, n * 400);
}
static void log_faults(Rng &r, Plan &p, const Result &d) { if (p.get("mode")) return; if (!p.get("nostd") && r.chance(0.3)) { one_fault(r, p, d, F_STDOUT); if (r.chance(0.6)) return; } rand_faults(r, p, d, F_CRASH | F_ERR | F_SHORT | F_CAP | F_MALLOC | F_STDOUT, 0.2); if (r.chance(0.2)) one_fault(r, p, d, F_CRASH); }
Scenario sc_log = { "logger", log_gen, log_run, log_faults, "logger, get_metric_name, glibc stdio buffering", STUB_C, "2-12 epochs, restarts, torn lines, clock jumps and fresh instances over a log in any prior state with 1-140 metrics, process deaths, failing and torn writes, full disk; nontrivial: a fault or restart happened", { {"nm", 1}, {"prior", 0}, {"start", 0}, {"shortread", 0}, {"iobuf", 0}, {"mode", 0}, {"pal", 0} } };

// ------------------------------------------------------------------ C24: progress display
static bool pg_sf; static int pg_cols, pg_tty, pg_fork; static int64_t pg_sizes;
static void progress_checked(int x, int n, int kind, int64_t seed, bool plain) {
    HarnessScope hs; Rng r(mix(seed, 3)); char label[1400]; int len; string lab;
    uint64_t s0 = S->res.seam_faults[SE_STDOUT], t0 = S->res.seam_faults[SE_TTY]; { NoFaults nf; out_mark(); }
    switch (plain ? 0 : kind % 7) {
    case 0: lab = "Train: "; SUT(progress_ascii(x, n, "Train: ")); break;
    case 1: lab = ""; SUT(progress_ascii(x, n, "")); break;
    case 2: { int a = (int)r.range(-1000, 100000); double d = r.sym() * 1e6; snprintf(label, sizeof label, "epoch %d loss %.3f ", a, d); lab = label; SUT(progress_ascii(x, n, "epoch %d loss %.3f ", a, d)); break; }
    case 3: len = (int)r.range(1, 120); lab = string(len, 'l'); SUT(progress_ascii(x, n, "%s", lab.c_str())); break;
    case 4: len = (int)r.range(60, 1300); lab = string(len, 'q'); SUT(progress_ascii(x, n, "%s", lab.c_str())); break;
    case 5: lab = "100% of "; SUT(progress_ascii(x, n, "100%% of ")); break;
    default: { int w = (int)r.range(1, 300); snprintf(label, sizeof label, "%*s|%-5d|%s%c", w, "ab", 7, "%d%n", 'z'); lab = label; SUT(progress_ascii(x, n, "%*s|%-5d|%s%c", w, "ab", 7, "%d%n", 'z')); break; }
    }
    bool sfault = S->res.seam_faults[SE_STDOUT] != s0, tfault = S->res.seam_faults[SE_TTY] != t0; if (sfault) pg_sf = true; string out; { NoFaults nf; out = take_stdout(); }
    if (pg_sf) { PROBE("standard output failed"); if (!pg_tty && !tfault) return; return; }
    if (!pg_tty) { CHECK(out.empty(), "progress-not-a-terminal", "%zu characters written though standard output is not a terminal", out.size()); PROBE("not a terminal"); return; }
    size_t cols = pg_cols ? pg_cols : 80, most = tfault ? std::max<size_t>(80, cols) : cols;
    if (out.empty()) { CHECK(tfault || cols < lab.size() + 9, "progress-missing", "nothing displayed with %zu columns and a label of %zu", cols, lab.size()); PROBE("terminal too narrow for the label"); return; }
    char last = out.back(); CHECK(last == '\n' || last == '\r', "progress-line", "the display ends in character %d", last); CHECK((last == '\n') == (x == n), "progress-line", "%d of %d consumed and the display ends in %s", x, n, last == '\n' ? "a newline" : "a carriage return");
    string body = out.substr(0, out.size() - 1); CHECK(body.find('\n') == string::npos && body.find('\r') == string::npos, "progress-line", "more than one line"); CHECK(body.size() <= most, "progress-too-wide", "%zu characters on a terminal of %zu columns", body.size(), cols);
    CHECK(!body.compare(0, lab.size(), lab), "progress-label", "the display does not start with its label"); CHECK(!body.empty() && body.back() == '%', "progress-line", "the display does not end in a percentage: '%s'", body.substr(body.size() > 20 ? body.size() - 20 : 0).c_str());
    size_t q = body.size() - 1; while (q > 0 && isdigit((unsigned char)body[q - 1])) q--; int pc = atoi(body.c_str() + q); double want = 100.0 * x / n; CHECK(q < body.size() - 1 && std::fabs(pc - want) <= 1.0001, "progress-percentage", "%d of %d displayed as %d%%", x, n, pc); if (x == n) CHECK(pc == 100, "progress-percentage", "everything consumed displayed as %d%%", pc); PROBE("line displayed");
}
static void pg_size(int64_t v) { v &= 0xffff; pg_tty = (int)(v & 7) != 0; static const int c[] = { 80, 0, 1, 7, 8, 9, 16, 24, 40, 79, 81, 255, 256, 1000, 5000, 65535 }; pg_cols = v & 8 ? c[(v >> 4) % 16] : (int)((v >> 4) % 400); set_tty(pg_tty, pg_cols); }
static void pg_train(int x, int n, const char *fmt, ...) { HarnessScope h; (void)fmt; pg_fork++; pg_size(mix(pg_sizes, pg_fork)); progress_checked(x, n, pg_fork, pg_sizes, P->get("plainlab")); }
static void pg_train_plain(int x, int n, const char *fmt, ...) { { HarnessScope h; va_list ap; va_start(ap, fmt); char b[400]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); pg_fork++; pg_size(mix(pg_sizes, pg_fork)); progress_checked(x, n, 3, pg_sizes, false); } }
static void pg_run() {
    pg_sf = false; pg_fork = 0; pg_tty = (int)P->get("tty"); pg_cols = (int)P->get("cols", 80); pg_sizes = P->get("sizeseed");
    if (P->get("mode") == 0) { for (size_t i = 0; i < P->ops.size(); i++) { const Op &op = P->ops[i]; S->res.cur_op = (int)i; if (op.name == "size") pg_size(op.at(0)); else { int n = (int)std::max<int64_t>(1, op.at(1)), x = (int)std::min<int64_t>(op.at(0), n); progress_checked(x, n, (int)op.at(2), op.at(3), false); } } run_atexit(); return; }
    // training with the display, under failures, is bit for bit the training without it
    NetSpec N = get_net("a"); int kind = (int)P->get("kind"), bs = (int)std::max<int64_t>(1, P->get("bs", 4)), n = (int)std::max<int64_t>(1, P->get("n", 9)), nv = (int)P->get("nv"); int ni = N.s[0], no = N.s[N.nl]; Rng r(P->get("dseed")); float *X = galloc<float>((size_t)n * ni), *Y = galloc<float>((size_t)n * no), *VX = galloc<float>((size_t)(nv + 1) * ni), *VY = galloc<float>((size_t)(nv + 1) * no);
    gen_input(r, X, n * ni); for (int i = 0; i < n; i++) gen_target(r, Y + (size_t)i * no, no, N.loss); gen_input(r, VX, nv * ni); for (int i = 0; i < nv; i++) gen_target(r, VY + (size_t)i * no, no, N.loss);
    static const float hp[4][5] = { { 0.05f, 0.01f, 0.9f, 1, 0 }, { 0.02f, 0, 0, 0, 0 }, { 0.01f, 0.9f, 0.01f, 0.5f, 0 }, { 0.01f, 0.9f, 0.99f, 0.01f, 0 } };
    vector<float> end[2], res[2]; for (int w = 0; w < 2; w++) {
        neuralnet_t *nn; optimizer_t *o; { NoFaults nf; nn = build_net(N, true); o = SUT(sut_opt_new(kind % 4, nn, bs, 0, nullptr, w == 0 ? nullptr : P->get("direct") ? progress_ascii : P->get("plainlab") ? pg_train_plain : pg_train, hp[kind % 4])); } CHECK(o, "create-failed", "no optimizer");
        for (int e = 0; e < 2; e++) { Guard g(nv ? 2 : 1, 1); S->res.cur_op = e; SUT(sut_opt_epoch(o, n, X, Y, nv, nv ? VX : nullptr, nv ? VY : nullptr, g.p)); res[w].insert(res[w].end(), g.p, g.p + (nv ? 2 : 1)); }
        raw_params(nn, end[w]); SUT(sut_opt_free(o)); SUT(neuralnet_free(nn));
        if (w && !P->get("direct")) CHECK(pg_fork > 0, "progress-missing", "training never called its progress function");
        if (w && P->get("direct") && P->faults.empty() && P->get("tty") && P->get("cols", 80) > 60) { string out = take_stdout(); size_t nl = 0; for (char c : out) nl += c == '\n'; CHECK(nl == 2, "progress-line", "two epochs displayed %zu complete lines", nl); PROBE("epochs displayed by the library's own display"); }
    }
    CHECK(same_bits(end[0], end[1]), "progress-disturbs", "training with the display ends with other parameters than without"); CHECK(same_bits(res[0], res[1]), "progress-disturbs", "training with the display reports other results than without"); PROBE("training compared with its silent twin"); run_atexit();
}
static void pg_gen(Rng &r, Plan &p) {
    p.set["outmode"] = r.below(4); p.set["mode"] = r.chance(0.2); p.set["tty"] = r.chance(0.85); p.set["cols"] = r.chance(0.6) ? 80 : r.range(0, 300); p.set["sizeseed"] = r.below(1u << 30); p.set["nontrivial"] = 1;
    if (p.set["mode"]) { NetOpt o; o.maxl = 2; o.maxsize = 9; o.maxparams = 120; o.train = true; gen_net(r, p, o, "a"); p.set["kind"] = r.below(4); p.set["bs"] = r.range(1, 6); p.set["n"] = r.range(1, 20); p.set["nv"] = r.chance(0.5) ? 0 : r.range(1, 6); p.set["dseed"] = r.below(1u << 30); p.set["direct"] = r.chance(0.4); p.set["plainlab"] = r.chance(0.5); p.set["team"] = 1; p.ops.push_back({ "train", {} }); return; }
    int k = (int)r.range(1, 14); int n = r.chance(0.2) ? 1 : r.chance(0.1) ? 2000000000 : (int)r.range(1, 70000);
    for (int i = 0; i < k; i++) { if (r.chance(0.3)) p.ops.push_back({ "size", { (int64_t)r.below(1 << 16) } }); else { if (r.chance(0.3)) n = r.chance(0.3) ? 1 << r.below(31) : (int)r.range(1, 1000); p.ops.push_back({ "show", { r.chance(0.25) ? n : r.chance(0.1) ? 0 : r.chance(0.2) ? n - 1 : r.range(0, n), n, (int64_t)r.below(7), (int64_t)r.below(1u << 20) } }); } }
}
static void pg_faults(Rng &r, Plan &p, const Result &d) {
    rand_faults(r, p, d, F_STDOUT, 0.5); if (r.chance(0.4) && d.seam_calls[SE_TTY]) { static const int e[] = { ENOTTY, EIO, EBADF, EINVAL }; p.faults.push_back({ SE_TTY, 1 + (int64_t)r.below(d.seam_calls[SE_TTY]), r.pick(e), 0, r.chance(0.6) ? 0 : r.chance(0.5) ? 1 : r.range(2, 5) }); }
}
Scenario sc_pg = { "progress", pg_gen, pg_run, pg_faults, "progress_ascii, optimizer epochs", "terminal, standard output, thread scheduler, allocator (simulated)", "1-14 displays with labels of 0-1300 characters on a terminal that is resized, vanishes or does not answer, standard output failing; training with a display against its silent twin; nontrivial: every run", { SHN("a"), {"mode", 0}, {"n", 1}, {"nv", 0}, {"bs", 1}, {"direct", 0} } };
}
