// Storage scenarios: atomic save, exact load, damaged files, array files.
#include "scen.h"

namespace sim {
using std::string; using std::vector;
static const char *REAL_S = "neuralnet_save/load, activation registry, npy_array, npy_array_list, the installed libzip and zlib, glibc stdio buffering";
static const char *STUB_S = "file system, memory mappings, allocator, dynamic loader, clock (simulated)";

// ------------------------------------------------------------------ random fault plans
static int pick_errno(Rng &r, int seam) {
    static const int op[] = { EACCES, EMFILE, ENOSPC, EIO, EROFS, ENOENT, EINTR, ENOMEM }, rd[] = { EIO, EIO, EINTR, EISDIR }, wr[] = { ENOSPC, EIO, EDQUOT, EFBIG, EINTR }, ot[] = { EIO, EACCES, ENOSPC };
    switch (seam) { case SE_OPEN: return r.pick(op); case SE_READ: return r.pick(rd); case SE_WRITE: return r.pick(wr); case SE_MALLOC: case SE_MMAP: return ENOMEM; default: return r.pick(ot); }
}
static int64_t pick_at(Rng &r, uint64_t n) { return n ? 1 + (int64_t)(r.chance(0.2) ? r.below(std::min<uint64_t>(n, 6)) : r.chance(0.15) ? n - 1 - r.below(std::min<uint64_t>(n, 6)) : r.below(n)) : 1; }
static int64_t pick_persist(Rng &r) { return r.chance(0.7) ? 0 : r.chance(0.5) ? 1 : r.range(2, 6); }
void one_fault(Rng &r, Plan &p, const Result &d, unsigned kinds) {
    for (int tries = 0; tries < 20; tries++) {
        unsigned k = 1u << r.below(7); if (!(kinds & k)) continue;
        switch (k) {
        case F_CRASH: if (!d.seam_calls[SE_DISK]) continue;
            if (r.chance(0.4) && d.seam_calls[SE_WRITE]) p.faults.push_back({ SE_WRITE, pick_at(r, d.seam_calls[SE_WRITE]), FA_TORN_CRASH, r.range(0, 999), 0 });
            else p.faults.push_back({ SE_DISK, pick_at(r, d.seam_calls[SE_DISK]), r.chance(0.5) ? FA_CRASH : FA_CRASH_AFTER, 0, 0 });
            return;
        case F_ERR: { static const int s[] = { SE_OPEN, SE_READ, SE_WRITE, SE_CLOSE, SE_RENAME, SE_REMOVE, SE_STAT, SE_SEEK, SE_TRUNC, SE_MMAP, SE_DISK }; int q = r.pick(s); if (!d.seam_calls[q]) continue;
            p.faults.push_back({ q, pick_at(r, d.seam_calls[q]), q == SE_WRITE && r.chance(0.3) ? FA_TORN_ERR : pick_errno(r, q), r.range(0, 999), pick_persist(r) }); return; }
        case F_MALLOC: if (!d.seam_calls[SE_MALLOC]) continue; p.faults.push_back({ SE_MALLOC, pick_at(r, d.seam_calls[SE_MALLOC]), ENOMEM, 0, r.chance(0.75) ? 0 : r.chance(0.6) ? 1 : r.range(2, 9) }); return;
        case F_SHORT: { int q = r.chance(0.5) ? SE_READ : SE_WRITE; if (!d.seam_calls[q]) continue; p.faults.push_back({ q, pick_at(r, d.seam_calls[q]), FA_SHORT, r.range(0, 4095), r.chance(0.5) ? 0 : 1 }); return; }
        case F_CAP: if (!d.seam_calls[SE_WRITE] || p.has("diskcap")) continue; p.set["diskcap"] = r.range(1, 1000); return;
        case F_DL: { int q = r.chance(0.5) ? SE_DLOPEN : SE_DLSYM; if (!d.seam_calls[q]) continue; p.faults.push_back({ q, pick_at(r, d.seam_calls[q]), ENOENT, 0, pick_persist(r) }); return; }
        case F_STDOUT: if (!d.seam_calls[SE_STDOUT]) continue; p.faults.push_back({ SE_STDOUT, pick_at(r, d.seam_calls[SE_STDOUT]), r.chance(0.5) ? ENOSPC : EIO, 0, pick_persist(r) }); return;
        }
    }
}
void rand_faults(Rng &r, Plan &p, const Result &d, unsigned kinds, double none) {
    if (r.chance(none)) return;
    int n = r.chance(0.65) ? 1 : r.chance(0.6) ? 2 : (int)r.range(3, 5);
    while (n--) one_fault(r, p, d, kinds);
}
void apply_diskcap(size_t extra) { if (P->has("diskcap")) S->disk.cap = 1 + (int64_t)S->disk.total + (int64_t)(extra * (double)P->get("diskcap") / 1000.0); }

// a network variant: parameters and special values are a function of (spec, variant)
static void fill_variant(neuralnet_t *nn, NetSpec n, int64_t v, bool special) {
    n.wseed = mix(n.wseed, 100 + v); fill_net(nn, n);
    if (special) { static const uint32_t sp[] = { 0x7fc00001, 0xffc12345, 0x7f800001, 0x7f800000, 0xff800000, 0x80000000, 1, 0x807fffff, 0x007fffff, 0x7f7fffff, 0x00000000, 0x3f800000, 0xdeadbeef, 0x04034b50, 0x06054b50 };
        Rng r(n.wseed); vector<float> p; raw_params(nn, p); for (size_t k = 0; k < p.size() / 2 + 1; k++) { uint32_t x = r.chance(0.8) ? r.pick(sp) : (uint32_t)r.u64(); memcpy(&p[r.below(p.size())], &x, 4); } raw_set(nn, p.data()); }
}
static vector<float> variant_params(neuralnet_t *scratch, const NetSpec &n, int64_t v, bool special) { fill_variant(scratch, n, v, special); vector<float> p; raw_params(scratch, p); return p; }
static string junk(int kind, Rng &r) { string s; if (kind == 2) { int n = (int)r.range(1, 300); while (n--) s += (char)r.below(256); } return s; }

// ------------------------------------------------------------------ C09: save replaces atomically or not at all
constexpr size_t BEFORE = 200 << 10;
struct SaveModel { int op; bool init, pending, beforeexists; int pnet; int64_t pv; size_t n; uint8_t before[BEFORE]; };
static const char *PRE2[2] = { "a", "b" };
static string save_target() { return P->get("dir") == 1 ? "dir/net.npz" : P->get("dir") == 2 ? "missing/net.npz" : P->get("dir") == 3 ? "isdir" : P->get("fname") == 1 ? "a file %d%%.npz" : "net.npz"; }
static void check_saved(SaveModel &M, const NetSpec &n, const vector<float> &par, bool crashed, bool diag, bool faulted) {
    vector<uint8_t> cur; string t = save_target(); bool ex = disk_exists(t.c_str()) && disk_get(t.c_str(), cur);
    bool old = ex == M.beforeexists && cur.size() == M.n && !memcmp(cur.data(), M.before, M.n); if (!ex && !M.beforeexists) old = true;
    string e = ex ? check_npz_is_net(cur, n, par) : "the file is absent"; bool neu = e.empty();
    CHECK(old || neu, "torn-file", "%s a save, %s is neither what it was (%zu bytes) nor the saved network: %zu bytes, %s", crashed ? "after the process died in" : "after", t.c_str(), M.n, cur.size(), ex ? e.c_str() : "absent");
    if (!neu && !crashed) CHECK(diag, "silent-failure", "a save left %s as it was (%s) and nothing was reported", t.c_str(), e.c_str());
    if (!neu && !crashed && P->get("dir") < 2) CHECK(faulted, "save-failed", "a save without any fault did not write the network: %s", e.c_str());
    if (neu) { neuralnet_t *l = SUT(neuralnet_load(t.c_str())); CHECK(l, "not-loadable", "a completely saved file does not load"); string d = net_diff(l, n, par); CHECK(d.empty(), "loads-differently", "a saved file loads as another network: %s", d.c_str()); SUT(neuralnet_free(l)); PROBE("save took effect"); }
    else PROBE("save left the old file");
}
static void save_run() {
    register_custom(); SaveModel &M = model<SaveModel>(); NetSpec N[2] = { get_net("a"), get_net("b") }; neuralnet_t *nn[2], *scr[2]; bool special = P->get("special");
    string t = save_target();
    { NoFaults nf; for (int i = 0; i < 2; i++) { nn[i] = build_net(N[i], false); scr[i] = build_net(N[i], false); } out_mark(); }
    if (!M.init) {
        M.init = true; Rng r(P->get("jseed")); NoFaults nf; if (P->get("dir") == 1) disk_mkdir("dir"); if (P->get("dir") == 3) disk_mkdir("isdir");
        if (P->get("dir") < 2) switch (P->get("prior")) { case 1: { vector<float> p = variant_params(scr[1], N[1], 77, special); auto z = net_npz(N[1], p, r, r.chance(0.5)); disk_put(t.c_str(), z.data(), z.size()); break; } case 2: case 3: { string s = junk((int)P->get("prior"), r); disk_put(t.c_str(), s.data(), s.size()); break; } }
        size_t est = 0; for (int i = 0; i < 2; i++) est += spec_params(N[i]) * 4 + 1500; apply_diskcap(est);
    } else if (M.pending) {
        NoFaults nf; PROBE("checked the file after the process died in a save"); check_saved(M, N[M.pnet], variant_params(scr[M.pnet], N[M.pnet], M.pv, special), true, false, true); M.pending = false; M.op++;
    }
    for (; M.op < (int)P->ops.size(); M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op; int k = (int)op.at(0) % 2;
        if (op.name == "save") {
            fill_variant(nn[k], N[k], op.at(1), special); vector<float> par; raw_params(nn[k], par); vector<uint8_t> b; M.beforeexists = disk_exists(t.c_str()) && disk_get(t.c_str(), b); if (b.size() > BEFORE) harness_error("file too big for the model");
            M.n = b.size(); memcpy(M.before, b.data(), b.size()); M.pnet = k; M.pv = op.at(1); vector<uint8_t> img = net_image(nn[k]); out_mark(); uint64_t f0 = faults_so_far(); M.pending = true;
            if (P->get("fname") == 1) SUT(neuralnet_save(nn[k], "%s", t.c_str())); else if (op.at(2) && !P->get("dir")) SUT(neuralnet_save(nn[k], "n%ct.%s", 'e', "npz")); else SUT(neuralnet_save(nn[k], t.c_str()));
            M.pending = false; bool diag = !(take_stdout() + take_stderr()).empty(); NoFaults nf;
            CHECK(img == net_image(nn[k]), "network-changed", "saving changed the network"); check_saved(M, N[k], par, false, diag, faults_so_far() != f0 || P->has("diskcap"));
        } else if (op.name == "restart") { M.op++; restart_clean(); }
    }
    P->faults.clear(); S->disk.cap = 0;          // faults stop: the next save succeeds
    if (P->get("dir") < 2) { fill_variant(nn[0], N[0], 999, special); vector<float> par; raw_params(nn[0], par); out_mark(); SUT(neuralnet_save(nn[0], "%s", t.c_str())); vector<uint8_t> cur; CHECK(disk_get(t.c_str(), cur), "save-failed", "a save after the faults stopped wrote no file");
        string e = check_npz_is_net(cur, N[0], par); CHECK(e.empty(), "save-failed", "a save after the faults stopped: %s", e.c_str()); }
    for (int i = 0; i < 2; i++) { SUT(neuralnet_free(nn[i])); SUT(neuralnet_free(scr[i])); } run_atexit();
}
static void save_gen(Rng &r, Plan &p) {
    NetOpt o; o.maxl = 4; o.maxsize = r.chance(0.2) ? 33 : 10; o.maxparams = r.chance(0.15) ? 1800 : 250; o.custom = r.chance(0.3); gen_net(r, p, o, "a"); gen_net(r, p, o, "b");
    p.set["prior"] = r.below(4); p.set["dir"] = r.chance(0.75) ? 0 : r.range(1, 3); p.set["fname"] = p.set["dir"] == 0 && r.chance(0.15); p.set["special"] = r.chance(0.3); p.set["jseed"] = r.below(1u << 30); p.set["nontrivial"] = 0;
    if (r.chance(0.3)) p.set["shortread"] = r.range(1, 200); if (r.chance(0.3)) p.set["iobuf"] = r.range(16, 700);
    int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { p.ops.push_back({ "save", { (int64_t)r.below(2), (int64_t)i, (int64_t)r.below(2) } }); if (r.chance(0.1)) p.ops.push_back({ "restart", {} }); }
}
static void save_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, F_CRASH | F_ERR | F_MALLOC | F_SHORT | F_CAP | F_DL, 0.04); if (r.chance(0.25)) one_fault(r, p, d, F_CRASH); }
#define SHN(q) {q "nl", 1}, {q "s0", 1}, {q "s1", 1}, {q "s2", 1}, {q "s3", 1}, {q "s4", 1}, {q "a0", 0}, {q "a1", 0}, {q "a2", 0}, {q "a3", 0}
Scenario sc_save = { "save", save_gen, save_run, save_faults, REAL_S, STUB_S, "1-4 saves of two networks over one file in any prior state, process deaths, failing and torn operations, full disk, failing allocations; nontrivial: a fault or restart happened", { SHN("a"), SHN("b"), {"prior", 0}, {"special", 0}, {"dir", 0}, {"fname", 0}, {"shortread", 0}, {"iobuf", 0} } };

// ------------------------------------------------------------------ C10: round trip
struct LoadModel { int op; bool init; struct { bool used; int net; int64_t v; } f[6]; };
static string load_name(int k, bool *formatted) {
    *formatted = false; switch (k) {
    case 0: return "n0.npz"; case 1: return "dir/model-001.npz"; case 2: return "weird name.npz"; case 3: { string s = "L"; while (s.size() < (size_t)P->get("longname", 128)) s += (char)('a' + s.size() % 26); return s; }
    case 4: return "50%d.npz"; default: return "x"; }
}
static void do_save(neuralnet_t *nn, int k, int64_t style) {
    bool f; string t = load_name(k, &f);
    switch (k) {
    case 0: if (style & 1) SUT(neuralnet_save(nn, "n%d.npz", 0)); else SUT(neuralnet_save(nn, "n0.npz")); break;
    case 1: if (style & 1) SUT(neuralnet_save(nn, "%s/model-%03d.%s", "dir", 1, "npz")); else SUT(neuralnet_save(nn, "dir/model-%.3u.npz", 1u)); break;
    case 3: if (style & 1) SUT(neuralnet_save(nn, "%c%s", 'L', t.c_str() + 1)); else SUT(neuralnet_save(nn, "%s", t.c_str())); break;
    case 5: if (style & 1) SUT(neuralnet_save(nn, "%x", 0x78 - 0x78 + 0)); else SUT(neuralnet_save(nn, "x")); break;
    default: SUT(neuralnet_save(nn, "%s", t.c_str())); break; }
}
static void load_run() {
    register_custom(); LoadModel &M = model<LoadModel>(); NetSpec N[2] = { get_net("a"), get_net("b") }; bool special = P->get("special"); neuralnet_t *nn[2];
    for (int i = 0; i < 2; i++) nn[i] = build_net(N[i], false);
    if (!M.init) { M.init = true; disk_mkdir("dir"); }
    auto check = [&](int k, bool exact_pred) {
        bool fm; string t = load_name(k, &fm); const NetSpec &n = N[M.f[k].net]; vector<float> par = variant_params(nn[M.f[k].net], n, M.f[k].v, special); neuralnet_t *ref = nn[M.f[k].net];
        out_mark(); neuralnet_t *l = SUT(neuralnet_load(t.c_str())); CHECK(l, "load-failed", "%s does not load: %s", t.c_str(), take_stderr().c_str());
        string d = net_diff(l, n, par); CHECK(d.empty(), "loads-differently", "%s loads as another network: %s", t.c_str(), d.c_str());
        int ni = n.s[0], no = n.s[n.nl]; Rng r(mix(M.f[k].v, 5)); float *x = galloc<float>(ni, 64, 4 * r.below(16)), *y1 = galloc<float>(no), *y2 = galloc<float>(no);
        if (exact_pred && !special) for (int q = 0; q < 3; q++) { gen_input(r, x, ni); SUT(neuralnet_predict(ref, x, y1)); SUT(neuralnet_predict(l, x, y2)); CHECK(!memcmp(y1, y2, 4 * no), "predicts-differently", "the network loaded from %s predicts otherwise than the saved one", t.c_str()); }
        gfree(x); gfree(y1); gfree(y2); return l;
    };
    for (; M.op < (int)P->ops.size(); M.op++) {
        const Op &op = P->ops[M.op]; S->res.cur_op = M.op; int k = (int)op.at(0) % 6; bool fm; string t = load_name(k, &fm);
        if (op.name == "save") {
            int w = (int)op.at(1) % 2; fill_variant(nn[w], N[w], op.at(2), special); vector<float> par; raw_params(nn[w], par); out_mark();
            string tt = k == 5 && (op.at(3) & 1) ? "0" : t; do_save(nn[w], k, op.at(3)); vector<uint8_t> f;
            if (t.size() > 128) { CHECK(!disk_exists(t.c_str()) && !(take_stderr() + take_stdout()).empty(), "long-name", "a save to a name of %zu characters was neither refused with a message", t.size()); PROBE("file name over the limit"); continue; }
            CHECK(disk_get(tt.c_str(), f), "save-failed", "saving to %s left no file: %s", tt.c_str(), take_stderr().c_str()); string e = check_npz_is_net(f, N[w], par); CHECK(e.empty(), "wrong-file", "%s: %s", tt.c_str(), e.c_str());
            if (tt != t) continue;
            M.f[k].used = true; M.f[k].net = w; M.f[k].v = op.at(2);
        } else if (op.name == "load" && M.f[k].used) SUT(neuralnet_free(check(k, true)));
        else if (op.name == "foreign") {
            int w = (int)op.at(1) % 2; vector<float> par = variant_params(nn[w], N[w], op.at(2), special); Rng r(mix(op.at(3), 3)); auto z = net_npz(N[w], par, r, true); string ft = "foreign.npz"; disk_put(ft.c_str(), z.data(), z.size()); out_mark();
            neuralnet_t *l = SUT(neuralnet_load(ft.c_str())); CHECK(l, "load-failed", "an archive as NumPy writes it does not load: %s", take_stderr().c_str()); string d = net_diff(l, N[w], par); CHECK(d.empty(), "loads-differently", "an archive as NumPy writes it loads as another network: %s", d.c_str());
            PROBE("foreign archive loaded"); SUT(neuralnet_save(l, "again.npz")); vector<uint8_t> f; CHECK(disk_get("again.npz", f), "save-failed", "a loaded network cannot be saved"); string e = check_npz_is_net(f, N[w], par); CHECK(e.empty(), "wrong-file", "a foreign network saved again: %s", e.c_str());
            SUT(neuralnet_free(l));
        } else if (op.name == "resave" && M.f[k].used) {   // load, change the copy, save it elsewhere: the first file stays
            neuralnet_t *l = check(k, false); int j = (int)op.at(1) % 3; bool f2; vector<uint8_t> a, b; string tj = load_name(j, &f2); disk_get(t.c_str(), a); int w = M.f[k].net;
            fill_variant(l, N[w], op.at(2), special); do_save(l, j, 0); vector<float> par; raw_params(l, par); vector<uint8_t> f; CHECK(disk_get(tj.c_str(), f), "save-failed", "a loaded network cannot be saved to %s", tj.c_str()); string e = check_npz_is_net(f, N[w], par); CHECK(e.empty(), "wrong-file", "%s: %s", tj.c_str(), e.c_str());
            if (j != k) { disk_get(t.c_str(), b); CHECK(a == b, "other-file-changed", "saving to %s changed %s", tj.c_str(), t.c_str()); }
            M.f[j].used = true; M.f[j].net = w; M.f[j].v = op.at(2); SUT(neuralnet_free(l));
        } else if (op.name == "restart") { M.op++; restart_clean(); }
    }
    for (int k = 0; k < 6; k++) if (M.f[k].used) SUT(neuralnet_free(check(k, true)));
    for (int i = 0; i < 2; i++) SUT(neuralnet_free(nn[i])); run_atexit();
}
static void load_gen(Rng &r, Plan &p) {
    NetOpt o; o.maxl = 5; o.maxsize = r.chance(0.25) ? 49 : 17; o.maxparams = r.chance(0.2) ? 1800 : 400; o.custom = r.chance(0.4); gen_net(r, p, o, "a"); gen_net(r, p, o, "b"); p.set["special"] = r.chance(0.4); p.set["nontrivial"] = 1;
    p.set["longname"] = r.chance(0.5) ? 128 : r.chance(0.5) ? r.range(120, 128) : r.range(129, 160);
    if (r.chance(0.6)) p.set["shortread"] = r.chance(0.3) ? r.range(1, 8) : r.range(1, 600); if (r.chance(0.4)) p.set["iobuf"] = r.range(16, 700);
    int n = (int)r.range(2, 8); for (int i = 0; i < n; i++) switch (r.below(7)) {
        case 0: case 1: p.ops.push_back({ "save", { (int64_t)r.below(6), (int64_t)r.below(2), (int64_t)r.below(1000), (int64_t)r.below(2) } }); break;
        case 2: case 3: p.ops.push_back({ "foreign", { 0, (int64_t)r.below(2), (int64_t)r.below(1000), (int64_t)r.below(1u << 30) } }); break;
        case 4: p.ops.push_back({ "load", { (int64_t)r.below(6) } }); break;
        case 5: p.ops.push_back({ "resave", { (int64_t)r.below(6), (int64_t)r.below(3), (int64_t)r.below(1000) } }); break;
        default: p.ops.push_back({ "restart", {} }); }
}
static void load_faults(Rng &r, Plan &p, const Result &d) { int n = (int)r.below(4); while (n--) one_fault(r, p, d, F_SHORT); }
Scenario sc_load = { "load", load_gen, load_run, load_faults, REAL_S, STUB_S, "2-8 saves, loads, foreign archives and restarts over several files, short reads and writes, special float values; nontrivial: every run", { SHN("a"), SHN("b"), {"special", 0}, {"shortread", 0}, {"iobuf", 0}, {"longname", 1} } };

// ------------------------------------------------------------------ C11: damaged files
static vector<uint8_t> own_npz(const NetSpec &n, const vector<float> &par) {
    neuralnet_t *t = build_net(n, false); raw_set(t, par.data()); SUT(neuralnet_save(t, "own.npz")); vector<uint8_t> f; if (!disk_get("own.npz", f)) violation("save-failed", "a save without any fault left no file"); disk_del("own.npz"); SUT(neuralnet_free(t)); return f; }
// the members of the archive of a network, in the order the library writes them
static vector<NpyArr> net_arrays(const NetSpec &n, const vector<float> &par) {
    vector<NpyArr> v; size_t off = 0, longest = 1; for (int l = 0; l < n.nl; l++) longest = std::max(longest, strlen(act_name[n.act[l]]));
    for (int l = 0; l < n.nl; l++) { size_t nb = n.s[l + 1], nw = (size_t)n.s[l] * nb; NpyArr b, w; b.name = "bias_" + std::to_string(l); w.name = "weight_" + std::to_string(l); b.descr = w.descr = "<f4"; b.shape = { nb }; w.shape = { (size_t)n.s[l], nb };
        b.data.assign((uint8_t *)(par.data() + off), (uint8_t *)(par.data() + off + nb)); off += nb; w.data.assign((uint8_t *)(par.data() + off), (uint8_t *)(par.data() + off + nw)); off += nw; v.push_back(w); v.push_back(b); }
    NpyArr a; a.name = "activations"; a.descr = "|S" + std::to_string(longest); a.shape = { (size_t)n.nl }; a.data.assign(longest * n.nl, 0); for (int l = 0; l < n.nl; l++) memcpy(&a.data[longest * l], act_name[n.act[l]], strlen(act_name[n.act[l]])); v.push_back(a); return v;
}
static vector<uint8_t> raw_npy(const string &header, const vector<uint8_t> &data, int hl = -1, int major = 1) {
    vector<uint8_t> v = { 0x93, 'N', 'U', 'M', 'P', 'Y', (uint8_t)major, 0 }; size_t n = hl >= 0 ? (size_t)hl : header.size(); v.push_back(n & 255); v.push_back(n >> 8 & 255); if (major > 1) { v.push_back(0); v.push_back(0); }
    v.insert(v.end(), header.begin(), header.end()); v.insert(v.end(), data.begin(), data.end()); return v; }
constexpr int NCRAFT = 40;
// a malformed (or merely unusual) archive with valid checksums; same: it still describes exactly the network
static vector<uint8_t> craft(const NetSpec &n, const vector<float> &par, int kind, Rng &r) {
    vector<NpyArr> a = net_arrays(n, par); int L = n.nl; int l = (int)r.below(L); NpyArr &w = a[2 * l], &b = a[2 * l + 1], &ac = a[2 * L]; std::map<string, vector<uint8_t>> raw; std::map<string, int> method; vector<NpyArr> out; int zstyle = 0;
    auto shp = [](const NpyArr &x) { string s; for (auto q : x.shape) s += std::to_string(q) + ","; return s; };
    NpyArr &any = a[r.below(a.size())]; NpyArr &fl = a[r.below(2 * L)];
    auto hdr = [&](const NpyArr &x) { return "{'descr': '" + x.descr + "', 'fortran_order': False, 'shape': (" + shp(x) + "), }"; };
    switch (kind) {
    case 0: b.shape = { b.shape[0] + 1 }; b.data.resize(b.data.size() + 4, 1); break;
    case 1: if (b.shape[0] > 1) { b.shape[0]--; b.data.resize(b.data.size() - 4); } else { b.shape[0] = 7; b.data.resize(28, 3); } break;
    case 2: if (l == 0) { b.shape[0]++; b.data.resize(b.data.size() + 4, 2); break; }      // (more inputs of the first layer would be a valid network)
        w.shape[0] += r.range(1, 40); w.data.resize(w.shape[0] * w.shape[1] * 4, 9); break;
    case 3: w.shape[1] += r.range(1, 40); w.data.resize(w.shape[0] * w.shape[1] * 4, 9); break;
    case 4: w.shape = { w.shape[0] * w.shape[1] }; break;                                             // flat weights
    case 5: b.shape = { 1, b.shape[0] }; break;                                                       // two-dimensional bias
    case 6: w.shape = { w.shape[0], w.shape[1], 1 }; break;
    case 7: fl.descr = "<f8"; { vector<uint8_t> d; for (size_t i = 0; i < fl.data.size(); i += 4) { float f; memcpy(&f, &fl.data[i], 4); double g = f; d.insert(d.end(), (uint8_t *)&g, (uint8_t *)&g + 8); } fl.data = d; } break;
    case 8: fl.descr = "<f2"; fl.data.resize(fl.data.size() / 2); break;
    case 9: { static const char *d[] = { "<i4", "<u4", "|i4", ">i4" }; string t = r.pick(d); bool all = r.chance(0.5); for (int i = 0; i < 2 * L; i++) if (all || &a[i] == &fl) { a[i].descr = t; for (size_t j = 0; j + 3 < a[i].data.size(); j += 4) { int32_t v = (int32_t)r.range(1, 9); memcpy(&a[i].data[j], &v, 4); } } break; }
    case 10: fl.descr = ">f4"; for (size_t i = 0; i + 3 < fl.data.size(); i += 4) { std::swap(fl.data[i], fl.data[i + 3]); std::swap(fl.data[i + 1], fl.data[i + 2]); } break;
    case 11: w.fortran = true; { vector<uint8_t> d(w.data.size()); size_t R = w.shape[0], C = w.shape[1]; for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) memcpy(&d[4 * (j * R + i)], &w.data[4 * (i * C + j)], 4); w.data = d; } break;
    case 12: a.erase(a.begin() + r.below(2 * L)); break;                                               // odd number of parameter arrays
    case 13: ac.shape[0] -= 1; ac.data.resize(ac.shape[0] * (ac.data.size() / (ac.shape[0] + 1))); break;   // one name too few
    case 14: { size_t e = ac.data.size() / ac.shape[0]; ac.shape[0] += r.range(1, 5); vector<uint8_t> d = ac.data; while (d.size() < e * ac.shape[0]) d.push_back('x'); ac.data = d; break; }   // too many
    case 15: a.pop_back(); break;                                                                    // no names
    case 16: a.push_back(ac); a.back().name = "again"; break;                                         // names twice
    case 17: { NpyArr x = w; x.name = "extra_w"; NpyArr y = b; y.name = "extra_b"; size_t pos = r.below(a.size()); a.insert(a.begin() + pos, y); a.insert(a.begin() + pos, x); break; }
    case 18: { NpyArr x; x.name = "extra"; x.descr = "<i8"; x.shape = { 3 }; x.data.assign(24, 7); a.insert(a.begin() + r.below(a.size() + 1), x); break; }
    case 19: a.erase(a.begin(), a.begin() + 2 * L); break;                                            // only names
    case 20: ac.descr = "<U" + std::to_string(ac.data.size() / ac.shape[0]); { vector<uint8_t> d; for (auto c : ac.data) { d.push_back(c); d.push_back(0); d.push_back(0); d.push_back(0); } ac.data = d; } break;
    case 21: raw[any.name] = raw_npy("{'descr': '" + any.descr + "', 'fortran_order': False, 'shape': (" + (r.chance(0.5) ? "4294967296, 4294967296" : r.chance(0.5) ? "9223372036854775807, 2" : "2147483648, 2147483648, 4") + "), }\n", any.data); break;
    case 22: raw[any.name] = raw_npy("{'descr': '" + any.descr + "', 'fortran_order': False, 'shape': (" + (r.chance(0.5) ? "0, 5" : "5, 0") + "), }\n", {}); break;
    case 23: if (!any.data.empty()) any.data.resize(any.data.size() - 1 - r.below(any.data.size())); break;   // data too short
    case 24: any.data.resize(any.data.size() + r.range(1, 200), 0x5a); break;                        // trailing bytes
    case 25: { string h = hdr(any); static const char *k[] = { "'descr'", "'fortran_order'", "'shape'" }; string s = r.pick(k); h.replace(h.find(s), s.size(), "'xyz'"); raw[any.name] = raw_npy(h + "\n", any.data); break; }
    case 26: { string h = hdr(any); h = h.substr(0, h.find('(') + 1 + r.below(4)); raw[any.name] = raw_npy(h, any.data); break; }   // the shape never ends
    case 27: raw[any.name] = raw_npy("{'descr': '" + any.descr + "', 'fortran_order': False, 'shape': (1,1,1,1,1,1,1," + (r.chance(0.5) ? "1," : "1,1,1,") + "), }\n", any.data); break;
    case 28: { static const char *d[] = { "<f0", "<f", "<f-4", "f4", "<", "", "<f99999999999999999999", "|O8", "<f4x", "|S0", "|S" }; NpyArr x = any; x.descr = r.pick(d); raw[any.name] = raw_npy(hdr(x) + "\n", any.data); break; }
    case 29: raw[any.name] = raw_npy(hdr(any) + "\n", any.data, (int)r.range(0, 0xffff)); break;      // wrong header length
    case 30: raw[any.name] = raw_npy(hdr(any) + "\n", any.data, -1, 2 + (int)r.below(2)); break;       // version 2 or 3
    case 31: { auto v = npy_bytes(any); v[r.below(6)] ^= 1 + r.below(255); raw[any.name] = v; break; }  // magic
    case 32: any.name = r.chance(0.3) ? "%s%n%d%s%s%n" : r.chance(0.5) ? string(r.range(81, 3000), 'm') : string(r.range(100, 400), '%'); break;
    case 33: method[any.name] = r.chance(0.5) ? 99 : 12; break;
    case 34: a.clear(); break;
    case 35: { string t = "not an array at all"; NpyArr x; x.name = "README"; raw[x.name] = vector<uint8_t>(t.begin(), t.end()); a.insert(a.begin() + r.below(a.size() + 1), x); break; }
    case 36: raw[any.name] = {}; break;                                                              // empty member
    case 37: { NpyArr &x = a[r.below(a.size())], &y = a[r.below(a.size())]; if (&x == &y || (x.shape == y.shape && x.descr == y.descr)) { b.shape[0]++; b.data.resize(b.data.size() + 4, 2); } else std::swap(x, y); break; }   // (the order is the format: arrays of one shape exchanged are another network)                            // members exchanged
    case 38: { auto v = npy_bytes(any); int c = (int)r.range(1, 3); auto P0 = std::find(v.begin(), v.end(), '('), P1 = std::find(P0, v.end(), ')');
        while (c--) { auto at = v.begin() + 10 + r.below(std::min<size_t>(118, v.size() - 10)); uint8_t b = (uint8_t)r.below(256); if (at < P0 || at > P1) { *at = b; continue; }
            uint8_t o = *at; *at = '0' + b % 10; NpyArr q; string e; if (npy_parse(v, q, &e) || !q.data.size()) *at = o; else { size_t m = 4; for (auto x : q.shape) m *= x; if (m <= q.data.size()) *at = o; } }   // (a smaller shape with bytes after the data is a valid array: other data, not damage)
        raw[any.name] = v; break; }   // header bytes overwritten
    default: { size_t e = ac.data.size() / ac.shape[0]; ac.data[r.below(e * ac.shape[0])] ^= 0; zstyle = 3; NpyArr &q = a[r.below(2 * L)]; q.shape.insert(q.shape.begin(), 1); } break;
    }
    vector<NpzMember> m; for (auto &x : a) { NpzMember e; e.name = x.name; e.content = raw.count(x.name) ? raw[x.name] : npy_bytes(x, (int)r.below(2) * 2); if (method.count(x.name)) e.method = method[x.name]; else e.method = zstyle ? 8 : 0; m.push_back(e); }
    return zip_bytes(m, zstyle);
}
vector<uint8_t> damaged_npz(const NetSpec &n, const vector<float> &par, Rng &r) {
    if (r.chance(0.6)) return craft(n, par, (int)r.below(NCRAFT), r);
    vector<uint8_t> z = net_npz(n, par, r, true); switch (r.below(3)) { case 0: z.resize(r.below(z.size())); break; case 1: { int c = (int)r.range(1, 5); while (c--) z[r.below(z.size())] ^= 1 << r.below(8); break; } default: { size_t a = r.below(z.size()), k = 1 + r.below(60); for (size_t i = a; i < z.size() && i < a + k; i++) z[i] = (uint8_t)r.below(256); } } return z;
}
static bool unusual_names(const NetSpec &n, neuralnet_t *l, const vector<float> &par) { return net_diff(l, n, par, false).empty(); }
static void corrupt_run() {
    register_custom(); NetSpec N[2] = { get_net("a"), get_net("a") }; N[1].wseed = mix(N[0].wseed, 4) >> 20; bool special = P->get("special"); neuralnet_t *scr; vector<float> par[2]; vector<uint8_t> good[2];
    { NoFaults nf; scr = build_net(N[0], false); for (int i = 0; i < 2; i++) { par[i] = variant_params(scr, N[i], i, special); if (P->get("own", 1)) good[i] = own_npz(N[i], par[i]); else { Rng r(P->get("fseed")); good[i] = net_npz(N[i], par[i], r, true); } } }
    const char *t = "model.npz"; int nulls = 0;
    for (size_t q = 0; q < P->ops.size(); q++) {
        const Op &op = P->ops[q]; S->res.cur_op = (int)q; Rng r(mix(op.at(0), 21)); vector<uint8_t> z = good[0]; bool present = true, names = true; disk_del("model.npz"); const string &k = op.name;
        if (k == "truncate") z.resize(r.chance(0.3) ? r.below(z.size()) : z.size() - 1 - r.below(std::min<size_t>(z.size(), 400)));
        else if (k == "flip") { int c = r.chance(0.6) ? 1 : (int)r.range(2, 5); while (c--) z[r.chance(0.5) ? r.below(z.size()) : z.size() - 1 - r.below(std::min<size_t>(z.size(), 60ul * (2 * N[0].nl + 2)))] ^= 1 << r.below(8); }
        else if (k == "over") { size_t a = r.below(z.size()), n = 1 + r.below(64); int m = (int)r.below(3); for (size_t i = a; i < z.size() && i < a + n; i++) z[i] = m == 0 ? 0 : m == 1 ? 0xff : (uint8_t)r.below(256); }
        else if (k == "cut") { size_t a = r.below(z.size()), n = 1 + r.below(r.chance(0.5) ? 8 : 300); z.erase(z.begin() + a, z.begin() + std::min(z.size(), a + n)); }
        else if (k == "insert") { size_t a = r.below(z.size()), n = 1 + r.below(64); z.insert(z.begin() + a, n, (uint8_t)r.below(256)); }
        else if (k == "mix") { size_t u = r.chance(0.5) ? 512 : 1 + r.below(700); for (size_t i = 0; i < z.size() && i < good[1].size(); i++) if (mix(op.at(0), i / u) & 1) z[i] = good[1][i]; }
        else if (k == "tail") { size_t a = r.below(z.size()); for (size_t i = a; i < z.size() && i < good[1].size(); i++) z[i] = good[1][i]; }
        else if (k == "zero") { size_t a = r.below(z.size()); for (size_t i = a; i < z.size(); i++) z[i] = 0; }
        else if (k == "junk") { z.clear(); int c = (int)r.range(0, 400); while (c--) z.push_back((uint8_t)r.below(256)); if (z.size() > 22 && r.chance(0.5)) { memcpy(&z[z.size() - 22], "PK\5\6", 4); } }
        else if (k == "absent") present = false;
        else if (k == "dir") { present = false; if (!disk_exists("model.npz")) disk_mkdir("model.npz"); }
        else if (k == "craft") { Rng c(mix(op.at(0), 77)); z = craft(N[0], par[0], (int)(op.at(1) % NCRAFT), c); if (op.at(1) % NCRAFT == 13 || op.at(1) % NCRAFT == 38) names = true; }
        if (present) disk_put(t, z.data(), z.size());
        bool good_file = k == "good"; uint64_t f0 = faults_so_far();
        neuralnet_t *l = SUT(neuralnet_load(t));
        if (l) {
            string d0, d1; { NoFaults nf; d0 = net_diff(l, N[0], par[0], names); d1 = net_diff(l, N[1], par[1], names); }
            if (!d0.empty() && !d1.empty() && (k == "mix" || k == "tail")) {     // two files mixed where members begin: every member is intact, and nothing in the format ties members together
                vector<float> lp; if (l->n_layers == N[0].nl) { bool same = true; for (int i = 0; i < N[0].nl; i++) same &= l->layer[i].n_input == N[0].s[i] && l->layer[i].n_output == N[0].s[i + 1]; if (same) raw_params(l, lp); }
                size_t off = 0; bool each = !lp.empty(); for (int i = 0; i < N[0].nl && each; i++) for (size_t len : { (size_t)N[0].s[i + 1], (size_t)N[0].s[i] * N[0].s[i + 1] }) { bool one = false; for (auto &p : par) one |= !memcmp(&lp[off], &p[off], 4 * len); each &= one; off += len; }
                if (each) { d0.clear(); PROBE("two files mixed at member boundaries"); } }
            // the header of the name array overwritten: names of another length that resolve to nothing become linear, with a warning
            if (k == "craft" && op.at(1) % NCRAFT == 38 && !d0.empty()) { NoFaults nf; string w = net_diff(l, N[0], par[0], false); bool warned = take_stderr().find("Warning") != string::npos; bool lin = w.empty() && warned;
                for (int i = 0; lin && i < N[0].nl; i++) { const char *an = SUT(get_activation_name(l->layer[i].activation_func)); lin = !strcmp(an, "linear") || !strcmp(an, act_name[N[0].act[i]]); }
                if (lin) { d0.clear(); PROBE("damaged names became linear, with a warning"); } }
            CHECK(d0.empty() || d1.empty(), "wrong-network", "load of a damaged file (%s %lld) returned a network that was never saved: %s", k.c_str(), (long long)op.at(1), d0.c_str());
            SUT(neuralnet_free(l)); if (!good_file) PROBE("damaged file still loads exactly");
        } else { nulls++; if (good_file) CHECK(faults_so_far() != f0, "load-failed", "a good file does not load"); PROBE("load of a damaged file failed cleanly"); }
        string nm = "model.npz"; disk_del("model.npz");
    }
    P->faults.clear(); disk_put("ok.npz", good[0].data(), good[0].size()); neuralnet_t *l = SUT(neuralnet_load("ok.npz")); CHECK(l, "load-failed", "after failed loads a good file does not load"); string d = net_diff(l, N[0], par[0]); CHECK(d.empty(), "loads-differently", "after failed loads a good file loads as another network: %s", d.c_str());
    SUT(neuralnet_free(l)); SUT(neuralnet_free(scr)); run_atexit(); (void)unusual_names;
}
static void corrupt_gen(Rng &r, Plan &p) {
    NetOpt o; o.maxl = 3; o.maxsize = r.chance(0.2) ? 33 : 9; o.maxparams = 200; o.custom = r.chance(0.2); gen_net(r, p, o, "a"); p.set["special"] = r.chance(0.2); p.set["own"] = r.chance(0.7); p.set["fseed"] = r.below(1u << 30); p.set["nontrivial"] = 1; if (r.chance(0.3)) p.set["shortread"] = r.range(1, 400);
    static const char *k[] = { "truncate", "flip", "flip", "over", "cut", "insert", "mix", "tail", "zero", "junk", "craft", "craft", "craft", "craft", "absent", "dir", "good" };
    int n = (int)r.range(2, 7); while (n--) p.ops.push_back({ r.pick(k), { (int64_t)r.below(1u << 30), (int64_t)r.below(NCRAFT) } });
}
static void corrupt_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, F_ERR | F_SHORT | F_MALLOC, 0.6); }
Scenario sc_corrupt = { "corrupt", corrupt_gen, corrupt_run, corrupt_faults, REAL_S, STUB_S, "2-7 loads of missing, truncated, overwritten, torn, random and malformed archives (40 kinds), some with storage faults during the load, then of a good one; nontrivial: every run", { SHN("a"), {"special", 0}, {"shortread", 0} } };

// ------------------------------------------------------------------ C12: array files
struct Spec { char type; size_t elem; int nd; size_t sh[8]; bool fortran; char endian; size_t bytes; vector<uint8_t> data; };
constexpr int64_t SMALLSPEC = 1ll << 40;
static Spec gen_spec(uint64_t seed) { bool small = seed & SMALLSPEC;
    Rng r(mix(seed, 5)); Spec s; static const struct { char t; size_t e; } ty[] = { {'f', 2}, {'f', 4}, {'f', 8}, {'f', 16}, {'i', 1}, {'i', 2}, {'i', 4}, {'i', 8}, {'u', 1}, {'u', 2}, {'u', 4}, {'u', 8}, {'c', 8}, {'c', 16}, {'c', 32}, {'b', 1}, {'S', 3}, {'S', 17}, {'S', 120} };
    auto &t = ty[r.below(sizeof ty / sizeof *ty)]; s.type = t.t; s.elem = t.e; s.nd = r.chance(0.1) ? 0 : r.chance(0.7) ? (int)r.range(1, 3) : (int)r.range(4, 8); s.fortran = r.chance(0.3); s.endian = r.chance(0.75) ? 0 : s.elem == 1 || s.type == 'S' ? '|' : r.chance(0.5) ? '<' : '>';
    size_t total = 1; memset(s.sh, 0, sizeof s.sh); size_t most = mix(seed, 71) % 40 == 0 && !small ? 40000 : small ? 300 : 6000; bool big0 = r.chance(0.04) && s.nd > 1;
    for (int i = 0; i < s.nd; i++) { size_t lim = most / (total * s.elem); if (lim < 1) lim = 1; s.sh[i] = s.nd > 4 ? 1 + r.below(std::min<size_t>(lim, 3)) : r.chance(0.05) ? 0 : 1 + r.below(std::min<size_t>(lim, most > 6000 ? 20000 : r.chance(0.2) ? 1500 : 12)); total *= std::max<size_t>(1, s.sh[i]); }
    if (big0) { for (int i = 0; i < s.nd; i++) s.sh[i] = r.range(1000000, 2000000000); s.sh[r.below(s.nd)] = 0; }
    total = 1; for (int i = 0; i < s.nd; i++) total *= s.sh[i]; s.bytes = total * s.elem; s.data.resize(s.bytes); for (auto &b : s.data) b = (uint8_t)r.below(256); return s;
}
static string spec_str(const Spec &s) { string t = string(1, s.type) + std::to_string(s.elem) + (s.fortran ? " fortran (" : " ("); for (int i = 0; i < s.nd; i++) t += std::to_string(s.sh[i]) + ","; return t + ")"; }
static void make_arr(npy_array_t *a, const Spec &s, char *data) { sut_npy_fill(a, data, s.nd, s.sh, s.type, s.elem, s.fortran); a->endianness = s.endian; }
static char want_endian(const Spec &s) { return s.endian ? s.endian : s.elem == 1 || s.type == 'S' ? '|' : '<'; }
static string arr_is(const npy_array_t *m, const Spec &s) {
    char b[160]; if (m->typechar != s.type || m->elem_size != s.elem) { snprintf(b, sizeof b, "type %c%zu instead of %c%zu", m->typechar, m->elem_size, s.type, s.elem); return b; }
    if (m->ndim != s.nd) { snprintf(b, sizeof b, "%d dimensions instead of %d", m->ndim, s.nd); return b; } for (int i = 0; i < s.nd; i++) if (m->shape[i] != s.sh[i]) { snprintf(b, sizeof b, "dimension %d is %zu instead of %zu", i, m->shape[i], s.sh[i]); return b; }
    if (m->fortran_order != s.fortran) return "the order flag differs"; if (m->endianness != want_endian(s)) { snprintf(b, sizeof b, "byte order '%c' instead of '%c'", m->endianness, want_endian(s)); return b; }
    if (s.bytes) { if (in_arena(m->data) && !arena_range_ok(m->data, s.bytes)) return "the data reaches beyond its memory"; if (memcmp(m->data, s.data.data(), s.bytes)) return "the data differ"; } return "";
}
static string file_is(const vector<uint8_t> &f, const Spec &s) {
    NpyArr a; string e; if (!npy_parse(f, a, &e)) return e; string d = string(1, want_endian(s)) + s.type + std::to_string(s.elem); if (a.descr != d) return "descr is " + a.descr + " instead of " + d;
    if (a.shape != vector<size_t>(s.sh, s.sh + s.nd)) return "the shape in the header differs"; if (a.fortran != s.fortran) return "the order flag differs"; if (a.data != s.data) return "the data differ"; if (f.size() && (f.size() - s.bytes) % 16) return "the header is not padded to a multiple of 16"; return "";
}
// a non-null result for arbitrary content must lie inside that content
static string inside_file(const npy_array_t *m, const vector<uint8_t> &f) {
    char b[200]; if (f.size() < 10) return "an array from a file shorter than the fixed header"; size_t hl = f[8] | f[9] << 8, need = m->elem_size; if (m->ndim < 0 || m->ndim > 8) { snprintf(b, sizeof b, "%d dimensions", m->ndim); return b; }
    bool zero = false; for (int i = 0; i < m->ndim; i++) zero |= m->shape[i] == 0; if (zero) need = 0; for (int i = 0; i < m->ndim && !zero; i++) if (__builtin_mul_overflow(need, m->shape[i], &need)) return "a size beyond any file";
    if (10 + hl > f.size() || need > f.size() - 10 - hl) { snprintf(b, sizeof b, "an array of %zu bytes from a file with %zu bytes of data", need, 10 + hl > f.size() ? 0 : f.size() - 10 - hl); return b; }
    if (in_arena(m->data) && need && !arena_range_ok(m->data, need)) { snprintf(b, sizeof b, "an array of %zu bytes with less memory than that", need); return b; }
    if (need && memcmp(m->data, &f[10 + hl], need)) return "other bytes than the file holds"; return "";
}
struct Slot { bool known = false; bool list = false; vector<uint64_t> seeds; vector<string> names; };
static void npy_run() {
    Slot slot[4]; auto fname = [](int i) { return "f" + std::to_string(i); };
    { size_t est = 3000; apply_diskcap(est); }
    auto diag = [] { return !(take_stderr() + take_stdout()).empty(); };
    for (size_t q = 0; q < P->ops.size(); q++) {
        const Op &op = P->ops[q]; S->res.cur_op = (int)q; int k = (int)op.at(0) % 4; string fn = fname(k); Slot &sl = slot[k]; out_mark(); uint64_t f0 = faults_so_far(); int h0 = open_handles();
        auto faulted = [&] { return faults_so_far() != f0 || P->has("diskcap"); };
        if (op.name == "save") {
            Spec s = gen_spec(op.at(1)); char *d = galloc<char>(s.bytes ? s.bytes : 1, 16, op.at(1) % 16); memcpy(d, s.data.data(), s.bytes); npy_array_t a; make_arr(&a, s, d); SUT(npy_array_save(fn.c_str(), &a)); bool dg = diag(); vector<uint8_t> f; bool ex = disk_get(fn.c_str(), f); string e = ex ? file_is(f, s) : "there is no file";
            if (!e.empty()) { CHECK(dg, "silent-failure", "saving %s: %s, and nothing was reported", spec_str(s).c_str(), e.c_str()); CHECK(faulted(), "wrong-file", "saving %s without any fault: %s", spec_str(s).c_str(), e.c_str()); }
            sl = Slot(); if (e.empty()) { sl.known = true; sl.seeds = { (uint64_t)op.at(1) }; } CHECK(!memcmp(d, s.data.data(), s.bytes), "array-changed", "saving changed the array"); gfree(d);
        } else if (op.name == "load" || op.name == "mmap") {
            vector<uint8_t> f; bool ex = disk_get(fn.c_str(), f); npy_array_t *m = op.name == "load" ? SUT(npy_array_load(fn.c_str())) : SUT(npy_array_mmap(fn.c_str()));
            if (m) { CHECK(ex, "ghost", "an array came from a file that does not exist"); if (sl.known && !sl.list) { Spec s = gen_spec(sl.seeds[0]); string e = arr_is(m, s); CHECK(e.empty(), "wrong-array", "%s of %s: %s", op.name.c_str(), spec_str(s).c_str(), e.c_str()); PROBE("array file read back");
                    uint64_t so = S->res.seam_faults[SE_STDOUT]; { NoFaults nf; take_stderr(); out_mark(); } SUT(npy_array_dump(m)); NoFaults nf; string out = take_stdout(); vector<long long> got, want(s.sh, s.sh + s.nd); for (auto &x : want) x = (int)x; want.insert(want.begin(), s.nd); size_t pos = out.find_first_of("0123456789");
                    for (const char *c = pos == string::npos ? "" : out.c_str() + pos; *c && *c != ')';) { if (isdigit((unsigned char)*c) || *c == '-') { char *z; got.push_back(strtoll(c, &z, 10)); c = z; } else c++; }
                    if (S->res.seam_faults[SE_STDOUT] == so) CHECK(got == want, "wrong-description", "the description of %s is %s", spec_str(s).c_str(), out.c_str()); }
                string e = inside_file(m, f); CHECK(e.empty(), "beyond-the-file", "%s returned %s", op.name.c_str(), e.c_str()); SUT(npy_array_free(m)); }
            else { if (sl.known && !sl.list) CHECK(faulted(), "load-failed", "%s of a good file failed without any fault: %s", op.name.c_str(), take_stderr().c_str()); PROBE("reading an array file failed cleanly"); }
        } else if (op.name == "savelist") {
            int c = (int)std::max<int64_t>(1, op.at(2)); int64_t base = c > 8 ? op.at(1) | SMALLSPEC : op.at(1); vector<string> names, inlist; int w = (int)op.at(4, 3); npy_array_list_t *l = nullptr; vector<char *> bufs; vector<npy_array_t *> arrs; vector<Spec> sp; int64_t st = op.at(3);
            { NoFaults nf; for (int i = 0; i < c; i++) { Spec s = gen_spec(base + i); char *d = (char *)SUT(malloc(s.bytes + 1)); memcpy(d, s.data.data(), s.bytes); npy_array_t *a = (npy_array_t *)SUT(calloc(1, sizeof *a)); make_arr(a, s, d);
                bool pre = st & 8; l = pre ? SUT(npy_array_list_prepend(l, a, "arr%d.npy", i)) : SUT(npy_array_list_append(l, a, i & 1 ? "m%0*d" : "%*d th", w, i));
                char nm[200]; if (pre) snprintf(nm, sizeof nm, "arr%d.npy", i); else snprintf(nm, sizeof nm, i & 1 ? "m%0*d" : "%*d th", w, i); names.insert(pre ? names.begin() : names.end(), nm); CHECK(l, "list-failed", "an array could not be added to a list under the name '%s'", nm); if (pre) sp.insert(sp.begin(), s); else sp.push_back(s); }
                if (st & 16) for (npy_array_list_t *i = l; i; i = i->next) { SUT(free(i->filename)); i->filename = nullptr; } }
            int n = st & 1 ? SUT(npy_array_list_save_compressed(fn.c_str(), l, st & 2 ? ZIP_CM_DEFLATE : ZIP_CM_STORE, st & 2 ? 1 + (st >> 5) % 9 : 0)) : SUT(npy_array_list_save(fn.c_str(), l)); bool dg = diag(); vector<uint8_t> f; bool ex = disk_get(fn.c_str(), f);
            string e; vector<NpzMember> m; if (!ex) e = "there is no file"; else if (zip_read(f, m, &e)) { if (m.size() != sp.size()) e = std::to_string(m.size()) + " members"; for (size_t i = 0; i < sp.size() && e.empty(); i++) { e = file_is(m[i].content, sp[i]); if (e.empty()) { if (!(st & 16)) CHECK(m[i].name == names[i], "wrong-name", "a list is saved with '%s' instead of '%s'", m[i].name.c_str(), names[i].c_str()); for (size_t q = 0; q < i; q++) CHECK(m[q].name != m[i].name, "wrong-name", "two arrays are saved under the name '%s'", m[i].name.c_str()); inlist.push_back(m[i].name); int want = (st & 3) == 3 ? 8 : 0; CHECK(m[i].method == want, "wrong-compression", "a list saved with compression method %d has a member with method %d", want, m[i].method); } } }
            if (!e.empty()) { CHECK(dg || n != c, "silent-failure", "saving a list of %d arrays: %s, and nothing was reported", c, e.c_str()); CHECK(faulted(), "wrong-file", "saving a list of %d arrays without any fault: %s", c, e.c_str()); } else CHECK(n == c, "wrong-count", "saving a list of %d arrays succeeded and returned %d", c, n);
            if (!e.empty()) CHECK(n != c, "false-success", "saving a list of %d arrays failed (%s) and still returned %d", c, e.c_str(), n);
            sl = Slot(); if (e.empty()) { sl.known = true; sl.list = true; for (int i = 0; i < c; i++) sl.seeds.push_back(base + (st & 8 ? c - 1 - i : i)); sl.names = inlist; } SUT(npy_array_list_free(l));
        } else if (op.name == "savenothing") {
            vector<uint8_t> f0, f1; bool e0 = disk_get(fn.c_str(), f0); int n = 0; switch (op.at(1) % 3) { case 0: SUT(npy_array_save(fn.c_str(), nullptr)); break; case 1: n = SUT(npy_array_list_save(fn.c_str(), nullptr)); break; default: n = SUT(npy_array_list_save_compressed(fn.c_str(), nullptr, ZIP_CM_DEFLATE, 6)); }
            bool e1 = disk_get(fn.c_str(), f1); CHECK(n == 0, "wrong-count", "saving a list of no arrays returned %d", n); CHECK(e0 == e1 && f0 == f1, "file-lost", "saving nothing changed the file");
        } else if (op.name == "loadlist") {
            npy_array_list_t *l = SUT(npy_array_list_load(fn.c_str())); bool dg = diag();
            if (sl.known && sl.list) { size_t j = 0, n = 0; for (npy_array_list_t *i = l; i; i = i->next, n++) { while (j < sl.seeds.size() && !arr_is(i->array, gen_spec(sl.seeds[j])).empty()) j++; CHECK(j < sl.seeds.size(), "wrong-array", "loading a list: element %zu is none of the saved arrays", n); CHECK(i->filename && (j >= sl.names.size() || sl.names[j] == i->filename), "wrong-name", "loading a list: element %zu is named '%s' instead of '%s'", n, i->filename ? i->filename : "(none)", sl.names[j].c_str()); j++; }
                CHECK(!n || n >= sl.seeds.size(), "partial-list", "loading a list of %zu arrays gave only %zu of them", sl.seeds.size(), n);
                if (n < sl.seeds.size()) { CHECK(faulted(), "load-failed", "loading a good list of %zu arrays without any fault gave %zu", sl.seeds.size(), n); CHECK(dg, "silent-failure", "loading a list of %zu arrays gave %zu and nothing was reported", sl.seeds.size(), n); } else PROBE("list file read back"); }
            if (l) CHECK(SUT(npy_array_list_length(l)) > 0, "list-length", "a list of no elements"); SUT(npy_array_list_free(l));
        } else if (op.name == "damage") {
            vector<uint8_t> f; if (!disk_get(fn.c_str(), f) || f.empty()) continue; Rng r(mix(op.at(1), 9)); vector<uint8_t> orig = f;
            switch (op.at(2) % 6) { case 0: f.resize(r.below(f.size())); break; case 1: f[r.below(std::min<size_t>(f.size(), 128))] ^= 1 << r.below(8); break; case 2: { int c = (int)r.range(1, 20); while (c--) f[r.below(std::min<size_t>(f.size(), 128))] = (uint8_t)r.below(256); break; }
                case 3: { static const char *tx[] = { "9", "0", "99999999999", ")", "(", "'", "-", ",", "True", "<f8", "\n", "4294967297" }; const char *s = r.pick(tx); size_t at = 10 + r.below(80); for (size_t i = 0; s[i] && at + i < f.size(); i++) f[at + i] = s[i]; break; }
                case 4: f[r.below(f.size())] ^= 1 << r.below(8); break; default: f.insert(f.end(), r.below(300), (uint8_t)r.below(256)); }
            disk_put(fn.c_str(), f.data(), f.size());
            if (f != orig && !(sl.list && op.at(2) % 6 != 3)) { bool keep = sl.known && sl.list; sl.known = keep; } else if (f != orig && sl.list) { }
            if (f != orig && sl.known && sl.list) { // members are protected by checksums; what still reads must be one of the saved arrays, in order
                npy_array_list_t *l = SUT(npy_array_list_load(fn.c_str())); size_t j = 0, n = 0; for (npy_array_list_t *i = l; i; i = i->next, n++) { while (j < sl.seeds.size() && !arr_is(i->array, gen_spec(sl.seeds[j])).empty()) j++; CHECK(j < sl.seeds.size(), "wrong-array", "a damaged archive gave an array (element %zu) that was never saved", n); j++; }
                if (!l) PROBE("damaged archive refused"); SUT(npy_array_list_free(l)); sl = Slot(); }
            else if (f != orig) sl = Slot();
        } else if (op.name == "craft") {      // an unusual header
            Rng r(mix(op.at(1), 4)); Spec s = gen_spec(op.at(1)); string sh; int kd = (int)(op.at(2) % 8); for (int i = 0; i < s.nd; i++) sh += (i ? ", " : "") + std::to_string(s.sh[i]); if (s.nd == 1) sh += ",";
            string de = string(1, want_endian(s)) + s.type + std::to_string(s.elem), fo = s.fortran ? "True" : "False", h; bool ok = true;
            switch (kd) { case 0: h = "{'descr': '" + de + "', 'fortran_order': " + fo + ", 'shape': (" + sh + "), }" + string(r.chance(0.5) ? r.range(100, 400) : r.range(0, 60), ' ') + "\n"; break;      // padding of any length
                case 1: h = "{'descr': '" + de + "', 'fortran_order': " + fo + ", 'shape': (18446744073709551615, 2), }\n"; ok = false; break; case 2: h = "{'descr': '" + de + "', 'fortran_order': " + fo + ", 'shape': (" + sh; ok = false; break; case 3: h = "{}\n"; ok = false; break;
                case 4: h = "{'descr': '" + de + "', 'fortran_order': " + fo + ", 'shape': (1, 1, 1, 1, 1, 1, 1, 1, 1), }\n"; ok = false; break; case 5: h = "{'descr': '" + string(1, want_endian(s)) + s.type + "0', 'fortran_order': " + fo + ", 'shape': (" + sh + "), }\n"; ok = false; break;
                case 6: h = "{'descr': '" + de + "', 'fortran_order': " + fo + ", 'shape': (" + std::to_string(r.range(1, 1 << 30)) + ", " + std::to_string(r.range(1, 1 << 30)) + ", " + std::to_string(r.range(1, 1 << 30)) + ", 4294967296), }\n"; ok = false; break; default: h = string(r.range(1, 400), "({,' "[r.below(5)]); ok = false; }
            vector<uint8_t> f = raw_npy(h, s.data, r.chance(0.1) ? (int)r.range(0, 65535) : -1); ok = ok && (f[8] | f[9] << 8) == (int)h.size(); disk_put(fn.c_str(), f.data(), f.size()); sl = Slot(); if (ok) { sl.known = true; sl.seeds = { (uint64_t)op.at(1) }; }
        }
        CHECK(open_handles() == h0, "handle-leak", "after %s: %s", op.name.c_str(), open_handles_desc().c_str());
    }
}
static void npy_gen(Rng &r, Plan &p) {
    p.set["nontrivial"] = 1; if (r.chance(0.5)) p.set["shortread"] = r.chance(0.3) ? r.range(1, 8) : r.range(1, 500); if (r.chance(0.4)) p.set["iobuf"] = r.range(16, 700);
    int n = (int)r.range(2, 9); for (int i = 0; i < n; i++) { int64_t k = r.below(3), s = r.below(1u << 30);
        switch (r.below(12)) { case 0: case 1: p.ops.push_back({ "save", { k, s } }); break; case 2: case 3: p.ops.push_back({ "savelist", { k, s, r.chance(0.05) ? r.range(6, r.chance(0.3) ? 120 : 20) : r.range(1, 5), (int64_t)r.below(512), r.chance(0.7) ? 3 : r.chance(0.7) ? r.range(1, 76) : r.range(70, 76) } }); break; case 4: case 5: p.ops.push_back({ "load", { k } }); break; case 6: p.ops.push_back({ "mmap", { k } }); break; case 7: p.ops.push_back({ "loadlist", { k } }); break;
            case 8: case 9: p.ops.push_back({ "damage", { k, s, (int64_t)r.below(6) } }); p.ops.push_back({ r.chance(0.5) ? "load" : "mmap", { k } }); break; default: p.ops.push_back({ "craft", { k, s, (int64_t)r.below(8) } }); p.ops.push_back({ r.chance(0.5) ? "load" : "mmap", { k } }); }
        if (r.chance(0.04)) p.ops.push_back({ "savenothing", { k, (int64_t)r.below(3) } });
        if (r.chance(0.5) && !p.ops.empty()) { string nm = p.ops.back().name; if (nm == "save") p.ops.push_back({ r.chance(0.5) ? "load" : "mmap", { k } }); else if (nm == "savelist") p.ops.push_back({ "loadlist", { k } }); } }
}
static void npy_faults(Rng &r, Plan &p, const Result &d) { rand_faults(r, p, d, F_ERR | F_SHORT | F_CAP | F_MALLOC, 0.35); }
Scenario sc_npy = { "npy", npy_gen, npy_run, npy_faults, REAL_S, STUB_S, "2-15 saves, loads, mappings, list saves and loads of arrays of 0-8 dimensions and 19 types, short reads and writes, failing operations, full disk, damaged and unusual files; nontrivial: every run", { {"shortread", 0}, {"iobuf", 0} } };
}
