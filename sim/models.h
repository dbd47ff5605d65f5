// Executable reference models of the callbacks.
#pragma once
#include "scen.h"
namespace sim {
// Whether a worst possible first score (infinite, or the largest float) is a score at all is left open: the two
// readings are two models, and the code has to follow one of them.
static inline bool first_ok(float s, bool greater, bool infok) { return infok || (greater ? s > -3.402823466e38f : s < 3.402823466e38f); }
struct EsModel {                        // early stopping
    int patience; bool greater, infok, has = false, stop = false; float best = 0; int since = 0;
    EsModel(int p, bool g, bool infok = true) : patience(p), greater(g), infok(infok) {}
    bool epoch(float s) {
        bool imp = !std::isnan(s) && (has ? (greater ? s > best : s < best) : first_ok(s, greater, infok));
        if (imp) { has = true; best = s; since = 0; } else if (++since > patience) stop = true;
        return stop;
    }
};
struct BestModel {                      // checkpoint: true when this epoch is a new best
    bool greater, infok, has = false; float best = 0;
    explicit BestModel(bool g, bool infok = true) : greater(g), infok(infok) {}
    bool epoch(float s) { bool imp = !std::isnan(s) && (has ? (greater ? s > best : s < best) : first_ok(s, greater, infok)); if (imp) { has = true; best = s; } return imp; }
};
struct LogEntry { int epoch = 0; int64_t sec = -1; std::vector<std::string> names; std::vector<float> vals; bool optional = false; };
// "" if the text consists of exactly these lines; names and values anywhere in the line after the epoch number, in order
std::string check_log(const std::string &text, const std::vector<LogEntry> &want, bool times);
std::string check_log_line(const std::string &line, const LogEntry &w, bool times);
// the log: what it held before the epoch, the complete lines in it, the numbers the next line may have
constexpr size_t LOGMAX = 160 << 10; constexpr int MAXREC = 400; constexpr const char *LOGF = "train.log";
struct LogModel { int op; bool init, pending, beforeexists; size_t n; char before[LOGMAX]; int nrec; struct { int epoch; size_t end; } rec[MAXREC]; int cand[64], ncand; };
std::string log_text(); void cand_set(LogModel &M, const std::set<int> &s);
std::set<int> continuations(const LogModel &M, const std::string &t, int conf, bool usesfile, bool faulted);   // the numbers a new logger may start from
// checks what one epoch (complete or cut short by a death) appended; narrows the candidates
void log_check(LogModel &M, optimizer_t *o, const std::vector<int> &ms, const float *res, bool valid, bool faulted, bool crashed, const std::string &out, bool nostd, bool stdoutfault, int64_t t0, int64_t t1);
// mean of the metrics over samples from single-sample predictions of the library
void check_eval(neuralnet_t *nn, const NetSpec &n, int cnt, const float *X, const float *Y, const std::vector<int> &ms, const float *res, const char *who);
}
