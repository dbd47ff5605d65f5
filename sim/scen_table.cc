#include "scen.h"
namespace sim {
extern Scenario sc_share, sc_batch, sc_eval, sc_huge, sc_place, sc_grad, sc_epoch, sc_sgd, sc_adapt, sc_result, sc_iso, sc_save, sc_load, sc_corrupt, sc_npy, sc_es, sc_ck, sc_log, sc_pg, sc_init, sc_custom, sc_oom, sc_leak, sc_trainer;
static Scenario *const ALL[] = { &sc_share, &sc_batch, &sc_eval, &sc_huge, &sc_place, &sc_grad, &sc_epoch, &sc_sgd, &sc_adapt, &sc_result, &sc_iso, &sc_save, &sc_load, &sc_corrupt, &sc_npy, &sc_es, &sc_ck, &sc_log, &sc_pg, &sc_init, &sc_custom, &sc_oom, &sc_leak, &sc_trainer };
Scenario *find_scenario(const std::string &n) { for (auto s : ALL) if (n == s->name) return s; return nullptr; }
static PropDef PROPS[] = {
    {"C01", {{"share", 1}}}, {"C02", {{"batch", 1}, {"huge", 0.004}}}, {"C03", {{"eval", 1}, {"huge", 0.004}}}, {"C21", {{"place", 1}}},
    {"C04", {{"gradient", 1}}}, {"C05", {{"epoch", 1}, {"huge", 0.004}}}, {"C06", {{"sgd", 1}}}, {"C07", {{"adaptive", 1}}}, {"C19", {{"results", 1}}}, {"C08", {{"isolation", 1}}},
    {"C09", {{"save", 1}}}, {"C10", {{"load", 1}}}, {"C11", {{"corrupt", 1}}}, {"C12", {{"npy", 1}}},
    {"C14", {{"checkpoint", 1}}}, {"C15", {{"earlystop", 1}}}, {"C16", {{"logger", 1}}}, {"C24", {{"progress", 1}}},
    {"C13", {{"oom", 1}}}, {"C17", {{"cycles", 1}}}, {"C18", {{"custom", 1}}}, {"C20", {{"initialize", 1}}}, {"C25", {{"trainer", 1}}},
};
PropDef *find_prop(const std::string &p) { for (auto &x : PROPS) if (p == x.prop) return &x; return nullptr; }
}
