#include "models.h"
#include <sstream>
namespace sim {
// a line: "[hh:mm:ss] Epoch <n> name: value name: value ..."
std::string check_log_line(const std::string &line, const LogEntry &w, bool times) {
    char b[300]; const char *s = line.c_str(); int hh, mm, ss, k = 0;
    if (sscanf(s, "[%2d:%2d:%2d]%n", &hh, &mm, &ss, &k) != 3 || !k) { snprintf(b, sizeof b, "line '%.80s' does not start with a time", s); return b; }
    if (times && w.sec >= 0) { int64_t d = ((w.sec % 86400) + 86400) % 86400; int got = hh * 3600 + mm * 60 + ss; int64_t diff = ((got - d) % 86400 + 86400) % 86400; if (diff > 60) { snprintf(b, sizeof b, "line '%.80s' has the time %02d:%02d:%02d, the clock showed second %lld of the day", s, hh, mm, ss, (long long)d); return b; } }
    s += k; int e = -1; k = 0;
    if (sscanf(s, " Epoch %d%n", &e, &k) != 1 || !k) { snprintf(b, sizeof b, "line '%.80s' has no epoch number", line.c_str()); return b; }
    if (e != w.epoch) { snprintf(b, sizeof b, "line has epoch %d where %d is due", e, w.epoch); return b; }
    s += k;
    for (size_t i = 0; i < w.names.size(); i++) {
        while (*s == ' ') s++;
        size_t n = w.names[i].size(); if (strncmp(s, w.names[i].c_str(), n) || s[n] != ':') { snprintf(b, sizeof b, "epoch %d: value %zu is not labelled %s: '%.60s'", e, i, w.names[i].c_str(), s); return b; }
        s += n + 1; char *end; double v = strtod(s, &end); if (end == s) { snprintf(b, sizeof b, "epoch %d: %s has no value", e, w.names[i].c_str()); return b; }
        float x = w.vals[i]; bool ok = std::isnan(x) ? std::isnan(v) : std::isinf(x) ? v == x : std::fabs(v - x) <= 6e-6 * std::fabs(x) + 1e-40;
        if (!ok) { snprintf(b, sizeof b, "epoch %d: %s is logged as %.9g, its value is %.9g", e, w.names[i].c_str(), v, x); return b; }
        s = end;
    }
    while (*s == ' ') s++;
    if (*s) { snprintf(b, sizeof b, "epoch %d: surplus text '%.60s'", e, s); return b; }
    return "";
}
std::string check_log(const std::string &text, const std::vector<LogEntry> &want, bool times) {
    size_t pos = 0, i = 0; char b[200];
    while (pos < text.size()) {
        size_t nl = text.find('\n', pos); if (nl == std::string::npos) return "the log ends in an incomplete line";
        std::string line = text.substr(pos, nl - pos); pos = nl + 1;
        while (i < want.size() && want[i].optional) { if (check_log_line(line, want[i], times).empty()) break; i++; }
        if (i >= want.size()) { snprintf(b, sizeof b, "surplus line '%.100s'", line.c_str()); return b; }
        std::string e = check_log_line(line, want[i], times); if (!e.empty()) return e; i++;
    }
    while (i < want.size() && want[i].optional) i++;
    if (i < want.size()) { snprintf(b, sizeof b, "the line of epoch %d is missing", want[i].epoch); return b; }
    return "";
}
}
