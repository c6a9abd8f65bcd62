// Deterministic simulator core: choice source, event log, runner interface.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>

// ---------------------------------------------------------------- choices
// Every decision of a run is one call of choose(): n alternatives, 0 is always the
// simplest one (no fault, stop, shortest).  A run is a pure function of the list of
// values returned.  In search mode the values come from a PRNG seeded by
// (VERIF_SEED, property, run index); in replay mode from the replay file.
uint32_t choose(uint32_t n, const char *tag);              // uniform in [0,n)
inline int failval() { static const int v[4] = {-1, -2, -7, -100}; return v[choose(4, "failval")]; } // what a failing callback returns: any negative value
bool     chance(uint32_t num, uint32_t den, const char *tag); // true with num/den
int      pick_weighted(const std::vector<int> &w, const char *tag); // index by weight
void     span_begin(const char *what);                     // a deletable unit
void     span_end();
struct Span { Span(const char *w){ span_begin(w);} ~Span(){ span_end(); } };

// ---------------------------------------------------------------- log / verdict
void  logf_(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define LOG(...) logf_(__VA_ARGS__)
std::string esc(const std::string &s, size_t max = 400);
std::string esc(const char *p, size_t n, size_t max);
std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
// Report a violation of the property under check: cls is a short stable class.
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf,2,3)));
// The harness itself misbehaved: not a verdict.
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf,1,2)));
void  stat_add(const char *name, uint64_t n = 1);          // counters ("fault.x", "probe.x", "op.x")
void  checked(uint64_t n = 1);                             // one oracle comparison
// What would happen without the fault: run f in a fork of the whole simulated process, starting from exactly this state,
// and return what it reports.  No choices may be made in it; it leaves no trace here.  A violation in it is reported as ours.
std::string what_if(const char *cls, const std::function<std::string()> &f);
extern bool in_what_if;
extern bool g_thorough;
extern bool g_verbose;
extern uint64_t g_simtime_us;                              // simulated clock
extern uint64_t g_edge_budget, g_edges;                    // library edges executed in this run
void  set_budget(uint64_t edges);                          // hang detector: edges allowed from now on
void  set_budget_class(const char *cls);

struct Scenario {
    const char *id;
    const char *technique;
    void (*run)();
    long quick_runs, thorough_runs;
    double quick_s, thorough_s;         // wall caps
    const char *rule;
};
extern std::vector<Scenario> g_scenarios;
struct RegScenario { RegScenario(Scenario s){ g_scenarios.push_back(s);} };
