// C14: whole sessions using every part of the library; nothing may be touched out of bounds, lost or kept.
#include "sess.h"
static void run_c14() {
    SessEnv e; env = &e; app = &e; set_budget(1500ull * 1000 * 1000); e.configure();
    alloc_track(true); e.start();
    int n = 3 + choose(g_thorough ? 50 : 22, "steps");
    for (int i = 0; i < n; i++) { Span sp("step"); e.step(); e.tidy("a step"); }
    e.finish();
}
static RegScenario r14({"C14", "deterministic simulation of whole sessions with AddressSanitizer and an exact allocation table", run_c14, 60000, 2000000, 40, 600,
    "Random grammars using every feature of the specification language, mutated and truncated texts, streams with read errors; sessions of editing, completion, help, evaluation, nested evaluation from callbacks, paging, pipes to simulated processes, history files with I/O faults, registered descriptors, aliases, mode switches, option changes, printing and copying, with failing callbacks, signals, resizes, hang-ups; every memory access is checked, and after the handle is released the allocation, regular-expression, descriptor and process tables must be empty; a repeated command must not hold more and more memory."});
