// C12: completion and help over random grammars, at a simulated terminal.
#include "compenv.h"
namespace {
void run_c12() {
    set_budget(400ull * 1000 * 1000); CompEnv e; env = &e; app = &e; e.chunk = chance(1, 2, "f"); e.eintr = chance(1, 3, "f"); e.failing = chance(1, 3, "f");
    e.g.ign_case_kw = chance(1, 3, "upkw"); e.g.allow_ref = chance(1, 2, "ref"); e.g.allow_hide = chance(1, 2, "hide"); e.g.longkw = chance(1, 5, "longkw"); int w = chance(1, 3, "narrow") ? 21 + choose(60, "cols") : 300; tty.cols = w; tty.rows = 24; tty.vt.reset(w);
    app_cbufs(); cligen_handle h = e.h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); cligen_paging_set(h, 0); cligen_comment_set(h, (char)0xff); cligen_prompt_set(h, (char *)e.prompt.c_str()); int nt = 1 + choose(2, "trees"); e.g.generate(nt, "t", 5); LOG("grammar\n%s", e.g.text.c_str());
    if (app_load(h, e.g.text, "g") < 0) violation("comp:load", "the grammar did not load:\n%s", e.g.text.c_str()); e.active = "t0"; e.blanks = chance(1, 3, "blanks"); gen_exp(e.x, e.failing && chance(1, 2, "f0"), e.blanks); e.rnd_opts(); std::string tr = e.trees();
    int n = 1 + choose(g_thorough ? 14 : 6, "lines");
    for (int i = 0; i < n; i++) {
        Span sp("line"); e.left.clear(); e.right.clear(); e.acts = 0; e.maxacts = 1 + choose(12, "acts"); e.finishing = e.unknown = e.expect = e.may_fail = false; e.pend.clear(); tty.in.clear(); e.what = "start"; if (i && chance(1, 3, "newexp")) gen_exp(e.x, e.failing, e.blanks); if (chance(1, 6, "opts")) e.rnd_opts(); e.nfail = 0;
        if (i && nt > 1 && chance(1, 5, "switch")) { e.active = fmt("t%d", (int)choose(nt, "tree")); cligen_ph_active_set_byname(h, (char *)e.active.c_str()); LOG("activate %s", e.active.c_str()); }
        if (tty.vt.c || chance(1, 3, "clean")) tty.vt.reset(w); char *line = nullptr; int r = cliread(h, &line); LOG("cliread = %d %s", r, r < 0 ? "" : cq(line)); checked();
        if (r < 0) { if (!e.nfail) violation("comp:error", "after %s at \"%s|%s\" the editor reported an error although no callback failed", e.what.c_str(), e.left.c_str(), e.right.c_str()); stat_add("probe.failed"); continue; }
        if (!line) violation("comp:lost", "the line was not returned");
        std::string want = collapse(e.left + e.right); if (!e.unknown && (e.o.ign ? low(want) != low(line) : want != line)) violation("comp:result", "the line is \"%s\", expected \"%s\"", line, want.c_str());
    }
    std::string t2 = e.trees(); checked(); if (t2 != tr) violation("comp:grammar", "the printed grammar changed by completion and help"); cligen_exit(h);
}
RegScenario r12({"C12", "deterministic simulation of completion and help over random grammars against a reference matcher", run_c12, 60000, 2000000, 35, 500,
    "Random grammars; a user types, moves, deletes, presses TAB and ? at a simulated terminal in all completion modes while expansion callbacks change their values or fail; at every wait for a key the line, the cursor and the alternatives listed are compared with the legal continuations computed by a reference matcher, no command callback may run, and the line returned must be the one shown."});
}
