// C10: evaluation over random grammars.
#include "genv.h"
#include <errno.h>
static cligen_handle mk() { cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); return h; }
static std::string vars_dump(const std::vector<GVar> &v, const std::string &line, const GOpt &o) {
    std::string l0 = line; if (o.expfirst) { l0.clear(); for (size_t i = 0; i < v.size(); i++) l0 += (i ? " " : "") + v[i].val; }
    std::string s = "cmd=" + esc(l0) + ":rest"; for (auto &e : v) if (!(o.excl && e.kw)) s += "," + gvar_dump(e); return s;
}
static std::string args_dump(const std::string &a) { if (a.empty()) return "(none)"; std::string s; size_t i = 0; for (;;) { size_t j = a.find('\001', i); s += (i ? ",-=" : "-=") + a.substr(i, j == std::string::npos ? j : j - i) + ":string"; if (j == std::string::npos) break; i = j + 1; } return s; }
// ---------------------------------------------------------------- C10
struct C10Env : GEnv {
    struct Frame { std::string line; std::vector<GCb> want; std::vector<GVar> vars; GOpt o; size_t ran = 0; bool failed = false; };
    std::vector<Frame> fr; bool actions = true, cbfail = true, blanks = false; int nload = 0, hsize = 100; std::vector<std::string> treenames; int nested = 0;
    void rnd_opts() { o.pref = chance(1, 4, "pm") ? choose(4, "pref") : 0; o.ign = chance(1, 4, "ign"); o.excl = chance(1, 4, "excl"); o.expfirst = chance(1, 4, "expf"); set_opts(); LOG("options pref %d ignorecase %d exclude-keys %d expand-first %d", o.pref, o.ign, o.excl, o.expfirst); }
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        if (fr.empty()) violation("eval:stray", "callback cb%d was called although no command matched", idx);
        size_t me = fr.size() - 1; checked(); size_t k = fr[me].ran++;
        if (fr[me].failed) violation("eval:after-failure", "callback cb%d was called after an earlier callback of \"%s\" had failed", idx, fr[me].line.c_str());
        if (k >= fr[me].want.size()) violation("eval:extra", "\"%s\": callback cb%d was called after the %zu specified", fr[me].line.c_str(), idx, fr[me].want.size());
        GCb w = fr[me].want[k]; std::string wv = vars_dump(fr[me].vars, fr[me].line, fr[me].o), wa = args_dump(w.arg);
        auto same = [&](const char *when) {
            if (idx != w.fn) violation("eval:callback", "\"%s\": callback %zu is cb%d instead of cb%d", fr[me].line.c_str(), k, idx, w.fn);
            std::string v = cvec_dump(cvv), a = cvec_dump(argv);
            if (v != wv) violation("eval:variables", "\"%s\": %s the variable vector is %s, expected %s", fr[me].line.c_str(), when, v.c_str(), wv.c_str());
            if (a != wa) violation("eval:arguments", "\"%s\": %s the arguments are %s, expected %s", fr[me].line.c_str(), when, a.c_str(), wa.c_str());
            char *fs = cligen_fn_str_get(hh); if (!fs || fmt("cb%d", idx) != fs) violation("eval:name", "\"%s\": %s the callback's name is %s instead of cb%d", fr[me].line.c_str(), when, cq(fs), idx); };
        same("on entry"); cg_obj *com = cligen_co_match(hh); std::string com0 = com && com->co_command ? com->co_command : "";
        if (actions) { int n = choose(3, "actions"); for (int i = 0; i < n; i++) action(); same("after what the callback did"); if (cligen_co_match(hh) != com || com0 != (com->co_command ? com->co_command : "")) violation("eval:matched-object", "\"%s\": the matched object seen by the callback changed while it ran", fr[me].line.c_str()); }
        if (looping && chance(1, 10, "exiting")) { LOG("  cb%d ends the loop", idx); cligen_exiting_set(h, 1); exiting = true; }
        if (cbfail && chance(1, 12, "cbfails")) { stat_add("fault.callback_fails"); fr[me].failed = true; LOG("  cb%d fails", idx); return failval(); }
        return choose(3, "retv") == 0 ? 5 : 0;
    }
    // the library's own loop: lines are typed at once and run in order until end of input, a failure or an exit
    struct Todo { Frame f; Gram::Match m; }; std::vector<Todo> todo; size_t at = 0; bool looping = false, exiting = false;
    void finish_line() { Frame &f = fr[0]; Todo &t = todo[at - 1]; if (t.m.r == Gram::Match::MATCH && !f.failed && f.ran != f.want.size()) violation("eval:callbacks", "\"%s\": %zu callbacks were called, %zu specified", f.line.c_str(), f.ran, f.want.size()); }
    int hist(cligen_handle hh, char *c, void *) override {
        if (!looping) return 0; if (at) finish_line(); if (exiting) violation("eval:loop", "line \"%s\" was run after the loop was told to end", c); if (at >= todo.size() || todo[at].f.line != c) violation("eval:loop", "line \"%s\" was run, expected %s", c, at < todo.size() ? todo[at].f.line.c_str() : "end of input");
        if (at && todo[at - 1].m.r == Gram::Match::FAIL) violation("eval:loop", "the loop went on after evaluation had failed");
        fr[0] = todo[at++].f; checked(); return 0; }
    static int count(const std::string &s, const char *w) { int n = 0; for (size_t i = 0; (i = s.find(w, i)) != std::string::npos; i++) n++; return n; }
    void loop() {
        Span sp("loop"); stat_add("probe.loop"); todo.clear(); at = 0; pend.clear(); exiting = false; bool a0 = actions; actions = false; int n = choose(6, "nlines"), want = 0; 
        for (int i = 0; i < n; i++) { std::string l = g.gen_line(*top(), o, x); if (l.empty()) continue; Todo t; t.m = g.eval(*top(), Gram::split(l), o, x); if (t.m.undetermined) continue; t.f.line = l; t.f.want = t.m.r == Gram::Match::MATCH ? t.m.calls : std::vector<GCb>(); t.f.vars = t.m.vars; t.f.o = o; todo.push_back(t); pend += l + "\n"; LOG("loop line \"%s\" %d %s", l.c_str(), (int)t.m.r, t.m.why.c_str()); }
        cligen_hist_fn_set(h, app_hist, nullptr); Frame none; fr.push_back(none); looping = true; size_t o0 = (out_flush(), tty.out.size()); tty.eof = false;
        int r = cligen_loop(h); looping = false; out_flush(); if (at) finish_line(); fr.clear(); bool failed = at && todo[at - 1].m.r == Gram::Match::FAIL; checked();
        if (failed != (r < 0)) violation("eval:loop", "the loop returned %d after %zu of %zu lines%s", r, at, todo.size(), failed ? ", the last of which failed" : "");
        if (!failed && !exiting && at != todo.size()) violation("eval:loop", "the loop ended after %zu of %zu lines", at, todo.size());
        if (!failed && !cligen_exiting(h)) violation("eval:loop", "the loop ended without the handle being marked as exiting");
        for (size_t i = 0; i < at; i++) want += todo[i].m.r == Gram::Match::NOMATCH; int got = count(tty.out.substr(o0), "CLI syntax error in: \""); if (got != want) violation("eval:loop", "%d lines were reported as syntax errors, expected %d", got, want);
        cligen_exiting_set(h, 0); cligen_hist_fn_set(h, nullptr, nullptr); tty.eof = false; tty.in.clear(); pend.clear(); actions = a0; }
    void action() {
        Span sp("action"); 
        switch (pick_weighted({3, 4, 2, 2, 2, 1, 2, 2, 1}, "action")) {
        case 0: cligen_output(sim_stdout, "out %d\n", (int)choose(100, "o")); break;
        case 1: if (fr.size() < 4 && nested < 12) { nested++; stat_add("probe.nested"); one_line(); } break;
        case 2: LOG("  prompt"); cligen_prompt_set(h, (char *)(chance(1, 2, "p") ? "new> " : "a much longer prompt than before> ")); break;
        case 3: switch_tree(); break;
        case 4: rnd_opts(); break;
        case 5: LOG("  hist_init"); if (cligen_hist_init(h, hsize = 1 + choose(20, "hs")) < 0) violation("eval:hist", "cligen_hist_init failed"); break;
        case 6: if (nload < 3) load_more(); break;
        case 7: gen_exp(x, chance(1, 2, "xf"), blanks); break;
        case 8: { SimFile f; f.data = "one\ntwo\n"; FILE *fp = simfile_open(&f, "r", 64); cligen_hist_file_load(h, fp); fclose(fp); LOG("  history loaded"); break; }
        }
    }
    void switch_tree() { std::string n = treenames[choose(treenames.size(), "tree")]; LOG("  activate %s", n.c_str()); if (cligen_ph_active_set_byname(h, (char *)n.c_str()) < 0) violation("eval:activate", "activating %s failed", n.c_str()); active = n; stat_add("probe.switch"); }
    void load_more() { stat_add("probe.load"); g.text.clear(); std::string pfx = fmt("m%d_", nload++); g.generate(1 + choose(2, "nt"), pfx, 3); LOG("  load\n%s", g.text.c_str()); if (app_load(h, g.text, "more") < 0) violation("eval:load", "further syntax did not load:\n%s", g.text.c_str()); treenames.push_back(pfx + "0"); }
    void one_line() {
        Span sp("line"); GOpt o0 = o; std::string line = g.gen_line(*top(), o, x); if (line.empty()) return; auto toks = Gram::split(line);
        Gram::Match m = g.eval(*top(), toks, o, x); if (m.undetermined) { stat_add("probe.undetermined"); return; }
        std::string typed; for (char c : line) { typed += c; if (c == ' ' && chance(1, 10, "blank")) typed += ' '; } if (chance(1, 10, "lead")) typed = " " + typed; if (chance(1, 10, "trail")) typed += "  "; if (chance(1, 20, "comment")) typed += " # note";
        bool direct = chance(1, 4, "direct"); LOG("line \"%s\" (%zu words matched) expect %s %s", line.c_str(), m.vars.size(), m.r == Gram::Match::MATCH ? "match" : m.r == Gram::Match::FAIL ? "expand failure" : m.r == Gram::Match::MULTIPLE ? "multiple" : "none", m.why.c_str());
        static const char *rn[] = {"match", "none", "multiple", "fail"}; stat_add((std::string("probe.") + rn[m.r] + (m.why.empty() ? "" : "-" + m.why)).c_str());
        Frame f; f.line = line; f.want = m.r == Gram::Match::MATCH ? m.calls : std::vector<GCb>(); f.vars = m.vars; f.o = o; fr.push_back(f); size_t me = fr.size() - 1;
        cligen_result res = CG_ERROR; char *reason = nullptr; int cbr = -99, r; char *got = nullptr; cg_obj *mo = nullptr; cvec *cvv = nullptr;
        if (direct) {
            std::vector<char> lb(typed.begin(), typed.end()); lb.push_back(0); parse_tree *pt = cligen_pt_active_get(h); if (!pt) violation("eval:tree", "no tree is active");
            r = cliread_parse(h, lb.data(), pt, &mo, &cvv, &res, &reason); std::string n = pend; (void)n;
            if (r == 0 && res == CG_MATCH) { cbr = cligen_eval(h, mo, cvv); if (cvec_dump(cvv) != vars_dump(m.vars, line, GOpt())) violation("eval:variables", "\"%s\": after evaluation the variable vector is %s, expected %s", line.c_str(), cvec_dump(cvv).c_str(), vars_dump(m.vars, line, GOpt()).c_str()); }
            if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); }
        else { if (!pend.empty()) harness_error("typed text pending"); pend = typed + (chance(1, 6, "cr") ? "\r" : "\n"); r = cliread_eval(h, &got, &cbr, &res, &reason); if (tty.eof) violation("eval:line", "typed line \"%s\" was not read", esc(typed).c_str()); if (r == 0 && (!got)) violation("eval:line", "line \"%s\" was read as end of input", line.c_str()); }
        f = fr[me]; fr.resize(me); checked(); std::string why = reason ? reason : ""; if (reason) sim_free(reason);
        LOG("  = %d result %d callback %d ran %zu reason \"%s\"", r, (int)res, cbr, f.ran, why.c_str());
        if (m.r == Gram::Match::FAIL) { if (r >= 0) violation("eval:expand-failure", "\"%s\": an expansion callback failed but evaluation reported success (result %d)", line.c_str(), (int)res); return; }
        if (r < 0) violation("eval:error", "\"%s\": evaluation failed", line.c_str());
        cligen_result wr = m.r == Gram::Match::MATCH ? CG_MATCH : m.r == Gram::Match::MULTIPLE ? CG_MULTIPLE : CG_NOMATCH;
        if (res != wr) violation("eval:result", "\"%s\": result is %d (%s), expected %d %s", line.c_str(), (int)res, why.c_str(), (int)wr, m.why.c_str());
        if (m.r == Gram::Match::NOMATCH) { bool amb = why == "Ambiguous command", inc = why == "Incomplete command"; if (why.empty()) violation("eval:reason", "\"%s\": no reason given, expected %s", line.c_str(), m.why.c_str()); if (amb != (m.why == "ambiguous") || inc != (m.why == "incomplete")) violation("eval:reason", "\"%s\": reason is \"%s\", expected %s", line.c_str(), why.c_str(), m.why.c_str()); return; }
        if (m.r != Gram::Match::MATCH) return;
        if (f.failed) { if (cbr >= 0) violation("eval:callback-failure", "\"%s\": a callback failed but evaluation returned %d", line.c_str(), cbr); stat_add("probe.callback_failed"); }
        else { if (cbr < 0) violation("eval:callback-result", "\"%s\": all callbacks succeeded but evaluation returned %d", line.c_str(), cbr); if (f.ran != f.want.size()) violation("eval:callbacks", "\"%s\": %zu callbacks were called, %zu specified", line.c_str(), f.ran, f.want.size()); }
    }
};
static void run_c10() {
    set_budget(400ull * 1000 * 1000);
    C10Env e; env = &e; app = &e; tty.vt_on = false; e.chunk = chance(1, 2, "f"); e.eintr = chance(1, 3, "f"); e.actions = chance(2, 3, "f"); e.cbfail = chance(1, 2, "f"); bool expf = chance(1, 4, "f");
    e.g.ign_case_kw = chance(1, 3, "upkw"); e.g.allow_exp = chance(2, 3, "exp"); e.g.allow_ref = chance(1, 2, "ref"); e.g.allow_hide = chance(1, 2, "hide");
    app_cbufs(); cligen_handle h = e.h = mk(); cligen_paging_set(h, 0); cligen_comment_set(h, (char)0x23); int nt = 1 + choose(3, "trees"); e.g.generate(nt, "t", 5); LOG("grammar\n%s", e.g.text.c_str());
    if (app_load(h, e.g.text, "g") < 0) violation("eval:load", "the grammar did not load:\n%s", e.g.text.c_str()); for (int i = 0; i < nt; i++) e.treenames.push_back(fmt("t%d", i));
    e.active = "t0"; e.blanks = chance(1, 3, "blanks"); gen_exp(e.x, expf, e.blanks); if (chance(1, 2, "opts")) e.rnd_opts();
    int n = 2 + choose(g_thorough ? 40 : 15, "lines"); for (int i = 0; i < n; i++) { if (chance(1, 6, "newexp")) gen_exp(e.x, expf, e.blanks); if (chance(1, 12, "switch")) e.switch_tree(); if (chance(1, 15, "opts")) e.rnd_opts(); e.nested = 0; e.one_line(); }
    if (chance(1, 4, "loop")) { e.loop(); if (chance(1, 2, "more")) e.one_line(); }
    cligen_exit(h);
}
static RegScenario r10({"C10", "deterministic simulation of evaluation over random grammars against a reference matcher", run_c10, 60000, 2000000, 35, 500,
    "Random grammars (keywords, typed variables, choices, expansions, options, tree references, hidden commands) and lines typed at a simulated terminal or evaluated directly; every callback call with its variables and arguments, the result and the reason are compared with a reference matcher, while callbacks fail, evaluate further lines, switch trees and options, load syntax, and change prompt and history."});
