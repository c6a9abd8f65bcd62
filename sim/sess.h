// A whole session with everything in it: the application and the user do random things, the outside world misbehaves.
#pragma once
#include "actors.h"
#include "editenv.h"
#include "app.h"
#include "wild.h"
struct SessEnv : EditEnv, App, ActorSet {
    cligen_handle h = nullptr; Wild g; bool callbacks_act = false, fails = false, childret = false, piping = true, loading = true, resume = true, bgs = false; int depth = 0, nload = 0, cbacts = 0; bool quietcb = false, prompts_in_edit = true;
    std::vector<int> fds; std::vector<SimFile *> files; std::string savedhist; bool editing = false; cvec *globals = nullptr; int childmode = 0; std::vector<std::string> aliases; int wrapped = 0;
    
    ~SessEnv() { for (auto f : files) delete f; }
    // ---- the outside world
    bool idle(const WaitInfo &wi) override {
        if (eintr_any() && chance(1, 8, "eintr")) ev_at(1 + choose(300, "t"), [] { interrupt_now(); });
        std::vector<int> r = runnables(); if (!r.empty() && (!wi.key || chance(1, 2, "child first"))) { int pid = r[choose(r.size(), "who")]; uint64_t d = 100 + (act[pid].slow && chance(1, 3, "lag") ? act[pid].slow : choose(300, "d")); ev_at(d, [this, pid] { ActorSet::step(pid); }); return true; }
        if (!wi.key) return !ev_empty();
        if (!fds.empty() && chance(1, 6, "bg")) { int fd = fds[choose(fds.size(), "fd")]; ev_at(1 + choose(900, "t"), [fd] { if (fd_is_open(fd)) bgfd_ready(fd, true); }); }
        return EditEnv::idle(wi);
    }
    bool eintr_any() { return cfg.eintr; }
    void preempt(const char *c) override { if (in_child) return; EditEnv::preempt(c); if (in_preempt) return; in_preempt = true; for (int k = 0; k < 3 && !act.empty() && chance(1, 6, "step"); k++) { auto r = runnables(); if (r.empty()) break; ActorSet::step(r[choose(r.size(), "who")]); } in_preempt = false; }
    void proc_started(int pid) override { actor_start(pid); }
    int call_fault(const char *n) override {
        if (!strcmp(n, "fork")) { childmode = childret && chance(1, 8, "childmode") ? 1 + choose(2, "ret") : 0; if (fails && chance(1, 12, "e")) { stat_add("fault.fork"); return EAGAIN; } }
        if (fails && !strcmp(n, "socketpair") && chance(1, 12, "e")) { stat_add("fault.socketpair"); return EMFILE; }
        if (cfg.eintr && (!strcmp(n, "waitpid") || !strcmp(n, "read-sock")) && chance(1, 8, "e")) { stat_add("fault.eintr"); return EINTR; }
        return 0; }
    int write_fault(int fd, size_t n, ssize_t *res) override { if (fd != 1 && fails && chance(1, 10, "wf")) { *res = n > 1 ? 1 + choose(n - 1, "short") : 1; stat_add("fault.short_write"); return 1; } return EditEnv::write_fault(fd, n, res); }
    bool type_more() override { if (!resume || !ended) return EditEnv::type_more(); return false; }
    // ---- the application's callbacks
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        if (in_child) { if (childmode == 1) return 3; if (childmode == 2) return -1; child_report("ran"); }
        if (idx >= 12) return 0;
        LOG("  cb%d(%s)", idx, cvec_dump(argv).c_str()); std::string d = cvec_dump(cvv); stat_add("probe.callback"); if (quietcb) return 0;
        Span sp("callback"); char *fs = cligen_fn_str_get(hh); if (fs && chance(1, 2, "fnstr")) { volatile size_t n = strlen(fs); (void)n; } cg_obj *co = cligen_co_match(hh); if (co && chance(1, 2, "co")) { SimFile f; FILE *fp = simfile_open(&f, "w", 128); co_print(fp, co); fclose(fp); }
        if (cligen_callback_arguments_get(hh)) cvec_dump(cligen_callback_arguments_get(hh));
        if (chance(1, 2, "out")) output();
        if (callbacks_act && depth < 3 && cbacts < 12) { depth++; int n = choose(3, "acts"); for (int i = 0; i < n; i++) { cbacts++; Span s2("act"); app_act(true); } depth--; }
        if (fails && chance(1, 5, "cbfail")) { stat_add("fault.callback_fails"); return failval(); } return choose(8, "ret") ? 0 : 1; }
    int expand(int idx, cligen_handle hh, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) override {
        LOG("  ex%d(%s)", idx, cq(name)); cvec_dump(cvv); cvec_dump(argv); stat_add("probe.expand"); Span sp("expand"); int fl = fails && !quietcb ? choose(10, "fail") : 9;
        uint32_t st = idx * 7; int n = quietcb ? 3 : choose(6, "n"); static const char *w[] = {"a", "ab", "b b", "abc", "x", "c\"q", "ba", "", "aå", "zz"};
        for (int i = 0; i < n; i++) { int k = quietcb ? (idx + i) % 5 : choose(10, "w"); cvec_add_string(cmds, chance(1, 3, "named") && !quietcb ? "nm" : nullptr, w[k]); if (quietcb || chance(4, 5, "help")) cvec_add_string(helps, nullptr, quietcb || choose(6, "emptyhelp") ? "helptext of it" : nullptr); } (void)st;
        if (!quietcb && callbacks_act && chance(1, 10, "act")) { if (prompts_in_edit && chance(1, 2, "p")) new_prompt(); else output(); }
        if (fl == 0) { stat_add("fault.expand_fails"); return failval(); } return 0; }
    int translate(cligen_handle hh, cg_var *cv) override { LOG("  translate"); if (fails && chance(1, 8, "fail")) { stat_add("fault.translate_fails"); return failval(); } char *s = cv_isstring(cv_type_get(cv)) ? cv_string_get(cv) : nullptr; if (s && chance(1, 2, "tr")) { std::string t = std::string("T") + s; cv_string_set(cv, (char *)t.c_str()); } return 0; }
    int hist(cligen_handle hh, char *c, void *) override { LOG("  hist"); volatile size_t n = strlen(c); (void)n; if (fails && chance(1, 8, "histfail")) { stat_add("fault.hist_callback_fails"); return failval(); } return 0; }
    int bg(int cb, int fd, void *) override { LOG("  bg%d fd", cb); Span sp("bg"); bgfd_ready(fd, false); stat_add("probe.bg");
        switch (choose(8, "bgact")) { case 0: case 1: output(); break; case 2: new_prompt(); break; case 3: unreg(fd); break; case 4: addfd(); break; case 5: cligen_redraw(h); break; case 6: if (fails) { stat_add("fault.bg_fails"); return -1; } break; case 7: gl_clear_screen(h); break; } return 0; }
    void unreg(int fd) { cligen_unregfd(fd); for (size_t i = 0; i < fds.size(); i++) if (fds[i] == fd) { fds.erase(fds.begin() + i); break; } bgfd_del(fd); }
    void addfd() { if (fds.size() >= 6) return; int fd = bgfd_new(); fds.push_back(fd); if (cligen_regfd(fd, app_bg[choose(3, "bgcb")], nullptr) < 0) violation("sess:regfd", "registering a descriptor failed"); }
    void new_prompt() { std::string p; int n = choose(4, "long") ? choose(12, "n") : choose(200, "n"); for (int i = 0; i < n; i++) p += (char)('A' + i % 26); LOG("  prompt of %zu", p.size()); if (chance(1, 3, "tree")) { pt_head *ph = cligen_ph_active_get(h); if (ph) { cligen_ph_prompt_set(ph, (char *)p.c_str()); return; } } cligen_prompt_set(h, (char *)p.c_str()); }
    void output() {
        Span sp("output"); std::string t; int n = choose(chance(1, 6, "big") ? 80 : 6, "lines"); for (int i = 0; i < n; i++) { int len = choose(chance(1, 8, "long") ? 400 : 30, "len"); for (int j = 0; j < len; j++) t += (char)('a' + (i + j) % 26); if (choose(8, "nl")) t += '\n'; }
        stat_add("op.output"); if (chance(1, 3, "reset")) cli_output_reset(); if (chance(1, 3, "basic")) { std::vector<char> b(t.begin(), t.end()); b.push_back(0); cligen_output_basic(sim_stdout, b.data(), t.size()); } else cligen_output(sim_stdout, "%s", t.c_str()); }
    static int wrap(void *arg, void **wh, const char *name, const char *fn) { SessEnv *s = (SessEnv *)arg; s->wrapped++; if (name) { volatile size_t n = strlen(name); (void)n; } if (*wh == nullptr) { if (choose(3, "wrap")) *wh = sim_strdup("wh"); } else { sim_free(*wh); *wh = nullptr; } return 0; }
    static int resolve(cligen_handle, char *name, cvec *cvt, void *arg, char **namep) { SessEnv *s = (SessEnv *)arg; cvec_dump(cvt); if (choose(6, "resolve")) return 0; if (s->fails && choose(4, "f") == 0) return -1; *namep = sim_strdup(name); return 1; }
    static int susp(void *hh, char *b, int i, int *p) { SessEnv *s = (SessEnv *)env; volatile size_t n = strlen(b); (void)n; stat_add("probe.susp_hook"); if (choose(2, "ret")) return -1; (void)s; return choose(2, "retp") ? -1 : 0; }
    static int intr(cligen_handle) { stat_add("probe.intr_hook"); return choose(3, "intr") ? 0 : -1; }
    // ---- the application
    std::string any_line() {
        if (g.lines.empty() || chance(1, 12, "junk")) { static const char *j[] = {"", "a", "a b c", "\"unfinished", "# comment", "@@", "a|b", " | cat", "x y | grep"}; return j[choose(9, "junk")]; }
        std::string l = g.lines[choose(g.lines.size(), "line")];
        if (chance(1, 5, "cut")) l.resize(choose(l.size() + 1, "cut")); if (!g.pipes.empty() && chance(1, 4, "pipe")) { static const char *p[] = {" | cat", " | grep foo", " | count 3", " | "}; l += p[choose(4, "p")]; } if (chance(1, 12, "sp")) l += "  "; if (!aliases.empty() && chance(1, 6, "alias")) l = aliases[choose(aliases.size(), "a")]; return l; }
    int parse_eval(const std::string &line, bool quiet = false) { // -1 error, else result
        parse_tree *pt = cligen_pt_active_get(h); if (!pt) return -2; std::vector<char> b(line.begin(), line.end()); b.push_back(0); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr; stat_add("op.parse_eval");
        int r = cliread_parse(h, b.data(), pt, &mo, &cvv, &res, &reason); if (!quiet) LOG("parse \"%s\" = %d/%d %s", esc(line).c_str(), r, r < 0 ? -9 : (int)res, reason ? reason : ""); if (reason) sim_free(reason);
        if (r >= 0 && res == CG_MATCH) { if (cvv) { cvec_dump(cvv); } int v = cligen_eval(h, mo, cvv); if (!quiet) LOG("  evaluated = %d", v); stat_add("probe.evaluated"); if (v < 0) r = -1; }
        if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); return r < 0 ? -1 : (int)res; }
    void read_eval() { char *line = nullptr, *reason = nullptr; int cb = 0; cligen_result res = CG_ERROR; stat_add("op.read_eval"); editing = true; int r = cliread_eval(h, &line, &cb, &res, &reason); editing = false; LOG("read_eval = %d/%d \"%s\"", r, (int)res, line ? esc(line).c_str() : ""); if (reason) sim_free(reason); }
    void read_line() { char *line = nullptr; stat_add("op.read"); int r = cliread(h, &line); LOG("read = %d \"%s\"", r, line ? esc(line).c_str() : ""); if (r >= 0 && line && chance(1, 2, "eval")) parse_eval(line); }
    void more_input(int n) { if (tty.eof && resume) { tty.eof = false; tty.rderr = 0; } ended = false; maxops(n); }
    void maxops(int n) { cfg.maxops = ops + n; }
    bool load(const std::string &text, const std::string &name, bool healthy) {
        LOG("load %s\n%s", name.c_str(), text.c_str()); stat_add("op.load"); cvec *gl = chance(1, 3, "globals") ? cvec_new(0) : nullptr; int r; char *tn = chance(1, 3, "treename") ? (char *)"given" : nullptr;
        if (chance(1, 2, "stream")) { SimFile f; f.data = text; if (!healthy && chance(1, 2, "rderr")) { f.rderr_at = choose(text.size() + 1, "at"); stat_add("fault.read_error"); } if (chance(1, 2, "rchunk")) f.rchunk = [](size_t k) { return (size_t)1 + choose((uint32_t)k, "rchunk"); }; FILE *fp = simfile_open(&f, "r", chance(1, 2, "buf") ? 16 : 512); r = clispec_parse_file(h, fp, (char *)name.c_str(), tn, nullptr, gl); fclose(fp); }
        else { std::vector<char> b(text.begin(), text.end()); b.push_back(0); r = clispec_parse_str(h, b.data(), (char *)name.c_str(), tn, nullptr, gl); }
        LOG("  = %d", r); if (gl) { cvec_dump(gl); cvec_free(gl); } stat_add(r < 0 ? "probe.load_error" : "probe.load_ok"); if (app_bind(h) < 0) LOG("  unknown functions"); return r >= 0; }
    void load_more() { if (!loading || nload > 4) return; Span sp("load"); std::string keep = g.text; g.text.clear(); std::string n = fmt("w%d", nload++); if (chance(1, 6, "samename")) n = g.trees.empty() ? n : g.trees[0]; auto l0 = g.lines; g.tree(n); std::string t = g.text; g.text = keep; bool bad = chance(1, 2, "mutated"); if (bad) { Wild::mutate(t); stat_add("fault.bad_syntax"); g.lines = l0; } load(t, "more", !bad); }
    void app_act(bool incb) {
        std::string nm[] = {"output", "parse_eval", "prompt", "activate", "hist", "options", "alias", "load", "print", "find", "read", "read_eval", "fd", "hooks", "exiting", "screen"};
        int k = pick_weighted({4, 5, 2, 3, 3, 3, 2, incb ? 1 : 3, 2, 1, incb ? 2 : 0, incb ? 1 : 0, bgs ? 3 : 0, 2, 1, 1}, "app"); LOG("app: %s", nm[k].c_str());
        switch (k) {
        case 0: output(); break;
        case 1: parse_eval(any_line()); break;
        case 2: new_prompt(); break;
        case 3: { std::vector<std::string> all = g.trees; all.push_back("w0"); all.push_back("nosuch"); for (auto &p : g.pipes) all.push_back("|" + p); std::string n = all[choose(all.size(), "tree")]; int r = cligen_ph_active_set_byname(h, (char *)n.c_str()); LOG("  active %s = %d", n.c_str(), r); if (r < 0 || chance(1, 2, "back")) if (!g.trees.empty()) cligen_ph_active_set_byname(h, (char *)g.trees[0].c_str()); break; }
        case 4: switch (choose(4, "hist")) {
            case 0: cligen_hist_init(h, 1 + choose(20, "n")); break;
            case 1: { SimFile f; if (chance(1, 2, "full")) f.limit = choose(200, "limit"); FILE *fp = simfile_open(&f, "w", chance(1, 2, "buf") ? 16 : 512); int r = cligen_hist_file_save(h, fp); LOG("  save = %d", r); fclose(fp); savedhist = f.data; break; }
            case 2: { SimFile f; f.data = savedhist + "a line\n" + any_line() + "\n"; if (chance(1, 3, "cut")) f.data.resize(choose(f.data.size() + 1, "cut")); if (chance(1, 4, "err")) f.rderr_at = choose(f.data.size() + 1, "at"); FILE *fp = simfile_open(&f, "r", 64); int r = cligen_hist_file_load(h, fp); LOG("  load = %d", r); fclose(fp); break; }
            case 3: cligen_hist_fn_set(h, chance(1, 2, "fn") ? app_hist : nullptr, nullptr); break; } break;
        case 5: options(); break;
        case 6: { std::string n = chance(1, 4, "clash") && !g.vocab.empty() ? g.vocab[choose(g.vocab.size(), "v")] : fmt("al%d", (int)choose(3, "n")), c = chance(1, 10, "selfalias") ? n : any_line(); std::string ph = chance(1, 3, "named") && !g.trees.empty() ? g.trees[choose(g.trees.size(), "t")] : "";
            int r = cligen_alias_add(h, ph.empty() ? nullptr : (char *)ph.c_str(), (char *)n.c_str(), chance(1, 2, "help") ? (char *)"alias help" : nullptr, (char *)c.c_str(), nullptr); LOG("  alias %s \"%s\" = %d", n.c_str(), esc(c).c_str(), r); aliases.push_back(n); app_bind(h); break; }
        case 7: load_more(); break;
        case 8: { SimFile f; FILE *fp = simfile_open(&f, "w", 256); pt_head *ph = nullptr; switch (choose(6, "print")) { case 0: cligen_print_trees(fp, h, choose(2, "brief")); break; case 1: while ((ph = cligen_ph_each(h, ph))) if (cligen_ph_parsetree_get(ph)) pt_print1(fp, cligen_ph_parsetree_get(ph), choose(2, "brief")); break; case 2: if (cligen_pt_active_get(h)) pt_dump(fp, cligen_pt_active_get(h)); break; case 3: { uint64_t n = 0; size_t sz = 0; while ((ph = cligen_ph_each(h, ph))) if (cligen_ph_parsetree_get(ph)) pt_stats(cligen_ph_parsetree_get(ph), &n, &sz); break; } case 4: if (cligen_pt_active_get(h)) cligen_help(h, fp, cligen_pt_active_get(h)); break; case 5: if (cligen_pt_active_get(h)) { parse_tree *p = pt_dup(cligen_pt_active_get(h), nullptr, 0); if (p) { pt_print(fp, p); pt_free(p, 1); } } break; } fclose(fp); break; }
        case 9: { pt_head *ph = cligen_ph_find(h, (char *)(g.trees.empty() ? "x" : g.trees[choose(g.trees.size(), "t")].c_str())); if (ph && chance(1, 2, "wp")) cligen_ph_workpoint_set(ph, nullptr); cligen_ph_i(h, choose(4, "i")); break; }
        case 10: more_input(4 + choose(8, "n")); read_line(); break;
        case 11: more_input(4 + choose(8, "n")); read_eval(); break;
        case 12: if (fds.size() && chance(1, 3, "unreg")) unreg(fds[choose(fds.size(), "fd")]); else addfd(); break;
        case 13: switch (choose(5, "hook")) { case 0: cligen_eval_wrap_fn_set(h, chance(1, 2, "on") ? wrap : nullptr, this); break; case 1: cligen_tree_resolve_wrapper_set(h, chance(1, 2, "on") ? resolve : nullptr, this); break; case 2: cligen_susp_hook(h, chance(1, 2, "on") ? susp : nullptr); break; case 3: cligen_interrupt_hook(h, chance(1, 2, "on") ? intr : nullptr); break; case 4: cligen_exitchar_add(h, (char)(1 + choose(31, "c"))); m.exitchars = "\004"; break; } break;
        case 14: cligen_exiting_set(h, choose(2, "x")); break;
        case 15: if (chance(1, 2, "redraw")) cligen_redraw(h); else gl_clear_screen(h); break;
        }
    }
    void options() {
        int n = 1 + choose(4, "n"); for (int i = 0; i < n; i++) switch (choose(18, "opt")) {
        case 0: cligen_tabmode_set(h, choose(8, "tabmode")); break; case 1: cligen_ignorecase_set(h, choose(2, "o")); break; case 2: cligen_caseignore_set(h, choose(2, "o")); break; case 3: cligen_line_scrolling_set(h, choose(2, "o")); break; case 4: cligen_terminal_rows_set(h, choose(40, "rows")); break; case 5: cligen_terminal_width_set(h, 21 + choose(200, "w")); break;
        case 6: cligen_helpstring_truncate_set(h, choose(2, "o")); break; case 7: cligen_helpstring_lines_set(h, choose(4, "o")); break; case 8: cligen_logsyntax_set(h, choose(2, "o")); break; case 9: { static const char c[] = {'#', 0, '!', 'a'}; cligen_comment_set(h, c[choose(4, "c")]); break; } case 10: cligen_preference_mode_set(h, choose(2, "o")); break; case 11: cligen_exclude_keys_set(h, choose(2, "o")); break; case 12: cligen_expand_first_set(h, choose(2, "o")); break; case 13: { static const char c[] = {' ', '.', ';'}; cligen_delimiter_set(h, c[choose(3, "c")]); break; }
        case 14: cligen_paging_set(h, choose(2, "o")); break; case 15: cligen_lexicalorder_set(h, choose(2, "o")); break; case 16: cligen_utf8_set(h, choose(2, "o")); break; case 17: cligen_regex_xsd_set(h, choose(2, "o")); break; } }
    void configure() {
        model_on = false; swarm(); cfg.maxops = 20; cfg.utf8 = chance(1, 2, "f"); cfg.nul = chance(1, 4, "f"); cfg.sigkeys = false; cfg.eintr = chance(1, 3, "f"); cfg.winch = chance(1, 3, "f"); cfg.preempt = chance(1, 4, "f"); cfg.typeahead = chance(1, 3, "f"); cfg.wfault = chance(1, 4, "f"); fails = chance(1, 2, "f"); callbacks_act = chance(1, 2, "f"); childret = chance(1, 4, "f"); bgs = chance(1, 3, "f"); piping = chance(1, 2, "pipe"); tty.vt_on = false; tty.is_tty = !chance(1, 10, "notty"); prompts_in_edit = true;
        static const size_t caps[] = {65536, 4096, 200, 16}; g_sockcap = caps[choose(4, "cap")]; tty.cols = 21 + choose(150, "cols"); tty.rows = chance(1, 10, "r0") ? 0 : 2 + choose(40, "rows"); if (w.size() > 20) { w[1] = 4; w[18] = 3; w[19] = 2; w[3] = 4; } }
    void start() {
        app_cbufs(); if (!(h = cligen_init())) violation("init", "cligen_init failed without any fault"); LOG("session");
        if (piping) g.pipe_tree("p"); g.text.clear(); std::string pt; if (piping) { Wild t; t.pipe_tree("p"); pt = t.text; }
        bool mode = chance(1, 4, "mode"); g.typedargs = !mode; int nt = 1 + choose(3, "trees"); for (int i = 0; i < nt; i++) g.tree(fmt("t%d", i)); std::string text = g.text; if (chance(1, 2, "pipes last")) text += pt; else text = pt + text;
        if (mode) { text = "treename=\"m\";\nedit, wpset(\"t0\"); { @t0, wpset(\"t0\"); }\nup, wpup(\"t0\"); top, wptop(\"t0\"); show, wpshow(\"t0\"); \nexec @t0;\n@t0;\n" + text; g.trees.insert(g.trees.begin(), "m"); std::vector<std::string> l = g.lines; for (auto &x : l) g.lines.push_back("edit " + x); for (int i = 0; i < 3; i++) { g.lines.push_back("up"); g.lines.push_back("top"); g.lines.push_back("show"); } }
        if (!load(text, "spec", true) ) violation("sess:load", "the grammar did not load:\n%s", text.c_str()); g.text = text;
        if (cligen_ph_active_set_byname(h, (char *)g.trees[0].c_str()) < 0) violation("sess:active", "tree %s not found", g.trees[0].c_str());
        words.clear(); for (int i = 0; i < 6; i++) words.push_back("a"); for (auto &l : g.lines) { words.push_back(l); words.push_back(l.substr(0, l.find(' '))); } for (int i = 0; i < 3; i++) words.push_back(any_line()); if (chance(1, 2, "opts")) options(); if (chance(1, 3, "histfn")) cligen_hist_fn_set(h, app_hist, nullptr); if (bgs) addfd(); }
    void step() {
        cbacts = 0; switch (pick_weighted({5, 4, 6, 10, 2}, "step")) {
        case 0: more_input(4 + choose(20, "n")); read_eval(); break;
        case 1: more_input(4 + choose(20, "n")); read_line(); break;
        case 2: parse_eval(any_line()); break;
        case 3: app_act(false); break;
        case 4: repeat(); break; } }
    void repeat() { // the same successful command over and over
        std::string l = any_line(); bool f = fails, c = callbacks_act; fails = callbacks_act = false; quietcb = true; int paging = cligen_paging_get(h); cligen_paging_set(h, 0); uint64_t b5 = 0; bool ok = true; std::string at; LOG("repeat \"%s\"", esc(l).c_str());
        cligen_tree_resolve_wrapper_set(h, nullptr, nullptr); cligen_eval_wrap_fn_set(h, nullptr, nullptr);
        int warm = l.compare(0, 2, "up") == 0 ? 40 : 5; /* moving the working point changes what is held */ for (int i = 0; i < warm + 7 && ok; i++) { ok = parse_eval(l, i > 0) == CG_MATCH; out_flush(); tty.out.clear(); if (i == warm) b5 = alloc_live_bytes(); }
        if (ok) { checked(); stat_add("probe.repeated"); uint64_t b = alloc_live_bytes(); if (b > b5) violation("sess:growth", "evaluating \"%s\" seven times more holds %llu more bytes", esc(l).c_str(), (unsigned long long)(b - b5)); }
        cligen_paging_set(h, paging); fails = f; callbacks_act = c; quietcb = false; }
    void tidy(const char *when) {
        checked(); int nf = fd_open_count(); if (nf != 0) violation("sess:fds", "after %s %d descriptors more than the application's are open:%s", when, nf, fd_dump().c_str());
        for (auto &p : procs) if (!p.reaped) violation("sess:zombie", "after %s process %d has not been waited for", when, p.pid); }
    void finish() {
        if (!fds.empty() && chance(1, 2, "unreg")) while (!fds.empty()) unreg(fds.back()); cligen_susp_hook(h, nullptr); cligen_interrupt_hook(h, nullptr);
        cligen_exit(h); h = nullptr; for (auto fd : fds) { cligen_unregfd(fd); bgfd_del(fd); } fds.clear(); out_flush(); checked(); size_t n; std::string l = alloc_leaks(&n);
        if (n) violation("sess:leak", "after the handle was released %zu blocks are still allocated:%s", n, l.c_str()); if (actl.regs) violation("sess:regex-leak", "%ld compiled regular expressions were not released", actl.regs);
        if (fd_open_count()) violation("sess:fds", "descriptors left open: %s", fd_dump().c_str()); }
};
