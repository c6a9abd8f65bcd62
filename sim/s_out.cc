// C08 C09: paged output and output pipes.
#include "actors.h"
#include "editenv.h"
#include "app.h"
#include <errno.h>
#include <string.h>
static cligen_handle mk() { cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); return h; }
static std::string stext(uint32_t maxlines) { // words, newlines, exact-width lines; no '-', no run of 4 blanks
    std::string s; int n = choose(maxlines + 1, "lines");
    for (int i = 0; i < n; i++) {
        int k = pick_weighted({6, 3, 2, 1, 2}, "linekind"); std::string l; static int ctr; ctr = i;
        if (k == 0) l = fmt("line %d of text", ctr);
        else if (k == 1) { int len = choose(30, "len"); for (int j = 0; j < len; j++) l += (char)('a' + (i + j) % 26); }
        else if (k == 2) { int len = 15 + choose(220, "len"); for (int j = 0; j < len; j++) l += j % 9 == 8 ? ' ' : (char)('A' + (i * 5 + j) % 26); }
        else if (k == 3) { int w = cligen_terminal_width(nullptr), len = w * (1 + choose(3, "mul")) + (int)choose(3, "off") - 1; for (int j = 0; j < len; j++) l += (char)('a' + (i * 3 + j) % 26); }
        s += l; if (i + 1 < n || !chance(1, 5, "nonl")) s += '\n';
    }
    return s;
}
// ---------------------------------------------------------------- C08
struct C08Env : Env, App {
    bool reading = false; std::vector<int> ans; uint64_t deadseen = 0; std::deque<int> plan; bool eintr = false, winch = false, hang = false, rderr = false; size_t shown_at = 0; bool quitkeys = true;
    std::function<void()> body; bool in_preempt = false; long prompts = 0;
    void dead() { while (deadseen < tty.eof_reads + tty.err_reads) { deadseen++; ans.push_back(-1); } }
    void key_read(unsigned char c) override { if (!reading) return; dead(); ans.push_back(c); }
    void wait_key() override { if (!reading) return; checked(); if (tty.out.size() < 8 || tty.out.compare(tty.out.size() - 8, 8, "--More--")) violation("page:silent-wait", "waiting for a key without a visible --More-- (screen ends with \"%s\")", esc(tty.out.substr(tty.out.size() < 40 ? 0 : tty.out.size() - 40)).c_str()); if (!tio_raw_for_keys(tty.tio)) violation("page:not-raw", "waiting at --More-- while the terminal is not raw"); }
    char akey() { static const char ks[] = {' ', '\n', 'x', '?', 'q', 3, 'Q', '\n', 27, 'b'}; char c = ks[pick_weighted({10, 8, 2, 2, quitkeys ? 1 : 0, quitkeys ? 1 : 0, 1, 4, 1, 1}, "key")]; return c; }
    void resize() { tty.rows = 1 + choose(30, "rows"); if (chance(1, 12, "rows0")) tty.rows = 0; tty.cols = chance(1, 10, "w0") ? 0 : 15 + choose(100, "cols"); stat_add("fault.resize"); LOG("  window %dx%d", tty.cols, tty.rows); if (sig_has_handler(SIGWINCH)) deliver_signal(SIGWINCH); }
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false;
        if (!reading) { ev_at(100, [] { tty.eof = true; }); return true; }
        if (eintr && chance(1, 6, "eintr")) ev_at(1 + choose(1000, "t"), [] { interrupt_now(); });
        if (winch && chance(1, 6, "winch")) ev_at(1 + choose(1000, "t"), [this] { resize(); });
        if (hang && chance(1, 15, "hang")) { ev_at(500, [] { tty.eof = true; stat_add("fault.eof"); LOG("  hang-up"); }); return true; }
        if (rderr && chance(1, 15, "rderr")) { ev_at(500, [] { tty.rderr = EIO; tty.rderr_n = 1; stat_add("fault.read_error"); }); return true; }
        Span sp("key"); std::string s(1, akey()); while (chance(1, 6, "ahead")) s += akey(); ev_at(1200, [s] { tty_type(s); }); return true;
    }
    void preempt(const char *) override { if (in_preempt || in_child || !reading) return; in_preempt = true; if (winch && chance(1, 40, "async")) { resize(); g_interrupted = false; } in_preempt = false; }
    int cmd(int, cligen_handle, cvec *, cvec *) override { if (body) body(); return 0; }
};
struct OutCall { size_t pos; int rows, width; };
static void c08_session(C08Env &e, cligen_handle h, int mode) { // mode 0 paging, 1 off, 2 other stream
    SimFile other; FILE *ofp = nullptr; if (mode == 2) ofp = simfile_open(&other, "w", 256);
    cligen_paging_set(h, mode != 1); cli_output_reset();
    size_t out0 = (out_flush(), tty.out.size()); std::string text; std::vector<OutCall> calls; e.ans.clear(); e.deadseen = tty.eof_reads + tty.err_reads;
    size_t key0 = tty.consumed.size(); (void)key0;
    int ncalls = 1 + choose(g_thorough ? 40 : 20, "calls");
    for (int i = 0; i < ncalls; i++) {
        Span sp("call"); if (e.winch && chance(1, 6, "winch")) { e.resize(); g_interrupted = false; }
        std::string t = stext(chance(1, 4, "big") ? 60 : 5); 
        calls.push_back({text.size(), cligen_terminal_rows(h), cligen_terminal_width(h)}); text += t;
        e.reading = mode == 0; FILE *f = ofp ? ofp : sim_stdout; int r = 0;
        switch (choose(4, "form")) {
        case 0: r = cligen_output(f, "%s", t.c_str()); break;
        case 1: { std::vector<char> b(t.begin(), t.end()); b.push_back(0); r = cligen_output_basic(f, b.data(), t.size()); break; }
        case 2: { size_t k = choose(t.size() + 1, "split"); r = cligen_output(f, "%.*s%s", (int)k, t.c_str(), t.c_str() + k); break; }
        case 3: { std::string p = t; bool plain = p.find('%') == std::string::npos; r = plain ? cligen_output(f, p.c_str(), 0) : 0; break; }
        }
        e.reading = false; if (r < 0) violation("page:error", "output of %zu bytes failed", t.size());
        if (chance(1, 30, "typeahead")) { stat_add("fault.typeahead"); tty_type(std::string(1, e.akey())); }
        if (cli_output_status() < 0 && chance(3, 4, "stop")) break;
    }
    e.dead(); out_flush(); if (ofp) fclose(ofp);
    std::string out = tty.out.substr(out0); checked();
    if (mode != 0) { std::string got = mode == 2 ? other.data : out; if (mode == 2 && !out.empty()) violation("page:stream", "text for another stream was also written to the terminal");
        if (got != text) violation("page:unpaged-text", "without paging \"%s\" was written instead of \"%s\"", esc(got).c_str(), esc(text).c_str()); if (!e.ans.empty()) violation("page:unpaged-keys", "keys were read although output is not paged"); stat_add("probe.unpaged"); return; }
    // segments between prompts
    std::vector<std::string> seg; size_t p = 0;
    for (;;) { size_t q = out.find("--More--", p); if (q == std::string::npos) { seg.push_back(out.substr(p)); break; }
        seg.push_back(out.substr(p, q - p)); size_t k = seg.size() - 1; q += 8; size_t b = out.find("\b\b\b\b\b\b\b\b        \b\b\b\b\b\b\b\b", q); if (b == std::string::npos) violation("page:prompt-left", "the --More-- prompt is not followed by its erasure: \"%s\"", esc(out.substr(q)).c_str());
        if (b != q && !(k < e.ans.size() && e.ans[k] == '?')) violation("page:prompt-text", "unexpected text \"%s\" at the --More-- prompt", esc(out.substr(q, b - q)).c_str());
        p = b + 24; }
    stat_add("probe.prompts", seg.size() - 1); e.prompts += seg.size() - 1;
    if (seg.size() - 1 != e.ans.size()) violation("page:keys", "%zu --More-- prompts but %zu keys (or ends of input) were consumed", seg.size() - 1, e.ans.size());
    std::string got; for (auto &s : seg) got += s; 
    bool quit = false; size_t qi = 0; for (size_t i = 0; i < e.ans.size(); i++) if (e.ans[i] == 'q' || e.ans[i] == 3) { quit = true; qi = i; break; }
    std::string ansd; for (int a : e.ans) ansd += a < 0 ? "<end>" : esc(std::string(1, (char)a));
    if (quit && qi + 1 != e.ans.size()) violation("page:after-quit", "another prompt appeared after output was quit (keys %s)", ansd.c_str());
    if (quit) { // after q nothing is printed, except what later calls pass through because the window has no rows
        size_t qp = got.size() - seg.back().size(), qc = 0; while (qc + 1 < calls.size() && calls[qc + 1].pos < qp) qc++;
        std::string tail; for (size_t i = qc + 1; i < calls.size(); i++) if (calls[i].rows == 0) { size_t e2 = i + 1 < calls.size() ? calls[i + 1].pos : text.size(); tail += text.substr(calls[i].pos, e2 - calls[i].pos); }
        if (seg.back() != tail) violation("page:after-quit", "\"%s\" was printed after output was quit", esc(seg.back()).c_str());
        got.resize(qp); seg.pop_back(); }
    if ((cli_output_status() < 0) != quit) violation("page:status", "status is %d, keys were %s", cli_output_status(), ansd.c_str());
    if (quit ? text.compare(0, got.size(), got) != 0 : got != text) { size_t i = 0; while (i < got.size() && i < text.size() && got[i] == text[i]) i++; violation("page:text", "the text on the terminal differs at byte %zu of %zu: \"%s\" instead of \"%s\"", i, text.size(), esc(got.substr(i, 60)).c_str(), esc(text.substr(i, 60)).c_str()); }
    // lines per page
    size_t pos = 0, ci = 0; int lcol = 0, ecol = 0; bool colknown = true, ever = false; int prev = -2; int rows = calls[0].rows, width = calls[0].width;
    while (ci + 1 < calls.size() && calls[ci + 1].pos <= 0) { ci++; } rows = calls[ci].rows; width = calls[ci].width;
    for (size_t k = 0; k < seg.size(); k++) {
        int lines = 0, elines = 0, nls = 0, maxrows = rows; bool changed = false, fuzzy = !colknown, unlimited = rows == 0;
        for (size_t j = 0; j <= seg[k].size(); j++) {
            // calls starting here
            bool more = j < seg[k].size();
            while (more && ci + 1 < calls.size() && calls[ci + 1].pos <= pos) { ci++; if (calls[ci].rows != rows || calls[ci].width != width) { fuzzy = changed = ever = true; colknown = false; rows = calls[ci].rows; width = calls[ci].width; maxrows = std::max(maxrows, rows); if (rows == 0) unlimited = true; } }
            if (!more) break;
            // a resize that became visible without a new call start cannot change this call
            int allow = prev == '\n' && !changed ? 1 : std::max(1, maxrows - 1);
            char c = seg[k][j]; pos++;
            if (c != '\n' && lcol == width) { lines++; lcol = 0; }
            int cnt = fuzzy ? nls : lines;
            if (!unlimited && cnt >= allow) violation("page:overrun", "%d lines were printed without a prompt (rows %d, width %d%s) and \"%s\" follows", cnt, maxrows, width, prev == '\n' ? ", after RETURN" : "", esc(seg[k].substr(j, 20)).c_str());
            if (c == '\n') { lines++; nls++; lcol = 0; if (ecol == width) { elines++; ecol = 0; } elines++; ecol = 0; if (!colknown) { colknown = true; } }
            else { if (ecol == width) { ecol = 0; } lcol++; ecol++; if (ecol == width) { elines++; ecol = 0; } }
            (void)elines;
        }
        if (k + 1 < seg.size() && !fuzzy && !unlimited && k > 0 + (size_t)0) {
            int allow = rows <= 1 ? 0 : prev == '\n' ? 1 : prev == '?' ? 0 : rows - 1; if (ever && (prev == '\n' || prev == '?')) allow = 0;
            checked(); if (elines < allow) violation("page:early", "a --More-- prompt appeared after %d lines of a page of %d (rows %d, width %d)", elines, allow, rows, width);
        }
        if (lcol == width) lcol = 0; // that line was complete
        prev = k < e.ans.size() ? e.ans[k] : -2; if (prev == '?') ever = true; else if (prev != '\n') ever = false;
    }
    stat_add(quit ? "probe.quit" : "probe.complete");
}
static void run_c08() {
    C08Env e; env = &e; app = &e; tty.vt_on = false; tty.is_tty = !chance(1, 25, "notty");
    e.eintr = chance(1, 3, "f"); e.winch = chance(1, 2, "f"); e.hang = chance(1, 5, "f"); e.rderr = chance(1, 5, "f"); e.quitkeys = chance(2, 3, "q");
    tty.rows = 1 + choose(chance(1, 2, "small") ? 6 : 40, "rows"); tty.cols = 21 + choose(80, "cols"); if (chance(1, 15, "w0")) tty.cols = 0; 
    cligen_handle h = mk(); if (app_load(h, "out, cb0();", "t") < 0) violation("load", "grammar did not load");
    set_budget(400ull * 1000 * 1000);
    int n = 1 + choose(4, "sessions");
    for (int i = 0; i < n; i++) {
        Span sp("session"); int mode = pick_weighted({6, 1, 1}, "mode"); bool incmd = chance(1, 3, "incmd"); bool hook = chance(1, 10, "setrows");
        if (hook) { int r = choose(3, "rowsset") ? 0 : 10; cligen_terminal_rows_set(h, r); }
        if (incmd && !tty.eof) { bool ran = false; tty.in.clear(); e.body = [&] { ran = true; c08_session(e, h, mode); }; tty_type(chance(1, 3, "behind") ? "\nout\n" : "out\n"); char *line; int cb; cligen_result r = CG_ERROR; char *rs = nullptr; if (cliread_eval(h, &line, &cb, &r, &rs) < 0) violation("page:eval", "evaluation failed"); if (rs) sim_free(rs); if (!ran && !tty.eof_reads && !tty.err_reads && tty.in.empty()) violation("page:eval", "the command did not run"); e.body = nullptr; }
        else c08_session(e, h, mode);
        if (!tty.in.empty()) stat_add("probe.keys_left");
        if (tty.dropped) violation("page:dropped", "%d typed bytes were discarded", tty.dropped);
    }
    cligen_exit(h);
}
static RegScenario r08({"C08", "deterministic simulation of paged output with resizes, signals, type-ahead and end of input", run_c08, 60000, 2000000, 30, 400,
    "Random texts over random numbers of output calls, windows resized by signal between calls and at prompts, interrupted reads, keys typed ahead, hang-up and read errors at prompts, quitting; the terminal's text is cut at the prompts and compared with the text given, the keys consumed and the page size."});

// ---------------------------------------------------------------- C09
struct C09Env : Env, App, ActorSet {
    cligen_handle h; bool eintr = false, steps = false, setupfaults = false, shortw = false, rfault = false; bool nested = false; int depth = 0; bool ineval = false, in_preempt = false; int childmode = 0; int fsetup = 0;
    struct Frame { int cb = -1; std::string text; bool cbran = false, cbfail = false; int pid = 0; std::string inline_out; std::string payload; };
    std::vector<Frame> fr; int expect_fail = 0; std::string termtext; int childret = 0; 
    void proc_started(int pid) override {
        Actor &a = actor_start(pid); (void)a;
        if (!fr.empty()) fr.back().pid = pid; if (!fr.empty()) fr.back().payload = proc(pid)->report;
        checked(); Proc &p = *proc(pid); if (p.fds.size() != 2 + (size_t)0 || p.fds.find(0) == p.fds.end() || p.fds.find(1) == p.fds.end()) { if (fr.size() <= 1) violation("pipe:child-fds", "the pipe function runs with %zu pipe descriptors, expected just its input and output", p.fds.size()); }
    }
    bool idle(const WaitInfo &wi) override {
        if (eintr && chance(1, 6, "eintr")) ev_at(1 + choose(300, "t"), [] { interrupt_now(); });
        std::vector<int> r; for (auto &x : act) if (runnable(x.second)) r.push_back(x.first);
        if (r.empty()) { if (wi.key) { ev_at(10, [] { tty.eof = true; }); return true; } return !ev_empty(); }
        int pid = r[choose(r.size(), "who")]; uint64_t d = 100 + (act[pid].slow && chance(1, 3, "lag") ? act[pid].slow : choose(300, "d")); ev_at(d, [this, pid] { step(pid); }); return true;
    }
    void preempt(const char *) override { if (in_preempt || in_child || !steps) return; in_preempt = true; while (chance(1, 4, "step")) { std::vector<int> r; for (auto &x : act) if (runnable(x.second)) r.push_back(x.first); if (r.empty()) break; stat_add("op.concurrent_step"); step(r[choose(r.size(), "who")]); } in_preempt = false; }
    int write_fault(int fd, size_t n, ssize_t *res) override { if (fd == 1 || !shortw || !chance(1, 5, "wf")) return 0; if (chance(1, 2, "eintr")) { errno = EINTR; *res = -1; stat_add("fault.eintr"); } else { *res = n > 1 ? 1 + choose(n - 1, "short") : 1; stat_add("fault.short_write"); } return 1; }
    size_t read_cap(int, size_t n) override { return shortw ? 1 + choose(n, "cap") : n; }
    int call_fault(const char *n) override {
        if (!strcmp(n, "read-sock") && eintr && chance(1, 6, "e")) { stat_add("fault.eintr"); return EINTR; }
        if (!strcmp(n, "waitpid") && eintr && chance(1, 4, "e")) { stat_add("fault.eintr"); return EINTR; }
        if (setupfaults && !strcmp(n, "fork") && chance(1, 6, "e")) { fsetup++; return EAGAIN; }
        if (setupfaults && !strcmp(n, "socketpair") && chance(1, 8, "e")) { fsetup++; return EMFILE; }
        if (!strcmp(n, "fork")) { childmode = childret && chance(1, 8, "childmode") ? 1 + choose(2, "ret") : 0; }
        return 0;
    }
    struct Cmd { std::string line, vec; bool plain; int tree; bool var; int cb; }; std::vector<Cmd> cmds; std::string gtext; // plain: is a command without pipe; tree: pipe functions it takes
    struct PF { const char *name; size_t min; int arg; const char *args; };
    static constexpr PF pfs[] = {{"cat", 2, 0, "-=cat:string"}, {"grep", 1, 1, "-=grep:string,-=arg:string"}, {"count", 2, 2, "-=count:string,-=n:string"}, {"wc", 1, 0, "-=w c:string"}, {"sort", 1, 0, "-=sort:string,-=-r:string"}, {"all", 1, 3, "-=all:string"}};
    // A grammar whose commands take the functions of one pipe tree (by default or explicitly) or none, in random order; the tree called main or ref is active
    bool grammar() {
        static const char *pn[] = {"", "|p", "|q"}; int dm = pick_weighted({1, 4, 3}, "default pipe"), dr = choose(3, "default pipe of ref"); bool inref = chance(1, 5, "ref active");
        std::string order = "mrpq"; for (int i = 3; i > 0; i--) std::swap(order[i], order[choose(i + 1, "order")]);
        std::string cur; bool split = chance(1, 5, "split"); std::vector<std::string> parts;
        for (char c : order) {
            std::string name = c == 'm' ? "main" : c == 'r' ? "ref" : c == 'p' ? "|p" : "|q", pipe = c == 'm' ? pn[dm] : c == 'r' ? pn[dr] : "", body, set = "pipetree=\"" + pipe + "\";\n";
            if (c == 'm') body = "show, cb0(); { x, cb1(); y <v:int32>, cb4(\"a\",\"b\"); }\nlist { @|p, cb2(); }\nover, cb3(); { @|q, cb3(); on { z, cb5(); } }\nplain { more; }\nsub @ref;\n";
            if (c == 'r') body = "extra, cb6();\ndeep { er, cb7(); }\n";
            if (c == 'p') body = "\\| {\n  cat, cb12(\"cat\");\n  grep <arg:string>, cb13(\"grep\",\"arg\");\n  count <n:int32>, cb14(\"count\",\"n\");\n}\n";
            if (c == 'q') body = "\\| {\n  wc, cb12(\"w c\");\n  sort, cb13(\"sort\",\"-r\");\n  all <all:rest>, cb15(\"all\");\n}\n";
            std::string t = "treename=\"" + name + "\";\n"; if (split) cur = "";
            if (pipe == cur && chance(1, 2, "same")) t += body; else if (chance(1, 4, "set last")) t += body + set; else t += set + body;
            cur = pipe; parts.push_back(t);
        }
        if (!split) { std::string all; for (auto &x : parts) all += x; parts = {all}; }
        for (auto &x : parts) { gtext += x; if (app_load(h, x.c_str(), "t") < 0) violation("load", "grammar did not load:\n%s", x.c_str()); }
        if (cligen_ph_active_set_byname(h, (char *)(inref ? "ref" : "main")) < 0) violation("load", "tree not found");
        LOG("grammar (default pipe %s, ref's %s)%s\n%s", pn[dm], pn[dr], inref ? " ref active" : "", gtext.c_str());
        std::string s = inref ? "" : "sub "; int d = inref ? dr : dm;
        auto add = [&](const std::string &l, bool plain, int tree, int cb, bool var = false) { std::string k; size_t i = 0; for (std::string w, r = l + " "; i < r.size(); i++) { if (r[i] != ' ') { w += r[i]; continue; } k += "," + w + "!=" + w + ":string"; w.clear(); } cmds.push_back({l, k, plain, tree, var, cb}); };
        add(s + "extra", true, d, 6); add(s + "deep er", true, d, 7);
        if (!inref) { add("show", true, d, 0); add("show x", true, d, 1); add("show y", true, d, 4, true); add("list", false, 1, 2); add("over", true, 2, 3); add("over on z", true, 2, 5) /* an explicit pipe tree is the default below it */; }
        return true;
    }
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        if (idx >= 12) { // pipe function, in the child
            if (!in_child) violation("pipe:in-parent", "the pipe function ran in the session's own process");
            if (childmode == 1) return 3; if (childmode == 2) return -1;
            child_report(cvec_dump(cvv) + "|" + cvec_dump(argv)); }
        if (in_child) violation("pipe:command-in-child", "a command callback ran in the pipe function's process");
        Frame &f = fr.back(); f.cbran = true; f.cb = idx; int d = fr.size();
        int n = choose(8, "outs");
        for (int i = 0; i < n; i++) { Span sp("out"); std::string t = stext(chance(1, 6, "big") ? 200 : 4); if (chance(1, 8, "huge")) { int m = 1 + choose(6, "m"); std::string u = t; for (int j = 0; j < m * 10; j++) t += u; }
            { size_t room = g_sockcap <= 16 ? 600 : g_sockcap <= 1000 ? 10000 : 120000; if (t.size() > room) t.resize(room); }
            int r = cligen_output(sim_stdout, "%s", t.c_str()); fr[d - 1].text += t; if (r < 0) violation("pipe:output", "the output function failed"); 
            if (nested && d < 3 && chance(1, 6, "nest")) { stat_add("probe.nested"); one_eval(); } }
        if (chance(1, 6, "cbfail")) { stat_add("fault.callback_fails"); fr[d - 1].cbfail = true; return failval(); }
        return 0;
    }
    // one evaluation; returns its text on the terminal
    void one_eval() {
        const Cmd &cm = cmds[choose(cmds.size(), "cmd")]; std::string line, wantvec, wantarg; bool piped = !cm.plain || !chance(1, 6, "plain"); if (!cm.tree) piped = false; int bad = 0; line = cm.line; wantvec = cm.vec;
        if (cm.var) { std::string n = std::to_string(choose(100, "n")); line += " " + n; wantvec += ",v=" + n + ":int32"; }
        if (piped) { const PF &pf = pfs[cm.tree == 1 ? choose(3, "pipe") : 3 + choose(3, "pipe")]; std::string w = pf.name; line += " | " + w.substr(0, chance(1, 3, "abbr") ? pf.min : w.size()); wantvec += std::string(",|!=|:string,") + w + "!=" + w + ":string"; wantarg = pf.args; if (pf.arg == 1) { static const char *av[] = {"foo", "\"a b\"", "-x", "7"}; std::string v = av[choose(4, "arg")]; line += " " + v; wantvec += ",arg=" + (v[0] == '"' ? v.substr(1, v.size() - 2) : v) + ":string"; } if (pf.arg == 2) { std::string n = std::to_string(choose(2000, "n")); line += " " + n; wantvec += ",n=" + n + ":int32"; } if (pf.arg == 3) { std::string v = choose(2, "r") ? "a b c" : "zz"; line += " " + v; wantvec += ",all=" + v + ":rest"; }
            if (chance(1, 8, "bad")) { bad = 1 + choose(2, "how"); if (bad == 1 && pf.arg == 3) bad = 2; if (bad == 1) line += " | " + w; else line = cm.line + (cm.var ? " 5" : "") + (cm.tree == 1 ? " | wc" : " | cat"); } }
        else if (!cm.plain) bad = 3; else if (!cm.tree && chance(1, 4, "bad")) { bad = 4; line += " | cat"; }
        if (bad) { std::vector<char> lb(line.begin(), line.end()); lb.push_back(0); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr; LOG("match %s", line.c_str());
            int r = cliread_parse(h, lb.data(), cligen_pt_active_get(h), &mo, &cvv, &res, &reason); if (r < 0) violation("pipe:match", "matching \"%s\" gave an error", line.c_str()); checked(); stat_add("probe.not_a_command"); if (res == CG_MATCH) violation("pipe:accepted", "\"%s\" is not a command of the grammar but matched:\n%s", line.c_str(), gtext.c_str()); if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); if (reason) sim_free(reason); return; }
        int fds0 = fd_open_count(), s0 = -1; cli_pipe_output_socket_get(&s0); size_t np = procs.size(); int fs0 = fsetup; out_flush(); size_t o0 = tty.out.size(); bool top = fr.empty();
        std::vector<char> lb(line.begin(), line.end()); lb.push_back(0); parse_tree *pt = cligen_pt_active_get(h); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr;
        if (cliread_parse(h, lb.data(), pt, &mo, &cvv, &res, &reason) < 0 || res != CG_MATCH) violation("pipe:match", "\"%s\" did not match: %d %s", line.c_str(), (int)res, cq(reason));
        Frame f; fr.push_back(f); int d = fr.size(); size_t key = procs.size(); LOG("eval %s", line.c_str());
        int r = cligen_eval(h, mo, cvv); f = fr.back(); fr.pop_back(); (void)d; (void)key;
        LOG("eval %s = %d", line.c_str(), r);
        if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv);
        out_flush(); checked();
        bool setup_failed = fsetup > fs0 && !f.cbran; Proc *p = f.pid ? proc(f.pid) : nullptr;
        if (!p) for (size_t i = np; i < procs.size(); i++) if (!procs[i].called && !setup_failed) { /* child ended before the function reported */ if (!p) p = &procs[i]; }
        int s1 = -1; cli_pipe_output_socket_get(&s1);
        if (s1 != s0) violation("pipe:redirected", "after \"%s\" output is directed to descriptor %d, before it was %d", line.c_str(), s1, s0);
        if (fd_open_count() != fds0) violation("pipe:fd-leak", "after \"%s\" %d descriptors are open, before it %d:%s", line.c_str(), fd_open_count(), fds0, fd_dump().c_str());
        for (size_t i = np; i < procs.size(); i++) if (!procs[i].reaped) violation("pipe:zombie", "after \"%s\" the pipe function's process %d has not been waited for", line.c_str(), procs[i].pid);
        if (setup_failed) { stat_add("probe.setup_failed"); if (r >= 0) violation("pipe:setup", "setting up the pipe failed but evaluation reported success"); return; }
        if (!f.cbran) violation("pipe:no-callback", "\"%s\": the command's callback did not run", line.c_str());
        if (f.cb != cm.cb) violation("pipe:callback", "\"%s\" ran callback cb%d, expected cb%d", line.c_str(), f.cb, cm.cb);
        if (piped && !p) violation("pipe:no-child", "\"%s\": no pipe function was started", line.c_str());
        if (!piped && !fr.empty()) fr.back().text += f.text;
        if (!piped) { if (procs.size() != np && !nested) violation("pipe:child", "a process was started for a command without pipe"); if ((r < 0) != f.cbfail) violation("pipe:result", "\"%s\" returned %d, callback %s", line.c_str(), r, f.cbfail ? "failed" : "succeeded"); if (top && !nested && !cligen_paging_get(h) && tty.out.substr(o0) != f.text) violation("pipe:direct", "unpiped output is \"%s\" instead of \"%s\"", esc(tty.out.substr(o0)).c_str(), esc(f.text).c_str()); return; }
        Actor *a = act.count(p->pid) ? &act[p->pid] : nullptr; int st = p->status; bool childbad = (WIFEXITED(st) && WEXITSTATUS(st)) || (WIFSIGNALED(st) && WTERMSIG(st) != SIGTERM);
        bool want = f.cbfail || childbad; stat_add(want ? "probe.failed_eval" : "probe.ok_eval");
        if ((r < 0) != want) violation("pipe:result", "\"%s\" returned %d, callback %s, child status 0x%x", line.c_str(), r, f.cbfail ? "failed" : "succeeded", st);
        if (a) {
            std::string want_arg = wantarg;
            std::string rep = f.payload; size_t bar = rep.rfind('|'); if (bar == std::string::npos || rep.substr(bar + 1) != want_arg) violation("pipe:args", "\"%s\": the pipe function was called with \"%s\", expected arguments %s", line.c_str(), esc(rep).c_str(), want_arg.c_str());
            if (bar != std::string::npos && rep.substr(0, bar) != (wantvec = "cmd=" + esc(line) + ":rest" + wantvec)) violation("pipe:args", "\"%s\": the pipe function's vector is \"%s\", expected \"%s\"", line.c_str(), rep.c_str(), wantvec.c_str());
            bool readall = a->eof; std::string &t = f.text;
            if (readall ? a->got != t : t.compare(0, a->got.size(), a->got) != 0) { size_t i = 0; while (i < t.size() && i < a->got.size() && t[i] == a->got[i]) i++; violation("pipe:input", "the pipe function read %zu bytes (%s) which differ from the %zu bytes output at %zu", a->got.size(), readall ? "all" : "some", t.size(), i); }
            if (top && !nested && !cligen_paging_get(h)) { std::string o = tty.out.substr(o0); if (o != a->wrote) { size_t i = 0; while (i < o.size() && i < a->wrote.size() && o[i] == a->wrote[i]) i++; violation("pipe:output", "the pipe function wrote %zu bytes, on the terminal are %zu, first difference at %zu", a->wrote.size(), o.size(), i); } stat_add("probe.output_compared"); }
            if (!a->done && !a->outclosed && WIFSIGNALED(st)) violation("pipe:killed", "the pipe function was killed before it had finished its output");
            if (!a->put.empty() && a->kind != 7 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE)) violation("pipe:cut", "the pipe function's output was cut off, %zu bytes were left", a->put.size());
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE) violation("pipe:cut", "the pipe was closed while its function was writing");
        }
    }
};
constexpr C09Env::PF C09Env::pfs[];
static void run_c09() {
    C09Env e; env = &e; app = &e; tty.vt_on = false; tty.is_tty = !chance(1, 3, "notty");
    e.eintr = chance(1, 3, "f"); e.steps = chance(2, 3, "f"); e.setupfaults = chance(1, 5, "f"); e.shortw = chance(1, 3, "f"); e.nested = chance(1, 8, "f"); e.childret = chance(1, 4, "f");
    static const size_t caps[] = {65536, 4096, 200, 16, 1, 1000}; g_sockcap = caps[choose(6, "cap")];
    cligen_handle h = e.h = mk(); cligen_paging_set(h, 0); e.grammar();
    set_budget(2000ull * 1000 * 1000);
    int n = 1 + choose(g_thorough ? 12 : 6, "evals");
    for (int i = 0; i < n; i++) { Span sp("eval"); e.one_eval(); if (chance(1, 3, "after")) { size_t o = tty.out.size(); cligen_output(sim_stdout, "after\n"); if (tty.out.substr(o) != "after\n") violation("pipe:later", "later output did not reach the terminal: \"%s\"", esc(tty.out.substr(o)).c_str()); } }
    cligen_exit(h);
    if (fd_open_count()) violation("pipe:fd-leak", "descriptors open at the end: %s", fd_dump().c_str());
}
static RegScenario r09({"C09", "deterministic simulation of sessions with output pipes to simulated processes", run_c09, 60000, 2000000, 35, 500,
    "Random commands piped to simulated processes (cat, sort, head, early exit, unrelated output, failing, crashing, lingering), with socket buffers from 1 byte, slow and concurrent children, short and interrupted transfers, failed fork/socketpair, failing callbacks and pipe functions, nested piped evaluation; bytes read and written by each process are compared with the callbacks' output and the terminal's text, and descriptors, processes and redirection are checked after every evaluation."});
