#include "editenv.h"
#include <errno.h>
#include <string.h>

static std::string show(const EditModel &m) { return fmt("buf=\"%s\" pos=%d%s", esc(m.buf).c_str(), m.pos, m.search ? (" search=" + m.ss).c_str() : ""); }

static cligen_handle new_handle() { cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); return h; }

// Compare what one interactive read returned with the model's next result.
static void check_line(EditEnv &e, const char *line) {
    checked();
    if (e.m.results.empty()) {
        if (line == nullptr && tty.eof && tty.in.empty()) { LOG("line: end of input"); e.m.start(); return; }
        violation("line:unexpected", "read returned %s although the keys typed so far end no line (expected still editing: %s)", line ? ("\"" + esc(line) + "\"").c_str() : "end of input", show(e.m).c_str());
    }
    EditModel::Result r = e.m.results.front(); e.m.results.pop_front();
    LOG("line: %s", line ? esc(line).c_str() : "(end)");
    if (r.eof) { if (line) violation("line:exit", "an exit key was typed but the read returned \"%s\"", esc(line).c_str()); return; }
    if (!line) violation("line:lost", "read returned end of input, expected line \"%s\"", esc(r.line).c_str());
    if (r.line != line) violation("line:differs", "read returned \"%s\", the typed keys mean \"%s\"", esc(line).c_str(), esc(r.line).c_str());
}

// ---------------------------------------------------------------- C01
static void run_c01() {
    EditEnv e; env = &e; e.swarm();
    e.cfg.maxops = 4 + choose(g_thorough ? 160 : 70, "maxops");
    tty.is_tty = !chance(1, 6, "notty");
    bool faults = chance(3, 4, "faults");
    if (faults) { e.cfg.eintr = chance(1, 2, "f"); e.cfg.winch = chance(1, 2, "f"); e.cfg.preempt = chance(1, 2, "f"); e.cfg.typeahead = chance(1, 2, "f"); e.cfg.wfault = chance(1, 4, "f"); e.cfg.bgfds = choose(3, "bg"); }
    e.cfg.utf8 = true; e.cfg.nul = chance(1, 3, "nul");
    tty.rows = 2 + choose(50, "rows"); tty.cols = 10 + choose(120, "cols");
    alloc_track(false);
    cligen_handle h = new_handle();
    std::vector<int> fds;
    for (int i = 0; i < e.cfg.bgfds; i++) { int fd = bgfd_new(); fds.push_back(fd); cligen_regfd(fd, [](int f, void *) -> int { stat_add("probe.bg_callback"); bgfd_ready(f, false); return 0; }, nullptr); }
    struct BgEnv {}; 
    int hs = chance(1, 2, "hs") ? 100 : 1 + choose(5, "histsize"); cligen_hist_init(h, hs); e.m.hist.init(hs);
    bool u = chance(1, 3, "utf8"); cligen_utf8_set(h, u); e.m.utf8 = u;
    cligen_line_scrolling_set(h, !chance(1, 3, "wrapmode"));
    if (chance(1, 2, "comment")) { cligen_comment_set(h, '#'); e.m.comment = '#'; }
    if (chance(1, 3, "exitch")) { cligen_exitchar_add(h, '\x07'); e.m.exitchars += '\x07'; if (chance(1, 2, "exitch2")) { cligen_exitchar_add(h, 3); e.m.exitchars += '\x03'; } }
    struct BgSide : Env {};
    set_budget(400ull * 1000 * 1000);
    for (int reads = 0; reads < 200; reads++) {
        char *line = nullptr;
        if (!fds.empty() && chance(1, 3, "bgready")) { int f = fds[choose(fds.size(), "bgfd")]; ev_at(choose(300000, "t"), [f] { if (fd_is_open(f)) { bgfd_ready(f, true); stat_add("fault.bg_ready"); LOG("  fd %d readable", f); } }); }
        int r = cliread(h, &line);
        if (r < 0) violation("line:error", "interactive read reported an error although nothing failed");
        check_line(e, line);
        if (line == nullptr && tty.eof && tty.in.empty() && e.pend.empty() && e.ended) break;
        if (tty.dropped) violation("line:typeahead", "%d typed bytes were thrown away", tty.dropped);
        e.app_busy();
    }
    cligen_exit(h);
}
static RegScenario r01({"C01", "deterministic simulation of terminal sessions against a reference line editor", run_c01, 60000, 2000000, 45, 600,
    "Random key sequences (swarm-weighted editing operations) delivered in random chunks with EINTR, SIGWINCH/resizes, background descriptors, early arrival, type-ahead and terminal write errors around them; every returned line is compared with the reference editor fed with the same bytes."});

// ---------------------------------------------------------------- C02
struct ScreenEnv : EditEnv {
    std::string prompt; int width; bool scroll; bool check_on = true, dirty = false; long nwaits = 0;
    void key_read(unsigned char c) override { m.feed(c); if (m.search && (int)m.ss.size() + 14 >= width) dirty = true; for (char x : m.buf) if ((unsigned char)x < 32 || (unsigned char)x > 126) dirty = true; }
    void wait_key() override {
        EditModel &mm = m;
        if (!check_on) return;
        if (!mm.results.empty()) return;
        if (tty.in.size()) return;
        out_flush();
        std::string P = prompt; if (mm.search) P = mm.ss + "? ";
        std::string L = mm.buf; int pos = mm.pos, w = width; VT &v = tty.vt;
        if ((int)P.size() + 12 >= w) { dirty = true; return; } // prompt must leave room for the line
        if (dirty) return;
        if (L.find('\n') != std::string::npos) return;
        for (char c : L) if ((unsigned char)c < 32 || (unsigned char)c > 126) return;
        checked(); nwaits++;
        int cc = v.c + (v.pend ? 1 : 0);
        if (!scroll) { // wrapping mode: prompt row is derived from the cursor
            int off = (int)P.size() + pos, r0 = v.r - off / w, wantc = off % w;
            if (v.pend) { r0 = v.r - (off - 1) / w; if (off % w == 0 && off) { r0 = v.r - (off - 1) / w; wantc = w; } }
            std::string all = P + L; int rows_need = ((int)all.size() + w - 1) / w; 
            if (cc != wantc) violation("screen:cursor", "wrap mode: cursor in column %d, expected %d (prompt %zu, pos %d, width %d)", cc, wantc, P.size(), pos, w);
            for (int i = 0; i <= rows_need; i++) { std::string want = i * w < (int)all.size() ? all.substr(i * w, w) : ""; want.resize(w, ' '); if (v.row(r0 + i) != want) violation("screen:content", "wrap mode: row %d shows \"%s\", expected \"%s\"", i, v.row(r0 + i).c_str(), want.c_str()); }
            return;
        }
        if (v.pend) violation("screen:cursor", "cursor beyond the last column");
        std::string row = v.row(v.r), head = row.substr(0, P.size());
        if (head != P) violation("screen:prompt", "row shows \"%s\", expected prompt \"%s\"", row.c_str(), P.c_str());
        std::string D = row.substr(P.size()); int col = v.c - (int)P.size();
        int s = pos - col; // index of the character shown first
        if (col < 0) violation("screen:cursor", "cursor inside the prompt (column %d)", v.c);
        if (s < 0) violation("screen:cursor", "cursor in column %d, the line \"%s\" with the cursor on %d cannot reach there", v.c, esc(L).c_str(), pos);
        int rest = (int)L.size() - s; // characters from the shift on
        bool right = D.size() >= 2 && rest > (int)D.size(); // text certainly does not fit
        std::string want; 
        for (int i = 0; i < (int)D.size(); i++) want += s + i < (int)L.size() ? L[s + i] : ' ';
        if (s > 0) want[0] = '$';
        // right mark: somewhere at or before the last column, everything after it blank
        if (D != want) {
            size_t k = D.size(); bool ok = false;
            if (rest > 0) for (k = D.size() >= 3 ? D.size() - 3 : 0; k < D.size(); k++) if (D[k] == '$' && D.compare(0, k, want, 0, k) == 0 && D.find_first_not_of(' ', k + 1) == std::string::npos && (int)k < rest) { ok = true; break; }
            (void)right;
            if (!ok) violation("screen:content", "screen shows \"%s\" after the prompt, line is \"%s\" cursor %d shift %d", D.c_str(), esc(L).c_str(), pos, s);
            if (col > (int)k) violation("screen:cursor", "cursor right of the visible part: screen \"%s\" line \"%s\" cursor %d shift %d width %d prompt \"%s\"", D.c_str(), esc(L).c_str(), pos, s, w, P.c_str());
            if (col == (int)k && pos < (int)L.size()) violation("screen:cursor", "the character under the cursor is hidden by the right mark");
        } else if (right) violation("screen:nomark", "the line is cut off on the right without a mark: \"%s\"", D.c_str());
        if (s > 0 && col == 0 && pos < (int)L.size()) violation("screen:cursor", "the character under the cursor is hidden by the left mark");
    }
};
static void run_c02() {
    ScreenEnv e; env = &e; e.swarm();
    e.cfg.maxops = 4 + choose(g_thorough ? 120 : 60, "maxops"); e.cfg.utf8 = false; e.cfg.garbage = true; e.cfg.quote_nl = false; e.cfg.nul = false;
    e.cfg.bgfds = choose(2, "bg");
    static const int ws[] = {80, 21, 22, 24, 30, 40, 33, 57, 100, 132};
    int w = chance(1, 2, "stdw") ? ws[choose(10, "w")] : 21 + choose(100, "w");
    tty.cols = w; tty.rows = 24; tty.vt.reset(w); e.width = w;
    cligen_handle h = new_handle();
    static const char *prs[] = {"cli> ", "> ", "", "router(config-if)# ", "a:", "longer-prompt$ "};
    auto newprompt = [&] { do { e.prompt = prs[choose(6, "prompt")]; } while ((int)e.prompt.size() + 12 >= w); cligen_prompt_set(h, (char *)e.prompt.c_str()); };
    newprompt();
    e.scroll = !chance(1, 2, "wrapmode"); cligen_line_scrolling_set(h, e.scroll);
    int hs = 1 + choose(8, "histsize"); cligen_hist_init(h, hs); e.m.hist.init(hs);
    set_budget(400ull * 1000 * 1000);
    for (int reads = 0; reads < 200; reads++) {
        char *line = nullptr; int r = cliread(h, &line);
        if (r < 0) violation("line:error", "interactive read reported an error although nothing failed");
        if (!e.m.results.empty()) e.m.results.pop_front();
        if (line == nullptr && tty.eof) break;
        if (e.dirty) { tty.vt.reset(w); e.dirty = false; }
        if (chance(1, 4, "newprompt")) newprompt();
        if (chance(1, 4, "out")) { fprintf(sim_stdout, "output %d\n", reads); fflush(sim_stdout); }
    }
    stat_add("probe.screens_checked", e.nwaits);
    cligen_exit(h);
}
static RegScenario r02({"C02", "deterministic simulation with a VT screen emulator compared at every wait against a reference editor", run_c02, 40000, 1500000, 45, 600,
    "Random key sequences in both display modes over window widths and prompts; at every wait for a key the emulated screen must show prompt, line window and cursor of the reference editor."});
