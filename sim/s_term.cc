// C03 C04 C05 C20: the terminal and what happens around waiting for keys.
#include "editenv.h"
#include "app.h"
#include <errno.h>
#include <string.h>
static cligen_handle mk() { cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); return h; }
static std::string hist_dump(cligen_handle h) { AllocQuiet q; SimFile f; FILE *fp = simfile_open(&f, "w", 512); int r = cligen_hist_file_save(h, fp); fclose(fp); if (r < 0) violation("hist:save", "saving the history to a healthy file failed"); return f.data; }
static std::string joined(const Hist &h) { std::string s; for (auto &l : h.h) s += l + "\n"; return s; }

static const char *TGRAM =
    "a(\"help a\"), cb0();\n b(\"help b\") <x:int32>, cb1();\n show(\"show things\") {all(\"everything\"), cb2(); x <n:string ex0(\"arg\")>(\"names\"), cb3();}\n set x, cb4(); int <e:string ex1()>, cb5(); commit, cb0();";

// ---------------------------------------------------------------- C03
struct C03Env : EditEnv, App {
    struct termios base; bool istty = true; cligen_handle h; bool reading = false; int depth_out = 0; bool appfaults = false; bool hookfail = false, tcfault = false; long rawchecks = 0, cookedchecks = 0; bool qfail = false;
    void cooked(const char *who) { cookedchecks++; checked(); if (istty && !tio_eq(tty.tio, base)) violation("tty:not-restored", "%s: the terminal is %s, expected the attributes in force before the call %s", who, tio_str(tty.tio).c_str(), tio_str(base).c_str()); }
    void raw(const char *who) { rawchecks++; checked(); if (istty && !tio_raw_for_keys(tty.tio)) violation("tty:not-raw", "%s while the terminal is not in raw mode: %s", who, tio_str(tty.tio).c_str()); }
    void wait_key() override { raw("waiting for a key"); }
    void key_read(unsigned char c) override { raw("a key is read"); }
    void mutate_base() { // the application (or the shell, while stopped) changes the terminal
        if (!istty) return; int k = choose(5, "stty"); struct termios t = tty.tio;
        if (k == 0) t.c_lflag ^= ECHOE; else if (k == 1) t.c_lflag ^= ECHO; else if (k == 2) t.c_iflag ^= IXON; else if (k == 3) t.c_cc[VKILL] = 20 + choose(5, "vk"); else t.c_oflag ^= ONLCR;
        tty.tio = t; base = t; LOG("  terminal attributes changed by the application"); stat_add("fault.attributes_changed");
    }
    int call_fault(const char *n) override { if (tcfault && !strcmp(n, "tcsetattr") && chance(1, 6, "tcfault")) { stat_add("fault.tcsetattr_eintr"); return EINTR; } return 0; }
    void paged(int lines) { for (int i = 0; i < lines; i++) cligen_output(sim_stdout, "line %d of output\n", i); }
    void killed(int pid, int sig) override { cooked("signal delivery"); stat_add("probe.signal"); if (chance(1, 2, "stty")) mutate_base(); }
    int cmd(int idx, cligen_handle hh, cvec *, cvec *) override {
        cooked("command callback"); stat_add("probe.command"); Span sp("cmd");
        if (chance(1, 4, "stty")) mutate_base();
        if (chance(1, 3, "out")) { cli_output_reset(); paged(1 + choose(60, "lines")); cooked("paged output returned"); }
        if (appfaults && chance(1, 5, "fail")) { stat_add("fault.callback_fails"); return failval(); }
        return 0;
    }
    int expand(int idx, cligen_handle hh, char *, cvec *, cvec *, cvec *commands, cvec *) override {
        stat_add("probe.expand");
        if (chance(1, 6, "out")) { cli_output_reset(); paged(1 + choose(40, "lines")); stat_add("probe.nested_paging"); }
        if (appfaults && chance(1, 8, "fail")) { stat_add("fault.expand_fails"); return failval(); }
        cvec_add_string(commands, nullptr, (char *)"alpha"); cvec_add_string(commands, nullptr, (char *)"beta"); return 0;
    }
    int hist(cligen_handle, char *, void *) override { cooked("history callback"); stat_add("probe.hist"); if (chance(1, 8, "stty")) mutate_base(); if (appfaults && chance(1, 6, "fail")) { stat_add("fault.hist_callback_fails"); return failval(); } return 0; }
    int bg(int, int fd, void *) override { bgfd_ready(fd, false); stat_add("probe.bg"); return 0; }
    int write_fault(int fd, size_t n, ssize_t *res) override { if (fd == 1 && cfg.wfault && chance(1, 30, "wfault")) { stat_add("fault.tty_write_error"); errno = EIO; *res = -1; return 1; } return 0; }
};
static int c03_interrupt(cligen_handle) { C03Env *e = (C03Env *)env; if (e->hookfail && chance(1, 4, "hookfail")) { stat_add("fault.interrupt_hook_fails"); return failval(); } return 0; }
static void run_c03() {
    C03Env e; env = &e; app = &e; e.swarm(); e.model_on = false; if (chance(1, 2, "cmdish")) { e.w[1] = 12; e.w[3] = 8; e.w[18] = 4; e.w[19] = 4; }
    e.cfg.maxops = 4 + choose(g_thorough ? 150 : 60, "maxops"); e.cfg.utf8 = true; e.cfg.nul = false; e.cfg.longlines = false; e.cfg.sigkeys = true;
    e.istty = tty.is_tty = !chance(1, 20, "notty");
    e.cfg.eintr = chance(1, 2, "f"); e.cfg.winch = chance(1, 2, "f"); e.cfg.preempt = chance(1, 3, "f"); e.cfg.typeahead = chance(1, 3, "f"); e.cfg.wfault = chance(1, 5, "f"); e.appfaults = chance(2, 3, "f"); e.tcfault = chance(1, 4, "f");
    if (chance(1, 3, "sigchars")) { tty.tio.c_cc[VINTR] = 29; tty.tio.c_cc[VSUSP] = 28; tty.tio.c_cc[VQUIT] = 30; }
    e.m.vintr = tty.tio.c_cc[VINTR]; e.m.vquit = tty.tio.c_cc[VQUIT]; e.m.vsusp = tty.tio.c_cc[VSUSP];
    tty.rows = chance(2, 3, "small") ? 3 + choose(10, "rows") : 40; tty.cols = 30 + choose(60, "cols");
    if (chance(1, 4, "attr")) { tty.tio.c_lflag &= ~(ICANON | ECHO); tty.tio.c_cc[VMIN] = 0; tty.tio.c_cc[VTIME] = 3; }
    e.base = tty.tio; e.words = {"a\n","b 3\n","b x","show all\n","show x alpha\n","show x ","int be\n","set x\n","commit","nosuch"};
    cligen_handle h = e.h = mk(); if (app_load(h, TGRAM, "t") < 0) violation("load", "grammar did not load");
    if (chance(1, 2, "hist")) cligen_hist_fn_set(h, app_hist, nullptr);
    if (chance(1, 3, "exitch")) { cligen_exitchar_add(h, 7); e.m.exitchars = "\007"; }
    cligen_tabmode_set(h, choose(8, "tabmode"));
    if (chance(1, 3, "hook")) { e.hookfail = true; cligen_interrupt_hook(h, c03_interrupt); }
    int bgf = -1; if (chance(1, 3, "bg")) { bgf = bgfd_new(); cligen_regfd(bgf, app_bg[0], nullptr); }
    set_budget(400ull * 1000 * 1000);
    int after = 0;
    for (int i = 0; i < 200; i++) {
        int k = choose(8, "call"); char *line = nullptr; int r;
        if (bgf >= 0 && chance(1, 2, "bgr")) ev_at(choose(300000, "t"), [bgf] { bgfd_ready(bgf, true); });
        if (!tty.eof && !tty.rderr && chance(1, 25, "rderr")) ev_at(choose(500000, "t"), [] { tty.rderr = EIO; tty.rderr_n = 1; stat_add("fault.read_error"); });
        if (k == 0) { int n = choose(50, "lines"); cli_output_reset(); e.paged(n); e.cooked("paged output returned"); LOG("output of %d lines returned", n); continue; }
        if (k < 3) { r = cliread(h, &line); LOG("cliread=%d %s", r, line ? esc(line).c_str() : "(null)"); }
        else { int cbr = 0; cligen_result res = CG_ERROR; char *reason = nullptr; r = cliread_eval(h, &line, &cbr, &res, &reason); LOG("cliread_eval=%d %s result=%d", r, line ? esc(line).c_str() : "(null)", (int)res); if (reason) sim_free(reason); }
        e.cooked("interactive read returned");
        if (chance(1, 5, "stty")) e.mutate_base();
        if (tty.eof && tty.in.empty() && ++after > 1) break;
        e.app_busy();
    }
    stat_add("probe.raw_checks", e.rawchecks); stat_add("probe.cooked_checks", e.cookedchecks);
    cligen_exit(h); e.cooked("handle released");
}
static RegScenario r03({"C03", "deterministic simulation of sessions with a simulated terminal driver", run_c03, 60000, 2000000, 35, 500,
    "Random sessions (editing, completion, help, commands, paged output, nested paging, job-control signals, end of input, read errors, failing callbacks and hooks, interrupted tcsetattr, attributes changed by the application or while stopped); the terminal's attributes are checked at every key wait, key read, callback, signal and return."});

// ---------------------------------------------------------------- C04
struct C04Env : EditEnv, App {
    int cmds = 0; bool armed = false; bool died = false; uint64_t reads_after = 0; 
    void die() { // the terminal goes away, wherever the input stands
        if (died) return; died = true; int k = choose(4, "death");
        if (k == 0 || k == 1) { LOG("  the terminal hangs up"); tty.eof = true; stat_add("fault.eof"); }
        else { static const int en[] = {EIO, EBADF, ENXIO}; tty.rderr = en[choose(3, "errno")]; if (k == 3) tty.rderr_n = 1; LOG("  input fails with errno %d%s", tty.rderr, k == 3 ? " once" : ""); stat_add("fault.read_error"); }
        // what was typed but not delivered is gone
        pend.clear();
    }
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false;
        side_events(wi);
        if (!died && (ended || (armed && chance(1, 8, "die")))) { 
            for (int g = 0; pend.empty() && g < 1000 && !ended; g++) type_more();
            if (!pend.empty()) { // part of a key sequence arrives, then the end
                size_t n = choose((uint32_t)pend.size() + 1, "lastbytes"); std::string s(pend.begin(), pend.begin() + n); if (n) tty_type(s); }
            ev_at(choose(1000, "t"), [this] { die(); }); if (!tty.in.empty()) die(); return true; }
        if (died) return false;
        for (int g = 0; pend.empty() && !ended && g < 100000; g++) type_more();
        if (!pend.empty()) { ev_at(500 + choose(200000, "think"), [this] { arrive_some(false); }); return true; }
        ev_at(500, [this] { die(); });
        return true;
    }
    int cmd(int, cligen_handle, cvec *, cvec *) override { cmds++; return 0; }
};
static void run_c04() {
    C04Env e; env = &e; app = &e; e.swarm(); e.cfg.utf8 = true; e.cfg.nul = chance(1, 4, "nul"); e.cfg.longlines = chance(1, 2, "long"); e.cfg.tab = e.cfg.qmark = false;
    tty.is_tty = !chance(1, 3, "notty");
    e.cfg.eintr = chance(1, 2, "f"); e.cfg.winch = chance(1, 3, "f"); e.cfg.preempt = chance(1, 4, "f");
    cligen_handle h = mk(); if (app_load(h, "a, cb0(); b, cb0(); x <r:rest>, cb0(); <any:rest>, cb0();", "t") < 0) violation("load", "grammar did not load");
    bool u = chance(1, 2, "utf8"); cligen_utf8_set(h, u); e.m.utf8 = u; int hs = 1 + choose(20, "hs"); cligen_hist_init(h, hs); e.m.hist.init(hs);
    int bgf = -1; if (chance(1, 3, "bg")) { bgf = bgfd_new(); cligen_regfd(bgf, app_bg[0], nullptr); }
    set_budget(400ull * 1000 * 1000);
    int lives = 1 + choose(g_thorough ? 8 : 4, "lives");
    for (int life = 0; life < lives; life++) {
        Span sp("life"); e.ended = false; e.ops = 0; e.cfg.maxops = 1 + choose(20, "ops"); e.died = false; e.armed = chance(3, 4, "armed");
        tty.eof = false; tty.rderr = 0; tty.rderr_n = 0; tty.eof_reads = tty.err_reads = 0; tty.in.clear(); e.pend.clear();
        for (int reads = 0; reads < 300; reads++) {
            char *line = nullptr; int r, before = e.cmds; bool ev = chance(1, 2, "eval"); cligen_result res = CG_ERROR;
            uint64_t er0 = tty.eof_reads + tty.err_reads;
            if (ev) { int cbr = 0; char *reason = nullptr; r = cliread_eval(h, &line, &cbr, &res, &reason); if (reason) sim_free(reason); }
            else r = cliread(h, &line);
            checked(); LOG("read=%d %s", r, line ? esc(line).c_str() : "(end)");
            uint64_t er = tty.eof_reads + tty.err_reads - er0;
            if (er > 3) violation("eof:spin", "%llu further reads of dead input before the read returned", (unsigned long long)er);
            if (r < 0) violation("eof:error", "the interactive read reported an error instead of end of input");
            if (!e.m.results.empty()) { auto x = e.m.results.front(); e.m.results.pop_front();
                if (x.eof) { if (line) violation("eof:line", "exit key, but the line \"%s\" was returned", esc(line).c_str()); }
                else if (!line || x.line != line) violation("eof:line", "read returned \"%s\", expected \"%s\"", line ? esc(line).c_str() : "(end)", esc(x.line).c_str());
                continue; }
            if (!(e.died && tty.in.empty())) violation("eof:early", "the read returned \"%s\" although neither a line nor the input ended (typed so far \"%s\")", line ? esc(line).c_str() : "(end)", esc(e.m.buf).c_str());
            if (line) violation("eof:unfinished", "the unfinished line \"%s\" was returned (typed so far \"%s\")", esc(line).c_str(), esc(e.m.buf).c_str());
            if (ev && res != CG_EOF) violation("eof:result", "result %d instead of end of input", (int)res);
            if (e.cmds != before) violation("eof:executed", "a command ran for an unfinished line");
            if (hist_dump(h) != joined(e.m.hist)) violation("eof:history", "history after end of input is \"%s\", expected \"%s\"", esc(hist_dump(h)).c_str(), esc(joined(e.m.hist)).c_str());
            stat_add("probe.ends"); e.m.start();
            // once more on the dead terminal: still end of input
            if (!tty.rderr_n && (tty.eof || tty.rderr) && chance(1, 3, "again")) { line = nullptr; r = cliread(h, &line); if (r < 0 || line) violation("eof:again", "a second read on the dead terminal returned %d \"%s\"", r, cq(line)); }
            break;
        }
        if (!tty.in.empty()) { tty.in.clear(); }
    }
    cligen_exit(h);
}
static RegScenario r04({"C04", "deterministic simulation with end of input and read errors injected at every byte position", run_c04, 60000, 2000000, 30, 400,
    "Random sessions cut by hang-up or read errors at arbitrary byte positions (inside escape and UTF-8 sequences, in search mode), followed by new sessions on the same handle; returned lines, results, history, executed commands and the number of reads of dead input are checked against the reference editor."});

// ---------------------------------------------------------------- C05
struct BgReg { int cb; void *arg; };
struct C05Env : EditEnv, App {
    std::map<int, BgReg> reg; std::map<int, int> waits; std::vector<int> allfds; bool inbg = false; int calls = 0; std::map<int,int> keys; int argn = 0; bool acting = true;
    void *newarg() { return (void *)(intptr_t)(100 + argn++); }
    void preempt(const char *c) override {
        EditEnv::preempt(c);
        if (!strcmp(c, "select") || !strcmp(c, "poll") || !strcmp(c, "pselect")) {
            for (auto &x : reg) { if (bgfd_isready(x.first)) { if (++waits[x.first] > 6) violation("bg:starved", "descriptor %d has been readable over %d waits without its callback being called", x.first, waits[x.first] - 1); } else waits[x.first] = 0; }
        }
    }
    void key_read(unsigned char c) override { EditEnv::key_read(c); for (auto &x : reg) { if (bgfd_isready(x.first)) { if (++keys[x.first] > 6) violation("bg:starved", "descriptor %d stays unserved while the user types", x.first); } else keys[x.first] = 0; } }
    void do_reg(int fd) { int cb = choose(3, "cb"); void *a = newarg(); int r = cligen_regfd(fd, app_bg[cb], a); if (r < 0) violation("bg:register", "registering descriptor %d failed", fd); LOG("  register fd %d cb %d arg %ld", fd, cb, (long)(intptr_t)a); reg[fd] = {cb, a}; stat_add("op.register"); }
    void do_unreg(int fd) { int r = cligen_unregfd(fd); bool had = reg.count(fd); LOG("  unregister fd %d = %d", fd, r); if ((r == 0) != had) violation("bg:unregister", "unregistering descriptor %d returned %d", fd, r); reg.erase(fd); waits.erase(fd); keys.erase(fd); stat_add("op.unregister"); }
    void act() { // random changes of the set of registrations
        Span sp("act"); int k = choose(5, "act");
        if (k == 0) return;
        if (k == 1) { int fd = bgfd_new(); allfds.push_back(fd); do_reg(fd); }
        else if (k == 2 && !allfds.empty()) do_reg(allfds[choose(allfds.size(), "fd")]);
        else if (k == 3 && !allfds.empty()) do_unreg(allfds[choose(allfds.size(), "fd")]);
        else if (k == 4 && !allfds.empty()) { size_t i = choose(allfds.size(), "fd"); int fd = allfds[i]; if (reg.count(fd)) do_unreg(fd); bgfd_del(fd); allfds.erase(allfds.begin() + i); LOG("  fd %d closed", fd); stat_add("op.close"); }
    }
    int bg(int cb, int fd, void *arg) override {
        calls++; checked(); stat_add("probe.bg_call"); LOG("  callback %d fd %d arg %ld", cb, fd, (long)(intptr_t)arg); Span sp("bg");
        auto it = reg.find(fd); if (it == reg.end()) violation("bg:stray", "callback called for descriptor %d, which is not registered", fd);
        if (it->second.cb != cb || it->second.arg != arg) violation("bg:stale", "descriptor %d: callback %d arg %ld called, registered is callback %d arg %ld", fd, cb, (long)(intptr_t)arg, it->second.cb, (long)(intptr_t)it->second.arg);
        waits[fd] = 0; keys[fd] = 0;
        if (chance(3, 4, "drain")) bgfd_ready(fd, false); else if (chance(1, 2, "later")) ev_at(1 + choose(1000, "t"), [fd] { if (fd_is_open(fd)) bgfd_ready(fd, false); });
        if (acting && chance(1, 2, "act")) act();
        if (chance(1, 5, "bgfail")) { stat_add("fault.bg_callback_fails"); return failval(); }
        return 0;
    }
    void ready_some() { for (int fd : allfds) if (chance(1, 4, "ready")) { ev_at(choose(100000, "t"), [this, fd] { if (fd_is_open(fd)) { LOG("  fd %d readable", fd); bgfd_ready(fd, true); waits[fd] = 0; keys[fd] = 0; stat_add("fault.bg_ready"); } }); } }
    void side_events(const WaitInfo &wi) override { EditEnv::side_events(wi); if (chance(1, 2, "bgr")) ready_some(); }
};
static void run_c05() {
    C05Env e; env = &e; app = &e; e.swarm(); e.cfg.maxops = 4 + choose(g_thorough ? 120 : 50, "maxops"); e.cfg.tab = e.cfg.qmark = false; e.cfg.longlines = false; e.cfg.utf8 = true;
    e.cfg.eintr = chance(1, 2, "f"); e.cfg.winch = chance(1, 3, "f"); e.cfg.preempt = chance(1, 3, "f"); e.cfg.typeahead = chance(1, 3, "f");
    tty.is_tty = !chance(1, 4, "notty");
    cligen_handle h = mk(); int n = 1 + choose(4, "nfds");
    for (int i = 0; i < n; i++) { int fd; if (chance(1, 8, "highfd")) fd = bgfd_new_at(60 + choose(900, "fdnum")); else fd = bgfd_new(); e.allfds.push_back(fd); if (chance(4, 5, "reg")) e.do_reg(fd); }
    if (chance(1, 10, "badfd")) { if (cligen_regfd(-1, app_bg[0], nullptr) == 0) violation("bg:register", "descriptor -1 accepted"); if (cligen_unregfd(77) == 0) violation("bg:unregister", "unregistering an unknown descriptor succeeded"); }
    set_budget(400ull * 1000 * 1000);
    for (int reads = 0; reads < 200; reads++) {
        char *line = nullptr; e.waits.clear(); e.keys.clear(); int r = cliread(h, &line); checked();
        if (r < 0) violation("line:error", "the interactive read reported an error");
        if (e.m.results.empty()) { if (!(line == nullptr && tty.eof && tty.in.empty())) violation("line:unexpected", "read returned \"%s\" although no line was finished", cq(line)); break; }
        auto x = e.m.results.front(); e.m.results.pop_front(); LOG("line %s", line ? esc(line).c_str() : "(end)");
        if (x.eof ? line != nullptr : (!line || x.line != line)) violation("line:differs", "read returned \"%s\", expected \"%s\"", line ? esc(line).c_str() : "(end)", x.eof ? "(end)" : esc(x.line).c_str());
        while (chance(1, 3, "appact")) e.act();
        e.app_busy();
    }
    while (!e.reg.empty()) e.do_unreg(e.reg.begin()->first);
    stat_add("probe.bg_calls", e.calls);
    cligen_exit(h);
}
static RegScenario r05({"C05", "deterministic simulation of background descriptors with seeded readiness, registration changes and signals", run_c05, 60000, 2000000, 30, 400,
    "Random editing sessions with up to several registered descriptors becoming readable at random moments, callbacks that register, re-register, unregister and close descriptors or fail, EINTR and type-ahead; each call is checked against the reference registration table, service within a bounded number of waits, and every line against the reference editor."});

// ---------------------------------------------------------------- C20
struct C20Env : EditEnv {
    struct termios base; std::vector<int> sigs; int expect = 0; bool fresh_check = false; std::string prompt; int width = 80; bool stopped_types = false;
    void key_read(unsigned char c) override {
        EditModel::Ev ev = m.feed(c);
        if (expect) violation("sig:lost", "the next key was read although the key for signal %d has not delivered it", expect);
        if (ev == EditModel::SIG) { expect = m.sig; fresh_check = true; stat_add("probe.signal_key"); }
        else fresh_check = false;
    }
    void killed(int pid, int sig) override {
        checked();
        if (!expect) violation("sig:unexpected", "signal %d sent although the key typed is not a signal key", sig);
        if (sig != expect) violation("sig:wrong", "signal %d sent, the key means %d", sig, expect);
        if (pid != 0) violation("sig:target", "the signal was sent to %d, not to the process group", pid);
        if (!tio_eq(tty.tio, base)) violation("sig:tty", "at delivery of the signal the terminal is %s, expected %s", tio_str(tty.tio).c_str(), tio_str(base).c_str());
        expect = 0; 
        if (chance(1, 2, "types")) { if (pend.empty()) type_more(); if (!pend.empty()) { stat_add("fault.keys_while_stopped"); arrive_some(false); } }
        if (chance(1, 4, "shell")) { tty.tio.c_lflag ^= ECHOE; base = tty.tio; stat_add("fault.attributes_changed"); }
        g_simtime_us += choose(1000000, "stopped");
    }
    void wait_key() override {
        checked();
        if (expect) violation("sig:lost", "waiting for the next key although signal %d was not delivered", expect);
        if (!tio_raw_for_keys(tty.tio)) violation("sig:raw", "not in raw mode while waiting for a key");
        if (fresh_check) { out_flush(); VT &v = tty.vt; std::string want = prompt; want.resize(v.w, ' '); if (v.row(v.r) != want || v.c != (int)prompt.size()) violation("sig:prompt", "after the signal the row shows \"%s\" cursor %d, expected an empty line after the prompt \"%s\"", v.row(v.r).c_str(), v.c, prompt.c_str()); }
    }
};
static void run_c20() {
    C20Env e; env = &e; e.swarm(); e.cfg.maxops = 4 + choose(g_thorough ? 120 : 50, "maxops"); e.cfg.longlines = false; e.cfg.utf8 = false; e.cfg.sigkeys = true; e.cfg.tab = e.cfg.qmark = false; e.cfg.quote_nl = false;
    if (e.w.size() > 26) e.w[26] = 6;
    e.cfg.eintr = chance(1, 3, "f"); e.cfg.preempt = chance(1, 4, "f"); e.cfg.typeahead = chance(1, 3, "f");
    // the terminal's own keys
    static const unsigned char ks[] = {3, 28, 26, 29, 30, 31, 7, 0, 24, 17, 1, 11}; 
    if (chance(1, 2, "stty")) { unsigned char a = ks[choose(12, "vintr")], b, c; do b = ks[choose(12, "vquit")]; while (b && b == a); do c = ks[choose(12, "vsusp")]; while (c && (c == a || c == b)); tty.tio.c_cc[VINTR] = a; tty.tio.c_cc[VQUIT] = b; tty.tio.c_cc[VSUSP] = c; }
    e.m.vintr = tty.tio.c_cc[VINTR]; e.m.vquit = tty.tio.c_cc[VQUIT]; e.m.vsusp = tty.tio.c_cc[VSUSP];
    e.base = tty.tio; int w = 40 + choose(80, "w"); tty.cols = w; tty.rows = 24; tty.vt.reset(w); e.width = w;
    cligen_handle h = mk(); e.prompt = chance(1, 2, "prompt") ? "cli> " : "router# "; cligen_prompt_set(h, (char *)e.prompt.c_str());
    cligen_line_scrolling_set(h, !chance(1, 3, "wrapmode"));
    if (chance(1, 3, "exitch")) { char c = chance(1, 2, "ec") ? 3 : 7; cligen_exitchar_add(h, c); e.m.exitchars = std::string(1, c); }
    set_budget(400ull * 1000 * 1000);
    for (int reads = 0; reads < 200; reads++) {
        char *line = nullptr; int r = cliread(h, &line); checked();
        if (r < 0) violation("line:error", "the interactive read reported an error");
        if (e.expect) violation("sig:lost", "the read returned although signal %d was not delivered", e.expect);
        e.fresh_check = false;
        if (e.m.results.empty()) { if (!(line == nullptr && tty.eof && tty.in.empty())) violation("line:unexpected", "read returned \"%s\" although no line was finished", cq(line)); break; }
        auto x = e.m.results.front(); e.m.results.pop_front(); LOG("line %s", line ? esc(line).c_str() : "(end)");
        if (x.eof ? line != nullptr : (!line || x.line != line)) violation("line:differs", "read returned \"%s\", expected \"%s\"", line ? esc(line).c_str() : "(end)", x.eof ? "(end)" : esc(x.line).c_str());
        e.app_busy();
    }
    cligen_exit(h);
}
static RegScenario r20({"C20", "deterministic simulation of job-control keys on a simulated terminal driver", run_c20, 60000, 2000000, 30, 400,
    "Random editing sessions with the terminal's interrupt, quit and suspend characters set to random keys; each signal sent is checked for kind, count, target and terminal attributes at delivery, and the redrawn prompt, raw mode and following lines against the reference editor, with keys arriving while the process is stopped."});
