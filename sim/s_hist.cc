#include "editenv.h"
#include <errno.h>
#include <string.h>

// Everything the history holds, as the library itself writes it out (no faults).
static std::string hist_dump(cligen_handle h) { SimFile f; FILE *fp = simfile_open(&f, "w", 512); int r = cligen_hist_file_save(h, fp); fclose(fp); if (r < 0) violation("hist:save", "saving the history to a healthy file failed"); return f.data; }
static std::string joined(const Hist &h, size_t from = 0) { std::string s; for (size_t i = from; i < h.h.size(); i++) s += h.h[i] + "\n"; return s; }
static void same_hist(cligen_handle h, const Hist &m, const char *when) {
    checked(); std::string a = hist_dump(h), b = joined(m);
    if (a != b) violation("hist:content", "%s the history holds \"%s\", expected \"%s\"", when, esc(a, 900).c_str(), esc(b, 900).c_str());
}
static cligen_handle mk() { cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); return h; }

// ---------------------------------------------------------------- C06
struct HCb { std::vector<std::string> calls; int fail_next = 0; };
static int on_hist(cligen_handle, char *cmd, void *arg) { HCb *c = (HCb *)arg; c->calls.push_back(cmd); LOG("history callback \"%s\"", esc(cmd).c_str()); if (c->fail_next > 0 && --c->fail_next == 0) { stat_add("fault.hist_callback_fails"); return failval(); } return 0; }
static void run_c06() {
    EditEnv e; env = &e; e.swarm();
    if (e.w.size() > 14) { e.w[13] = 4; e.w[14] = e.w[14] ? 3 : 1; e.w[3] = 3; }
    e.cfg.maxops = 6 + choose(g_thorough ? 200 : 90, "maxops"); e.cfg.utf8 = false; e.cfg.longlines = chance(1, 3, "long"); e.cfg.nul = false; e.cfg.garbage = false;
    e.cfg.quote_nl = true; e.cfg.eintr = chance(1, 3, "f"); e.cfg.winch = chance(1, 4, "f"); e.cfg.typeahead = chance(1, 3, "f"); e.cfg.preempt = chance(1, 4, "f");
    static const char *ws[] = {"a","b","a\\\nb","a\\\nbc","ab","s a","s b","show x"}; e.words.clear(); for (auto s : ws) e.words.push_back(s);
    cligen_handle h = mk();
    int hs = 100;
    if (chance(4, 5, "sized")) { hs = 1 + choose(6, "histsize"); if (cligen_hist_init(h, hs) < 0) violation("hist:init", "cligen_hist_init(%d) failed", hs); }
    e.m.hist.init(hs);
    HCb cb; bool use_cb = chance(1, 2, "cb"); if (use_cb) cligen_hist_fn_set(h, on_hist, &cb);
    set_budget(400ull * 1000 * 1000);
    for (int reads = 0; reads < 300; reads++) {
        if (use_cb && chance(1, 6, "cbfail")) cb.fail_next = 1;
        size_t before = cb.calls.size(); bool willfail = cb.fail_next == 1;
        char *line = nullptr; int r = cliread(h, &line);
        checked();
        if (e.m.results.empty() || e.m.results.front().eof) {
            bool ex = !e.m.results.empty(); if (ex) e.m.results.pop_front(); else e.m.start();
            if (!ex && !(tty.eof && tty.in.empty())) violation("hist:line", "the read returned although no line was finished (typed so far: \"%s\")", esc(e.m.buf).c_str());
            if (r < 0 || line) violation("hist:line", "read returned %d/\"%s\" on end of input", r, cq(line));
            if (cb.calls.size() != before) violation("hist:callback", "history callback called for an unfinished line");
            cb.fail_next = 0;
            if (!ex) break;
        } else {
            std::string want = e.m.results.front().line; e.m.results.pop_front();
            if (use_cb) {
                if (cb.calls.size() != before + 1) violation("hist:callback", "history callback called %zu times for one entered line", cb.calls.size() - before);
                if (cb.calls.back() != want) violation("hist:callback", "history callback got \"%s\", entered line is \"%s\"", esc(cb.calls.back()).c_str(), esc(want).c_str());
            }
            if (use_cb && willfail) { if (r == 0) violation("hist:callback-failure", "the history callback failed but the read reported success"); LOG("read fails as the callback failed"); }
            else { if (r < 0) violation("hist:line", "read reported an error"); if (!line || want != line) violation("hist:line", "read returned \"%s\", expected \"%s\"", line ? esc(line).c_str() : "(null)", esc(want).c_str()); LOG("line %s", esc(line).c_str()); }
        }
        if (chance(1, 2, "compare")) same_hist(h, e.m.hist, "after a read");
        if (chance(1, 10, "resize")) { Span s("resize"); int n = 1 + choose(8, "n"); LOG("history resized to %d", n); stat_add("op.hist_init"); if (cligen_hist_init(h, n) < 0) violation("hist:init", "cligen_hist_init(%d) failed", n); e.m.hist.init(n); same_hist(h, e.m.hist, "after resizing"); }
        else if (chance(1, 30, "badresize")) { stat_add("op.hist_init_bad"); if (cligen_hist_init(h, 0) == 0) violation("hist:init", "size 0 accepted"); same_hist(h, e.m.hist, "after a rejected resize"); }
        if (chance(1, 8, "load")) {
            Span s("load"); stat_add("op.hist_load"); SimFile f; int n = choose(8, "nl"); static const char *ls[] = {"a","b","show x","",  "  ","  lead","s a","trail ", "x\ty"};
            std::vector<std::string> L; for (int i = 0; i < n; i++) { L.push_back(ls[choose(9, "l")]); f.data += L.back() + "\n"; }
            if (chance(1, 4, "partial")) f.data += "cut";
            f.rchunk = [](size_t k) { return (size_t)1 + choose((uint32_t)k, "rchunk"); };
            FILE *fp = simfile_open(&f, "r", chance(1, 2, "buf") ? 16 : 512); int r2 = cligen_hist_file_load(h, fp); fclose(fp); LOG("load %d lines", n);
            if (r2 < 0) violation("hist:load", "loading a healthy file failed");
            for (auto &l : L) e.m.hist.add(l);
            same_hist(h, e.m.hist, "after loading a file");
        }
        e.app_busy();
    }
    same_hist(h, e.m.hist, "at the end");
    cligen_exit(h);
}
static RegScenario r06({"C06", "deterministic simulation of history-heavy sessions against a reference history", run_c06, 60000, 2000000, 40, 600,
    "Random sessions entering, recalling, searching and editing recalled lines with small history sizes, interleaved with resizing, file loads, failing history callbacks, EINTR, type-ahead; every returned line and callback and the whole stored history are compared with the reference history."});

// ---------------------------------------------------------------- C07
static std::string gen_entry() {
    int k = pick_weighted({6, 3, 2, 2, 1}, "entrykind"); std::string s;
    int n = k == 0 ? 1 + choose(6, "n") : k == 1 ? 1 + choose(40, "n") : k == 2 ? 190 + choose(70, "n") : k == 3 ? 1 : 1000 + choose(3000, "n");
    uint32_t x = choose(95, "c0");
    for (int i = 0; i < n; i++) { char c = 33 + (x + i * 7) % 94; if (n < 8) c = "ab #$%s1\t"[choose(9, "c")]; else if (i % 9 == 5) c = ' '; s += c; }
    if (k == 4) { for (size_t i = 0; i < s.size(); i += 13) s[i] = (char)0xc3; }
    return s;
}
static void run_c07() {
    EditEnv e; env = &e; e.model_on = false; cligen_handle h = mk(); Hist m; int hs = 100;
    if (chance(4, 5, "sized")) { hs = 1 + choose(30, "hs"); cligen_hist_init(h, hs); } m.init(hs);
    set_budget(800ull * 1000 * 1000);
    int nops = 2 + choose(g_thorough ? 24 : 10, "nops");
    for (int op = 0; op < nops; op++) {
        Span sp("op");
        switch (pick_weighted({5, 4, 3, 2, 1}, "op")) {
        case 0: { int n = 1 + choose(8, "n"); for (int i = 0; i < n; i++) { std::string l = gen_entry(); SimFile f; f.data = l + "\n"; FILE *fp = simfile_open(&f, "r", 512); if (cligen_hist_file_load(h, fp) < 0) violation("hist:add", "adding a line failed"); fclose(fp); m.add(l); } LOG("%d lines entered", n); stat_add("op.enter"); break; }
        case 1: { // save, with or without faults
            stat_add("op.save"); SimFile f; std::string want = joined(m); bool limited = chance(2, 3, "limit"); bool ro = chance(1, 12, "ro");
            if (limited) { f.limit = want.empty() ? choose(2, "lim") : choose((uint32_t)want.size() + 20, "lim"); static const int en[] = {28, 5, 27, 32, 4}; f.lim_errno = en[choose(5, "errno")]; }
            if (chance(1, 2, "wchunk")) f.wchunk = [](size_t k) { return (size_t)1 + choose((uint32_t)k, "wchunk"); };
            static const size_t bs[] = {512, 0, 16, 64, 4096, 65536}; FILE *fp = simfile_open(&f, ro ? "r" : "w", bs[choose(6, "bufsz")]);
            int r = cligen_hist_file_save(h, fp); std::string got = f.data; bool faulted = f.werrs > 0 || (ro && !want.empty()); fclose(fp);
            LOG("save=%d limit=%zu of %zu accepted=%zu%s", r, f.limit, want.size(), got.size(), ro ? " read-only" : ""); checked();
            if (r == 0 && got != want) violation("save:incomplete", "save reported success but the device has \"%s\", the history is \"%s\"", esc(got, 600).c_str(), esc(want, 600).c_str());
            if (r < 0 && !faulted) violation("save:spurious", "save reported failure although no write failed");
            if (want.compare(0, got.size(), got) != 0) violation("save:altered", "the file holds \"%s\", not a prefix of \"%s\"", esc(got, 600).c_str(), esc(want, 600).c_str());
            same_hist(h, m, "after saving");
            // the power fails: any prefix of the accepted bytes survives; a restarted session loads it
            if (chance(3, 4, "restart")) {
                size_t k = got.size(); if (chance(3, 4, "torn")) { k = choose((uint32_t)got.size() + 1, "cut"); stat_add("fault.torn_file"); }
                SimFile g; g.data = got.substr(0, k); g.rchunk = f.wchunk; FILE *rp = simfile_open(&g, "r", 256); cligen_handle h2 = mk(); Hist m2; int s2 = hs + choose(4, "bigger"); cligen_hist_init(h2, s2); m2.init(s2);
                if (cligen_hist_file_load(h2, rp) < 0) violation("load:spurious", "loading a healthy file failed"); fclose(rp);
                for (auto &l : m.h) { if (joined(m2).size() + l.size() + 1 > k) break; m2.add(l); }
                LOG("restart: file cut at %zu", k); same_hist(h2, m2, "after restart from a cut file"); cligen_exit(h2);
            }
            break; }
        case 2: { // load from another file, with read errors
            stat_add("op.load"); SimFile f; std::vector<std::string> L; int n = choose(10, "n"); for (int i = 0; i < n; i++) { L.push_back(gen_entry()); f.data += L.back() + "\n"; } if (chance(1, 4, "part")) f.data += gen_entry();
            if (chance(1, 2, "rchunk")) f.rchunk = [](size_t k) { return (size_t)1 + choose((uint32_t)k, "rchunk"); };
            if (chance(1, 2, "rderr")) { f.rderr_at = choose((uint32_t)f.data.size() + 1, "rderr"); static const int en[] = {5, 4, 116}; f.rd_errno = en[choose(3, "errno")]; f.rderr_once = chance(1, 2, "once"); }
            size_t errat = f.rderr_at; static const size_t bs[] = {256, 0, 16, 4096}; FILE *fp = simfile_open(&f, "r", bs[choose(4, "bufsz")]);
            int r = cligen_hist_file_load(h, fp); fclose(fp); bool err = f.rerrs > 0; LOG("load=%d %zu bytes error at %zd", r, f.data.size(), (ssize_t)errat); checked();
            if (err && r == 0) violation("load:error-ignored", "reading the file failed at byte %zu but load reported success", errat);
            if (!err && r < 0) violation("load:spurious", "loading a healthy file failed");
            size_t off = 0; for (auto &l : L) { off += l.size() + 1; if (err && off > errat) break; m.add(l); }
            same_hist(h, m, err ? "after a failed load" : "after loading");
            break; }
        case 3: { int n = 1 + choose(20, "n"); hs = n; cligen_hist_init(h, n); m.init(n); LOG("resize %d", n); same_hist(h, m, "after resizing"); break; }
        case 4: same_hist(h, m, "meanwhile"); break;
        }
    }
    cligen_exit(h);
}
static RegScenario r07({"C07", "deterministic simulation of history files with write/read faults, full disk and crash-torn files", run_c07, 100000, 2000000, 30, 400,
    "Random histories saved to and loaded from simulated files with full disk, I/O errors at any byte, short transfers, different stream buffers and files cut at any byte by a crash before a restart; file content, reported result and history are compared with a reference."});
