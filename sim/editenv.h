// A user at the simulated terminal: types keys, in chunks, with faults around them.
#pragma once
#include "lib.h"
#include "editmodel.h"
struct EditCfg {
    bool chunked = true, eintr = false, winch = false, preempt = false, typeahead = false, wfault = false;
    int  maxops = 40; bool utf8 = false; bool quote_nl = true; bool nul = false; bool longlines = true; bool tab = true, qmark = true, sigkeys = false, garbage = true, expose_hist = true, search = true, plain = false;
    int  bgfds = 0;
};
struct EditEnv : Env {
    EditCfg cfg; EditModel m; std::deque<char> pend; int ops = 0; bool ended = false, in_preempt = false; std::vector<int> w; bool model_on = true;
    bool final_eof = true;
    std::vector<std::string> words;
    EditEnv() {
        static const char *ws[] = {"a","b","ab","abc","show","set x","int eth0","foo bar","x y z","commit"};
        for (auto s : ws) words.push_back(s);
    }
    // swarm: choose which kinds of keys this run uses
    void swarm() { for (int i = 0; i < 40; i++) w.push_back(chance(1, 3, "swarm") ? 0 : 1 + (int)choose(4, "weight")); }
    std::string key_op() {
        static const char *nm[] = {"text","word","long","enter","move","arrow","delete","kill","killword","killbegin","yank","transpose","overwrite","history","search","quote","wordmove","redraw","tab","help","utf8","garbage","ctrl-d","blank","nul","exitchar","sig","alias"};
        std::vector<int> ww = {14,6,2,6,4,4,5,2,3,2,4,3,2,5,3,2,3,1,2,1,2,2,2,2,1,1,1,1};
        for (size_t i = 0; i < ww.size(); i++) ww[i] *= i < w.size() ? w[i] : 1;
        ww[0] = std::max(ww[0], 4); ww[3] = std::max(ww[3], 3);
        if (!cfg.longlines) ww[2] = 0; if (!cfg.tab) ww[18] = 0; if (!cfg.qmark) ww[19] = 0; if (!cfg.utf8 ) ww[20] = 0; if (!cfg.garbage) ww[21] = 0; if (!cfg.nul) ww[24] = 0; if (!cfg.sigkeys) ww[26] = 0; if (m.exitchars.empty()) ww[25] = 0; if (!cfg.search) ww[14] = 0;
        if (cfg.plain) for (size_t i = 4; i < ww.size(); i++) ww[i] = 0;
        int k = pick_weighted(ww, "op"); stat_add((std::string("op.") + nm[k]).c_str());
        std::string s; 
        switch (k) {
        case 0: { int n = 1 + choose(4, "n"); for (int i = 0; i < n; i++) s += "abc xyz12#|-_."[choose(14, "ch")]; break; }
        case 1: s = words[choose(words.size(), "word")]; if (chance(1, 2, "sp")) s += ' '; break;
        case 2: { int n = chance(1, 2, "big") ? 50 + choose(30, "n") : 100 + choose(300, "n"); char c = 'a' + choose(26, "ch"); for (int i = 0; i < n; i++) s += (i % 7 == 6) ? ' ' : (char)('a' + (c + i * 3) % 26); break; }
        case 3: s = chance(1, 4, "cr") ? "\r" : "\n"; break;
        case 4: { static const char mv[] = {2,6,1,5}; int r = 1 + choose(5, "rep"); char c = mv[choose(4, "mv")]; s.assign(r, c); break; }
        case 5: { static const char *ar[] = {"\033[C","\033[D","\033OC","\033OD","\033[H","\033[F","\033OH"}; const char *a = ar[choose(7, "arrow")]; int r = 1 + choose(4, "rep"); for (int i = 0; i < r; i++) s += a; break; }
        case 6: { static const char *d[] = {"\177","\010","\033[3~","\004"}; const char *a = d[choose(4, "del")]; int r = 1 + choose(5, "rep"); if (a[0] == 4) r = 1; for (int i = 0; i < r; i++) s += a; break; }
        case 7: s = "\013"; break;
        case 8: s = "\027"; break;
        case 9: s = "\025"; break;
        case 10: { int r = 1 + choose(3, "rep"); s.assign(r, '\031'); break; }
        case 11: s = "\024"; break;
        case 12: s = "\017"; break;
        case 13: { if (!cfg.expose_hist) break; static const char *hk[] = {"\020","\016","\033[A","\033[B","\033OA"}; const char *a = hk[choose(5, "hist")]; int r = 1 + choose(3, "rep"); for (int i = 0; i < r; i++) s += a; break; }
        case 14: { s = chance(1, 3, "dir") ? "\023" : "\022"; int n = choose(4, "n"); for (int i = 0; i < n; i++) s += "abc sx"[choose(6, "ch")]; n = choose(3, "again"); for (int i = 0; i < n; i++) s += chance(1, 3, "dir") ? "\023" : "\022"; n = choose(3, "back"); for (int i = 0; i < n; i++) s += '\177'; static const char *fin[] = {"","\033","\020","\n","\005","\016"}; s += fin[choose(6, "fin")]; break; }
        case 15: { s = "\\"; static const char q[] = {'?','\\','a',' ','#','\n'}; char c = q[choose(cfg.quote_nl ? 6 : 5, "quoted")]; s += c; break; }
        case 16: s = chance(1, 2, "fwd") ? "\033f" : "\033b"; break;
        case 17: s = "\014"; break;
        case 18: s = "\t"; break;
        case 19: s = "?"; break;
        case 20: { static const char *u[] = {"\xc3\xa5","\xe2\x82\xac","\xf0\x9f\x98\x80"}; s = u[choose(3, "utf8")]; break; }
        case 21: { static const char *g[] = {"\033x","\033[Z","\033[3x","\007","\x80","\xff","\033[15~","\x1d"}; s = g[choose(8, "garbage")]; break; }
        case 22: s = "\004"; break;
        case 23: { static const char *b[] = {"  \n","\n"," \n","# c\n"}; s = b[choose(4, "blank")]; break; }
        case 24: s = std::string(1, '\0'); break;
        case 25: s = std::string(1, m.exitchars[choose(m.exitchars.size(), "ec")]); break;
        case 26: { std::string sk; if (m.vintr) sk += (char)m.vintr; if (m.vquit) sk += (char)m.vquit; if (m.vsusp) sk += (char)m.vsusp; if (sk.empty()) break; s = std::string(1, sk[choose(sk.size(), "sk")]); break; }
        case 27: s = chance(1, 2, "al") ? "\006" : "\002"; break;
        }
        return s;
    }
    // the next keys the user presses, or nothing any more
    virtual bool type_more() {
        if (ended) return false;
        if (ops >= cfg.maxops || !chance(39, 40, "more")) { ended = true; if (chance(3, 4, "lastline")) for (char c : std::string("end\n")) pend.push_back(c); return !pend.empty(); }
        ops++; Span sp("key"); std::string s = key_op(); for (char c : s) pend.push_back(c); return true;
    }
    virtual void end_of_input() { if (!tty.eof) { LOG("  user hangs up"); tty.eof = true; } }
    virtual void side_events(const WaitInfo &wi) {
        if (cfg.eintr && chance(1, 10, "eintr")) ev_at(1 + choose(1000, "t"), [] { interrupt_now(); });
        if (cfg.winch && chance(1, 14, "winch")) { int nr = 2 + choose(60, "rows"), nc = chance(1, 8, "w0") ? 0 : 10 + choose(150, "cols"); ev_at(1 + choose(1000, "t"), [nr, nc] { tty.rows = nr; tty.cols = nc; stat_add("fault.resize"); if (sig_has_handler(SIGWINCH)) deliver_signal(SIGWINCH); }); }
    }
    void arrive_some(bool all) {
        size_t n = pend.size(); if (!n) return; if (cfg.chunked && !all) { n = chance(1, 2, "chunk") ? 1 + choose((uint32_t)std::min<size_t>(n, 12), "chunklen") : n; }
        if (n < pend.size()) stat_add("fault.split_delivery");
        std::string s(pend.begin(), pend.begin() + n); pend.erase(pend.begin(), pend.begin() + n); tty_type(s);
    }
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false;
        side_events(wi);
        for (int g = 0; pend.empty() && !ended && g < 100000; g++) type_more();
        if (!pend.empty()) { ev_at(500 + choose(200000, "think"), [this] { arrive_some(false); }); return true; }
        ev_at(500, [this] { end_of_input(); });
        return true;
    }
    void preempt(const char *call) override {
        if (in_preempt || in_child) return;
        in_preempt = true;
        if (cfg.preempt && chance(1, 60, "preempt")) {
            int k = choose(2, "kind");
            if (k == 0 && !pend.empty()) { stat_add("fault.early_arrival"); arrive_some(false); }
            else if (k == 1 && cfg.winch && sig_has_handler(SIGWINCH)) { tty.rows = 2 + choose(60, "rows"); tty.cols = 10 + choose(150, "cols"); stat_add("fault.async_resize"); deliver_signal(SIGWINCH); g_interrupted = false; }
        }
        in_preempt = false;
    }
    void key_read(unsigned char c) override { if (model_on) m.feed(c); }
    int write_fault(int fd, size_t n, ssize_t *res) override {
        if (fd == 1 && cfg.wfault && chance(1, 40, "wfault")) { stat_add("fault.tty_write_error"); errno = chance(1, 2, "e") ? EINTR : EIO; *res = -1; return 1; }
        return 0;
    }
    // the application computes for a while; the user may already type ahead
    void app_busy() { if (!cfg.typeahead || !chance(1, 3, "busy")) return; Span sp("busy"); g_simtime_us += choose(100000, "t"); if (pend.empty()) type_more(); if (!pend.empty()) { stat_add("fault.typeahead"); arrive_some(false); } }
};
inline const char *cq(const char *s) { return s ? s : "(null)"; }
