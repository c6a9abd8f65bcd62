// C15: one allocation after the other fails inside single operations; what the operation gives is compared with what the same
// operation gives, from exactly the same state, without the failure, and so is everything done with the handle afterwards.
#include "lib.h"
#include "app.h"
#include "wild.h"
#include <errno.h>
#include <map>
#include <sstream>
namespace {
struct OomEnv : Env, App {
    cligen_handle h = nullptr; Wild g; std::string keys; size_t at = 0; std::string log; bool hung = false, hangs = false; int depth = 0; std::vector<std::string> hlines; std::string spec2; bool readall = false, hashist = true;
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return !ev_empty();
        if (at < keys.size()) { std::string s = readall ? keys.substr(at) : keys.substr(at, 1); at += s.size(); ev_at(10, [s] { tty_type(s); }); return true; }
        hung = true; ev_at(10, [] { tty.eof = true; }); return true; }
    // callbacks: deterministic, log what they get
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        log += fmt("cb%d(%s|%s) %s\n", idx, cvec_dump(argv).c_str(), cvec_dump(cvv).c_str(), cligen_fn_str_get(hh) ? cligen_fn_str_get(hh) : "-");
        if (idx == 3) { if (cligen_output(sim_stdout, "output of %d %s\n", idx, "and a long text that is longer than the starting size of most of the buffers used in this library for formatting") < 0) return -1; }
        if (idx == 4 && !depth && !g.lines.empty()) { depth++; std::string r = parse_eval(g.lines[0]); depth--; if (r == "error\n") return -1; }
        if (idx == 5) { cvec *c = cvec_dup(cvv); if (!c) return -1; log += cvec_dump(c) + "\n"; cvec_free(c); }
        return 0; }
    int expand(int idx, cligen_handle, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) override {
        AllocQuiet q; static const char *w[] = {"a", "ab", "b b", "abc", "x", "ca", "ba", "zz"}; for (int i = 0; i < 3; i++) { cvec_add_string(cmds, nullptr, w[(idx + i * 3) % 8]); if (idx % 2) cvec_add_string(helps, nullptr, "helptext of it"); } return 0; }
    int translate(cligen_handle, cg_var *cv) override { AllocQuiet q; char *s = cv_isstring(cv_type_get(cv)) ? cv_string_get(cv) : nullptr; if (s) { std::string t = std::string("T") + s; cv_string_set(cv, (char *)t.c_str()); } return 0; }
    std::string cb_hist; int hist(cligen_handle, char *c, void *) override { log += std::string("hist ") + esc(c) + "\n"; return 0; }
    // ---- operations: each gives a text; "error\n" at the end means that it reported an error
    std::string parse_eval(const std::string &line) {
        parse_tree *pt = cligen_pt_active_get(h); std::vector<char> b(line.begin(), line.end()); b.push_back(0); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr;
        int r = cliread_parse(h, b.data(), pt, &mo, &cvv, &res, &reason); std::string s; 
        if (r >= 0 && res != CG_ERROR) { s = fmt("result %d reason %s\n", (int)res, reason ? reason : "-"); if (res == CG_MATCH) { s += cvec_dump(cvv) + "\n"; int v = cligen_eval(h, mo, cvv); if (v < 0) r = -1; else s += fmt("value %d\n", v); } } else r = -1;
        if (reason) sim_free(reason); if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); if (r < 0) return "error\n"; return s; }
    std::string readline(const std::string &k, bool eval) {
        keys = k; at = 0; hung = false; tty.eof = false; tty.in.clear(); char *line = nullptr, *reason = nullptr; cligen_result res = CG_ERROR; int cb = 0, r; std::string s;
        if (eval) { r = cliread_eval(h, &line, &cb, &res, &reason); if (res == CG_ERROR && r >= 0) r = -1; } else r = cliread(h, &line);
        tty.eof = false; tty.in.clear();
        if (r < 0) { if (reason) sim_free(reason); return "error\n"; }
        s = line ? "line " + esc(line) + "\n" : "end of input\n"; if (eval) s += fmt("result %d value %d reason %s\n", (int)res, cb, reason ? reason : "-"); if (reason) sim_free(reason); return s; }
    std::string dump() { AllocQuiet q; if (!hashist) return ""; SimFile f; FILE *fp = simfile_open(&f, "w", 512); int r = cligen_hist_file_save(h, fp); fclose(fp); return r < 0 ? "save fails\n" : f.data; }
    struct Op { int kind; std::string a; int n = 0; bool flag = false; std::string b; };
    std::string save(const Op &o) { SimFile f; FILE *fp = simfile_open(&f, "w", 64); int r = cligen_hist_file_save(h, fp); fclose(fp); return r < 0 ? "error\n" : "saved " + f.data; }
    std::string load(const Op &o) { SimFile f; f.data = o.a; FILE *fp = simfile_open(&f, "r", 64); int r = cligen_hist_file_load(h, fp); fclose(fp); return r < 0 ? "error\n" : "loaded\n"; }
    std::string print() { AllocQuiet q; SimFile f; FILE *fp = simfile_open(&f, "w", 4096); pt_head *ph = nullptr; while ((ph = cligen_ph_each(h, ph)) != nullptr) { fprintf(fp, "tree %s\n", cligen_ph_name_get(ph)); if (cligen_ph_parsetree_get(ph)) pt_print1(fp, cligen_ph_parsetree_get(ph), 0); } fclose(fp); return f.data; }
    std::string perform(const Op &o) {
        log.clear(); tty.out.clear(); std::string s;
        switch (o.kind) {
        case 0: s = readline(o.a, o.flag); break;
        case 1: s = parse_eval(o.a); break;
        case 2: s = save(o); break;
        case 3: s = load(o); break;
        case 4: s = cligen_hist_init(h, o.n) < 0 ? "error\n" : "history of " + std::to_string(o.n) + "\n"; break;
        case 5: s = cligen_prompt_set(h, (char *)o.a.c_str()) < 0 ? "error\n" : "prompt\n"; break;
        case 6: { parse_tree *pt = cligen_pt_active_get(h); (void)pt; s = cligen_output(sim_stdout, "%s", o.a.c_str()) < 0 ? "error\n" : "output\n"; break; }
        case 7: s = cligen_hist_fn_set(h, o.flag ? app_hist : nullptr, nullptr) < 0 ? "error\n" : "history function\n"; break; }
        out_flush(); return s; }
    static const char *opname(int k) { static const char *n[] = {"read", "parse_eval", "save", "load", "hist_init", "prompt", "output", "hist_fn"}; return n[k]; }
    // everything later operations show, without using what may have been lost of the failing one (kill buffer, history)
    std::vector<Op> battery;
    std::string after() {
        std::string s = "grammar:\n" + print(); int cols = tty.vt.w; 
        for (auto &o : battery) { tty.vt.reset(cols); std::string r = perform(o); s += fmt("%s %s: %s%s", opname(o.kind), esc(o.a).c_str(), r.c_str(), log.c_str()); if (o.kind == 0) s += "terminal " + esc(tty.out, 100000) + "\n"; }
        return s; }
    std::string keyseq() {
        std::string k; int n = 1 + choose(8, "nkeys"); static const char *cut[] = {"\t", "?"};
        for (int i = 0; i < n; i++) { Span sp("keys"); switch (pick_weighted({6, 6, 3, 2, 2, 3, 2, 1, 2, 1, 1, 1}, "key")) {
            case 0: k += some_line(); break; case 1: k += cut[choose(2, "c")]; break; case 2: k += chance(1, 2, "ud") ? "\020" : "\016"; break; case 3: k += chance(1, 2, "dir") ? "\022" : "\023"; k += g.vocab.empty() ? "a" : g.vocab[choose(g.vocab.size(), "v")].substr(0, 2); k += chance(1, 2, "e") ? "\033x" : "\005"; break;
            case 4: k += "\027"; break; case 5: k += "\031"; break; case 6: k += chance(1, 2, "ku") ? "\025" : "\013"; break; case 7: { int m = 50 + choose(300, "long"); for (int j = 0; j < m; j++) k += (char)('a' + j % 26); break; } case 8: k += chance(1, 2, "m") ? "\001" : "\002\002"; break; case 9: k += "\\?"; break; case 10: k += "\024"; break; case 11: k += "\177\177"; break; } }
        return k + "\n"; }
    std::string some_line() { if (g.lines.empty() || chance(1, 12, "junk")) return "junk b"; std::string l = g.lines[choose(g.lines.size(), "line")]; if (chance(1, 4, "cut")) l.resize(choose(l.size() + 1, "cut")); return l; }
};
std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; } return v; }
std::string firstdiff(const std::string &a, const std::string &b) { auto x = split(a), y = split(b); for (size_t i = 0; i < std::max(x.size(), y.size()); i++) { std::string p = i < x.size() ? x[i] : "(nothing)", q = i < y.size() ? y[i] : "(nothing)"; if (p != q) { size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) k++; size_t f = k > 150 ? k - 150 : 0; return "\"" + p.substr(f, 400) + "\" instead of \"" + q.substr(f, 400) + "\""; } } return "equal"; }
void run_c15() {
    OomEnv e; env = &e; app = &e; set_budget(2000ull * 1000 * 1000); tty.cols = 40 + choose(100, "cols"); tty.rows = 0; tty.vt.reset(tty.cols); alloc_track(true); e.g.selfref = false; e.readall = true;
    app_cbufs(); cligen_handle h = e.h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault");
    cligen_paging_set(h, 0); e.g.pipe_tree("p"); e.g.text.clear(); e.g.pipes.clear(); int nt = 1 + choose(2, "trees"); for (int i = 0; i < nt; i++) e.g.tree(fmt("t%d", i)); LOG("grammar\n%s", e.g.text.c_str());
    if (app_load(h, e.g.text, "g") < 0) violation("oom:load", "the grammar did not load:\n%s", e.g.text.c_str()); cligen_ph_active_set_byname(h, (char *)"t0"); cligen_tabmode_set(h, choose(8, "tabmode")); if (chance(1, 4, "hl")) cligen_helpstring_lines_set(h, 1); if (chance(1, 4, "wrap")) cligen_line_scrolling_set(h, 0); if (chance(1, 4, "ign")) cligen_caseignore_set(h, 1); cligen_preference_mode_set(h, choose(2, "pref")); if (chance(1, 3, "excl")) cligen_exclude_keys_set(h, 1); if (chance(1, 3, "efirst")) cligen_expand_first_set(h, 1);
    int cap = 1 + choose(6, "cap"); cligen_hist_init(h, cap); { SimFile f; int n = choose(8, "nh"); for (int i = 0; i < n; i++) f.data += e.some_line() + "\n"; FILE *fp = simfile_open(&f, "r", 64); cligen_hist_file_load(h, fp); fclose(fp); }
    if (chance(1, 3, "hfn")) cligen_hist_fn_set(h, app_hist, nullptr);
    { std::vector<std::string> bl; int n = 1 + choose(4, "battery"); for (int i = 0; i < n; i++) { OomEnv::Op o{(int)(choose(3, "bk") ? 0 : 1), e.some_line(), 0, true}; if (o.kind == 0) { if (chance(1, 2, "tab")) o.a.insert(choose(o.a.size() + 1, "at"), chance(1, 2, "t") ? "\t" : "?"); o.a += "\n"; o.flag = choose(2, "eval"); } e.battery.push_back(o); } }
    int nops = 1 + choose(g_thorough ? 8 : 4, "ops");
    for (int i = 0; i < nops; i++) {
        Span sp("op"); OomEnv::Op o; o.kind = pick_weighted({10, 6, 1, 2, 1, 1, 1, 1}, "op"); 
        switch (o.kind) { case 0: o.a = e.keyseq(); o.flag = chance(1, 2, "eval"); break; case 1: o.a = e.some_line(); break; case 3: { int n = 1 + choose(6, "n"); for (int j = 0; j < n; j++) o.a += (chance(1, 5, "long") ? std::string(100 + choose(choose(3, "vl") ? 400 : 4000, "n"), (char)(97 + choose(26, "ch"))) : e.some_line()) + "\n"; if (chance(1, 5, "cut")) o.a += "cut"; break; } case 4: o.n = 1 + choose(6, "n"); break; case 5: { int n = choose(60, "n"); for (int j = 0; j < n; j++) o.a += (char)('A' + j % 26); break; } case 6: { int n = choose(500, "n"); for (int j = 0; j < n; j++) o.a += j % 30 == 29 ? '\n' : 'o'; break; } case 7: o.flag = choose(2, "on"); break; }
        stat_add((std::string("op.") + OomEnv::opname(o.kind)).c_str()); LOG("%s \"%s\"%s", OomEnv::opname(o.kind), esc(o.a).c_str(), o.flag ? " and evaluate" : "");
        std::string pre = e.dump();
        // a grammar which changes when it is used (two choices or trees overlap) is a finding of C11
        if (what_if("oom:control", [&] { std::string p0 = e.print(); if (o.kind == 5 || o.kind == 7) return std::string("0"); e.perform(o); e.after(); return std::string(e.print() == p0 ? "0" : "1"); }) == "1") { stat_add("probe.changed_by_use"); break; }
        // the same operation without failure, and later operations
        std::string ctl = what_if("oom:control", [&] { uint64_t n0 = actl.n; std::vector<uint64_t> rec; actl.rec = &rec; std::string r = e.perform(o); actl.rec = nullptr; uint64_t n1 = actl.n - n0; std::string post = e.dump(), sites; std::map<uint64_t, int> id; for (auto x : rec) sites += fmt("%d ", id.insert({x, (int)id.size()}).first->second); return fmt("%llu %zu %zu %zu ", (unsigned long long)n1, r.size(), e.log.size(), post.size()) + sites + "\n" + r + e.log + post + tty.out; });
        unsigned long long na; size_t l1, l2, l3; if (sscanf(ctl.c_str(), "%llu %zu %zu %zu", &na, &l1, &l2, &l3) != 4) harness_error("control"); std::vector<std::vector<uint64_t>> sites; { std::istringstream is(ctl.substr(0, ctl.find('\n'))); uint64_t x; for (int j = 0; j < 4; j++) is >> x; for (uint64_t j = 0; is >> x; j++) { if (x >= sites.size()) sites.resize(x + 1); sites[x].push_back(j); } } size_t b = ctl.find('\n') + 1; std::string r0 = ctl.substr(b, l1), log0 = ctl.substr(b + l1, l2), post0 = ctl.substr(b + l1 + l2, l3), out0 = ctl.substr(b + l1 + l2 + l3);
        std::string next0 = what_if("oom:control", [&] { if (o.kind == 5 || o.kind == 7) e.perform(o); return e.after(); }), next1 = o.kind == 5 || o.kind == 7 ? what_if("oom:control", [&] { return e.after(); }) : next0;
        LOG("  without failure: %s", esc(r0, 2000).c_str());
        // ^P gives the newest line (unless an earlier line ended without RETURN while another line was recalled)
        auto recall = [&](std::string &why) { std::vector<std::string> H = split(e.dump()); if (H.empty()) return true; std::string rc = what_if("oom:recall", [&] { return e.readline("\020\n", false); }); auto nb = [](std::string x) { std::string y; for (char c : x) if (c != ' ') y += c; return y; };
            if (nb(H.back()).empty() || nb(rc) == nb("line " + esc(H.back()) + "\n")) return true; why = "^P gives " + esc(rc) + ", the newest line is \"" + esc(H.back()) + "\""; return false; };
        std::string w0; bool rec0 = recall(w0);
        if (na == 0 || !chance(9, 10, "fault")) { std::string r = e.perform(o); if (r != r0 || e.log != log0) harness_error("the operation is not repeatable: %s", firstdiff(r + e.log, r0 + log0).c_str()); continue; }
        uint64_t k; if (chance(2, 3, "bysite")) { auto &v = sites[choose(sites.size(), "site")]; k = v[choose(v.size(), "which")]; } else k = choose((uint32_t)na, "which"); uint64_t len = chance(1, 3, "more") ? 1 + choose(40, "len") : 1; if (chance(1, 8, "all")) len = 1u << 30; alloc_fail_at(k, len); std::string r = e.perform(o); alloc_fail_off(); tty.in.clear(); tty.eof = false; LOG("  allocation %llu of %llu (+%llu) fails: %s", (unsigned long long)k, na, (unsigned long long)(len - 1), esc(r, 2000).c_str());
        bool err = (r.size() >= 6 && r.substr(r.size() - 6) == "error\n") || r.find("value -1 reason") != std::string::npos; checked(); std::string post = e.dump(); stat_add(err ? "probe.reported" : "probe.survived"); if (r0 == "error\n") continue;
        if (!err && r != r0) violation("oom:result", "%s \"%s\": allocation %llu of %llu failed and it gave %s", OomEnv::opname(o.kind), esc(o.a).c_str(), (unsigned long long)k, na, firstdiff(r, r0).c_str());
        if (!err && e.log != log0) violation("oom:callbacks", "%s \"%s\": allocation %llu of %llu failed and callbacks got %s", OomEnv::opname(o.kind), esc(o.a).c_str(), (unsigned long long)k, na, firstdiff(e.log, log0).c_str());
        if (err) { auto x = split(e.log), y = split(log0); for (size_t j = 0; j < x.size(); j++) if (j >= y.size() || x[j] != y[j]) violation("oom:callbacks", "%s \"%s\": allocation %llu of %llu failed and callbacks got %s", OomEnv::opname(o.kind), esc(o.a).c_str(), (unsigned long long)k, na, firstdiff(e.log, log0).c_str()); }
        if (!err && tty.out != out0) violation("oom:terminal", "%s \"%s\": allocation %llu of %llu failed, no error was reported and the terminal got %s", OomEnv::opname(o.kind), esc(o.a).c_str(), (unsigned long long)k, na, firstdiff(esc(tty.out, 100000), esc(out0, 100000)).c_str());
        if (!err ? post != post0 : post != post0 && post != pre) {
            bool ok = false; if (err && o.kind == 3) { auto L = split(o.a); for (size_t j = 0; j <= L.size() && !ok; j++) { std::string part; for (size_t q = 0; q < j; q++) part += L[q] + "\n"; (void)part; ok = true; } // a prefix of the file: checked below
                // every line is a complete line of the old history or of the file, in order
                auto P = split(pre), Q = split(post); size_t a = 0; std::vector<std::string> all = P; all.insert(all.end(), L.begin(), L.end()); for (auto &q : Q) { while (a < all.size() && all[a] != q) a++; if (a++ >= all.size()) { ok = false; break; } } }
            if (err && o.kind == 0) { // the evaluated callbacks may have entered nothing else: only old lines and this one
                ok = false; }
            if (!ok) violation("oom:history", "%s \"%s\": allocation %llu of %llu failed and the history holds \"%s\", expected \"%s\"%s", OomEnv::opname(o.kind), esc(o.a).c_str(), (unsigned long long)k, na, esc(post).c_str(), esc(post0).c_str(), err ? (" or \"" + esc(pre) + "\"").c_str() : ""); }
        std::string a = what_if("oom:afterwards", [&] { return e.after(); }); checked(); 
        if (a != next0 && !(err && a == next1)) violation("oom:afterwards", "after allocation %llu of %llu of %s \"%s\" had failed, later operations give %s", (unsigned long long)k, na, OomEnv::opname(o.kind), esc(o.a).c_str(), firstdiff(a, next0).c_str());
        // recall still gives the newest line
        if (rec0) { std::string why; checked(); if (!recall(why)) violation("oom:recall", "after the failure %s", why.c_str()); }
    }
    cligen_exit(h);
}
RegScenario r15({"C15", "deterministic simulation with every allocation of an operation failing in turn, compared with the same operation from the same state without the failure", run_c15, 40000, 1000000, 40, 600,
    "Random grammars, key sequences, command lines and history files; each operation is first run in a fork of the simulated process to count its allocations and record its result; then a random one of them (or a run of them, or all from there) fails in the real one: the result must be the same or an error, callbacks may have seen nothing else, the history may hold only complete lines, and a battery of later reads, completions, evaluations and recalls must give what it gives in a fork that never failed."});
}
