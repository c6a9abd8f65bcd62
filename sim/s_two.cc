// C16: two or three handles used in turns in one process (also from within each other's callbacks); each must give what it gives alone.
#include "lib.h"
#include "app.h"
#include "wild.h"
#include <errno.h>
#include <map>
#include <functional>
namespace {
struct Op { std::string kind, a, b; int n = 0, m = 0; bool f = false; };
struct Two;
extern "C" int two_wrap(void *arg, void **wh, const char *name, const char *fn);
struct H {
    int id = 0; cligen_handle h = nullptr; std::vector<Op> ops; size_t at = 0; std::string log, res, self; bool busy = false; int depth = 0; Wild g; std::vector<std::string> got;
};
std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += fmt("%zu:", x.size()) + x; return s; }
std::vector<std::string> unjoin(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t c = s.find(':', i); size_t n = atoi(s.c_str() + i); v.push_back(s.substr(c + 1, n)); i = c + 1 + n; } return v; }
struct Two : Env, App {
    std::vector<H> hs; bool together = false, editing = false; int nest = 0; std::string keys; size_t kat = 0; int nested = 0;
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return !ev_empty();
        if (kat < keys.size()) { size_t n = together && chance(1, 4, "burst") ? 1 + choose(keys.size() - kat, "n") : 1; std::string s = keys.substr(kat, n); kat += n; ev_at(10, [s] { tty_type(s); }); return true; }
        ev_at(10, [] { tty.eof = true; }); return true; }
    H *of(void *p) { for (auto &x : hs) if (p == (void *)x.h || p == (void *)&x) return &x; violation("two:handle", "a callback got a handle that is none of the application's"); }
    // another handle's turn inside a callback of this one
    void others(H &me, bool inedit) {
        if (!together || nest >= 2) return;
        int n = chance(1, 3, "nested") ? 1 + choose(2, "n") : 0;
        for (int i = 0; i < n; i++) {
            std::vector<size_t> c; for (size_t j = 0; j < hs.size(); j++) { H &o = hs[j]; if (&o == &me || o.busy || o.at >= o.ops.size()) continue; const std::string &k = o.ops[o.at].kind; if ((inedit || editing) && k == "read") continue; c.push_back(j); }
            if (c.empty()) return; Span sp("nested"); size_t j = c[choose(c.size(), "who")]; nest++; nested++; stat_add(inedit ? "probe.nested_in_expansion" : "probe.nested_in_callback"); bool oe = editing; editing = editing || inedit; turn(j); editing = oe; nest--; } }
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        H &x = *of(hh); char *fs = cligen_fn_str_get(x.h); cg_obj *co = cligen_co_match(x.h); x.log += fmt("cb%d(%s|%s) %s %s\n", idx, cvec_dump(argv).c_str(), cvec_dump(cvv).c_str(), fs ? fs : "-", co && co->co_command ? co->co_command : "-");
        if (idx % 3 == 0) cligen_output(sim_stdout, "output %d of handle %d\n", idx, x.id);
        others(x, false);
        fs = cligen_fn_str_get(x.h); co = cligen_co_match(x.h); x.log += fmt("  then %s %s (%s)\n", fs ? fs : "-", co && co->co_command ? co->co_command : "-", cvec_dump(cvv).c_str());
        if (idx == 4 && x.depth < 1 && !x.g.lines.empty()) { x.depth++; x.log += "inner " + eval(x, x.g.lines[idx % x.g.lines.size()]); x.depth--; }
        if (idx == 7) return -2;
        if (idx == 8) { x.log += fmt("out %d\n", cligen_output(sim_stdout, "more of handle %d\n", x.id)); }
        return idx == 9 ? 3 : 0; }
    int expand(int idx, cligen_handle hh, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) override {
        H &x = *of(hh); x.log += fmt("ex%d(%s|%s|%s)\n", idx, name, cvec_dump(argv).c_str(), cvec_dump(cvv).c_str()); static const char *w[] = {"a", "ab", "b b", "abc", "x", "ca", "ba", "zz"};
        for (int i = 0; i < 3; i++) { cvec_add_string(cmds, nullptr, w[(idx + x.id + i * 3) % 8]); if (idx % 2) cvec_add_string(helps, nullptr, fmt("help of handle %d", x.id).c_str()); if (i == 1) others(x, true); }
        return 0; }
    int translate(cligen_handle hh, cg_var *cv) override { char *s = cv_isstring(cv_type_get(cv)) ? cv_string_get(cv) : nullptr; if (s) { std::string t = "T" + std::string(s); cv_string_set(cv, (char *)t.c_str()); } return 0; }
    int hist(cligen_handle hh, char *c, void *arg) override { H &x = *(H *)arg; x.log += std::string("hist ") + esc(c) + "\n"; if ((void *)hh != (void *)x.h && (void *)hh != (void *)&x) violation("two:history-callback", "the history callback of handle %d was called with another handle", x.id); others(x, false); return 0; }
    // ---- operations
    std::string eval(H &x, const std::string &line) {
        parse_tree *pt = cligen_pt_active_get(x.h); std::vector<char> b(line.begin(), line.end()); b.push_back(0); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr; if (!pt) return "no tree\n";
        int r = cliread_parse(x.h, b.data(), pt, &mo, &cvv, &res, &reason); std::string s = fmt("%d result %d reason %s\n", r, (int)res, reason ? reason : "-"); if (r >= 0 && res == CG_MATCH) s += cvec_dump(cvv) + fmt(" value %d\n", cligen_eval(x.h, mo, cvv));
        if (reason) sim_free(reason); if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); return s; }
    std::string dump(H &x) { SimFile f; FILE *fp = simfile_open(&f, "w", 512); int r = cligen_hist_file_save(x.h, fp); fclose(fp); return r < 0 ? "save fails\n" : f.data; }
    std::string trees(H &x) { SimFile f; FILE *fp = simfile_open(&f, "w", 4096); pt_head *ph = nullptr; while ((ph = cligen_ph_each(x.h, ph)) != nullptr) { fprintf(fp, "tree %s active %d\n", cligen_ph_name_get(ph), ph == cligen_ph_active_get(x.h)); if (cligen_ph_parsetree_get(ph)) pt_print1(fp, cligen_ph_parsetree_get(ph), 0); } fclose(fp); return f.data; }
    std::string load(H &x, const std::string &text) { x.self = text; int r = clispec_parse_str(x.h, (char *)text.c_str(), (char *)"spec", nullptr, nullptr, nullptr); std::string s = fmt("load %d\n", r); app_bind(x.h); return s; }
    std::string perform(H &x, const Op &o) {
        const std::string &k = o.kind; cligen_handle h = x.h; std::string s;
        if (k == "create") { x.h = cligen_init(); if (!x.h) violation("init", "cligen_init failed"); if (o.f) cligen_userhandle_set(x.h, &x); return "created\n"; }
        if (k == "load") return load(x, o.a);
        if (k == "read") {
            std::string ok = keys; size_t oa = kat; bool oe = editing; keys = o.a; kat = 0; tty.eof = false; tty.in.clear(); char *line = nullptr, *reason = nullptr; cligen_result res = CG_ERROR; int cb = 0, r;
            if (o.f) r = cliread_eval(h, &line, &cb, &res, &reason); else r = cliread(h, &line);
            s = fmt("%d %s", r, r < 0 ? "-" : line ? esc(line).c_str() : "end of input"); if (o.f) s += fmt(" result %d value %d reason %s", (int)res, cb, reason ? reason : "-"); s += "\n"; if (reason) sim_free(reason);
            tty.eof = false; tty.in.clear(); keys = ok; kat = oa; editing = oe; return s; }
        if (k == "eval") return eval(x, o.a);
        if (k == "save") return dump(x);
        if (k == "hload") { SimFile f; f.data = o.a; FILE *fp = simfile_open(&f, "r", 64); int r = cligen_hist_file_load(h, fp); fclose(fp); return fmt("%d\n", r); }
        if (k == "hinit") return fmt("%d\n", cligen_hist_init(h, o.n));
        if (k == "hfn") return fmt("%d\n", cligen_hist_fn_set(h, o.f ? app_hist : nullptr, o.f ? (void *)&x : nullptr));
        if (k == "prompt") return fmt("%d\n", cligen_prompt_set(h, (char *)o.a.c_str()));
        if (k == "wrap") { cligen_eval_wrap_fn_set(h, o.f ? two_wrap : nullptr, o.f ? &x : nullptr); return "wrap\n"; }
        if (k == "active") { return fmt("%d\n", cligen_ph_active_set_byname(h, (char *)o.a.c_str())); }
        if (k == "alias") return fmt("%d\n", cligen_alias_add(h, nullptr, (char *)o.a.c_str(), nullptr, (char *)o.b.c_str(), nullptr));
        if (k == "print") return trees(x);
        if (k == "option") { switch (o.n) { case 0: cligen_tabmode_set(h, o.m); break; case 1: cligen_caseignore_set(h, o.m & 1); break; case 2: cligen_preference_mode_set(h, o.m & 1); break; case 3: cligen_exclude_keys_set(h, o.m & 1); break; case 4: cligen_expand_first_set(h, o.m & 1); break; case 7: cligen_regex_xsd_set(h, o.m & 1); break; case 5: cligen_comment_set(h, "#!a\0"[o.m & 3]); break; case 6: cligen_exiting_set(h, 0); break; } return fmt("%d %d %d %d %d %d %d\n", cligen_regex_xsd(h), cligen_tabmode(h), cligen_caseignore_get(h), cligen_preference_mode(h), cligen_exclude_keys_get(h), cligen_expand_first_get(h), cligen_comment(h)); }
        if (k == "output") return fmt("%d\n", cligen_output(sim_stdout, "%s", o.a.c_str()));
        if (k == "exit") { cligen_exit(h); x.h = nullptr; return "released\n"; }
        harness_error("op %s", k.c_str()); }
    // one operation of a handle; the terminal's bytes during it are its own
    std::string step(H &x) {
        Op o = x.ops[x.at++]; out_flush(); std::string so = tty.out; tty.out.clear(); x.busy = true; x.log.clear(); std::string r = perform(x, o); out_flush(); r = o.kind + " " + esc(o.a) + "\n" + r + x.log + "terminal " + esc(tty.out, 1000000) + "\n"; tty.out = so; x.busy = false;
        if (x.h) { r += fmt("prompt %s\n", cligen_prompt(x.h)) + "history " + esc(dump(x), 100000) + "\n"; char *nm = nullptr; pt_head *ph = cligen_ph_active_get(x.h); if (ph) nm = cligen_ph_name_get(ph); r += fmt("active %s\n", nm ? nm : "-"); }
        return r; }
    std::vector<std::vector<std::string>> solo;
    void turn(size_t j) {
        H &x = hs[j]; size_t k = x.at; LOG("%*shandle %d: %s \"%s\"", nest * 2, "", x.id, x.ops[k].kind.c_str(), x.ops[k].kind == "load" ? "..." : esc(x.ops[k].a, 300).c_str()); std::string r = step(x); checked();
        if (r != solo[j][k]) { std::string a = r, b = solo[j][k]; size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) q++; size_t f = q > 80 ? q - 80 : 0; violation("two:differs", "handle %d, operation %zu (%s \"%s\") gives \"%s\", alone it gives \"%s\"", x.id, k, x.ops[k].kind.c_str(), esc(x.ops[k].a, 300).c_str(), esc(a.substr(f, 400), 900).c_str(), esc(b.substr(f, 400), 900).c_str()); } }
    // ---- generation
    std::string keyseq(H &x) {
        std::string k; int n = 1 + choose(8, "nkeys");
        for (int i = 0; i < n; i++) { Span sp("keys"); switch (pick_weighted({8, 6, 4, 2, 2, 3, 2, 2, 2, 1, 1, 1}, "key")) {
            case 0: k += line(x); break; case 1: k += chance(1, 2, "c") ? "\t" : "?"; break; case 2: k += chance(2, 3, "ud") ? "\020" : "\016"; break; case 3: k += chance(1, 2, "dir") ? "\022" : "\023"; if (chance(4, 5, "typed")) k += line(x).substr(0, 1 + choose(3, "n")); if (chance(1, 4, "again")) k += chance(1, 2, "dir") ? "\022" : "\023"; k += chance(1, 2, "e") ? "\033x" : "\005"; break;
            case 4: k += "\027"; break; case 5: k += "\031"; break; case 6: k += chance(1, 2, "ku") ? "\025" : "\013"; break; case 7: { int m = 20 + choose(chance(1, 3, "vlong") ? 1200 : 100, "long"); for (int j = 0; j < m; j++) k += (char)('a' + j % 26); break; } case 8: k += chance(1, 2, "m") ? "\001" : "\002\002"; break; case 9: k += "\\?"; break; case 10: k += "\024"; break; case 11: k += "\177\177"; break; } }
        if (chance(1, 12, "noreturn")) return k; return k + "\n"; }
    std::string line(H &x) { if (x.g.lines.empty() || chance(1, 10, "junk")) return "junk b"; std::string l = x.g.lines[choose(x.g.lines.size(), "line")]; if (chance(1, 4, "cut")) l.resize(choose(l.size() + 1, "cut")); return l; }
    std::string gentext(H &x) { x.g.text.clear(); x.g.width = 1; int nt = 1 + choose(2, "trees"); for (int i = 0; i < nt; i++) x.g.tree(fmt("t%d", (int)x.g.trees.size())); std::string t = x.g.text;
        if (x.g.trees.size() <= (size_t)nt && chance(1, 3, "mode")) { t = "treename=\"m\";\nedit, wpset(\"t0\"); { @t0, wpset(\"t0\"); }\nup, wpup(\"t0\"); top, wptop(\"t0\"); show, wpshow(\"t0\"); \nexec @t0;\n@t0;\n" + t; x.g.trees.insert(x.g.trees.begin(), "m"); auto l = x.g.lines; for (auto &y : l) x.g.lines.push_back("edit " + y); x.g.lines.push_back("up"); x.g.lines.push_back("top"); x.g.lines.push_back("show"); }
        return t; }
    void gen(H &x) {
        Span sp("handle"); x.g.selfref = false; x.g.typedargs = false; auto add = [&](const char *k, std::string a = "", std::string b = "", int n = 0, int m = 0, bool f = false) { Op o; o.kind = k; o.a = a; o.b = b; o.n = n; o.m = m; o.f = f; x.ops.push_back(o); stat_add((std::string("op.") + k).c_str()); };
        add("create", "", "", 0, 0, chance(1, 3, "user")); if (chance(1, 2, "hinit")) add("hinit", "", "", 1 + choose(6, "cap")); add("load", gentext(x)); if (x.g.trees[0] == "m") x.ops[0].f = false; /* the library's own callbacks take the handle itself */ if (chance(1, 2, "hfn")) add("hfn", "", "", 0, 0, true); if (chance(1, 4, "wrap")) add("wrap", "", "", 0, 0, true);
        int n = 3 + choose(g_thorough ? 20 : 10, "ops");
        for (int i = 0; i < n; i++) { Span s2("op"); switch (pick_weighted({12, 8, 1, 2, 1, 1, 2, 1, 2, 1, 1, 4, 1, 1}, "op")) {
            case 0: add("read", keyseq(x), "", 0, 0, chance(1, 2, "eval")); break; case 1: add("eval", line(x)); break; case 2: add("save"); break;
            case 3: { std::string t; int m = 1 + choose(6, "n"); for (int j = 0; j < m; j++) t += (chance(1, 5, "long") ? std::string(100 + choose(1000, "n"), 'h') : line(x)) + "\n"; add("hload", t); break; }
            case 4: add("hinit", "", "", 1 + choose(6, "n")); break; case 5: add("hfn", "", "", 0, 0, choose(2, "on")); break; case 6: { std::string p; int m = choose(40, "n"); for (int j = 0; j < m; j++) p += (char)('A' + (j + x.id) % 26); add("prompt", p); break; }
            case 7: add("wrap", "", "", 0, 0, choose(2, "on")); break; case 8: add("active", chance(1, 6, "no") ? "nosuch" : x.g.trees[choose(x.g.trees.size(), "tree")]); break; case 9: add("alias", fmt("al%d", (int)choose(3, "n")), line(x)); break; case 10: add("print"); break;
            case 11: { int q = choose(8, "which"); add("option", "", "", q, choose(8, "value")); break; } case 12: if (x.g.trees.size() < 4) add("load", gentext(x)); break; case 13: add("output", fmt("text of %d\n", x.id)); break; } }
        add("print"); add("exit"); if (chance(1, 4, "again")) { add("create"); add("load", x.ops[1].kind == "load" ? x.ops[1].a : x.ops[2].a); add("eval", line(x)); add("read", keyseq(x), "", 0, 0, true); add("exit"); } }
};
extern "C" int two_wrap(void *arg, void **wh, const char *name, const char *fn) { H &x = *(H *)arg; x.log += fmt("wrap %s %s\n", *wh ? "after" : "before", name ? name : "-"); if (!*wh) { *wh = malloc(8); } return 0; }
void run_c16() {
    world_reset(); Two e; env = &e; app = &e; tty.vt_on = false; tty.is_tty = true; tty.cols = 21 + choose(100, "cols"); tty.rows = 0; alloc_track(true); alloc_fail_off();
    int n = chance(1, 4, "three") ? 3 : 2; e.hs.resize(n); for (int i = 0; i < n; i++) { e.hs[i].id = i; e.gen(e.hs[i]); LOG("handle %d grammar\n%s", i, e.hs[i].ops[1].kind == "load" ? e.hs[i].ops[1].a.c_str() : e.hs[i].ops[2].a.c_str()); }
    // each alone
    for (int i = 0; i < n; i++) { H &x = e.hs[i]; std::string r = what_if("two:alone", [&] { std::vector<std::string> v; while (x.at < x.ops.size()) v.push_back(e.step(x)); return join(v); }); e.solo.push_back(unjoin(r)); if (e.solo[i].size() != x.ops.size()) harness_error("solo run: %zu of %zu", e.solo[i].size(), x.ops.size()); }
    e.together = true; int cur = 0;
    for (;;) { std::vector<int> c; for (int i = 0; i < n; i++) if (e.hs[i].at < e.hs[i].ops.size()) c.push_back(i); if (c.empty()) break; Span sp("turn"); if (e.hs[cur].at >= e.hs[cur].ops.size() || chance(1, 2, "switch")) cur = c[choose(c.size(), "who")]; e.turn(cur); }
    out_flush(); checked(); size_t nl; std::string l = alloc_leaks(&nl); if (nl) violation("two:leak", "after all handles were released %zu blocks are still allocated:%s", nl, l.c_str());
}
RegScenario r16({"C16", "deterministic simulation of interleaved use of several handles, each compared with a run of its own from the same state without the others", run_c16, 40000, 1000000, 40, 600,
    "Two or three handles with random overlapping grammars, modes, aliases, histories, settings, long lines; each handle's operations are first run alone in a fork of the simulated process; then all are run in random turns, also inside each other's command, history and expansion callbacks; each operation's results, callbacks, terminal bytes, history, prompt and active tree must equal those of the run alone, and nothing stays allocated after all are released."});
}
