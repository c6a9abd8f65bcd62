// C11: a grammar that has been used behaves as a freshly loaded copy of it.
#include "editenv.h"
#include "gram.h"
#include <errno.h>
namespace {
const char *exotic[] = {
    "zset @{\n  zp1 <zv:int32>, cb1();\n  zp2 zp3, cb2(\"S\");\n  zp4, cb3();\n  @zsub, cb4(\"T\");\n  zp5 <zw:string ex3(\"Q\")>, cb5();\n}\n",
    "zfil{\n  @zsub, @remove:zlabel, cb5(\"F\");\n}\n",
    "znest{\n  @znest1, cb6(\"N1\",\"N2\");\n}\n",
    "zopt [zq1] [zq2 <zo:int8 range[1:9]>] (zq3|zq4), cb7(\"O\");\n",
    "zhide, hide, cb8();{\n  zin <zi:string choice:one|two|onetwo>, cb9();\n  zsec, hide, cb1();\n}\n",
    "zrest <zr:rest>, cb2();\n",
    "zdup{\n  @zsub;\n  zcommon zother, cb3();\n}\n",
    "zprep{\n  @zfmt, prepend_me(\"outer\");\n}\n",
    "zvars <za:string> <zb:uint8> [<zc:ipv4addr>], cb4(\"V\",\"W\");{\n  zdeep <zd:string ex5()>, cb5();\n}\n",
};
const char *exotic_trees =
    "treename=\"zsub\";\nza1, cb7();\nza2, zlabel, cb8(\"L\");\nza3 <zx:string ex2(\"X\")>, cb9();{\n  zdd, zlabel, cb1();\n  zde <ze:string ex1()>, cb2(\"E\");\n}\n"
    "treename=\"znest1\";\nzn1, cb3();\nzn2{\n  @zsub, cb4(\"in\");\n  zn3, cb5(\"leaf\");\n}\n"
    "treename=\"zfmt\";\nzf1 <zk:int32>, cb6(\"fmt1\");{\n  zf2, cb7(\"fmt2\");\n  @zsub, cb8(\"sub\");\n  zf3{ @zsub, prepend_me(\"in\"); }\n}\n";
const char *exotic_lines[] = {"zset zp1 3 zp4", "zset zp2 zp3 zp1 7", "zset za1 zp4", "zset za3", "zset zp5 xd", "zset zp4 zp4", "zset", "zset zp1 x", "zset za2 za1 zp2 zp3", "zfil za1", "zfil za2", "zfil za3 xd zdd", "zfil za3 d zde", "znest zn1", "znest zn2 za1", "znest zn2 za3 x zdd", "znest zn2 zn3", "zopt zq3", "zopt zq1 zq4", "zopt zq2 5 zq3", "zopt zq1 zq2 10 zq3", "zhide", "zhide zin one", "zhide zin on", "zhide zin two", "zhide zsec", "zrest a b c", "zrest", "zdup za1", "zdup zcommon zother", "zdup za3 v zdd", "zprep zf1 7", "zprep zf1 7 zf2", "zprep zf3 za2", "zprep zf3 za1", "zprep zf1 8 za2", "zprep zf1 9 za3 d zde y", "zvars a 3", "zvars a 3 1.2.3.4", "zvars \"b c\" 255 zdeep d", "zvars a 300", "z", "zs", "zv"};
struct Ctl { bool cmdfail[16] = {}; GExpand x; bool histfail = false; };
struct C11Env : Env, App {
    Ctl ctl; std::string rec; std::string pend; cligen_handle cur = nullptr; bool probing = false, eintr = false; std::vector<std::string> lines; Gram g; GOpt o; int depth = 0; std::string text; std::vector<std::string> loads; std::vector<std::string> names; std::string active;
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false; if (!probing && eintr && chance(1, 10, "eintr")) ev_at(1 + choose(500, "t"), [] { interrupt_now(); });
        if (pend.empty()) { ev_at(100, [] { tty.eof = true; }); return true; }
        size_t n = !probing && chance(1, 3, "chunk") ? 1 + choose(pend.size(), "n") : pend.size(); std::string s = pend.substr(0, n); pend.erase(0, n); ev_at(1000, [s] { tty_type(s); }); return true;
    }
    int cmd(int idx, cligen_handle h, cvec *cvv, cvec *argv) override {
        char *fn = cligen_fn_str_get(h); cg_obj *co = cligen_co_match(h); rec += fmt("cb%d %s [%s](%s) on %s\n", idx, fn ? fn : "-", cvec_dump(cvv).c_str(), cvec_dump(argv).c_str(), co && co->co_command ? co->co_command : "-");
        if (!probing && depth < 2 && chance(1, 8, "nested")) { depth++; cg_obj *mo = nullptr; cvec *v = nullptr; cligen_result res; char *why = nullptr; std::string l = line(); std::vector<char> b(l.begin(), l.end()); b.push_back(0); parse_tree *pt = cligen_pt_active_get(h); if (pt && cliread_parse(h, b.data(), pt, &mo, &v, &res, &why) == 0 && res == CG_MATCH) cligen_eval(h, mo, v); if (mo) co_free(mo, 0); if (v) cvec_free(v); if (why) sim_free(why); depth--; }
        if (ctl.cmdfail[idx]) { stat_add("fault.callback_fails"); return -1 - idx; } return 0; }
    int expand(int idx, cligen_handle h, char *name, cvec *cvv, cvec *argv, cvec *commands, cvec *help) override {
        std::string arg; for (int i = 0; argv && i < cvec_len(argv); i++) { char *v = cv2str_dup(cvec_i(argv, i)); arg += (i ? "," : "") + std::string(v ? v : "(null)"); sim_free(v); } rec += fmt("%s [%s](%s)\n", name, cvec_dump(cvv).c_str(), cvec_dump(argv).c_str());
        std::vector<GVar> before; for (int i = 1; i < cvec_len(cvv); i++) { cg_var *cv = cvec_i(cvv, i); char *v = cv2str_dup(cv); before.push_back({cv_name_get(cv), v, "", (bool)cv_const_get(cv)}); sim_free(v); }
        auto vs = gexp_values(ctl.x, idx, arg, before); size_t n = 0;
        for (auto &v : vs) { if (ctl.x.fail[idx] && n++ == vs.size() / 2) break; cvec_add_string(commands, nullptr, v.c_str()); if (ctl.x.help) cvec_add_string(help, nullptr, ("xh " + v).c_str()); }
        if (ctl.x.fail[idx]) { stat_add("fault.expand_fails"); return -1 - idx; } stat_add("probe.expand"); return 0; }
    int hist(cligen_handle h, char *cmd, void *) override { rec += fmt("hist %s\n", cq(cmd)); if (ctl.histfail) { stat_add("fault.hist_fails"); return -2; } return 0; }
    void gen_exp(bool faults) { for (int i = 0; i < 8; i++) { ctl.x.vals[i].clear(); ctl.x.fail[i] = faults && chance(1, 3, "expfail"); std::set<std::string> u; int n = choose(4, "nvals"); for (int j = 0; j < n; j++) { std::string v; int l = choose(3, "l"); for (int k = 0; k < l; k++) v += "abcdx"[choose(5, "c")]; if (!g.overlap) v.insert(choose(v.size() + 1, "at"), 1, chance(1, 2, "dx") ? 'd' : 'x'); if (v.empty()) v = "b"; if (g.overlap && !g.kws.empty() && chance(1, 2, "same")) v = g.kws[choose(g.kws.size(), "which")]; if (chance(1, 12, "blankv")) v += " q"; if (u.insert(v).second) ctl.x.vals[i].push_back(v); } } ctl.x.help = chance(1, 2, "xhelp"); for (int i = 0; i < 16; i++) ctl.cmdfail[i] = faults && chance(1, 5, "cmdfail"); ctl.histfail = faults && chance(1, 6, "histfail"); }
    std::string line() {
        if (!lines.empty() && chance(1, 4, "again")) return lines[choose(lines.size(), "which")];
        std::string l; if (chance(1, 3, "exo")) l = exotic_lines[choose(sizeof exotic_lines / sizeof *exotic_lines, "exl")]; else { GTree *t = g.tree(active); if (t) { GExpand x = ctl.x; for (auto &f : x.fail) f = false; l = g.gen_line(t->top, o, x); } }
        if (l.empty()) l = "a"; lines.push_back(l); return l; }
    std::string script() { // a line with TABs and ?s at places, then RETURN
        std::string l = line(), s; size_t stop = chance(1, 3, "part") ? choose(l.size() + 1, "stop") : l.size(); bool many = chance(1, 4, "many");
        for (size_t i = 0; i < stop; i++) { s += l[i]; if ((l[i] == ' ' || i + 1 == stop || many) && chance(1, 3, "key")) s += chance(1, 2, "tab") ? "\t" : "?"; }
        if (chance(1, 2, "trail")) { s += ' '; if (chance(2, 3, "key")) s += chance(1, 2, "tab") ? "\t" : "?"; }
        if (chance(1, 6, "twice")) s += "\t\t"; return s; }
    void opts(cligen_handle h) { cligen_regex_xsd_set(h, o.xsd); cligen_preference_mode_set(h, o.pref); cligen_caseignore_set(h, o.ign); cligen_exclude_keys_set(h, o.excl); cligen_expand_first_set(h, o.expfirst); }
    int tabmode = 0, hlines = 0, htrunc = 0; bool hist_on = false;
    cligen_handle fresh() {
        cligen_handle h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); cligen_paging_set(h, 0); cligen_comment_set(h, '#'); opts(h); cligen_tabmode_set(h, tabmode); cligen_helpstring_lines_set(h, hlines); cligen_helpstring_truncate_set(h, htrunc); if (hist_on) cligen_hist_fn_set(h, app_hist, nullptr);
        for (auto &t : loads) if (app_load(h, t, "g") < 0) violation("use:load", "the grammar did not load:\n%s", t.c_str());
        return h; }
    std::string trees(cligen_handle h) { SimFile f; FILE *fp = simfile_open(&f, "w", 4096); pt_head *ph = nullptr; while ((ph = cligen_ph_each(h, ph)) != nullptr) { fprintf(fp, "tree %s\n", cligen_ph_name_get(ph)); if (cligen_ph_parsetree_get(ph)) pt_print1(fp, cligen_ph_parsetree_get(ph), 0); } fclose(fp); return f.data; }
    // everything one operation shows; the same operation is done on both handles
    struct Op { int kind; std::string s; };
    std::string run(cligen_handle h, const Op &op) {
        rec.clear(); out_flush(); tty.out.clear(); tty.eof = false; tty.in.clear(); pend.clear(); std::string r; cur = h;
        switch (op.kind) {
        case 0: { pend = op.s + "\n"; char *line = nullptr; int cbr = -77; cligen_result res = CG_ERROR; char *why = nullptr; int rc = cliread_eval(h, &line, &cbr, &res, &why); r = fmt("eval %d result %d callback %d line %s reason %s\n", rc, rc < 0 ? -9 : (int)res, cbr, rc < 0 ? "-" : cq(line), why ? why : "-"); if (why) sim_free(why); if (!pend.empty()) { r += "rest " + esc(pend) + "\n"; pend.clear(); } break; }
        case 1: { std::vector<char> b(op.s.begin(), op.s.end()); b.push_back(0); cg_obj *mo = nullptr; cvec *v = nullptr; cligen_result res = CG_ERROR; char *why = nullptr; parse_tree *pt = cligen_pt_active_get(h); int rc = cliread_parse(h, b.data(), pt, &mo, &v, &res, &why); r = fmt("parse %d result %d vars %s reason %s\n", rc, rc < 0 ? -9 : (int)res, rc < 0 ? "-" : cvec_dump(v).c_str(), why ? why : "-"); if (rc == 0 && mo) for (cg_callback *c = mo->co_callbacks; c; c = c->cc_next) r += fmt("  callback %s (%s)\n", c->cc_fn_str, cvec_dump(c->cc_cvec).c_str()); if (rc == 0 && res == CG_MATCH && mo) { int e = cligen_eval(h, mo, v); r += fmt("callback %d\n", e); } if (mo) co_free(mo, 0); if (v) cvec_free(v); if (why) sim_free(why); break; }
        case 2: { parse_tree *pt = cligen_pt_active_get(h); int rc = pt ? cligen_help(h, sim_stdout, pt) : -2; r = fmt("help %d\n", rc); break; }
        case 3: { int rc = 0; std::string bad = op.s; std::vector<char> b(bad.begin(), bad.end()); b.push_back(0); rc = clispec_parse_str(h, b.data(), (char *)"bad", nullptr, nullptr, nullptr); r = fmt("bad load %d\n", rc); break; }
        }
        out_flush(); return r + rec + "output " + esc(tty.out) + "\n"; }
    Op random_op() { Op p; p.kind = pick_weighted({6, 3, 1}, "opkind"); if (p.kind == 0) p.s = script(); else if (p.kind == 1) p.s = line(); return p; }
};
// The known finding: alternatives at one place that expand to the same word are merged into the loaded grammar when it is used.
void overlap_probe(C11Env &e) {
    static const char *spec[] = {"treename=\"t0\";\n<v0:string choice:Ba|ab> aab, cb1();\n<v4:string choice:ab|Baa> aa, cb2();\n", "treename=\"t0\";\nk @a, cb1();\nk @b, cb2();\nk{\n @a;\n @b;\n}\ntreename=\"a\";\nw x;\ntreename=\"b\";\nw y;\n"};
    static const char *line[] = {"ab aab", "k w x"};
    int w = choose(2, "which"); e.loads = {spec[w]}; e.active = "t0"; LOG("grammar\n%s", spec[w]); cligen_handle h = e.fresh(); cligen_ph_active_set_byname(h, (char *)"t0"); std::string a = e.trees(h); C11Env::Op op; op.kind = 1; op.s = line[w]; std::string res = e.run(h, op); LOG("used: %s ->\n%s", line[w], res.c_str()); std::string b = e.trees(h); cligen_exit(h); checked(); stat_add("probe.known_overlap");
    if (a != b) violation(w ? "use:overlap-trees" : "use:overlap-choices", "evaluating \"%s\" changed the printed grammar from\n%s\nto\n%s", line[w], a.c_str(), b.c_str());
}
void run_c11() { app_cbufs();
    set_budget(600ull * 1000 * 1000); C11Env e; env = &e; app = &e; tty.vt_on = false; e.eintr = chance(1, 4, "f"); e.g.ign_case_kw = chance(1, 3, "upkw"); e.g.allow_ref = chance(2, 3, "ref"); e.g.overlap = chance(1, 6, "overlap");
    if (chance(1, 60, "known")) { overlap_probe(e); return; }
    tty.cols = 20 + choose(100, "cols"); int nt = 1 + choose(2, "trees"); e.g.generate(nt, "t", 4); std::string t = e.g.text; size_t at = t.find('\n') + 1; std::string ex; for (auto s : exotic) if (chance(2, 3, "exotic")) ex += s;
    t.insert(at, ex); t += exotic_trees; 
    { size_t p; while ((p = t.find("prepend(")) != std::string::npos) t.replace(p, 7, "cb11"); } e.loads = {t}; for (int i = 0; i < nt; i++) e.names.push_back(fmt("t%d", i)); e.names.push_back("zsub"); e.names.push_back("znest1"); e.active = "t0";
    e.o.pref = chance(1, 4, "pm") ? choose(4, "pref") : 0; e.o.ign = chance(1, 4, "ign"); e.o.excl = chance(1, 4, "excl"); e.o.expfirst = chance(1, 4, "expf"); e.o.xsd = e.g.plainre && chance(1, 2, "xsd"); e.tabmode = choose(8, "tabmode"); e.hlines = choose(3, "hl"); e.htrunc = choose(2, "ht"); e.hist_on = chance(1, 2, "hf"); e.gen_exp(false);
    LOG("grammar\n%s", t.c_str()); cligen_handle h = e.fresh(); std::string tr0 = e.trees(h); int rounds = 1 + choose(g_thorough ? 6 : 3, "rounds");
    for (int r = 0; r < rounds; r++) {
        { Span sp("history"); int n = choose(12, "ops"); for (int i = 0; i < n; i++) { Span s2("op"); e.gen_exp(true); C11Env::Op op;
            if (chance(1, 12, "other")) { switch (choose(3, "which")) {
                case 0: { LOG("  activate nosuch"); cligen_ph_active_set_byname(h, (char *)"nosuch"); if (chance(1, 2, "try")) { op = e.random_op(); if (op.kind != 1) e.run(h, op); } cligen_ph_active_set_byname(h, (char *)e.active.c_str()); continue; }
                case 1: LOG("  find nosuch"); cligen_ph_find(h, (char *)"nosuch"); continue;
                case 2: { op.kind = 3; static const char *bad[] = {"a b, cb1(", "treename=\"t0\"\nx;", "a <v:nosuchtype>;", "a (b|c;", "a [b;", "}", "a \"unterminated"}; op.s = bad[choose(7, "bad")]; LOG("  load bad %s", esc(op.s).c_str()); std::string res = e.run(h, op); stat_add("probe.bad_load"); continue; } } }
            op = e.random_op(); if (chance(1, 15, "abort")) { op.kind = 0; op.s = e.script() + "\003"; op.s.pop_back(); }
            std::string res = e.run(h, op); LOG("used: op %d %s ->\n%s", op.kind, esc(op.s).c_str(), res.c_str()); stat_add("probe.history_op"); } }
        if (e.g.overlap) { stat_add("probe.overlap_round"); checked(); continue; } // known finding: evaluation changes such a grammar; it must still be memory safe
        if (chance(1, 3, "switch")) { e.active = e.names[choose(e.names.size(), "tree")]; LOG("activate %s", e.active.c_str()); cligen_ph_active_set_byname(h, (char *)e.active.c_str()); }
        e.gen_exp(chance(1, 4, "failing")); e.ctl.histfail = false; e.probing = true; cligen_handle f = e.fresh(); cligen_ph_active_set_byname(f, (char *)e.active.c_str()); int n = 1 + choose(4, "probes");
        for (int i = 0; i < n; i++) { Span s3("probe"); C11Env::Op op = e.random_op(); std::string a = e.run(f, op), b = e.run(h, op); LOG("probe: op %d %s ->\n%s", op.kind, esc(op.s).c_str(), a.c_str()); checked(); stat_add("probe.compared"); if (a != b) violation("use:differs", "operation %d \"%s\" after use differs\n--- fresh copy:\n%s--- used:\n%s", op.kind, esc(op.s).c_str(), a.c_str(), b.c_str()); }
        std::string ta = e.trees(f), tb = e.trees(h); checked(); if (ta != tb || tb != tr0) { size_t p = 0; while (p < tb.size() && p < tr0.size() && tb[p] == tr0[p]) p++; violation("use:grammar", "the printed grammar changed by use, from \"%s\" to \"%s\"", esc(tr0.substr(p > 30 ? p - 30 : 0, 120)).c_str(), esc(tb.substr(p > 30 ? p - 30 : 0, 120)).c_str()); }
        cligen_exit(f); e.probing = false;
    }
    cligen_exit(h);
}
RegScenario r11({"C11", "differential simulation of a used handle against a freshly loaded copy of its grammar", run_c11, 40000, 1500000, 35, 500,
    "A handle goes through a random history of typed lines, completions, help, direct evaluations and rejected operations in which command, expansion and history callbacks fail; then random operations are done on it and on a fresh handle loaded from the same text, and everything they show is compared: output, callback calls with variables, arguments and matched object, results, reasons, callback chains and the printed grammar."});
}
