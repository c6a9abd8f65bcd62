// C19: specifications loaded from a stream that delivers its bytes in pieces, is interrupted, ends early or fails, compared with
// the same text loaded from a string in a fork of the simulated process; failed loads leave the trees loaded before as they were.
#include "lib.h"
#include "app.h"
#include "wild.h"
#include <errno.h>
namespace {
struct LOp { std::string text; int kind = 0; size_t at = 0; bool usept = false, usecvv = false, named = false, must_fail = false, must_load = false; const char *why = ""; };
struct LoadEnv : Env, App {
    cligen_handle h = nullptr; Wild g; std::string log; std::vector<std::string> lines;
    bool idle(const WaitInfo &wi) override { return !ev_empty(); }
    int cmd(int idx, cligen_handle, cvec *cvv, cvec *argv) override { log += fmt("cb%d(%s|%s)\n", idx, cvec_dump(argv).c_str(), cvec_dump(cvv).c_str()); return 0; }
    int expand(int idx, cligen_handle, char *name, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps) override { log += fmt("ex%d(%s|%s)\n", idx, name, cvec_dump(argv).c_str()); static const char *w[] = {"a", "ab", "b b", "abc", "x", "ca", "ba", "zz"}; for (int i = 0; i < 3; i++) cvec_add_string(cmds, nullptr, w[(idx + i * 3) % 8]); return 0; }
    int translate(cligen_handle, cg_var *cv) override { char *s = cv_isstring(cv_type_get(cv)) ? cv_string_get(cv) : nullptr; if (s) { std::string t = std::string("T") + s; cv_string_set(cv, (char *)t.c_str()); } return 0; }
    std::string eval(const std::string &line) {
        parse_tree *pt = cligen_pt_active_get(h); if (!pt) return "no tree\n"; std::vector<char> b(line.begin(), line.end()); b.push_back(0); cg_obj *mo = nullptr; cvec *cvv = nullptr; cligen_result res = CG_ERROR; char *reason = nullptr; log.clear();
        int r = cliread_parse(h, b.data(), pt, &mo, &cvv, &res, &reason); std::string s = fmt("%d result %d reason %s\n", r, (int)res, reason ? reason : "-"); if (r >= 0 && res == CG_MATCH) s += cvec_dump(cvv) + fmt(" value %d\n", cligen_eval(h, mo, cvv));
        if (reason) sim_free(reason); if (mo) co_free(mo, 0); if (cvv) cvec_free(cvv); return s + log; }
    std::string tree(pt_head *ph) { SimFile f; FILE *fp = simfile_open(&f, "w", 4096); fprintf(fp, "tree %s pipe %s\n", cligen_ph_name_get(ph), cligen_ph_pipe_get(ph) ? cligen_ph_pipe_get(ph) : "-"); if (cligen_ph_parsetree_get(ph)) { pt_print1(fp, cligen_ph_parsetree_get(ph), 0); } fclose(fp); return f.data; }
    std::vector<std::string> names() { std::vector<std::string> v; pt_head *ph = nullptr; while ((ph = cligen_ph_each(h, ph)) != nullptr) v.push_back(cligen_ph_name_get(ph)); return v; }
    // what the trees and command lines given to them show; only the first n trees if n is given
    std::string state(size_t n = ~(size_t)0) {
        std::string s; pt_head *ph = nullptr, *act = cligen_ph_active_get(h); size_t i = 0; s = fmt("active %s\n", act ? cligen_ph_name_get(act) : "-"); std::vector<std::string> nm; while ((ph = cligen_ph_each(h, ph)) != nullptr && i++ < n) { s += tree(ph); nm.push_back(cligen_ph_name_get(ph)); }
        std::string an = act ? cligen_ph_name_get(act) : "";
        for (auto &x : nm) { if (cligen_ph_active_set_byname(h, (char *)x.c_str()) < 0) { s += "not found " + x + "\n"; continue; } for (auto &l : lines) s += x + ": " + esc(l) + ": " + eval(l); }
        if (act && cligen_ph_active_set_byname(h, (char *)an.c_str()) < 0) violation("load:active", "the active tree %s is not found", an.c_str()); return s; }
    // one load; str: from a string (of which only the part before at is there if the stream ends early)
    std::string load(const LOp &o, bool str, SimFile *f, size_t bufsz, int &ret) {
        std::string s; out_flush(); tty.out.clear(); parse_tree *pt = o.usept ? pt_new() : nullptr; cvec *cvv = o.usecvv ? cvec_new(0) : nullptr; char *tn = o.named ? (char *)"named" : nullptr;
        if (str) { std::string t = o.kind == 1 ? o.text.substr(0, o.at) : o.text; std::vector<char> b(t.begin(), t.end()); b.push_back(0); ret = clispec_parse_str(h, b.data(), (char *)"spec", tn, pt, cvv); }
        else { FILE *fp = simfile_open(f, "r", bufsz); ret = clispec_parse_file(h, fp, (char *)"spec", tn, pt, cvv); fclose(fp); }
        out_flush(); s = fmt("%s\n", ret < 0 ? "error" : "loaded"); if (cvv) { s += "globals " + cvec_dump(cvv) + "\n"; cvec_free(cvv); } if (pt) { SimFile g; FILE *gp = simfile_open(&g, "w", 4096); pt_print1(gp, pt, 0); fclose(gp); s += "commands\n" + g.data; pt_free(pt, 1); }
        s += "terminal " + esc(tty.out, 100000) + "\n"; if (app_bind(h) < 0) s += "not bound\n"; return s; }
    void pad(std::string &t, std::vector<std::pair<size_t, size_t>> &inner) { // a comment in front so that the length is near a power of two, with bytes of every value in it
        size_t want = (size_t)1024 << choose(4, "pow"); want += choose(5, "off"); want -= 2; if (t.size() + 3 > want) return; std::string c = "#"; while (c.size() + 1 + t.size() < want) c += chance(1, 6, "odd") ? (char)(128 + choose(128, "c")) : "ab {;\"(<"[choose(8, "c")]; c += "\n"; for (auto &x : inner) x.first += c.size(), x.second += c.size(); t = c + t; stat_add("probe.padded"); }
    LOp gen(bool first) {
        Span sp("load"); LOp o; g.text.clear(); g.inner.clear(); g.width = 1; o.usecvv = chance(1, 3, "cvv"); o.usept = !first && chance(1, 6, "pt"); std::vector<std::string> tr = g.trees; 
        if (o.usept || chance(1, 5, "untitled")) { int n = 1 + choose(4, "tops"), budget = 3 + choose(8, "budget"); g.cur = ""; for (int i = 0; i < n; i++) g.stmt("", 0, "", budget); if (!o.usept && chance(1, 2, "named")) { o.named = true; } }
        if (!o.usept && (g.text.empty() || chance(1, 3, "more"))) { int n = 1 + choose(3, "trees"); for (int i = 0; i < n; i++) g.tree(chance(1, 8, "same") && !g.trees.empty() ? g.trees[choose(g.trees.size(), "name")] : fmt("t%d", (int)g.trees.size())); }
        o.text = g.text; o.must_load = true; auto inner = g.inner; if (chance(1, 3, "pad")) pad(o.text, inner); if (first) return o;
        switch (pick_weighted({6, 6, 5, 2, 3, 5}, "kind")) {
        case 0: break;
        case 1: o.kind = 1; o.at = choose((uint32_t)o.text.size() + 1, "at"); o.must_load = false; for (auto &x : inner) if (o.at >= x.first && o.at <= x.second) { o.must_fail = true; o.why = "which ends inside a statement"; } break;
        case 2: o.kind = 2; o.at = choose((uint32_t)o.text.size() + 1, "at"); o.must_load = false; o.must_fail = true; o.why = "of which not everything could be read"; break;
        case 3: o.kind = 3; o.at = choose((uint32_t)o.text.size(), "at"); o.text[o.at] = 0; o.must_load = false; o.must_fail = true; o.why = "with a NUL byte in it"; break;
        case 4: { if (chance(1, 2, "statement")) { static const char *bad[] = {"x <v:nosuchtype>;", "x <v:string foo:bar>;", "x (a|b;", "x [a;", ", cb0();", "x y, cb0(;", "x y, cb0();;", ";", "x <v:int32 range[a:b]>;", "x <v:int32 range[1:>;", "x <v:string regexp:abc>;", "x <v:string length[a]>;", "x <v:string keyword:>;", "x y = 3 4;", "x @;", "x { y }", "()", "(a|);", "x [];", "x <>;", "x <v:>;", "<:string> x;", "treename=;", "x <v:int32 range[1:2>;", "x <v:int32 preference:a>;", "x <v:int8 range[1:1000]>;", "x (a [b) c];"}; size_t k = choose(sizeof bad / sizeof *bad, "bad"); size_t at = inner.empty() ? 0 : inner[choose(inner.size(), "where")].first - 1; if (at && o.text[at - 1] == ' ') at = 0; o.text.insert(at, std::string(bad[k]) + "\n"); o.must_load = false; o.must_fail = true; o.why = "with a stray wrong statement"; break; }
            if (chance(1, 2, "unclosed")) { std::vector<size_t> c; for (auto &x : inner) if (o.text[x.second] == '}') c.push_back(x.second); if (!c.empty()) { o.text.erase(c[choose(c.size(), "which")], 1); o.must_load = false; o.must_fail = true; o.why = "with a stray unclosed brace"; break; } }
            size_t at = inner.empty() ? 0 : inner[choose(inner.size(), "where")].first - 1; o.text.insert(at, 1, "})]|"[choose(4, "c")]); o.must_load = false; o.must_fail = true; o.why = "with a stray closing character"; break; }
        case 5: Wild::mutate(o.text); for (auto &c : o.text) if (!c) c = ' '; o.must_load = false; break; }
        if (o.must_fail || !o.must_load) g.trees = tr; return o; }
};
std::string ldiff(const std::string &a, const std::string &b) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) q++; size_t f = q; while (f > 0 && a[f - 1] != '\n' && q - f < 200) f--; return "\"" + esc(a.substr(f, 300)) + "\", expected \"" + esc(b.substr(f, 300)) + "\""; }
void run_c19() {
    LoadEnv e; env = &e; app = &e; tty.vt_on = false; alloc_track(true); alloc_fail_off(); e.g.selfref = false;
    app_cbufs(); cligen_handle h = e.h = cligen_init(); if (!h) violation("init", "cligen_init failed"); e.g.pipe_tree("p"); std::string pre = e.g.text;
    { std::vector<char> b(pre.begin(), pre.end()); b.push_back(0); if (clispec_parse_str(h, b.data(), (char *)"pipes", nullptr, nullptr, nullptr) < 0) violation("load:pipes", "the pipe tree did not load"); app_bind(h); }
    int n = 2 + choose(g_thorough ? 8 : 4, "loads"); std::vector<LOp> ops; for (int i = 0; i < n; i++) ops.push_back(e.gen(i == 0));
    { int m = 2 + choose(5, "nlines"); for (int i = 0; i < m && !e.g.lines.empty(); i++) { std::string l = e.g.lines[choose(e.g.lines.size(), "line")]; if (chance(1, 6, "cut")) l.resize(choose(l.size() + 1, "cut")); e.lines.push_back(l); } }
    for (int i = 0; i < n; i++) {
        LOp &o = ops[i]; static const char *kn[] = {"whole", "cut off", "read error", "NUL", "stray", "mutated"}; int kind = o.why[0] == 'w' && strstr(o.why, "stray") ? 4 : o.kind == 0 && !o.must_load ? 5 : o.kind; stat_add((std::string("load.") + kn[kind]).c_str());
        LOG("load %d: %s%s%s%s\n%s", i, kn[kind], o.kind ? fmt(" at %zu of %zu", o.at, o.text.size()).c_str() : fmt(", %zu bytes", o.text.size()).c_str(), o.usept ? ", into a given tree" : "", o.usecvv ? ", with variables" : "", o.text.c_str());
        size_t nt = e.names().size(); std::string before = e.state(nt); if (e.state(nt) != before) { stat_add("probe.changed_by_use"); break; } // a finding of C11
        std::string ref, rst; if (o.kind <= 1) { ref = what_if("load:string", [&] { int r; std::string s = e.load(o, true, nullptr, 0, r); size_t l = s.size(); s += e.state(); return fmt("%zu ", l) + s; }); size_t l = atol(ref.c_str()), b = ref.find(' ') + 1; rst = ref.substr(b + l); ref = ref.substr(b, l); }
        SimFile f; f.data = o.kind == 1 ? o.text.substr(0, o.at) : o.text; if (o.kind == 2) { f.rderr_at = o.at; f.rd_errno = chance(1, 2, "eio") ? EIO : chance(1, 2, "e") ? EISDIR : ENXIO; }
        size_t mode = choose(3, "chunks"); if (mode) f.rchunk = [mode](size_t k) -> size_t { return mode == 1 ? 1 + choose((uint32_t)std::min<size_t>(k, 7), "chunk") : 1 + choose((uint32_t)k, "chunk"); };
        int intr = 0; if (chance(1, 3, "intr")) { int p = 1 + choose(mode == 1 ? 60 : 4, "rate"); f.rintr = [&intr, p] { if (intr < 8 && chance(1, p, "eintr")) { intr++; return true; } return false; }; }
        static const size_t bs[] = {0, 1, 7, 64, 512, 1024, 4096, 65536}; size_t bufsz = bs[choose(8, "buffer")]; int ret; std::string got = e.load(o, false, &f, bufsz, ret); checked(); LOG("  %s", ret < 0 ? "error" : "loaded"); stat_add(ret < 0 ? "probe.rejected" : "probe.loaded"); if (ret < 0 && e.names().size() > nt) stat_add("probe.rejected_after_a_tree");
        if (o.must_fail && ret >= 0) violation("load:accepted", "a specification %s was loaded as if it were complete (%s at %zu of %zu)", o.why, kn[kind], o.at, o.text.size());
        if (o.must_load && ret < 0) violation("load:rejected", "a complete and correct specification was rejected (%d interruptions): %s", intr, esc(got.substr(0, 200)).c_str());
        if (o.kind <= 1 && got != ref) violation("load:differs", "loading from the stream gives %s as from a string", ldiff(got, ref).c_str());
        if (ret < 0 || o.usept) { std::string st = e.state(nt); checked(); if (st != before) violation("load:earlier", "after %s the trees loaded before show %s", ret < 0 ? "the failed load" : "the load into another tree", ldiff(st, before).c_str()); }
        if (o.kind <= 1) { std::string st = e.state(); checked(); if (st != rst) violation("load:behaviour", "after loading from the stream the trees show %s as after loading from a string", ldiff(st, rst).c_str()); }
    }
    cligen_exit(h); out_flush(); checked(); size_t nl; std::string l = alloc_leaks(&nl); if (nl) violation("load:leak", "after the handle was released %zu blocks are still allocated:%s", nl, l.c_str());
}
RegScenario r19({"C19", "deterministic simulation of the stream a specification is loaded from: divided, interrupted, failing and cut-off reads at every byte, compared with loading the text from a string", run_c19, 60000, 1500000, 40, 600,
    "Random specifications (several trees, every feature, comments with bytes of every value, lengths around powers of two) are loaded one after the other through streams that divide their bytes at random, are interrupted by signals, fail or end at a random byte; results, variables, printed trees and a battery of command lines on every tree must equal those of the text (cut at the same byte) loaded from a string in a fork of the simulated process; cut-off inside a statement, read errors, NUL bytes and stray closing characters must be errors, and after an error every tree loaded earlier must print and behave as before."});
}
