// C13: mode switching: active trees, working points, and what evaluation, completion and help see.
#include "compenv.h"
namespace {
enum { WPSET = 100, WPUP, WPTOP, WPSHOW };
const char *wpname[] = {"wpset", "wpup", "wptop", "wpshow"};
struct C13Env : CompEnv {
    bool evaluating = false; std::vector<GCb> want; size_t ran = 0; std::string cur; std::vector<std::string> names, added; std::set<std::string> empty; std::map<std::string, std::string> prompts; int nload = 0; bool actions = false;
    GNode *kw(std::vector<GNode *> &in, const std::string &s, bool end, std::vector<GCb> cbs) { GNode *n = g.mk(); n->name = s; n->end = end; n->cbs = cbs; in.push_back(n); return n; }
    GNode *ref(std::vector<GNode *> &in, const std::string &t, std::vector<GCb> cbs) { GNode *n = g.mk(); n->k = GNode::REF; n->name = t; n->end = true; n->cbs = cbs; in.push_back(n); return n; }
    std::string cbs(const std::vector<GCb> &c) { std::string s; for (auto &b : c) s += b.fn >= WPSET ? fmt(", %s(\"%s\")", wpname[b.fn - WPSET], b.arg.c_str()) : fmt(", cb%d(%s)", b.fn, b.arg.empty() ? "" : ("\"" + b.arg + "\"").c_str()); return s; }
    std::string stmts(const std::vector<GNode *> &v, std::string ind) { std::string s; for (auto *n : v) { if (n->k == GNode::REF) { s += ind + "@" + n->name + cbs(n->cbs) + ";\n"; continue; } s += ind + n->name; if (n->end) s += cbs(n->cbs) + ";"; if (!n->kids.empty()) s += " {\n" + stmts(n->kids, ind + "  ") + ind + "}"; s += "\n"; } return s; }
    // a mode tree that moves the working point of tree t
    std::string mode(const std::string &name, const std::string &t) {
        Span sp("mode tree"); GTree m; m.name = name; std::vector<GCb> ws = {{WPSET, t}}, wsc = ws; if (chance(1, 3, "extra")) wsc.push_back({(int)choose(10, "cb"), ""});
        GNode *e = kw(m.top, "edit", chance(2, 3, "end"), {}); if (e->end) e->cbs = chance(1, 2, "wp") ? wsc : std::vector<GCb>{}; ref(e->kids, t, ws);
        kw(m.top, "up", true, {{WPUP, t}}); kw(m.top, "top", true, {{WPTOP, t}}); kw(m.top, "show", true, {{WPSHOW, t}});
        if (chance(1, 2, "exec")) { GNode *x = kw(m.top, "exec", chance(1, 2, "end"), {{(int)choose(10, "cb"), ""}}); ref(x->kids, t, chance(1, 2, "cb") ? std::vector<GCb>{{(int)choose(10, "cb"), "RX"}} : std::vector<GCb>{}); }
        if (chance(1, 3, "deep")) { GNode *x = kw(m.top, "go", false, {}), *y = kw(x->kids, "in", true, ws); ref(y->kids, t, ws); }
        if (chance(2, 3, "plain")) ref(m.top, t, {});
        std::string s = "treename=\"" + name + "\";\n" + stmts(m.top, ""); g.trees.push_back(m); return s;
    }
    void effect(const GCb &c, const Gram::Match &m) {
        GTree *t = g.tree(c.arg); if (!t) return;
        if (c.fn == WPSET) { if (!m.from) { stat_add("probe.wpset_outside"); return; } t->wp = m.path; stat_add(m.from == t ? "probe.wp_down" : "probe.wp_down_nested"); }
        else if (c.fn == WPUP) { if (!t->wp.empty()) { t->wp.pop_back(); stat_add("probe.wp_up"); } }
        else if (c.fn == WPTOP) { t->wp.clear(); stat_add("probe.wp_top"); }
    }
    void check_state(const char *when) {
        checked(); pt_head *a = cligen_ph_active_get(h); const char *an = a ? cligen_ph_name_get(a) : nullptr; std::string w = known(active) ? active : "";
        if ((an ? an : "") != w) violation("mode:active", "%s the active tree is %s, expected %s", when, an ? an : "none", w.empty() ? "none" : w.c_str());
        for (auto &t : g.trees) { pt_head *ph = cligen_ph_find(h, (char *)t.name.c_str()); if (!ph) violation("mode:find", "%s tree %s is not found", when, t.name.c_str()); cg_obj *co = cligen_ph_workpoint_get(ph); std::string n = co ? co->co_command ? co->co_command : "?" : "", e = t.wp.empty() ? "" : t.wp.back()->name; if (n != e) violation("mode:workpoint", "%s the working point of tree %s is %s, expected %s", when, t.name.c_str(), n.empty() ? "top" : n.c_str(), e.empty() ? "top" : e.c_str()); }
        for (auto &p : prompts) { pt_head *ph = cligen_ph_find(h, (char *)p.first.c_str()); const char *s = ph ? cligen_ph_prompt_get(ph) : nullptr; if (!s || p.second != s) violation("mode:prompt", "%s the prompt of tree %s is %s, expected %s", when, p.first.c_str(), s ? s : "none", p.second.c_str()); }
    }
    bool known(const std::string &n) { if (g.tree(n)) return true; for (auto &a : added) if (a == n) return true; return false; }
    int cmd(int idx, cligen_handle hh, cvec *cvv, cvec *argv) override {
        if (!evaluating) return CompEnv::cmd(idx, hh, cvv, argv); checked();
        while (ran < want.size() && want[ran].fn >= WPSET) ran++;
        if (ran >= want.size() || want[ran].fn != idx) violation("mode:callback", "\"%s\" called cb%d, specified is %s", cur.c_str(), idx, ran < want.size() ? fmt("cb%d", want[ran].fn).c_str() : "nothing more"); ran++;
        if (actions && chance(1, 3, "action")) { other(true); } return 0;
    }
    // things the application does between commands or in callbacks
    void other(bool incb) {
        switch (pick_weighted({6, 2, 2, incb || nload > 2 ? 0 : 1, 1, 2}, "other")) {
        case 0: { std::string n = chance(1, 6, "unknown") ? "nosuch" : names[choose(names.size(), "tree")]; LOG("activate %s", n.c_str()); stat_add("probe.activate"); cligen_ph_active_set_byname(h, (char *)n.c_str()); active = n; std::string p = prompts.count(n) ? prompts[n] : prompt; break; }
        case 1: { std::string n = fmt("x%d", (int)added.size()); LOG("add %s", n.c_str()); pt_head *ph = cligen_ph_add(h, (char *)n.c_str()); if (!ph) violation("mode:add", "adding a tree failed"); added.push_back(n); names.push_back(n); if (chance(1, 2, "pt")) { parse_tree *pt = pt_new(); cligen_ph_parsetree_set(ph, pt); empty.insert(n); } break; }
        case 2: { std::string n = chance(1, 3, "unknown") ? "other" : names[choose(names.size(), "tree")]; pt_head *ph = cligen_ph_find(h, (char *)n.c_str()); if ((ph != nullptr) != known(n)) violation("mode:find", "finding tree %s gave %s", n.c_str(), ph ? "a tree" : "nothing"); break; }
        case 3: { g.text.clear(); std::string pfx = fmt("m%d_", nload++); g.generate(1, pfx, 3); LOG("load\n%s", g.text.c_str()); if (app_load(h, g.text, "more") < 0) violation("mode:load", "further syntax did not load:\n%s", g.text.c_str()); names.push_back(pfx + "0"); stat_add("probe.load"); break; }
        case 4: { GTree &t = g.trees[choose(g.trees.size(), "wtree")]; LOG("application resets the working point of %s", t.name.c_str()); cligen_ph_workpoint_set(cligen_ph_find(h, (char *)t.name.c_str()), nullptr); t.wp.clear(); break; }
        case 5: { std::string n = names[choose(names.size(), "tree")], p = fmt("p%d> ", (int)choose(100, "p")); LOG("prompt of %s", n.c_str()); cligen_ph_prompt_set(cligen_ph_find(h, (char *)n.c_str()), (char *)p.c_str()); prompts[n] = p; break; }
        }
    }
    bool idle(const WaitInfo &wi) override { return evaluating ? GEnv::idle(wi) : CompEnv::idle(wi); }
    void evaluate(std::string line) {
        auto tk = Gram::split(line); if (line.empty()) return; Gram::Match m = g.eval(*top(), tk, o, x); if (m.undetermined) { stat_add("probe.undetermined"); return; } bool none = !g.tree(active) && !empty.count(active);
        evaluating = true; want.clear(); ran = 0; cur = line; if (!none && m.r == Gram::Match::MATCH) want = m.calls; nfail = 0; pend = line + "\n"; tty.in.clear();
        LOG("line \"%s\" in %s", line.c_str(), active.c_str());
        char *got = nullptr, *reason = nullptr; int cbr = 0; cligen_result res = CG_ERROR; bool was_actions = actions; std::string act = active;
        // effects of the library's own callbacks; the application's run among them
        if (!none && m.r == Gram::Match::MATCH) for (auto &c : m.calls) if (c.fn >= WPSET) effect(c, m);
        int r = cliread_eval(h, &got, &cbr, &res, &reason); checked(); std::string why = reason ? reason : ""; if (reason) sim_free(reason); evaluating = false; actions = was_actions; LOG("  = %d result %d callback %d %s", r, (int)res, cbr, why.c_str());
        if (none) { stat_add("probe.none_active"); if (r >= 0) violation("mode:no-tree", "with no tree active evaluating \"%s\" reported no error (result %d)", line.c_str(), (int)res); }
        else if (m.r == Gram::Match::FAIL) { if (r >= 0) violation("mode:expand-failure", "\"%s\": an expansion callback failed but evaluation reported success", line.c_str()); }
        else { if (r < 0) violation("mode:error", "\"%s\" in tree %s: evaluation reported an error", line.c_str(), act.c_str()); cligen_result wr = m.r == Gram::Match::MATCH ? CG_MATCH : m.r == Gram::Match::MULTIPLE ? CG_MULTIPLE : CG_NOMATCH;
            if (res != wr) violation("mode:result", "\"%s\" in tree %s: result is %d (%s), expected %d %s", line.c_str(), act.c_str(), (int)res, why.c_str(), (int)wr, m.why.c_str());
            if (wr == CG_MATCH) { stat_add("probe.match"); if (cbr < 0) violation("mode:callback-result", "\"%s\": evaluation returned %d", line.c_str(), cbr); size_t left = 0; for (size_t i = ran; i < want.size(); i++) if (want[i].fn < WPSET) left++; if (left) violation("mode:callbacks", "\"%s\": not all callbacks were called", line.c_str()); } }
        check_state(("after \"" + line + "\"").c_str());
    }
    std::string line() {
        GTree *t = g.tree(active); if (!t) return "a b";
        if ((active == "m" || active == "n") && chance(1, 2, "modeword")) { static const char *w[] = {"up", "top", "edit", "show", "u", "e", "go in", "exec", "up a"}; return w[pick_weighted({8, 2, 3, 1, 1, 1, 1, 1, 1}, "w")]; }
        if ((active == "m" || active == "n") && chance(1, 2, "down")) { std::string l = g.gen_line(g.tree(active)->top[0]->kids, o, x); return word("edit " + l); }
        return word(g.gen_line(*top(), o, x));
    }
    void session() { // completion and help
        Span sp("session"); left.clear(); right.clear(); acts = 0; maxacts = 1 + choose(6, "acts"); finishing = unknown = expect = may_fail = false; pend.clear(); tty.in.clear(); what = "start"; nfail = 0; if (tty.vt.c || chance(1, 3, "clean")) tty.vt.reset(tty.cols);
        LOG("session in %s", active.c_str()); char *l = nullptr; int r = cliread(h, &l); LOG("cliread = %d %s", r, r < 0 ? "" : cq(l)); checked();
        if (r < 0) { if (!nfail) violation("comp:error", "after %s at \"%s|%s\" the editor reported an error although no callback failed", what.c_str(), left.c_str(), right.c_str()); return; }
        if (!l) violation("comp:lost", "the line was not returned"); std::string w = collapse(left + right); if (!unknown && (o.ign ? low(w) != low(l) : w != l)) violation("comp:result", "the line is \"%s\", expected \"%s\"", l, w.c_str());
        check_state("after completion and help");
    }
};
void run_c13() {
    set_budget(400ull * 1000 * 1000); C13Env e; env = &e; app = &e; e.chunk = chance(1, 2, "f"); e.eintr = chance(1, 4, "f"); e.failing = chance(1, 4, "f"); e.actions = chance(1, 2, "f");
    e.g.allow_ref = chance(1, 2, "ref"); e.g.allow_hide = chance(1, 3, "hide"); e.g.allow_exp = chance(1, 2, "exp"); e.g.allow_arg = false; tty.cols = 300; tty.rows = 24; tty.vt.reset(300);
    app_cbufs(); cligen_handle h = e.h = cligen_init(); if (!h) violation("init", "cligen_init failed without any fault"); cligen_paging_set(h, 0); cligen_comment_set(h, (char)0xff); cligen_prompt_set(h, (char *)e.prompt.c_str());
    std::string first = e.mode("m", "t0"), second = chance(1, 2, "n") ? e.mode("n", chance(1, 2, "same") ? "t0" : "s0") : ""; int nt = 1 + choose(2, "trees"); e.g.generate(nt, "t", 4); std::string t = e.g.text; e.g.text.clear(); e.g.generate(1, "s", 3); std::string all = first + second + t + e.g.text; LOG("grammar\n%s", all.c_str());
    if (app_load(h, all, "g") < 0) violation("mode:load", "the grammar did not load:\n%s", all.c_str()); for (auto &tr : e.g.trees) e.names.push_back(tr.name); e.active = "m"; e.o = GOpt(); gen_exp(e.x, false); e.rnd_opts(); e.o.pref = 0; e.set_opts(); e.check_state("after loading");
    int n = 3 + choose(g_thorough ? 40 : 20, "steps");
    for (int i = 0; i < n; i++) {
        Span sp("step"); if (chance(1, 8, "newexp")) gen_exp(e.x, e.failing);
        switch (pick_weighted({10, 3, e.active == "m" ? 2 : 6}, "step")) { case 0: e.evaluate(e.line()); break; case 1: e.session(); break; case 2: if (e.active != "m" && chance(1, 2, "home")) { LOG("activate m"); cligen_ph_active_set_byname(h, (char *)"m"); e.active = "m"; } else e.other(false); e.check_state("after application call"); break; }
    }
    cligen_exit(h);
}
RegScenario r13({"C13", "deterministic simulation of mode switching over random grammars against a reference matcher with working points", run_c13, 60000, 2000000, 35, 500,
    "Random mode trees over random grammars; lines that move the working points down, up and to the top, evaluations, completion and help at a simulated terminal, activations of known and unknown trees, trees added, found and loaded between commands and from callbacks; after every step the active tree, every tree's working point and prompt, and every result, callback and listing are compared with a reference."});
}
