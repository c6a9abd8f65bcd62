// An application on a random grammar whose user types lines at the simulated terminal.
#pragma once
#include "editenv.h"
#include "gram.h"
#include <errno.h>
inline void gen_exp(GExpand &x, bool faults, bool blanks = false) {
    Span s("expand values"); for (int i = 0; i < 8; i++) { x.vals[i].clear(); x.fail[i] = faults && chance(1, 8, "expfail"); std::set<std::string> u; int n = choose(4, "nvals"); for (int j = 0; j < n; j++) { std::string v; int l = 1 + choose(4, "l"); for (int k = 0; k < l; k++) v += "abcdx"[choose(5, "c")]; v.insert(choose(v.size() + 1, "at"), 1, chance(1, 2, "dx") ? (char)0x64 : (char)0x78); if (blanks && chance(1, 3, "blank")) v = "\"" + v.substr(0, 1) + " " + v.substr(1) + "\""; if (u.insert(v).second) x.vals[i].push_back(v); } }
    x.help = chance(1, 2, "xhelp");
}
// An application on a random grammar; lines are typed at the terminal.
struct GEnv : Env, App {
    cligen_handle h = nullptr; Gram g; GExpand x; GOpt o; std::string active; std::string pend; bool chunk = false, eintr = false; bool done = false;
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false; if (eintr && chance(1, 10, "eintr")) ev_at(1 + choose(500, "t"), [] { interrupt_now(); });
        if (pend.empty()) { ev_at(100, [] { tty.eof = true; }); return true; }
        size_t n = chunk && chance(1, 2, "chunk") ? 1 + choose(pend.size(), "n") : pend.size(); std::string s = pend.substr(0, n); pend.erase(0, n); ev_at(1 + choose(10000, "think"), [s] { tty_type(s); }); return true;
    }
    int expand(int idx, cligen_handle hh, char *name, cvec *cvv, cvec *argv, cvec *commands, cvec *help) override {
        stat_add("probe.expand"); std::string arg; for (int i = 0; argv && i < cvec_len(argv); i++) { char *v = cv2str_dup(cvec_i(argv, i)); arg += (i ? "," : "") + std::string(v ? v : "(null)"); sim_free(v); } std::vector<GVar> before; for (int i = 1; i < cvec_len(cvv); i++) { cg_var *cv = cvec_i(cvv, i); char *v = cv2str_dup(cv); before.push_back({cv_name_get(cv), v, cv_type2str(cv_type_get(cv)), (bool)cv_const_get(cv)}); sim_free(v); }
        if (x.fail[idx]) { stat_add("fault.expand_fails"); nfail++; LOG("  ex%d fails", idx); return failval(); }
        for (auto &v : gexp_values(x, idx, arg, before)) { if (v[0] == '"') { std::string w = v.substr(1, v.size() - 2); if (cligen_escape_need(w.c_str()) != 1) violation("comp:escape", "\"%s\" would not be quoted", w.c_str()); char *q = cligen_escape_do(w.c_str()); cvec_add_string(commands, nullptr, q); sim_free(q); } else cvec_add_string(commands, nullptr, v.c_str()); if (x.help) cvec_add_string(help, nullptr, "xh"); }
        return 0;
    }
    int translate(cligen_handle, cg_var *cv) override { stat_add("probe.translate"); std::string t = std::string("T") + cv_string_get(cv); cv_string_set(cv, t.c_str()); return 0; }
    int nfail = 0;
    void set_opts() { o.xsd = g.plainre && chance(1, 2, "xsd"); cligen_regex_xsd_set(h, o.xsd); cligen_preference_mode_set(h, o.pref); cligen_caseignore_set(h, o.ign); cligen_exclude_keys_set(h, o.excl); cligen_expand_first_set(h, o.expfirst); }
    std::vector<GNode *> *top() { GTree *t = g.tree(active); static std::vector<GNode *> none; return t ? &t->top : &none; }
};
