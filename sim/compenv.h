// A user at a simulated terminal who completes and asks for help on a random grammar; the reference says what must be shown.
#pragma once
#include "genv.h"
inline std::string low(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
struct CompEnv : GEnv {
    std::string left, right, prompt = "cli> "; int tabmode = 0, hlines = 0, htrunc = 0; bool helps = true; int acts = 0, maxacts = 10; bool finishing = false, checkscreen = true;
    // what the last key should have done
    bool expect = false, may_fail = false; std::string what; bool lines_mode = false; std::set<std::string> want; bool want_known = true; 
    std::string word(const std::string &s) { std::string r; for (char c : s) r += (c == '"' && !blanks) || c == '#' ? 'z' : c; return r; } bool blanks = false; // expansion values with blanks in them, quoted
    std::vector<GTok> toks(const std::string &s) { auto v = Gram::split(s); if (s.empty() || (s.back() == ' ' && !(v.size() && v.back().open))) { v.push_back({}); } return v; }
    std::string entry(const GCand &c) {
        std::string name = c.kw ? c.s : "<" + (c.n->show.empty() ? c.n->name : c.n->show) + ">"; if (c.quoted()) for (char &ch : name) if (ch == ' ') ch = '_'; if (!lines_mode) return name;
        std::string hp = c.n->help; if (c.n->exp >= 0 && x.help) hp = "xh"; if (htrunc) return name; return hp.empty() ? name : name + " " + hp; }
    struct Undet {}; struct Failed {}; bool casediff = false; // the case of what was inserted is any candidate's
    std::string complete_once(const std::string &l) { // what is inserted at the end of l
        auto t = toks(l); if (t.back().closed) throw Undet{}; auto r = g.comp(*top(), t, o, x); if (r.undetermined) throw Undet{}; if (r.fail) throw Failed{};
        std::vector<std::string> k; for (auto &c : r.c) { if (c.kw) k.push_back(c.s); else if (tabmode & 2) return ""; } if (k.empty()) return "";
        size_t n = k[0].size(); bool eq = true; for (auto &s : k) { size_t j = 0; while (j < n && j < s.size() && Gram::ieq(s.substr(j), k[0].substr(j), 1, o.ign)) j++; n = j; if (s.size() != k[0].size() || !Gram::ieq(s, k[0], s.size(), o.ign)) eq = false; }
        size_t have = t.back().val.size(); if (o.ign) for (auto &s : k) if (s.substr(have, n - std::min(n, have)) != k[0].substr(have, n - std::min(n, have))) { casediff = true; if (tabmode & 4) throw Undet{}; }
        return (n > have ? k[0].substr(have, n - have) : "") + (eq ? " " : ""); }
    std::string complete(std::string l) { std::string all; for (int i = 0; i < 60; i++) { std::string s = complete_once(l); l += s; all += s; if (s.empty() || !(tabmode & 4)) break; } return all; }
    std::set<std::string> listing() {
        std::string l = left + right; auto t = toks(l); auto r = g.comp(*top(), t, o, x); if (r.undetermined) throw Undet{}; if (r.fail) throw Failed{};
        std::set<std::string> s; helpsof.clear(); for (auto &c : r.c) { s.insert(entry(c)); bool lm = lines_mode; lines_mode = false; helpsof[entry(c)].insert(c.n->exp >= 0 && x.help ? "xh" : c.n->help); lines_mode = lm; }
        if (lines_mode && t.size() > 1 && t.back().val.empty()) { auto tt = t; tt.pop_back(); auto m = g.eval(*top(), tt, o, x, true); if (m.undetermined) throw Undet{}; if (m.r == Gram::Match::FAIL) throw Failed{}; if (m.r == Gram::Match::MATCH) s.insert("<cr>"); }
        return s; }
    std::map<std::string, std::set<std::string>> helpsof; std::string dup; // an alternative listed twice
    std::set<std::string> shown() {
        dup.clear(); struct Uniq : std::set<std::string> { std::string *d; void insert(const std::string &x) { if (!std::set<std::string>::insert(x).second) *d = x; } } s; s.d = &dup; std::vector<std::string> seg; size_t i = 0; for (;;) { size_t j = tty.out.find('\n', i); if (j == std::string::npos) break; seg.push_back(tty.out.substr(i, j - i)); i = j + 1; }
        for (size_t k = 1; k < seg.size(); k++) { std::string r = seg[k]; bool inq = false; for (char &ch : r) { if (ch == '"') inq = !inq; else if (ch == ' ' && inq) ch = '_'; } while (!r.empty() && (r.back() == ' ' || r.back() == '\r')) r.pop_back(); size_t p = 0;
            if (lines_mode) { while (p < r.size() && r[p] == ' ') p++; if (p >= r.size()) continue; size_t q = r.find(' ', p); std::string n = r.substr(p, q - p), hp; if (q != std::string::npos) { p = r.find_first_not_of(' ', q); if (p != std::string::npos) hp = r.substr(p); } s.insert(htrunc || hp.empty() ? n : n + " " + hp); }
            else while ((p = r.find_first_not_of(' ', p)) != std::string::npos) { size_t q = r.find(' ', p); s.insert(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? r.size() : q; } }
        return s; }
    // a word offered by several alternatives with different help: whichever help is shown
    void same_names(std::set<std::string> &s) { if (!lines_mode || htrunc) return; std::map<std::string, int> n; for (auto &e : want) n[e.substr(0, e.find(' '))]++; auto strip = [&](std::set<std::string> &v) { std::set<std::string> r; for (auto &e : v) { std::string k = e.substr(0, e.find(' ')); r.insert(n[k] > 1 ? k : e); } v = r; }; strip(s); strip(want); }
    static std::string join(const std::set<std::string> &s) { std::string r; for (auto &e : s) r += (r.empty() ? "" : ", ") + e; return "{" + r + "}"; }
    void verify() {
        if (expect) { expect = false; checked(); if (nfail) violation("comp:failure-hidden", "%s at \"%s|%s\": an expansion callback failed but the editor went on as if it had not", what.c_str(), left.c_str(), right.c_str());
            if (want_known) { auto s = shown(); if (!dup.empty() && dup[0] != '<' && want.count(dup) && helpsof[dup.substr(0, dup.find(' '))].size() < 2) violation("comp:listed-twice", "%s at \"%s|%s\" lists %s twice", what.c_str(), left.c_str(), right.c_str(), dup.c_str()); same_names(s); if (s != want) violation("comp:listing", "%s at \"%s|%s\" lists %s, the legal continuations are %s", what.c_str(), left.c_str(), right.c_str(), join(s).c_str(), join(want).c_str()); LOG("  lists %s", join(s).c_str()); stat_add(want.empty() ? "probe.empty_list" : "probe.listed"); } }
        if (checkscreen && !unknown && prompt.size() + left.size() + right.size() + 4 < (size_t)tty.cols) {
            std::string row = tty.vt.row(tty.vt.r); while (!row.empty() && row.back() == ' ') row.pop_back(); std::string w = prompt + left + right; while (!w.empty() && w.back() == ' ') w.pop_back(); checked();
            if (o.ign ? low(row) != low(w) : row != w) violation("comp:line", "after %s the screen shows \"%s\", expected \"%s\"", what.c_str(), esc(row).c_str(), w.c_str());
            if (tty.vt.c != (int)(prompt.size() + left.size())) violation("comp:cursor", "after %s the cursor is in column %d, expected %zu (\"%s|%s\")", what.c_str(), tty.vt.c, prompt.size() + left.size(), left.c_str(), right.c_str()); }
    }
    bool unknown = false; // the reference does not determine the line any more: finish without comparing
    void send(const std::string &s) { pend = s; }
    void step() {
        verify(); tty.out.clear(); nfail = 0; Span sp("key");
        if (unknown || acts >= maxacts || !chance(11, 12, "more")) { what = "RETURN"; finishing = true; send("@\n"); left += "@"; return; }
        acts++; int k = pick_weighted({10, 5, left.empty() ? 24 : 9, 3, 2, 2}, "act");
        switch (k) {
        case 0: { what = "TAB"; stat_add("op.tab"); expect = true; want_known = true; lines_mode = tabmode & 1; std::string l0 = left; casediff = false;
            try { std::string s = complete(left); left += s; if (casediff) { want_known = false; acts = maxacts; } if (!s.empty()) stat_add(s == " " ? "probe.completed_blank" : s.back() == ' ' ? "probe.completed_unique" : "probe.completed_part"); want = listing(); } catch (Undet &) { unknown = true; expect = false; stat_add("probe.undetermined"); } catch (Failed &) { may_fail = true; stat_add("probe.must_fail"); }
            LOG("TAB at \"%s|%s\" -> \"%s\"", l0.c_str(), right.c_str(), left.c_str()); send("\t"); break; }
        case 1: { what = "?"; stat_add("op.help"); expect = true; lines_mode = true; want_known = true; try { want = listing(); } catch (Undet &) { expect = false; want_known = false; } catch (Failed &) { may_fail = true; stat_add("probe.must_fail"); } LOG("? at \"%s|%s\"", left.c_str(), right.c_str()); send("?"); break; }
        case 2: { what = "text"; std::string s = text(); LOG("text \"%s\"", s.c_str()); left += s; send(s); break; }
        case 3: { what = "moves"; std::string s; int n = 1 + choose(6, "n"); bool b = chance(2, 3, "back"); for (int i = 0; i < n; i++) { if (b && !left.empty()) { right.insert(0, 1, left.back()); left.pop_back(); s += "\002"; } else if (!b && !right.empty()) { left += right[0]; right.erase(0, 1); s += "\006"; } } if (chance(1, 3, "end")) { left += right; right.clear(); s += "\005"; } LOG("move to \"%s|%s\"", left.c_str(), right.c_str()); if (s.empty()) s = "\005", left += right, right.clear(); send(s); break; }
        case 4: { what = "deletes"; std::string s; int n = 1 + choose(5, "n"); for (int i = 0; i < n && !left.empty(); i++) { left.pop_back(); s += "\177"; } if (s.empty()) { s = "z"; left += "z"; } LOG("delete to \"%s|%s\"", left.c_str(), right.c_str()); send(s); break; }
        case 5: { what = "new values"; gen_exp(x, failing, blanks); LOG("new expansion values"); left += "b"; send("b"); break; }
        }
    }
    bool failing = false;
    std::string text() { // what the user types next: the rest of a line that fits, or a bit of it
        GExpand y = x; for (auto &f : y.fail) f = false; std::string l = word(g.gen_line(*top(), o, y)); if (left.empty()) { if (chance(1, 2, "cut")) l = l.substr(0, choose(l.size() + 1, "cut")); if (chance(1, 3, "sp")) l += " "; }
        else if (chance(1, 3, "sp")) l = " "; else l = l.substr(0, 1 + choose(3, "cut")); 
        if (chance(1, 12, "blanks")) { size_t p = l.find(' '); if (p != std::string::npos) l.insert(p, 2, ' '); } if (l.empty()) l = "a"; return l; }
    bool idle(const WaitInfo &wi) override {
        if (!wi.key) return false; if (eintr && chance(1, 10, "eintr")) ev_at(1 + choose(500, "t"), [] { interrupt_now(); });
        if (pend.empty()) { if (finishing) { ev_at(100, [] { tty.eof = true; }); return true; } step(); }
        size_t n = chunk && chance(1, 2, "chunk") ? 1 + choose(pend.size(), "n") : pend.size(); std::string s = pend.substr(0, n); pend.erase(0, n); ev_at(1 + choose(10000, "think"), [s] { tty_type(s); }); return true;
    }
    int cmd(int idx, cligen_handle, cvec *, cvec *) override { violation("comp:command-run", "command callback cb%d was called while a line was edited (after %s)", idx, what.c_str()); }
    void rnd_opts() { o.pref = chance(1, 4, "pm") ? choose(4, "pref") : 0; o.ign = chance(1, 4, "ign"); tabmode = choose(8, "tabmode"); htrunc = chance(1, 4, "tr"); hlines = choose(3, "hl"); cligen_tabmode_set(h, tabmode); cligen_helpstring_truncate_set(h, htrunc); cligen_helpstring_lines_set(h, hlines); set_opts(); LOG("options pref %d ignorecase %d tabmode %d", o.pref, o.ign, tabmode); }
    std::string trees() { SimFile f; FILE *fp = simfile_open(&f, "w", 4096); pt_head *ph = nullptr; while ((ph = cligen_ph_each(h, ph)) != nullptr) { fprintf(fp, "tree %s\n", cligen_ph_name_get(ph)); if (cligen_ph_parsetree_get(ph)) pt_print1(fp, cligen_ph_parsetree_get(ph), 0); } fclose(fp); return f.data; }
};
inline std::string collapse(const std::string &s) { std::string r; for (char c : s) { if (c == ' ' && (r.empty() || r.back() == ' ')) continue; r += c; } while (!r.empty() && r.back() == ' ') r.pop_back(); return r; }
