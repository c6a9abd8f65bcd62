// A random grammar: its specification text and, from the same draw, a reference of what it means.
#pragma once
#include "app.h"
#include <arpa/inet.h>
#include <map>
#include <regex.h>
#include <memory>
#include <set>
struct GCb { int fn; std::string arg; };                     // cbN("arg"); arg empty: none
struct GNode {
    enum K { KW, VAR, REF } k = KW;
    std::string name, help, vtype, regex, show, exparg; bool hide = false, end = false, shared = false, ranged = false, haslen = false, two = false, one = false, inv = false, inv2 = false, tr = false;
    long lo = 0, hi = 0, lo2 = 0, hi2 = 0; int fd = 0, prefv = 0; std::string regex2; std::vector<std::string> choice; int exp = -1;
    std::vector<GCb> cbs; std::vector<GNode *> kids;
    bool rest() const { return k == VAR && vtype == "rest"; }
};
struct GTree { std::string name; std::vector<GNode *> top, wp; const std::vector<GNode *> &seen() const { return wp.empty() ? top : wp.back()->kids; } }; // wp: path to the working point
struct GExpand {                                             // what the expansion callbacks return now
    std::vector<std::string> vals[8]; bool fail[8] = {}; bool help = false;
};
struct GVar { std::string name, val, type; bool kw; };       // one entry of the variable vector
struct GOpt { int pref = 0; bool ign = false, excl = false, expfirst = false, xsd = false; };
inline std::string gvar_dump(const GVar &v) { return v.name + (v.kw ? "!" : "") + "=" + esc(v.val) + ":" + v.type; }
// The values an expansion offers, given the variables typed before it.
inline std::vector<std::string> gexp_values(const GExpand &x, int idx, const std::string &arg, const std::vector<GVar> &before) {
    std::vector<std::string> r = x.vals[idx]; std::string last; int n = 0;
    for (auto &v : before) if (!v.kw) { last = v.val; n++; }
    if (idx % 2 == 1 && n) { std::string s = "v" + std::to_string(n); for (char c : last) if (isalnum((unsigned char)c)) s += c; r.push_back(s); }
    if (idx % 4 == 2 && !arg.empty()) r.push_back("arg" + arg);
    return r;
}
struct GCand { GNode *n; bool kw; std::string s; const std::vector<GCb> *refcbs; bool top; GTree *from = nullptr; bool quoted() const { return kw && s[0] == '"'; } std::string word() const { return quoted() ? s.substr(1, s.size() - 2) : s; } };   // kw: keyword (or value); s: its text
struct GTok { std::string raw, val, rest; bool closed = false, open = false; }; // quoted: with, without the end quote
struct Gram {
    std::vector<std::unique_ptr<GNode>> pool; std::vector<GTree> trees; std::string text; std::set<std::string> used; int uniq = 0, alts = 0; bool allow_exp = true, allow_ref = true, allow_hide = true, allow_opt = true, allow_arg = true, allow_tr = true, ign_case_kw = false, overlap = false, longkw = false; int prefix = 0;
    bool plainre = false; /* no anchors: the regular expressions mean the same to both engines */ int n_re() { return plainre ? 7 : 10; }
    GNode *wide = nullptr; // the latest 64-bit variable with one interval
    std::vector<std::string> kws; // every keyword made, for typing
    GNode *mk() { pool.emplace_back(new GNode()); return pool.back().get(); }
    GTree *tree(const std::string &n) { for (auto &t : trees) if (t.name == n) return &t; return nullptr; }
    std::string newkw(std::set<std::string> &used) { for (int g = 0;; g++) { std::string s; if (overlap && !kws.empty() && chance(1, 2, "samekw")) return kws[choose(kws.size(), "which")]; int n = 1 + choose(g > 10 ? 8 : 4, "kwlen"); if (longkw && chance(1, 4, "longkw")) n += 20 + choose(80, "more"); for (int i = 0; i < n; i++) s += "abc"[choose(3, "kwc")]; if (ign_case_kw && chance(1, 4, "up")) s[0] = toupper(s[0]); std::string k; for (char c : s) k += tolower(c); if (k == "cb" || (!used.insert(k).second && !overlap)) continue; kws.push_back(s); return s; } }
    std::string kwtext(GNode *n) { std::string s = n->name; if (!n->help.empty()) s += "(\"" + n->help + "\")"; return s; }
    GNode *gen_kw(std::set<std::string> &used, std::string &out) { GNode *n = mk(); n->name = newkw(used); if (chance(1, 3, "help")) n->help = "help of " + n->name; out += kwtext(n); return n; }
    std::string vname() { uniq++; if (!kws.empty() && chance(1, 6, "kwname")) { size_t b = kws.size() > 4 ? kws.size() - 4 : 0; return kws[b + choose(kws.size() - b, "which")]; } return fmt("v%d", uniq - 1); } // a variable may be named like a keyword next to it
    GNode *gen_var(std::string &out, bool top) {
        GNode *n = mk(); n->k = GNode::VAR; n->name = vname(); int k = pick_weighted({4, 5, 2, 2, 1, 1, 3, allow_exp ? (top ? 2 : 4) : 0, 1, 1, 2, 3}, "vartype"); std::string at;
        auto interval = [&](const char *w, bool sg, long base, long span, auto show) { n->lo = base + choose(span, "lo"); n->hi = n->lo + choose(span, "hi"); if (sg && chance(1, 3, "neg")) n->lo = -n->lo; n->one = !sg && chance(1, 4, "one"); if (n->one) n->lo = 0; at += std::string(" ") + w + "[" + (n->one ? "" : show(n->lo) + ":") + show(n->hi) + "]"; if (chance(1, 4, "two")) { n->two = true; n->lo2 = n->hi + 2 + choose(9, "lo"); n->hi2 = n->lo2 + choose(span, "hi"); at += std::string(" ") + w + "[" + show(n->lo2) + ":" + show(n->hi2) + "]"; } };
        auto num = [](long v) { return std::to_string(v); };
        switch (k) {
        case 0: n->vtype = "string"; n->tr = allow_tr && chance(1, 6, "tr"); break;
        case 1: { static const char *its[] = {"int8","int16","int32","int64","uint8","uint16","uint32","uint64"}; int i = choose(8, "int"); n->vtype = its[i]; if (chance(1, 2, "range")) { n->ranged = true; bool big = i % 4 == 3 && chance(1, 4, "big"); interval("range", i < 4, big ? 4294967000L * (1 + choose(2, "b")) : 0, big ? 600 : 30, num); if (i % 4 == 3) { if (wide && wide->vtype == n->vtype && chance(1, 2, "wider")) { n->lo = wide->lo; n->hi = wide->hi + 4294967296L; n->two = n->one = false; at = " range[" + num(n->lo) + ":" + num(n->hi) + "]"; } if (!n->two && !n->one) wide = n; } } break; }
        case 2: n->vtype = "string"; n->haslen = true; interval("length", false, 1, 4, num); break;
        case 3: { n->vtype = "string"; static const char *rs[] = {"[a-b]+", "[0-9]+", "x.*", "(ab|ba)", "[a-z]+", "ab|ba", "a|b|[0-9]{2}", "^[a-b]+$", "^x.*", "[0-9]+$"}; n->regex = rs[choose(n_re(), "re")]; n->inv = chance(1, 6, "inv"); at = std::string(" regexp:") + (n->inv ? "!" : "") + "\"" + n->regex + "\""; if (chance(1, 4, "two")) { n->regex2 = rs[choose(n_re(), "re")]; n->inv2 = chance(1, 2, "inv"); at += std::string(" regexp:") + (n->inv2 ? "!" : "") + "\"" + n->regex2 + "\""; } break; }
        case 4: n->vtype = "ipv4addr"; break;
        case 5: n->vtype = "macaddr"; break;
        case 6: { n->vtype = "string"; int m = 1 + choose(4, "nch"); if (chance(1, 6, "keyword")) { n->choice.push_back(newkw(used)); at = " keyword:" + n->choice[0]; break; } bool nums = chance(1, 6, "numbers"); if (nums) n->vtype = chance(1, 2, "u") ? "int32" : "uint8"; at = " choice:"; for (int i = 0; i < m; i++) { std::string c; if (nums) do c = std::to_string(choose(200, "n")); while (!used.insert(c).second); else c = newkw(used); n->choice.push_back(c); at += (i ? "|" : "") + c; } break; }
        case 7: n->vtype = "string"; n->exp = choose(8, "exp"); { std::string as; int na = chance(1, 2, "earg") ? 1 + (chance(1, 4, "eargs") ? 1 + choose(2, "n") : 0) : 0; for (int i = 0; i < na; i++) { std::string v = fmt("E%d", choose(3, "ea")); if (i) as += ",", n->exparg += ","; switch (pick_weighted({4, na == 1 ? 1 : 0 /* the scanner takes commas into names here */, 1, 1}, "form")) { case 0: as += "\"" + v + "\""; break; case 1: as += v; break; case 2: as += "(string)\"" + v + "\""; break; case 3: v = "42"; as += "(int32)\"42\""; break; } n->exparg += v; } at = fmt(" ex%d(%s)", n->exp, as.c_str()); break; }
        case 8: n->vtype = "bool"; break;
        case 9: n->vtype = "interface"; break;
        case 10: { n->vtype = "decimal64"; n->fd = 2; if (chance(2, 3, "fd")) { n->fd = 1 + choose(chance(1, 4, "big") ? 18 : 5, "fd"); at = fmt(" fraction-digits:%d", n->fd); } if (n->fd < 12 && chance(1, 2, "range")) { n->ranged = true; int fd = n->fd; interval("range", true, 0, fd < 3 ? 400 : 300000, [fd](long v) { return dec_text(v, fd); }); } break; }
        case 11: { static const char *ts[] = {"ipv4prefix", "ipv6addr", "ipv6prefix", "uuid", "url", "time"}; n->vtype = ts[choose(6, "type")]; break; }
        }
        if (k != 6 && k != 7) { std::string pre; if (chance(1, 12, "pref")) { n->prefv = 1 + choose(120, "p"); pre += fmt(" preference:%d", n->prefv); } if (n->tr) pre += " translate:tr0()"; if (chance(1, 6, "show")) { n->show = n->name + "show"; if (chance(1, 2, "late")) at += " show:\"" + n->show + "\""; else pre += " show:\"" + n->show + "\""; } at = pre + at; }
        out += "<" + n->name + ":" + n->vtype + at + ">"; if (chance(1, 4, "help")) { n->help = "help of " + n->name; out += "(\"" + n->help + "\")"; }
        return n;
    }
    // variables the library regards as one and the same when they stand at one place
    static bool equal_vars(const GNode *a, const GNode *b) {
        if (a->k != GNode::VAR || b->k != GNode::VAR || a->vtype != b->vtype) return false; if (a->exp >= 0 || b->exp >= 0) return a->exp == b->exp; if (!a->choice.empty() || !b->choice.empty()) return a->choice == b->choice;
        return a->fd == b->fd && a->regex == b->regex && a->regex2 == b->regex2 && a->inv == b->inv && a->inv2 == b->inv2 && a->ranged == b->ranged && a->haslen == b->haslen && a->lo == b->lo && a->hi == b->hi && a->two == b->two && a->lo2 == b->lo2 && a->hi2 == b->hi2; }
    static std::string dec_text(long v, int fd) { std::string s = std::to_string(v < 0 ? 0UL - (unsigned long)v : (unsigned long)v); while ((int)s.size() <= fd) s.insert(0, 1, '0'); s.insert(s.size() - fd, 1, '.'); return (v < 0 ? "-" : "") + s; }
    static bool is_dec(const std::string &s, int fd, long &v) { size_t i = s[0] == '-'; if (s.find_first_of("0123456789") == std::string::npos) return false; __int128 n = 0; int frac = -1; for (; i < s.size(); i++) { if (s[i] == '.' && frac < 0) { frac = 0; continue; } if (!isdigit((unsigned char)s[i]) || n > ((__int128)1 << 90)) return false; n = n * 10 + (s[i] - '0'); if (frac >= 0 && ++frac > fd) return false; } for (int k = frac < 0 ? 0 : frac; k < fd; k++) n *= 10; if (s[0] == '-') n = -n; if (n > 9223372036854775807L || n < -(__int128)9223372036854775807L - 1) return false; v = n; return true; }
    static bool is_int(const std::string &s, __int128 &v) { size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; i++; } if (i >= s.size() || s.size() - i > 25) return false; v = 0; int base = s[i] == '0' ? 8 : 10; if (s[i] == '0' && i + 2 < s.size() && (s[i + 1] | 32) == 'x') { base = 16; i += 2; } for (; i < s.size(); i++) { int c = tolower((unsigned char)s[i]), d = isdigit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99; if (d >= base) return false; v = v * base + d; } if (neg) v = -v; return true; }
    static std::string canon(const std::string &t, const std::string &s) { // the value as printed, for the types with a fixed form; empty: not valid
        if (t == "ipv4prefix" || t == "ipv6prefix") { size_t k = s.find('/'); __int128 m; if (k == std::string::npos || !is_int(s.substr(k + 1), m) || m < 0 || m > (t == "ipv4prefix" ? 32 : 128)) return ""; std::string a = canon(t == "ipv4prefix" ? "ipv4addr" : "ipv6addr", s.substr(0, k)); return a.empty() ? "" : a + "/" + std::to_string((int)m); }
        if (t == "ipv4addr" || t == "ipv6addr") { int af = t == "ipv4addr" ? AF_INET : AF_INET6; char b[64], o[64]; if (inet_pton(af, s.c_str(), b) != 1) return ""; return inet_ntop(af, b, o, sizeof o) ? o : ""; }
        if (t == "uuid") { if (s.size() != 36) return ""; std::string r; for (size_t i = 0; i < 36; i++) { bool dash = i == 8 || i == 13 || i == 18 || i == 23; if (dash ? s[i] != '-' : !isxdigit((unsigned char)s[i])) return ""; r += tolower((unsigned char)s[i]); } return r; }
        if (t == "url") { size_t k = s.find(':'); if (k == std::string::npos || s.compare(k, 3, "://")) return ""; std::string proto = s.substr(0, k), rest = s.substr(k + 3), who, path; size_t at = rest.find('@'); if (at != std::string::npos) { who = rest.substr(0, at); rest = rest.substr(at + 1); if (!who.empty() && who.back() == ':') who.pop_back(); if (!who.empty()) who += "@"; } size_t sl = rest.find('/'); if (sl != std::string::npos) { path = rest.substr(sl + 1); rest = rest.substr(0, sl); } return proto + "://" + who + rest + "/" + path; }
        if (t == "time") { static const char *f = "0000-00-00T00:00:00"; if (s.size() < 19) return ""; for (int i = 0; i < 19; i++) if (f[i] == '0' ? !isdigit((unsigned char)s[i]) : s[i] != f[i]) return ""; int mo = atoi(s.c_str() + 5), d = atoi(s.c_str() + 8), y = atoi(s.c_str()); if (y < 1970 || y > 2104 || mo < 1 || mo > 12 || d < 1 || d > 28 || atoi(s.c_str() + 11) > 23 || atoi(s.c_str() + 14) > 59 || atoi(s.c_str() + 17) > 59) return ""; std::string fr, r = s.substr(19); if (!r.empty() && r.back() == 'Z') r.pop_back(); if (!r.empty()) { if (r[0] != '.' || r.size() < 2 || r.size() > 7) return ""; fr = r.substr(1); for (char c : fr) if (!isdigit((unsigned char)c)) return ""; } while (fr.size() < 6) fr += '0'; return s.substr(0, 19) + "." + fr + "Z"; }
        return ""; }
    static bool rematch(const std::string &re0, const std::string &s) { static std::map<std::string, regex_t> m; std::string re = re0; if (re[0] == '^') re.erase(0, 1); if (re.back() == '$') re.pop_back(); auto it = m.find(re); if (it == m.end()) { it = m.emplace(re, regex_t()).first; if (regcomp(&it->second, ("^(" + re + ")$").c_str(), REG_EXTENDED | REG_NOSUB)) harness_error("regcomp %s", re.c_str()); } return regexec(&it->second, s.c_str(), 0, nullptr, 0) == 0; }
    static bool within(const GNode *n, __int128 v) { return (v >= n->lo && v <= n->hi) || (n->two && v >= n->lo2 && v <= n->hi2); }
    bool has_twin(std::vector<GNode *> &l, GNode *x) { if (overlap) return false; for (auto *y : l) { if (equal_vars(x, y)) return true; if (y->k == GNode::REF) if (GTree *t = tree(y->name)) if (has_twin(t->top, x)) return true; } return false; }
    static void dedup(std::vector<GNode *> &v) { std::vector<GNode *> r; for (auto *n : v) { bool in = false; for (auto *m : r) if (m == n) in = true; if (!in) r.push_back(n); } v = r; }
    // a sequence of items after parents; returns the nodes the sequence can end in
    std::vector<GNode *> gen_seq(std::vector<GNode *> parents, std::vector<GNode *> *toplist, std::set<std::string> &used, std::string &out, int depth, int maxitems, bool restok) {
        int n = 1 + choose(maxitems, "items"); bool sawrest = false;
        for (int i = 0; i < n && !sawrest; i++) {
            if (i) out += ' ';
            bool top = toplist && i == 0; auto add = [&](GNode *x) { if (top) toplist->push_back(x); else { x->shared = parents.size() > 1; for (auto *p : parents) p->kids.push_back(x); } };
            auto twin = [&](GNode *x) { auto in = [&](std::vector<GNode *> &l) { return has_twin(l, x); }; if (top) return in(*toplist); for (auto *p : parents) if (in(p->kids)) return true; return false; };
            int k = pick_weighted({10, 6, depth < 2 && alts < 6 ? 3 : 0, (allow_opt && depth < 2 && !top && alts < 6) ? 2 : 0, restok && !top && i == n - 1 ? 1 : 0}, "item");
            if (k == 0) {
                GNode *x = nullptr; if (depth == 0 && (top || parents.size() == 1) && chance(1, 4, "again")) { std::vector<GNode *> c; for (auto *y : top ? *toplist : parents[0]->kids) if (y->k == GNode::KW && !y->shared && !y->hide) c.push_back(y); if (!c.empty()) x = c[choose(c.size(), "which")]; }
                if (x) out += x->name; else { x = gen_kw(used, out); add(x); } parents = {x}; }
            else if (k == 1) { GNode *x; std::string o; int t = 0; do { o.clear(); x = gen_var(o, top); } while (twin(x) && ++t < 6); if (t == 6) { o.clear(); x = gen_kw(used, o); } out += o; add(x); parents = {x}; }
            else if (k == 2) { alts++; out += '('; std::vector<GNode *> ends; int m = 2 + choose(2, "alts"); for (int j = 0; j < m; j++) { if (j) out += '|'; auto e = gen_seq(parents, top ? toplist : nullptr, used, out, depth + 1, 2, false); ends.insert(ends.end(), e.begin(), e.end()); } out += ')'; parents = ends; dedup(parents); }
            else if (k == 3) { alts++; out += '['; auto e = gen_seq(parents, nullptr, used, out, depth + 1, 2, false); out += ']'; parents.insert(parents.end(), e.begin(), e.end()); dedup(parents); }
            else { GNode *x = mk(); x->k = GNode::VAR; x->vtype = "rest"; x->name = vname(); if (twin(x)) { x = gen_kw(used, out); sawrest = false; } else { out += "<" + x->name + ":rest>"; sawrest = true; } add(x); parents = {x}; }
        }
        return parents;
    }
    std::string cbtext(std::vector<GCb> &cbs, int maxn, bool force) {
        std::string s; int n = force ? 1 + choose(maxn, "ncb") : choose(maxn + 1, "ncb"); for (int i = 0; i < n; i++) { GCb c; c.fn = choose(10, "cb"); if (allow_arg && chance(1, 2, "cbarg")) c.arg = fmt("A%d", choose(100, "arg")); s += fmt(", cb%d(%s)", c.fn, c.arg.empty() ? "" : ("\"" + c.arg + "\"").c_str()); cbs.push_back(c); } return s;
    }
    // one statement under parents (or at top level)
    void gen_stmt(std::vector<GNode *> parents, std::vector<GNode *> *toplist, std::set<std::string> &used, int depth, const std::vector<std::string> &refs, std::string indent, int &budget) {
        text += indent; budget--;
        if (!toplist && allow_ref && !refs.empty() && chance(1, 5, "ref")) {
            GNode *r = mk(); r->k = GNode::REF; r->name = refs[choose(refs.size(), "which")]; for (auto *p : parents) for (auto *q : p->kids) if (q->k == GNode::REF && !overlap) { text += "\n"; return; }
            for (auto *p : parents) for (auto *q : tree(r->name)->top) if (has_twin(p->kids, q)) { text += "\n"; return; }
            text += "@" + r->name; text += cbtext(r->cbs, 1, false); text += ";\n"; r->end = true; for (auto *p : parents) p->kids.push_back(r); return; }
        std::string s; auto ends = gen_seq(parents, toplist, used, s, 0, 3, true); text += s;
        bool rest = false, again = false; for (auto *e : ends) { if (e->rest()) rest = true; if (e->end) again = true; }
        bool nest = !rest && depth < 3 && budget > 0 && chance(1, 2, "nest"), term = !nest || chance(1, 2, "term");
        if (term) { bool hide = allow_hide && !again && chance(1, 8, "hide"); std::vector<GCb> cbs; if (hide) text += ", hide"; if (!again) text += cbtext(cbs, chance(1, 4, "many") ? 3 : 1, chance(9, 10, "hascb")); text += ";"; for (auto *e : ends) { e->end = true; if (!again) e->cbs = cbs; if (hide) e->hide = true; } }
        if (nest) { text += "{\n"; int m = 1 + choose(3, "stmts"); for (int i = 0; i < m; i++) gen_stmt(ends, nullptr, used, depth + 1, refs, indent + "  ", budget); text += indent + "}"; }
        text += "\n";
    }
    // trees t0.. ; the later ones can be referenced by the earlier ones
    void generate(int ntrees, const std::string &pfx, int size) { if (trees.empty()) plainre = chance(1, 3, "plain regexps");
        std::vector<std::string> names; for (int i = 0; i < ntrees; i++) names.push_back(pfx + std::to_string(i));
        size_t base = trees.size(); for (auto &n : names) trees.push_back({n, {}});
        std::string all;
        for (int i = ntrees - 1; i >= 0; i--) {
            Span sp("tree"); GTree &t = trees[base + i]; text.clear(); text += "treename=\"" + t.name + "\";\n"; int m = 1 + choose(size, "tops"), budget = 6 + (int)choose(10, "budget"); std::vector<std::string> refs(names.begin() + i + 1, names.end());
            for (int j = 0; j < m; j++) alts = 0, gen_stmt({}, &t.top, used, 0, refs, "", budget);
            all = text + all;
        }
        text = all;
    }
    // -------------------------------------------------------------- reference
    struct Fail { int idx; };
    // candidates among kids; hidden ones left out if hide; expansions evaluated if expand
    void cands(const std::vector<GNode *> &kids, bool hide, const GExpand &x, const std::vector<GVar> &before, std::vector<GCand> &out, const std::vector<GCb> *refcbs = nullptr, bool top = false, int depth = 0, GTree *from = nullptr) {
        for (auto *n : kids) {
            if (n->k == GNode::REF) { if (GTree *t = tree(n->name)) cands(t->seen(), hide, x, before, out, depth ? refcbs : n->cbs.empty() ? nullptr : &n->cbs, true, depth + 1, t); continue; }
            if (hide && n->hide) continue;
            if (n->k == GNode::KW) out.push_back({n, true, n->name, refcbs, top, from});
            else if (!n->choice.empty()) for (auto &c : n->choice) out.push_back({n, true, c, refcbs, top, from});
            else if (n->exp >= 0) { if (x.fail[n->exp]) throw Fail{n->exp}; for (auto &c : gexp_values(x, n->exp, n->exparg, before)) out.push_back({n, true, c, refcbs, top, from}); }
            else out.push_back({n, false, "", refcbs, top, from});
        }
    }
    static bool int_type(const std::string &t) { return (t.compare(0, 3, "int") == 0 && t != "interface") || t.compare(0, 4, "uint") == 0; }
    static bool valid(GNode *n, const std::string &s) {
        const std::string &t = n->vtype;
        if (t == "rest" || t == "interface") return true;
        if (t == "string") {
            if (n->haslen && !within(n, s.size())) return false;
            if (!n->regex.empty() && rematch(n->regex, s) == n->inv) return false;
            if (!n->regex2.empty() && rematch(n->regex2, s) == n->inv2) return false;
            return true; }
        if (t == "bool") return s == "true" || s == "false" || s == "on" || s == "off";
        if (t == "ipv4addr") { int n = 0; size_t i = 0; for (;;) { size_t j = i; int v = 0; while (j < s.size() && isdigit((unsigned char)s[j]) && j - i < 3) v = v * 10 + (s[j++] - '0'); if (j == i || v > 255 || (j - i > 1 && s[i] == '0')) return false; n++; if (j == s.size()) return n == 4; if (s[j] != '.' || n == 4) return false; i = j + 1; } }
        if (t == "macaddr") { if (s.size() != 17) return false; for (size_t i = 0; i < 17; i++) if (i % 3 == 2 ? s[i] != ':' : !isxdigit((unsigned char)s[i])) return false; return true; }
        if (t == "decimal64") { long d; return is_dec(s, n->fd, d) && (!n->ranged || within(n, d)); }
        if (!int_type(t)) return !canon(t, s).empty();
        __int128 v; if (!is_int(s, v)) return false; bool u = t[0] == 'u'; if (u && s[0] == '-') return false; int bits = atoi(t.c_str() + (u ? 4 : 3)); __int128 one = 1, lo = u ? 0 : -(one << (bits - 1)), hi = u ? (one << bits) - 1 : (one << (bits - 1)) - 1;
        if (v < lo || v > hi) return false; if (n->ranged && !within(n, v)) return false; return true;
    }
    static int pref(const GCand &c, const std::string &tok) {
        if (c.kw) return c.word().size() == tok.size() ? 100 : 3;
        GNode *n = c.n; const std::string &t = n->vtype; if (n->prefv) return n->prefv; if (t == "rest") return 1; if (t == "string") return n->regex.empty() ? 5 : 7; if (t == "bool") return 12; if (t == "interface") return 10; if (t == "ipv4addr") return 70; if (t == "macaddr") return 72;
        static const std::map<std::string, int> p = {{"int8",52},{"int16",50},{"int32",48},{"int64",46},{"uint8",51},{"uint16",49},{"uint32",47},{"uint64",45},{"decimal64",62},{"ipv4prefix",70},{"ipv6addr",71},{"ipv6prefix",71},{"uuid",73},{"url",20},{"time",74}}; return p.at(t) + (n->ranged && !n->fd ? 8 : 0);
    }
    static bool ieq(const std::string &a, const std::string &b, size_t n, bool ign) { for (size_t i = 0; i < n; i++) { if (i >= a.size() || i >= b.size()) return false; if (ign ? tolower(a[i]) != tolower(b[i]) : a[i] != b[i]) return false; } return true; }
    static bool cmatch(const GCand &c, const std::string &tok, bool ign, bool shown = false) { if (c.kw && !shown) { std::string w = c.word(); return tok.size() <= w.size() && ieq(w, tok, tok.size(), ign); } return c.kw ? tok.size() <= c.s.size() && ieq(c.s, tok, tok.size(), ign) : tok.empty() || valid(c.n, tok); }
    struct Match { enum R { MATCH, NOMATCH, MULTIPLE, FAIL } r = NOMATCH; std::string why; std::vector<GVar> vars; std::vector<GCb> calls; bool undetermined = false; GNode *n = nullptr; std::vector<GNode *> path; GTree *from = nullptr; };
    static GVar gvar(const GCand &c, const GTok &t) { if (c.n->k == GNode::KW) return {c.s, c.s, "string", true}; std::string v = c.n->rest() ? t.rest : t.val; if (c.n->vtype == "bool") v = v == "true" || v == "on" ? "true" : "false"; __int128 iv; if (int_type(c.n->vtype) && is_int(v, iv)) v = iv < 0 ? std::to_string((long long)iv) : std::to_string((unsigned long long)iv); if (c.n->fd) { long d; if (is_dec(v, c.n->fd, d)) v = dec_text(d, c.n->fd); } else { std::string k = c.n->choice.empty() ? canon(c.n->vtype, v) : ""; if (!k.empty()) v = k; } if (c.n->tr) v = "T" + v; return {c.n->name, v, c.n->vtype, false}; }
    // the best matches of tok among cs, as evaluation chooses them
    static std::vector<GCand> best(const std::vector<GCand> &cs, const GTok &t, const GOpt &o, bool last, bool &undet) {
        std::vector<GCand> b; int bp = 0;
        for (auto &c : cs) { if (!cmatch(c, t.val, o.ign)) continue; int p = pref(c, t.val); if (p > bp) { b.clear(); bp = p; } if (p == bp) b.push_back(c); }
        int nv = 0; for (auto &c : b) if (!c.kw) nv++;
        if (nv > 1 && (o.pref == 3 || (o.pref == 1 && last) || (o.pref == 2 && !last))) undet = true;
        return b;
    }
    Match eval(const std::vector<GNode *> &top, const std::vector<GTok> &toks, const GOpt &o, const GExpand &x, bool hidetop = false) {
        Match m; std::vector<GCand> cs; try { cands(top, hidetop, x, m.vars, cs); } catch (Fail &) { m.r = Match::FAIL; return m; } const std::vector<GCb> *cbs = nullptr; std::vector<GCb> merged;
        for (size_t i = 0; i < toks.size(); i++) {
            bool last = i + 1 == toks.size(); auto b = best(cs, toks[i], o, last, m.undetermined); if (m.undetermined) return m;
            if (b.empty()) { m.r = Match::NOMATCH; m.why = "unknown"; return m; }
            if (b.size() > 1) { bool same = true; for (auto &c : b) if (!c.kw || !(c.s.size() == b[0].s.size() && ieq(c.s, b[0].s, c.s.size(), o.ign))) same = false; if (!same) { m.r = last ? Match::MULTIPLE : Match::NOMATCH; m.why = "ambiguous"; return m; } m.undetermined = true; return m; }
            for (auto &c : cs) if (c.n != b[0].n && equal_vars(c.n, b[0].n)) { m.undetermined = true; return m; }
            GCand &c = b[0]; m.vars.push_back(gvar(c, toks[i])); if (c.top && c.refcbs) cbs = c.refcbs;
            m.n = c.n; if (c.top) { m.from = c.from; m.path = c.from->wp; } m.path.push_back(c.n);
            if (last || c.n->rest()) {
                if (!c.n->end) { m.r = Match::NOMATCH; m.why = "incomplete"; return m; }
                m.calls = c.n->cbs; if (cbs) { if (m.calls.empty()) m.calls = *cbs; else { GCb &f = m.calls[0]; f.fn = (*cbs)[0].fn; if (!(*cbs)[0].arg.empty()) f.arg += (f.arg.empty() ? "" : "\001") + (*cbs)[0].arg; } }
                m.r = Match::MATCH; return m; }
            std::vector<GCand> nx; try { cands(c.n->kids, false, x, m.vars, nx); } catch (Fail &) { m.r = Match::FAIL; return m; }
            cs = nx;
        }
        return m;
    }
    // the legal continuations of a line whose last word is toks.back() (possibly empty): what completion and help offer
    struct Comp { bool undetermined = false, fail = false; std::vector<GCand> c; };
    Comp comp(const std::vector<GNode *> &top, const std::vector<GTok> &toks, const GOpt &o, const GExpand &x) {
        Comp r; std::vector<GVar> vars; std::vector<GCand> cs; try { cands(top, true, x, vars, cs); } catch (Fail &) { r.fail = true; return r; }
        for (size_t i = 0; i < toks.size(); i++) {
            if (i + 1 == toks.size()) { for (auto &c : cs) if (cmatch(c, toks[i].val, o.ign, true)) r.c.push_back(c); return r; }
            auto b = best(cs, toks[i], o, false, r.undetermined); if (r.undetermined || b.size() != 1) return r;
            for (auto &c : cs) if (c.n != b[0].n && equal_vars(c.n, b[0].n)) { r.undetermined = true; return r; }
            GCand c = b[0]; if (c.n->rest()) { r.c.push_back(c); return r; }
            vars.push_back(gvar(c, toks[i])); cs.clear(); try { cands(c.n->kids, true, x, vars, cs); } catch (Fail &) { r.fail = true; return r; }
        }
        return r;
    }
    static std::vector<GTok> split(const std::string &line) { // tokens separated by single blanks, quotes around tokens
        std::vector<GTok> v; size_t i = 0; while (i < line.size()) { while (i < line.size() && line[i] == ' ') i++; if (i >= line.size()) break; GTok t; t.rest = line.substr(i); size_t j; if (line[i] == '"' && (j = line.find('"', i + 1)) != std::string::npos) { t.val = line.substr(i + 1, j - i - 1); t.closed = true; i = j + 1; } else if (line[i] == '"') { t.val = line.substr(i); t.open = true; i = line.size(); } else { j = line.find(' ', i); if (j == std::string::npos) j = line.size(); t.val = line.substr(i, j - i); i = j; } v.push_back(t); } return v; }
    // a token for a word position with candidates cs
    std::string tokfor(const std::vector<GCand> &cs, bool good) {
        if (!cs.empty() && good) {
            const GCand &c = cs[choose(cs.size(), "cand")];
            if (c.quoted()) { std::string w = c.word(); return chance(1, 6, "abbr") ? "\"" + w.substr(0, 1 + choose(w.size(), "alen")) + "\"" : c.s; } if (c.kw) { if (c.s.size() > 1 && chance(1, 3, "abbr")) return c.s.substr(0, 1 + choose(c.s.size() - 1, "alen")); return c.s; }
            GNode *n = c.n; const std::string &t = n->vtype;
            if (t == "rest") return "xr yr zr"; if (t == "interface") return "eth0"; if (t == "bool") return chance(1, 2, "b") ? "true" : "off"; if (t == "ipv4addr") return chance(1, 2, "ip") ? "1.2.3.4" : "10.0.0.1"; if (t == "macaddr") return "00:11:22:33:44:55";
            if (t == "ipv4prefix") { static const char *w[] = {"10.0.0.0/8", "1.2.3.4/32", "0.0.0.0/0"}; return w[choose(3, "w")]; } if (t == "ipv6addr") { static const char *w[] = {"fe80::1", "2001:DB8:0:0::1", "::"}; return w[choose(3, "w")]; } if (t == "ipv6prefix") { static const char *w[] = {"fe80::/10", "::1/128", "2001:DB8::/0"}; return w[choose(3, "w")]; } if (t == "uuid") { return chance(1, 2, "u") ? "f47ac10b-58cc-4372-a567-0e02b2c3d479" : "F47AC10B-58CC-4372-A567-0E02B2C3D479"; } if (t == "url") { static const char *w[] = {"http://a@b.com:80/x", "ftp://u:p@h", "x://h/p/q", "file:///etc/x"}; return w[choose(4, "w")]; } if (t == "time") { static const char *w[] = {"2014-02-05T19:50:10", "2014-02-05T19:50:10.5", "2099-12-28T23:59:59Z", "1970-01-02T00:00:00.000001Z"}; return w[choose(4, "w")]; }
            if (n->fd) { if (n->ranged) { bool b = n->two && chance(1, 2, "second"); long l = b ? n->lo2 : n->lo, u = b ? n->hi2 : n->hi; return dec_text(chance(1, 3, "edge") ? u : l + (long)choose(std::min(u - l + 1, 1000000L), "iv"), n->fd); } static const char *w[] = {"1.5", "0.1", "-0.5", "3", "-7.0", "4."}; return w[choose(6, "w")]; }
            if (t == "string") { if (!n->regex.empty()) { static const char *w[] = {"abab", "77", "xyz", "ba", "q", "A7"}; int k = choose(6, "re"); for (int i = 0; i < 6; i++) if (valid(n, w[(k + i) % 6])) return w[(k + i) % 6]; return "zz"; } if (n->haslen) { bool b = n->two && chance(1, 2, "second"); long l = std::max(1L, b ? n->lo2 : n->lo), u = b ? n->hi2 : n->hi; return std::string("zyxwvutszyxwvutszyxwvutszyxwvuts").substr(0, chance(1, 3, "edge") ? u : l + choose(u - l + 1, "len")); } static const char *ss[] = {"z", "foo", "a", "\"x y\"", "x#y", "5", "ABC"}; return ss[choose(7, "str")]; }
            if (n->ranged) { bool b = n->two && chance(1, 2, "second"); long l = b ? n->lo2 : n->lo, u = b ? n->hi2 : n->hi; if (chance(1, 8, "beside")) return std::to_string(chance(1, 2, "up") ? u + 1 : l - 1); return std::to_string(l + (long)choose(std::min(u - l + 1, 1000000L), "iv")); } static const char *is[] = {"0", "1", "42", "127"}; return is[choose(4, "iv")];
        }
        static const char *bad[] = {"zz", "300", "-1", "99999999999999999999", "1.2.3.400", "d", "true", "eth0", "128", "70000", "-40000", "1.2.3.4", "5", "c", "a", "b", "ab", "10.0.0.0/8", "1.2.3.4/33", "fe80::1", "fe80::/10", "::/129", "f47ac10b-58cc-4372-a567-0e02b2c3d47g", "http:/h/p", "http://h/p", "2014-13-05T19:50:10", "1.5", "1.23456", "92233720368547758.08", "4294967300", "-", ".", "4.-5"}; int k = choose(36, "bad"); if (k < 33) return bad[k]; return kws.empty() ? "q" : kws[choose(kws.size(), "anykw")];
    }
    std::string gen_line(const std::vector<GNode *> &top, const GOpt &o, const GExpand &x, bool partial = false) {
        std::string line; std::vector<GVar> vars; std::vector<GCand> cs; try { cands(top, false, x, vars, cs); } catch (Fail &) { } int maxlen = 1 + choose(8, "linelen");
        for (int i = 0; i < maxlen; i++) {
            Span sp("tok"); std::string t = tokfor(cs, !chance(1, 12, "badtok")); if (o.ign && chance(1, 4, "case")) for (auto &c : t) c = toupper(c);
            if (i) line += ' '; line += t; GTok g = split(t).empty() ? GTok{} : split(t)[0]; g.rest = t; bool u = false; auto b = best(cs, g, o, false, u); if (b.empty()) { if (chance(1, 2, "stop")) break; continue; }
            GCand c = b[0]; if (c.n->rest()) break; vars.push_back(gvar(c, g)); cs.clear(); try { cands(c.n->kids, false, x, vars, cs); } catch (Fail &) { }
            if (c.n->end && (cs.empty() || chance(1, 3, "finish"))) { if (chance(9, 10, "ok")) break; }
            if (cs.empty() && chance(4, 5, "stop2")) break;
        }
        return line;
    }
};
