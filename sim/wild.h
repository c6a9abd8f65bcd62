// Random grammar texts using every feature of the specification language, with sample lines; no reference of what they mean.
#pragma once
#include "core.h"
#include <map>
struct Wild {
    std::string text; std::vector<std::string> lines, vocab, trees, pipes; int alts = 0; std::string cur; long width = 1; /* parallel ends of what has been written: the library keeps one object for each */ bool selfref = true, typedargs = true; std::vector<std::pair<size_t, size_t>> inner; /* lengths of text that end inside a top-level statement */
    std::string kw() { std::string s; int n = 1 + choose(4, "kwlen"); for (int i = 0; i < n; i++) s += "abc"[choose(3, "kwc")]; if (chance(1, 8, "suffix")) s += chance(1, 2, "s") ? "-x" : "_1"; if (chance(1, 30, "long")) s += std::string(30 + choose(60, "n"), 'l'); if (chance(1, 12, "upper")) s[0] = 'A'; return s; }
    std::string help() { switch (pick_weighted({6, 3, 1, 1, 1}, "help")) { case 0: return ""; case 1: return "(\"help " + kw() + "\")"; case 2: return "(\"\")"; case 3: return "(\"first line\n  second line of " + kw() + "\n third\")"; default: { std::string s; int n = 60 + choose(120, "n"); for (int i = 0; i < n; i++) s += i % 9 == 8 ? ' ' : 'h'; return "(\"" + s + "\")"; } } }
    std::string args() { std::string s; int n = choose(4, "nargs"); for (int i = 0; i < n; i++) { if (i) s += ","; switch (choose(typedargs ? 5 : 2, "arg")) { case 0: s += "\"" + kw() + "\""; break; case 1: s += kw(); break; case 2: s += "(int32)\"42\""; break; case 3: s += "\"with \\\" quote\""; break; case 4: s += "(bool)\"true\""; break; } } return s; }
    // a variable and a word that fits it
    std::string var(std::string &w) {
        std::string n = chance(1, 8, "kwname") && !vocab.empty() ? vocab[choose(vocab.size(), "v")] : "v" + kw(), t, at; 
        switch (pick_weighted({4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 3, 4, 2, 1, 1}, "vartype")) {
        case 0: t = "string"; w = chance(1, 4, "q") ? "\"x y\"" : "foo"; break;
        case 1: { static const char *its[] = {"int8","int16","int32","int64","uint8","uint16","uint32","uint64"}; t = its[choose(8, "int")]; w = "12"; if (chance(1, 2, "range")) { at = chance(1, 3, "one") ? " range[50]" : " range[1:50]"; if (chance(1, 2, "two")) at += " range[100:120]"; } break; }
        case 2: t = "string"; w = "fo"; at = chance(1, 2, "one") ? " length[3]" : " length[2:5] length[8:9]"; break;
        case 3: { t = "string"; static const char *rs[] = {"[a-b]+", "(ab|ba)", "x.*", "a{1,3}", "[0-9]+\\\\.[0-9]+"}; int k = choose(5, "re"); static const char *ww[] = {"abab", "ab", "xyz", "aa", "1.2"}; w = ww[k]; at = std::string(" regexp:") + (chance(1, 6, "inv") ? "!" : "") + "\"" + rs[k] + "\""; if (chance(1, 4, "second")) at += " regexp:\".*\""; break; }
        case 4: t = "ipv4addr"; w = "1.2.3.4"; break; case 5: t = "ipv4prefix"; w = "1.2.3.0/24"; break; case 6: t = "ipv6addr"; w = "fe80::1"; break; case 7: t = "ipv6prefix"; w = "fe80::/10"; break;
        case 8: t = "macaddr"; w = "00:11:22:33:44:55"; break; case 9: t = "uuid"; w = "f47ac10b-58cc-4372-a567-0e02b2c3d479"; break; case 10: t = "url"; w = "http://a@b.com:80/x"; break; case 11: t = "time"; w = "2014-02-05T19:50:10.000000"; break;
        case 12: { t = "string"; at = " choice:"; int m = 1 + choose(4, "nch"); for (int i = 0; i < m; i++) { w = chance(1, 6, "num") ? "7" : kw(); at += (i ? "|" : "") + w; } break; }
        case 13: { static const char *ets[] = {"string", "string", "string", "int32", "uuid", "decimal64"}; t = ets[choose(6, "etype")]; int k = choose(8, "exp"); at = " ex" + std::to_string(k) + "("; if (chance(1, 2, "earg")) at += "\"E\""; at += ")"; w = "a"; if (chance(1, 4, "choice")) at += " choice:" + kw() + "|" + kw(); break; }
        case 14: t = "bool"; w = "on"; break; case 15: t = "decimal64"; at = " fraction-digits:4"; w = "1.25"; if (chance(1, 2, "range")) at += " range[0.5:10.25]"; break; case 16: t = "interface"; w = "eth0"; break; }
        std::string pre; if (chance(1, 8, "show")) pre += chance(1, 2, "q") ? " show:\"a shown name\"" : " show:" + kw();
        if (chance(1, 10, "tr") && t == "string") pre += " translate:tr0()"; if (chance(1, 12, "pref")) pre += " preference:" + std::to_string(choose(100, "p")); at = pre + at;
        if (chance(1, 8, "more")) { int m = 1 + choose(2, "attrs"); for (int i = 0; i < m; i++) { static const char *as[] = {" range[1:9]", " length[1:7]", " regexp:\"[a-z0-9]*\"", " ex1()", " ex2(\"F\",\"G\")", " show:other", " fraction-digits:2", " translate:tr0()", " preference:3", " range[20]", " length[4]", " regexp:!\"b+\"", " keyword:kk"}; int k = choose(13, "attr"); if ((k == 0 || k == 9) && t != "string" && t != "decimal64" && t.find("int") == std::string::npos) k = 7; if (k == 9 && t == "int8") k = 0; at = as[k] + at; } }
        if (at.empty() && chance(1, 4, "bare")) return "<" + t + ">"; return "<" + n + ":" + t + at + ">";
    }
    std::string seq(std::string &s, const std::string &path, int depth, bool top) { // appends the text to s, returns a path that fits
        std::string p = path; int n = 1 + choose(3, "items");
        for (int i = 0; i < n; i++) {
            if (i) s += ' '; std::string w;
            switch (pick_weighted({10, 6, depth < 2 && alts < 4 && width < 16 ? 3 : 0, depth < 2 && alts < 4 && width < 16 && !(top && i == 0) ? 3 : 0}, "item")) {
            case 0: w = chance(1, 5, "again") && !vocab.empty() ? vocab[choose(vocab.size(), "v")] : kw(); vocab.push_back(w); s += w + help(); p += (p.empty() ? "" : " ") + w; break;
            case 1: s += var(w) + help(); p += (p.empty() ? "" : " ") + w; break;
            case 2: { alts++; s += '('; int m = 1 + choose(3, "alts"), pick = choose(m, "pick"); std::string q; long w0 = width, sum = 0; for (int j = 0; j < m; j++) { if (j) s += '|'; width = w0; std::string r = seq(s, p, depth + 1, top && i == 0); sum += width; if (j == pick) q = r; } width = sum; s += ')'; p = q; break; }
            case 3: { alts++; long w0 = width, sum = width; s += '['; std::string q = seq(s, p, depth + 1, false); sum += width; if (chance(1, 3, "alt")) { s += '|'; width = w0; seq(s, p, depth + 1, false); sum += width; } width = sum; s += ']'; if (chance(1, 2, "take")) p = q; break; }
            }
        }
        return p;
    }
    std::string options() { std::string s; int n = choose(4, "nopt"); for (int i = 0; i < n; i++) switch (pick_weighted({8, 2, 1, 2, 1}, "opt")) { case 0: s += ", cb" + std::to_string(choose(10, "cb")) + "(" + args() + ")"; break; case 1: s += ", hide"; break; case 2: s += ", flag" + kw(); break; case 3: s += ", local=\"" + kw() + "\""; break; case 4: s += ", name=\"\""; break; } return s; }
    void stmt(const std::string &path, int depth, const std::string &ind, int &budget) {
        size_t first = text.size() + 1; budget--; text += ind;
        if (!trees.empty() && (depth ? chance(1, 5, "ref") : chance(1, 12, "topref"))) { std::string q = path; if (chance(1, 5, "word")) { std::string w = kw(); text += w + help() + " "; q += (q.empty() ? "" : " ") + w; } bool deep = !q.empty(); std::string rt = deep && selfref && chance(1, 6, "self") && !cur.empty() ? cur : trees[choose(trees.size(), "tree")]; if (!deep && rt == cur) { text += kw() + ";\n"; return; } text += "@" + rt; through(q, rt); if (chance(1, 8, "prepend")) { text += ", prepend_me(\"" + kw() + "\");\n"; return; } if (chance(1, 4, "rm")) text += ", @remove:lab"; text += options() + ";\n"; return; }
        if (depth && !pipes.empty() && chance(1, 8, "pipe")) { text += "@|" + pipes[choose(pipes.size(), "tree")] + ";\n"; return; }
        alts = 0; if (!depth) width = 1; std::string s, p = seq(s, path, 0, path.empty()); if (chance(1, 6, "rest")) { s += " <r" + kw() + ":rest>"; p += " any more words"; } text += s; lines.push_back(p);
        bool nest = depth < 4 && budget > 0 && chance(1, 2, "nest"), term = !nest || chance(1, 2, "term"); bool lab = chance(1, 6, "label"); if (lab) text += ", lab";
        if (term) text += options() + ";"; if (!depth && term && nest) { inner.push_back({first, text.size() - 1}); first = text.size() + 2; } if (nest) { text += !lab && !(term) && chance(1, 6, "sets") ? " @{\n" : " {\n"; int m = choose(4, "stmts"); long w0 = width; for (int i = 0; i < m; i++) width = w0, stmt(p, depth + 1, ind + "  ", budget); text += ind + "}"; }
        if (!depth) inner.push_back({first, text.size() - 1}); text += "\n";
    }
    std::map<std::string, std::pair<size_t, size_t>> own; // lines of a tree
    void through(const std::string &path, const std::string &rt) { auto it = own.find(rt); if (it == own.end() || it->second.first >= it->second.second || it->second.second > lines.size()) return; int n = 1 + choose(2, "through"); for (int i = 0; i < n; i++) { std::string l = lines[it->second.first + choose(it->second.second - it->second.first, "its")]; lines.push_back((path.empty() ? "" : path + " ") + l); } }
    void tree(const std::string &name) {
        Span sp("wild tree"); cur = name; size_t l0 = lines.size(); inner.push_back({text.size() + 1, text.size() + name.size() + 11}); text += "treename=\"" + name + "\";\n"; if (chance(1, 4, "pipeass") && !pipes.empty()) text += "pipetree=\"|" + pipes[0] + "\";\n"; else text += "pipetree=\"\";\n"; if (chance(1, 6, "glob")) text += "prompt=\"" + kw() + "> \";\n"; if (chance(1, 8, "glob")) text += "other=\"\";\n";
        int n = 1 + choose(5, "tops"), budget = 4 + choose(12, "budget"); for (int i = 0; i < n; i++) stmt("", 0, "", budget); if (chance(1, 5, "comment")) text += "# a comment; with { things\n"; own[name] = {l0, lines.size()}; trees.push_back(name);
    }
    void pipe_tree(const std::string &name) { text += "treename=\"|" + name + "\";\npipetree=\"\";\n\\| {\n  cat, cb12(\"cat\");\n  grep <arg:string>, cb13(\"grep\",\"arg\");\n  count <n:int32>, cb14(\"count\",\"n\");\n}\n"; pipes.push_back(name); }
    static void mutate(std::string &t) { int n = 1 + choose(3, "muts"); for (int i = 0; i < n && !t.empty(); i++) { Span sp("mutation"); size_t at = choose(t.size(), "at"); switch (choose(6, "mut")) { case 0: t.erase(at, 1 + choose(4, "n")); break; case 1: t.resize(at); break; case 2: t.insert(at, 1, "{}[]()<>|;,@:=\"\\ \nab1-*#"[choose(24, "c")]); break; case 3: t.insert(at, t.substr(choose(t.size(), "from"), choose(20, "n"))); break; case 4: t[at] = (char)(1 + choose(255, "c")); break; case 5: { size_t b = t.find(';', at); if (b != std::string::npos) t.erase(b, 1); break; } } } }
};
