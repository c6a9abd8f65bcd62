// Reference model of the documented line editor: pure function of the key bytes.
#pragma once
#include <string>
#include <vector>
#include <deque>
#include <functional>
struct Hist {
    std::vector<std::string> h; int cap = 100; int cur = 0; // cur: 0..h.size(), -1 before the oldest
    bool full() const { return (int)h.size() >= cap; }
    void init(int n) { h.clear(); cap = n; cur = 0; }
    static bool blank(const std::string &s) { return s.find_first_not_of(" \t\n") == std::string::npos; }
    void add(const std::string &s) { if (!blank(s) && (h.empty() || h.back() != s)) { h.push_back(s); if ((int)h.size() > cap) h.erase(h.begin()); } cur = (int)h.size(); }
    std::string prev() { if (cur < 0) return ""; if (cur > 0) return h[--cur]; if (!full()) cur = -1; return ""; }
    std::string next() { if (cur < (int)h.size()) { cur++; return cur < (int)h.size() ? h[cur] : ""; } return ""; }
    std::string at(int p) const { return p >= 0 && p < (int)h.size() ? h[p] : ""; }
    int last() const { return (int)h.size(); }
};
struct EditModel {
    enum Ev { NONE, LINE, EXIT, SIG };
    std::string buf, kill; int pos = 0; bool over = false, utf8 = false; Hist hist; char comment = 0;
    bool escape = false; bool search = false, fwd = false; std::string ss; int slast = 0;
    int pst = 0; int need = 0; std::string seq;      // 1 ESC, 2 ESC[, 3 ESC[3, 4 utf8
    std::string exitchars; int vintr = 3, vquit = 28, vsusp = 26; int sig = 0; bool susp_hook = false;
    std::function<void(EditModel&)> on_tab, on_qmark;
    struct Result { bool eof; std::string line; };
    std::deque<Result> results;
    int bells = 0; long lines = 0; bool fresh = true;
    void start() { buf.clear(); pos = 0; search = false; escape = false; pst = 0; need = 0; seq.clear(); fresh = true; }
    void setpos(int p) { if (p > (int)buf.size()) p = (int)buf.size(); if (p < 0) p = 0; pos = p; }
    static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
    char at(int p) const { return p < (int)buf.size() ? buf[p] : 0; }
    void add(char c) { if (over && pos < (int)buf.size()) buf[pos] = c; else buf.insert(buf.begin()+pos, c); pos++; }
    void del(int l) { int p = pos + l; if ((l == -1 && pos > 0) || (l == 0 && pos < (int)buf.size())) { buf.erase(p, 1); pos = p; } }
    int wordback() const { int p = pos; if (p > 0) p--; while (sp(at(p)) && p > 0) p--; while (!sp(at(p)) && p > 0) p--; if (p < (int)buf.size() && sp(at(p))) p++; return p; }
    void word(int d) { int p = pos; if (d > 0) { while (p < (int)buf.size() && !sp(at(p))) p++; while (p < (int)buf.size() && sp(at(p))) p++; } else p = wordback(); setpos(p); }
    void killword() { if (!pos) return; int p = wordback(); kill = buf.substr(p, pos-p); buf.erase(p, pos-p); pos = p; }
    void yank() { if (kill.empty()) return; if (!over) { buf.insert(pos, kill); } else { for (size_t i = 0; i < kill.size(); i++) { if (pos+i < buf.size()) buf[pos+i] = kill[i]; else buf += kill[i]; } } setpos(pos + (int)kill.size()); }
    void setbuf(const std::string &s, int p) { buf = s; setpos(p); }
    void srch(bool fw, bool nw) {
        fwd = fw;
        if (!search) { hist.cur = hist.last(); slast = hist.last(); ss.clear(); search = true; setbuf("", 0); }
        else if (!ss.empty()) for (;;) { std::string p = fw ? hist.next() : hist.prev(); if (p.empty()) { setbuf("", 0); break; } size_t l = p.find(ss); if (l != std::string::npos) { setbuf(p, (int)l); if (nw) slast = hist.cur; break; } }
    }
    void srchadd(int c) {
        if (c >= 0) { if (ss.size() + 1 < 100) ss += (char)c; }
        else { if (!ss.empty()) ss.pop_back(); else hist.cur = hist.last(); if (!ss.empty()) hist.cur = slast; else { hist.cur = hist.last(); } buf = hist.at(hist.cur); }
        size_t l = buf.find(ss); if (l != std::string::npos) setpos((int)l); else if (!ss.empty()) srch(fwd, false); else setpos(0);
    }
    void term() { search = false; if (buf.empty()) hist.cur = hist.last(); setpos(pos); }
    static std::string trim(const std::string &in, char comment) {
        std::string o; bool w = false; 
        for (size_t i = 0; i < in.size(); i++) { char c = in[i]; if (comment && c == comment && (w || i == 0)) { o += '\n'; break; } if (c == ' ' || c == '\t') { if (w) continue; w = true; o += ' '; } else { w = false; o += c; } }
        size_t b = 0; while (b < o.size() && (o[b] == ' ' || o[b] == '\t')) b++; o.erase(0, b);
        while (!o.empty() && (o.back() == ' ' || o.back() == '\t' || o.back() == '\n')) o.pop_back();
        return o;
    }
    Ev newline() { std::string t = trim(buf, comment); Ev e = NONE; lines++; if (!t.empty()) { hist.add(t); results.push_back({false, t}); e = LINE; } start(); return e; }
    Ev exit_() { results.push_back({true, ""}); start(); return EXIT; }
    Ev feed(unsigned char c) {
        fresh = false;
        if (pst == 1) { pst = 0; if (c == '[' || c == 'O') pst = 2; else if (c == 'f' || c == 'F') word(1); else if (c == 'b' || c == 'B') word(-1); else bells++; return NONE; }
        if (pst == 2) { pst = 0; switch (c) { case 'A': setbuf(hist.prev(), 1<<30); break; case 'B': setbuf(hist.next(), 1<<30); break; case 'C': setpos(pos+1); break; case 'D': setpos(pos-1); break; case 'H': setpos(0); break; case 'F': setpos(1<<30); break; case '3': pst = 3; break; default: bells++; } return NONE; }
        if (pst == 3) { pst = 0; if (c == '~') del(0); return NONE; }
        if (pst == 4) { seq += (char)c; if (--need == 0) { pst = 0; if (utf8) for (char x : seq) add(x); } return NONE; }
        if ((c >= 32 && c < 127) || (escape && c == '\n')) {
            if (!escape && c == '\\') { escape = true; return NONE; }
            if (!escape && c == '?') { if (on_qmark) on_qmark(*this); return NONE; }
            escape = false;
            if (search) srchadd(c); else add((char)c);
            return NONE;
        }
        escape = false;
        if (search) { if (c == 27) term(); else if (c == 14 || c == 16) { term(); return NONE; } else if (c == 8 || c == 127) { srchadd(-1); return NONE; } else if (c != 18 && c != 19) term(); }
        if (c && exitchars.find((char)c) != std::string::npos) return exit_();
        switch (c) {
        case '\n': case '\r': return newline();
        case 1: setpos(0); break;
        case 2: setpos(pos-1); break;
        case 4: if (buf.empty()) return exit_(); del(0); break;
        case 5: setpos(1<<30); break;
        case 6: setpos(pos+1); break;
        case 8: case 127: del(-1); break;
        case 9: if (on_tab) on_tab(*this); break;
        case 11: if (pos < (int)buf.size()) { kill = buf.substr(pos); buf.resize(pos); } break;
        case 12: break;
        case 14: setbuf(hist.next(), 1<<30); break;
        case 15: over = !over; break;
        case 16: setbuf(hist.prev(), 1<<30); break;
        case 18: srch(false, true); break;
        case 19: srch(true, true); break;
        case 20: if (pos > 0 && (int)buf.size() > pos) std::swap(buf[pos-1], buf[pos]); break;
        case 21: if (pos) { kill = buf.substr(0, pos); buf.erase(0, pos); pos = 0; } break;
        case 23: killword(); break;
        case 25: yank(); break;
        case 26: break;
        case 27: pst = 1; break;
        default:
            if ((c & 0xe0) == 0xc0) { need = 1; pst = 4; } else if ((c & 0xf0) == 0xe0) { need = 2; pst = 4; } else if ((c & 0xf8) == 0xf0) { need = 3; pst = 4; }
            if (pst == 4) { seq = std::string(1, (char)c); return NONE; }
            if (c > 0 && (c == vintr || c == vquit || c == vsusp)) { sig = c == vintr ? 2 : c == vquit ? 3 : 20; if (c == vsusp) sig = 20; else if (c == vquit) sig = 3; if (!buf.empty()) kill = buf; buf.clear(); pos = 0; return SIG; }
        }
        return NONE;
    }
};
