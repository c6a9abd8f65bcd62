// Simulated pipe processes of several kinds.
#pragma once
#include "world.h"
#include <errno.h>
#include <string.h>
#include <sys/wait.h>
#include <algorithm>
struct Actor { int pid; int kind; std::string got, put, wrote; bool eof = false, sent = false, done = false, sleeping = false; size_t limit = 0; int code = 0; size_t rchunk = 65536, wchunk = 65536; uint64_t slow = 0; bool outclosed = false; };
inline const char *AKINDS[] = {"cat", "sort", "head", "gone", "noise", "fail", "crash", "closer"};
struct ActorSet {
    std::map<int, Actor> act;
    Proc *proc(int pid) { for (auto &p : procs) if (p.pid == pid) return &p; return nullptr; }
    Actor &actor_start(int pid) {
        Actor a; a.pid = pid; a.kind = pick_weighted({6, 3, 3, 2, 2, 2, 1, 1}, "child"); a.limit = choose(4, "l") ? choose(300, "limit") : choose(20000, "limit"); if (chance(1, 2, "ch")) a.rchunk = 1 + choose(5000, "rchunk"); if (chance(1, 2, "ch")) a.wchunk = 1 + choose(5000, "wchunk"); if (chance(1, 4, "slow")) { a.slow = choose(4000000, "slowness"); stat_add("fault.slow_child"); }
        a.code = 1 + choose(3, "code"); if (a.kind == 4) { int n = choose(4, "n") ? choose(200, "n") : choose(g_sockcap > 16 ? 30000 : 600, "n"); for (int i = 0; i < n; i++) a.put += i % 40 == 39 ? '\n' : (char)('A' + i % 26); }
        stat_add((std::string("child.") + AKINDS[a.kind]).c_str()); LOG("  child %d is %s limit %zu", pid, AKINDS[a.kind], a.limit);
        return act[pid] = a;
    }
    bool runnable(Actor &a) {
        Proc *p = proc(a.pid); if (!p || !p->alive || a.done) return false;
        switch (a.kind) {
        case 5: case 6: if (a.got.size() >= a.limit) return true; // fallthrough
        default: break; }
        if (!a.put.empty()) { if (a.outclosed) return true; SockEnd &s = socks[p->fds[1]], &q = socks[s.peer]; return q.refs <= 0 || q.shut_rd || q.in.size() < q.cap; }
        if (a.kind == 3 || a.kind == 4) return !a.done;
        if (a.kind == 7 && a.outclosed) return false;
        if (a.eof) return true;
        SockEnd &s = socks[p->fds[0]]; return !s.in.empty() || proc_eof(*p, 0);
    }
    void finish(Actor &a, int st) { a.done = true; proc_exit(*proc(a.pid), st); }
    void step(int pid) {
        Actor &a = act[pid]; Proc *pp = proc(pid); if (!pp || !pp->alive || a.done) return; Proc &p = *pp;
        if ((a.kind == 5 || a.kind == 6) && a.got.size() >= a.limit && a.put.empty()) { stat_add(a.kind == 5 ? "fault.child_fails" : "fault.child_crashes"); finish(a, a.kind == 5 ? a.code << 8 : (choose(2, "sig") ? SIGSEGV : SIGKILL)); return; }
        if (!a.put.empty()) { size_t n = std::min(a.put.size(), a.wchunk); ssize_t r = proc_write(p, 1, a.put.data(), n); if (r == -1) return; if (r == -2) { LOG("  child %d: broken pipe", pid); finish(a, SIGPIPE); return; } a.wrote += a.put.substr(0, r); a.put.erase(0, r); LOG("  child %d writes %zd", pid, r); return; }
        if (a.kind == 3) { stat_add("fault.child_exits_early"); finish(a, 0); return; }
        if (a.kind == 4) { finish(a, 0); return; }
        if (a.kind == 2 && a.got.size() >= a.limit) { stat_add("fault.child_exits_early"); finish(a, 0); return; }
        if (a.kind == 7 && a.got.size() >= a.limit && !a.outclosed) { a.outclosed = true; proc_close(p, 1); proc_close(p, 0); stat_add("fault.child_lingers"); LOG("  child %d closes its input and output and lingers", pid); return; }
        if (a.outclosed) return;
        if (!a.eof) { std::string b; size_t want = a.rchunk; if (a.kind == 2 || a.kind >= 5) want = std::min(want, std::max<size_t>(1, a.limit > a.got.size() ? a.limit - a.got.size() : 1)); ssize_t r = proc_read(p, 0, b, want); if (r < 0) return; a.got += b; LOG("  child %d reads %zd", pid, r); if (r == 0) a.eof = true;
            if (a.kind == 0 || a.kind == 2 || a.kind >= 5) for (char c : b) a.put += c;
            if (a.eof && a.kind == 1) { std::vector<std::string> l; std::string c; for (char x : a.got) { c += x; if (x == '\n') { l.push_back(c); c.clear(); } } if (!c.empty()) l.push_back(c + "\n"); std::sort(l.begin(), l.end()); for (auto &x : l) a.put += x; }
            if (a.eof && a.put.empty()) finish(a, a.kind == 5 ? a.code << 8 : a.kind == 6 ? SIGSEGV : 0); return; }
        finish(a, a.kind == 5 ? a.code << 8 : a.kind == 6 ? SIGSEGV : 0);
    }
    std::vector<int> runnables() { std::vector<int> r; for (auto &x : act) if (runnable(x.second)) r.push_back(x.first); return r; }
};
