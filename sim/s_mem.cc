// C17: the string buffer as an exact log.
#include "editenv.h"
#include "app.h"
#include <errno.h>
#include <string.h>
static int my_vc(cbuf *cb, const char *f, ...) { va_list ap; va_start(ap, f); int r = vcprintf(cb, f, ap); va_end(ap); return r; }
struct LBuf { cbuf *cb = nullptr; std::string m; };
static void c17_check(LBuf &b, const char *op) {
    checked(); const char *p = cbuf_get(b.cb);
    if (!p) violation("cbuf:null", "after %s the buffer has no content", op);
    if (cbuf_len(b.cb) != b.m.size()) violation("cbuf:length", "after %s the length is %zu, expected %zu", op, cbuf_len(b.cb), b.m.size());
    if (cbuf_buflen(b.cb) <= b.m.size()) violation("cbuf:capacity", "after %s the reported buffer size %zu is not above the length %zu", op, cbuf_buflen(b.cb), b.m.size());
    if (memcmp(p, b.m.data(), b.m.size())) { size_t i = 0; while (p[i] == b.m[i]) i++; violation("cbuf:content", "after %s the content of %zu bytes differs at %zu", op, b.m.size(), i); }
    if (p[b.m.size()]) violation("cbuf:terminator", "after %s the content of %zu bytes is not NUL-terminated", op, b.m.size());
}
static long c17_room;
static std::string c17_str(bool nul) {
    int k = pick_weighted({5, 4, 3, 2, 1, 5}, "len"); size_t n = k == 5 ? (size_t)std::max(0l, c17_room - 3 + (long)choose(6, "edge")) : k == 0 ? choose(8, "n") : k == 1 ? choose(64, "n") : k == 2 ? choose(1100, "n") : k == 3 ? choose(9000, "n") : choose(g_thorough ? 400000 : 140000, "n");
    std::string s(n, 0); uint32_t seed = choose(1u << 16, "seed"); for (size_t i = 0; i < n; i++) { seed = seed * 1103515245 + 12345; unsigned char c = seed >> 16; s[i] = (c == 0 && !nul) ? 'z' : (char)c; } return s;
}
static void run_c17() {
    set_budget(200ull * 1000 * 1000); alloc_track(true);
    size_t st0, th0; cbuf_alloc_get(&st0, &th0);
    std::vector<LBuf> bs(1 + choose(3, "bufs")); int ops = 5 + choose(g_thorough ? 200 : 60, "ops"); bool faults = !chance(1, 4, "nofaults");
    for (int o = 0; o < ops; o++) {
        Span sp("op"); LBuf &b = bs[choose(bs.size(), "buf")];
        if (chance(1, 20, "alloc")) { static const size_t sts[] = {1024, 0, 1, 2, 3, 16, 100, 65536}; static const size_t ths[] = {65536, 0, 1, 16, 1024, 100000}; cbuf_alloc_set(sts[choose(8, "start")], ths[choose(6, "thr")]); LOG("cbuf_alloc_set"); }
        if (!b.cb) {
            bool f = faults && chance(1, 8, "f"); if (f) alloc_fail_at(choose(2, "k"), 1); uint64_t f0 = actl.failed; 
            if (chance(1, 2, "auto")) b.cb = cbuf_new(); else { static const size_t ss[] = {0, 1, 2, 7, 64, 1000, 5000}; size_t n = ss[choose(7, "sz")]; LOG("cbuf_new_alloc(%zu)", n); b.cb = cbuf_new_alloc(n); }
            alloc_fail_off(); b.m.clear(); if (!b.cb) { if (actl.failed == f0) violation("cbuf:new", "creating a buffer failed without an allocation failure"); continue; } c17_check(b, "creation"); continue; }
        int fail = faults && chance(1, 4, "fail"); if (fail) alloc_fail_at(choose(2, "k"), 1 + choose(3, "run")); uint64_t f0 = actl.failed;
        c17_room = (long)cbuf_buflen(b.cb) - (long)cbuf_len(b.cb);
        int k = pick_weighted({5, 3, 3, 3, 4, 3, 1, 2, 2, 1, 1}, "form"); int r = 0; std::string add; const char *op = "";
        switch (k) {
        case 0: add = c17_str(false); op = "cprintf %s"; r = cprintf(b.cb, "%s", add.c_str()); break;
        case 1: { int v = (int)choose(100000, "v") - 5000, w = choose(40, "w"); op = "cprintf %*d"; add = fmt("%*d:%x;", w, v, v); r = cprintf(b.cb, "%*d:%x;", w, v, v); break; }
        case 2: { add = c17_str(false); op = "vcprintf"; r = my_vc(b.cb, "<%s|%zu>", add.c_str(), add.size()); add = "<" + add + fmt("|%zu>", add.size()); break; }
        case 3: { char c = (char)choose(256, "c"); op = "cbuf_append"; if (c) add = std::string(1, c); r = cbuf_append(b.cb, c); break; }
        case 4: { add = c17_str(false); op = "cbuf_append_str"; std::vector<char> v(add.begin(), add.end()); v.push_back(0); r = cbuf_append_str(b.cb, v.data()); break; }
        case 5: { add = c17_str(true); op = "cbuf_append_buf"; std::vector<char> v(add.begin(), add.end()); v.reserve(1); r = cbuf_append_buf(b.cb, v.data() ? v.data() : (char *)"", v.size()); break; }
        case 6: { op = "cbuf_reset"; cbuf_reset(b.cb); b.m.clear(); break; }
        case 7: { size_t n = choose(b.m.size() + 1, "n"); op = "cbuf_trunc"; r = cbuf_trunc(b.cb, n); if (r < 0) violation("cbuf:trunc", "truncating %zu bytes to %zu failed", b.m.size(), n); b.m.resize(n); break; }
        case 8: { op = "cbuf_trunc beyond"; r = cbuf_trunc(b.cb, b.m.size() + 1 + choose(1000, "n")); if (r >= 0) violation("cbuf:trunc", "truncating beyond the end succeeded"); r = 0; break; }
        case 9: { op = "append of own content"; if (b.m.size() > 300000) break; std::string c(cbuf_get(b.cb), cbuf_len(b.cb)); add = c; r = cbuf_append_buf(b.cb, (void *)c.data(), c.size()); break; }
        case 10: { alloc_fail_off(); cbuf_free(b.cb); b.cb = nullptr; b.m.clear(); LOG("cbuf_free"); continue; }
        }
        alloc_fail_off(); LOG("%s %zu bytes = %d (length was %zu)", op, add.size(), r, b.m.size());
        if (r < 0) { if (actl.failed == f0) violation("cbuf:failure", "%s of %zu bytes failed without an allocation failure", op, add.size()); stat_add("probe.append_failed"); }
        else b.m += add;
        for (auto &x : bs) if (x.cb) c17_check(x, op);
        if (b.m.size() > 2000000) { cbuf_reset(b.cb); b.m.clear(); }
    }
    for (auto &b : bs) cbuf_free(b.cb);
    size_t n; std::string l = alloc_leaks(&n); if (n) violation("cbuf:leak", "%zu blocks are left allocated:%s", n, l.c_str());
    cbuf_alloc_set(st0, th0);
}
static RegScenario r17({"C17", "deterministic simulation of append sequences with injected allocation failures", run_c17, 60000, 2000000, 20, 200,
    "Random sequences of every append form, reset and truncation on several buffers with random starting sizes and growth thresholds, allocation failures at random points; content, length, terminator and reported size are compared with an exact log after every call."});
