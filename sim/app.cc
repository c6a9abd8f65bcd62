#include "app.h"
static App null_app; App *app = &null_app;
template<int N> static int cmdN(cligen_handle h, cvec *cvv, cvec *argv) { return app->cmd(N, h, cvv, argv); }
template<int N> static int expN(cligen_handle h, char *name, cvec *cvv, cvec *argv, cvec *c, cvec *ht) { return app->expand(N, h, name, cvv, argv, c, ht); }
template<int N> static int bgN(int fd, void *arg) { return app->bg(N, fd, arg); }
static cgv_fnstype_t *cmds[16] = {cmdN<0>,cmdN<1>,cmdN<2>,cmdN<3>,cmdN<4>,cmdN<5>,cmdN<6>,cmdN<7>,cmdN<8>,cmdN<9>,cmdN<10>,cmdN<11>,cmdN<12>,cmdN<13>,cmdN<14>,cmdN<15>};
static expandv_cb *exps[8] = {expN<0>,expN<1>,expN<2>,expN<3>,expN<4>,expN<5>,expN<6>,expN<7>};
cligen_fd_cb_t *app_bg[3] = {bgN<0>,bgN<1>,bgN<2>};
int app_hist(cligen_handle h, char *cmd, void *arg) { return app->hist(h, cmd, arg); }
static int tr0(cligen_handle h, cg_var *cv) { return app->translate(h, cv); }
static translate_cb_t *app_tr2fn(char *name, void *, char **err) { if (!strcmp(name, "tr0")) return tr0; *err = (char *)"unknown"; return nullptr; }
cgv_fnstype_t *app_str2fn(char *name, void *, char **err) {
    int k; if (sscanf(name, "cb%d", &k) == 1 && k >= 0 && k < 16) return cmds[k];
    if (!strcmp(name, "wpset")) return cligen_wp_set;
    if (!strcmp(name, "wpshow")) return cligen_wp_show;
    if (!strcmp(name, "wpup")) return cligen_wp_up;
    if (!strcmp(name, "wptop")) return cligen_wp_top;
    if (!strcmp(name, "prepend_me")) return nullptr; // only a mark, see callbacks_merge()
    *err = (char *)"unknown"; return nullptr;
}
expandv_cb *app_exp2fn(char *name, void *, char **err) { int k; if (sscanf(name, "ex%d", &k) == 1 && k >= 0 && k < 8) return exps[k]; *err = (char *)"unknown"; return nullptr; }
int app_bind(cligen_handle h) {
    pt_head *ph = nullptr;
    while ((ph = cligen_ph_each(h, ph)) != nullptr) { parse_tree *pt = cligen_ph_parsetree_get(ph); if (!pt) continue; if (cligen_callbackv_str2fn(pt, app_str2fn, nullptr) < 0) return -1; if (cligen_expandv_str2fn(pt, app_exp2fn, nullptr) < 0) return -1; if (cligen_translate_str2fn(pt, app_tr2fn, nullptr) < 0) return -1; }
    return 0;
}
int app_load(cligen_handle h, const std::string &text, const char *name) {
    std::vector<char> b(text.begin(), text.end()); b.push_back(0);
    if (clispec_parse_str(h, b.data(), (char *)name, nullptr, nullptr, nullptr) < 0) return -1;
    return app_bind(h);
}
std::string cvec_dump(cvec *c) {
    if (!c) return "(none)"; AllocQuiet q; std::string s; cg_var *cv = nullptr; int i = 0;
    while ((cv = cvec_each(c, cv)) != nullptr) { char *v = cv2str_dup(cv); s += fmt("%s%s%s=%s:%s", i++ ? "," : "", cv_name_get(cv) ? cv_name_get(cv) : "-", cv_const_get(cv) ? "!" : "", v ? esc(v).c_str() : "(null)", cv_type2str(cv_type_get(cv))); if (v) sim_free(v); }
    return s;
}
void app_cbufs() { static const size_t st[] = {1024, 1, 2, 16, 100}, th[] = {65536, 1, 64, 1000}; unsigned a = choose(2, "cbufs") ? 0 : choose(5, "start"); cbuf_alloc_set(st[a], th[a ? choose(4, "threshold") : 0]); }
