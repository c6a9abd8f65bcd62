// The application around the library: command/expansion callbacks, grammar loading.
#pragma once
#include "lib.h"
#include <string.h>
struct App {
    virtual ~App() {}
    virtual int  cmd(int idx, cligen_handle h, cvec *cvv, cvec *argv) { return 0; }
    virtual int  expand(int idx, cligen_handle h, char *name, cvec *cvv, cvec *argv, cvec *commands, cvec *helptexts) { return 0; }
    virtual int  bg(int cb, int fd, void *arg) { return 0; }
    virtual int  translate(cligen_handle h, cg_var *cv) { return 0; }
    virtual int  hist(cligen_handle h, char *cmd, void *arg) { return 0; }
};
extern App *app;
cgv_fnstype_t *app_str2fn(char *name, void *arg, char **err);     // cb0..cb15, wpset.., pipeN
expandv_cb *app_exp2fn(char *name, void *arg, char **err);       // ex0..ex7
void app_cbufs();      // string buffers start small in some runs, so that every use of one can have to grow it
extern cligen_fd_cb_t *app_bg[3];
extern "C" int app_hist(cligen_handle h, char *cmd, void *arg);
// loads text; returns clispec_parse_str's result; binds callbacks in every tree
extern "C" int app_load(cligen_handle h, const std::string &text, const char *name);
extern "C" int app_bind(cligen_handle h);
std::string cvec_dump(cvec *c);   // "name=value:type" list
