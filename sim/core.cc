#include "core.h"
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>

bool g_thorough = false, g_verbose = false;
uint64_t g_simtime_us, g_edge_budget, g_edges;
std::vector<Scenario> g_scenarios;

// ---------------------------------------------------------------- shared run slot
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };
static const uint32_t MAXCH = 1 << 17, MAXSPAN = 1 << 15, MAXSTAT = 192, LOGCAP = 1 << 19, MAXEDGE = 1 << 16;
struct Ch { uint32_t n, v; };
struct SpanRec { uint32_t b, e; uint32_t depth; };
struct Stat { char name[40]; uint64_t n; };
struct Slot {
    int status;
    char cls[96];
    char msg[4096];
    uint32_t nch;   Ch ch[MAXCH];
    uint32_t nspan; SpanRec span[MAXSPAN];
    uint32_t nstat; Stat stat[MAXSTAT];
    uint64_t loghash, covhash, checks, simtime, edges, faults;
    uint32_t loglen; char log[LOGCAP]; uint32_t logdropped;
    uint8_t edge[MAXEDGE];
};
static Slot *S;             // slot of the current run
static uint64_t rng_state;
static bool replaying; static std::vector<uint32_t> rep; static size_t reppos;
static std::vector<uint32_t> spanstack;
static const char *budget_cls = "hang";
static FILE *vlog;

static uint64_t splitmix(uint64_t &x){ uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z>>30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z>>27))*0x94d049bb133111ebull; return z ^ (z>>31); }
static uint64_t hmix(uint64_t h, const void *p, size_t n){ const uint8_t *b=(const uint8_t*)p; for(size_t i=0;i<n;i++){ h^=b[i]; h*=0x100000001b3ull; } return h; }

static uint32_t record(uint32_t n, uint32_t v){
    if (S->nch < MAXCH) { S->ch[S->nch].n = n; S->ch[S->nch].v = v; S->nch++; }
    return v;
}
bool in_what_if;
static bool exhausted(){ return S->nch >= MAXCH; }
uint32_t choose(uint32_t n, const char *tag){
    uint32_t v;
    if (n == 0) harness_error("choose(0) %s", tag);
    if (in_what_if) harness_error("choice %s in a what-if", tag);
    if (exhausted()) return 0;
    if (replaying) { v = reppos < rep.size() ? rep[reppos] : 0; reppos++; if (v >= n) v = n-1; }
    else v = n == 1 ? 0 : (uint32_t)((unsigned __int128)splitmix(rng_state) * n >> 64);
    return record(n, v);
}
bool chance(uint32_t num, uint32_t den, const char *tag){
    uint32_t v;
    (void)tag; if (in_what_if) harness_error("choice %s in a what-if", tag);
    if (exhausted() ) return false;
    if (num == 0) return false;
    if (replaying) { v = reppos < rep.size() ? rep[reppos] : 0; reppos++; if (v > 1) v = 1; }
    else v = (splitmix(rng_state) % den) < num;
    return record(2, v);
}
int pick_weighted(const std::vector<int> &w, const char *tag){
    int tot = 0, n = (int)w.size(); uint32_t v;
    (void)tag;
    if (in_what_if) harness_error("choice %s in a what-if", tag);
    for (int x : w) tot += x;
    if (exhausted() || tot == 0) return 0;
    if (replaying) { v = reppos < rep.size() ? rep[reppos] : 0; reppos++; if (v >= (uint32_t)n) v = n-1;
        if (w[v] == 0) { v = 0; while (w[v] == 0) v++; } }
    else { int r = (int)(splitmix(rng_state) % (uint64_t)tot); v = 0; while (r >= w[v]) { r -= w[v]; v++; } }
    return (int)record(n, v);
}
void span_begin(const char *what){ (void)what;
    if (S->nspan < MAXSPAN) { S->span[S->nspan] = { S->nch, 0xffffffffu, (uint32_t)spanstack.size() }; spanstack.push_back(S->nspan++); }
    else spanstack.push_back(0xffffffffu);
}
void span_end(){ uint32_t i = spanstack.back(); spanstack.pop_back(); if (i != 0xffffffffu) S->span[i].e = S->nch; }

std::string fmt(const char *f, ...){ char b[8192]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
std::string esc(const char *p, size_t n, size_t max){
    std::string o; char t[8];
    for (size_t i=0;i<n;i++){ unsigned char c=p[i];
        if (o.size() > max) { o += fmt("...(%zu bytes)", n); break; }
        if (c=='\n') o+="\\n"; else if (c=='\r') o+="\\r"; else if (c=='\\') o+="\\\\"; else if (c=='\t') o+="\\t";
        else if (c<32||c>=127){ snprintf(t,sizeof t,"\\x%02x",c); o+=t; } else o+=(char)c; }
    return o; }
std::string esc(const std::string &s, size_t max){ return esc(s.data(), s.size(), max); }

static void logline(const char *b, size_t n){
    S->loghash = hmix(S->loghash, b, n); S->loghash = hmix(S->loghash, "\n", 1);
    if (vlog) { fwrite(b,1,n,vlog); fputc('\n',vlog); fflush(vlog); }
    if (S->loglen + n + 1 < LOGCAP) { memcpy(S->log+S->loglen,b,n); S->loglen += n; S->log[S->loglen++]='\n'; }
    else { // keep the tail: drop the older half
        uint32_t half = LOGCAP/2; if (S->loglen > half) { memmove(S->log, S->log+half, S->loglen-half); S->loglen -= half; S->logdropped++; }
        if (S->loglen + n + 1 < LOGCAP) { memcpy(S->log+S->loglen,b,n); S->loglen += n; S->log[S->loglen++]='\n'; } }
}
void logf_(const char *f, ...){ char b[4096]; va_list ap; va_start(ap,f); int n=vsnprintf(b,sizeof b,f,ap); va_end(ap); if(n>=(int)sizeof b) n=sizeof b-1; logline(b,n); }

static void finish_slot(){ S->simtime = g_simtime_us; S->edges = g_edges;
    uint64_t h = 0xcbf29ce484222325ull; for (uint32_t i=0;i<MAXEDGE;i++) if (S->edge[i]) h = hmix(h,&i,sizeof i); S->covhash = h; }
void violation(const char *cls, const char *f, ...){
    va_list ap; va_start(ap,f); vsnprintf(S->msg,sizeof S->msg,f,ap); va_end(ap);
    snprintf(S->cls,sizeof S->cls,"%s",cls);
    logf_("VIOLATION %s: %s", S->cls, S->msg);
    finish_slot(); S->status = ST_VIOLATION; world_child_abort(); _exit(0);
}
void harness_error(const char *f, ...){
    va_list ap; va_start(ap,f); vsnprintf(S->msg,sizeof S->msg,f,ap); va_end(ap);
    snprintf(S->cls,sizeof S->cls,"harness");
    logf_("HARNESS ERROR: %s", S->msg);
    finish_slot(); S->status = ST_HARNESS; _exit(0);
}
void stat_add(const char *name, uint64_t n){
    if (!strncmp(name,"fault.",6)) S->faults += n;
    for (uint32_t i=0;i<S->nstat;i++) if (!strcmp(S->stat[i].name,name)) { S->stat[i].n += n; return; }
    if (S->nstat < MAXSTAT) { snprintf(S->stat[S->nstat].name,40,"%s",name); S->stat[S->nstat++].n = n; }
}
void checked(uint64_t n){ S->checks += n; }
void set_budget(uint64_t e){ g_edge_budget = g_edges + e; }
void set_budget_class(const char *c){ budget_cls = c; }

// ---------------------------------------------------------------- coverage callbacks (library code only)
static uint32_t nguards;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop){
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *guard){
    if (!S) return;
    g_edges++;
    uint32_t g = *guard; if (g < MAXEDGE) S->edge[g] = 1;
    if (g_edges > g_edge_budget) { g_edge_budget = ~0ull; violation(budget_cls, "no progress: edge budget exhausted after %llu library edges", (unsigned long long)g_edges); }
}

// ---------------------------------------------------------------- run one
static Slot *newslot(){ void *p = mmap(0,sizeof(Slot),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (p==MAP_FAILED){perror("mmap");exit(2);} return (Slot*)p; }
static void resetslot(Slot *s){ s->status=0; s->cls[0]=s->msg[0]=0; s->nch=s->nspan=s->nstat=0; s->loghash=0xcbf29ce484222325ull; s->covhash=s->checks=s->simtime=s->edges=s->faults=0; s->loglen=0; s->logdropped=0; memset(s->edge,0,sizeof s->edge); }
static std::string tmpdir;
extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // only in coverage builds (tools/coverage.sh)
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

extern "C" const char *__asan_default_options(){ return "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:allocator_may_return_null=1:handle_abort=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:allow_user_segv_handler=0:print_summary=1:quarantine_size_mb=16"; }
extern "C" void __asan_set_error_report_callback(void(*)(const char*));
static void asan_cb(const char *rep_){ // runs in the failing child
    if (!S || S->status) return;
    std::string r(rep_), kind="unknown"; size_t p = r.find("AddressSanitizer: ");
    if (p != std::string::npos) { p += 18; size_t e = r.find_first_of(" \n",p); kind = r.substr(p,e-p); }
    snprintf(S->cls,sizeof S->cls,"memory:%s",kind.c_str());
    snprintf(S->msg,sizeof S->msg,"AddressSanitizer: %s",kind.c_str());
    logf_("VIOLATION %s", S->cls);
    finish_slot(); S->status = ST_VIOLATION;
}

std::string what_if(const char *cls, const std::function<std::string()> &f){
    int pv[2]; if (pipe(pv)<0) harness_error("pipe"); out_flush();
    pid_t pid = fork(); if (pid<0) harness_error("fork");
    if (pid==0) { close(pv[0]); static Slot *P; P=(Slot*)mmap(0,sizeof(Slot),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (P==MAP_FAILED) _exit(9); memset(P->edge,0,0); Slot *orig=S; P->loghash=0; S=P; in_what_if=true; vlog=nullptr; spanstack.clear(); (void)orig;
        pid_t q=fork(); if (q<0) _exit(9);   // the grandchild runs, so that its verdict can be passed on however it ends
        if (q==0) { std::string r=f(); r.insert(r.begin(),'='); size_t o=0; while(o<r.size()){ ssize_t k=write(pv[1],r.data()+o,r.size()-o); if(k<=0) _exit(8); o+=k; } P->status=ST_OK; _exit(0); }
        int st=0; while(waitpid(q,&st,0)<0&&errno==EINTR); 
        if (P->status!=ST_OK){ std::string r; if (P->status==ST_HARNESS) r="H"+std::string(P->msg); else { std::string lg(P->log,P->loglen); if(lg.size()>3000) lg=lg.substr(lg.size()-3000); r="V"+(P->status==ST_VIOLATION?std::string(P->cls)+": "+P->msg:fmt("process ended, status 0x%x",st))+"\n"+lg; } if(write(pv[1],r.data(),r.size())<0) _exit(8); }
        _exit(0); }
    close(pv[1]); std::string r; char b[65536]; for(;;){ ssize_t k=read(pv[0],b,sizeof b); if(k<0&&errno==EINTR) continue; if(k<=0) break; r.append(b,k); } close(pv[0]); int st; while(waitpid(pid,&st,0)<0&&errno==EINTR);
    size_t v=r.size(); // a report written before the failing end
    if (r.empty()) harness_error("what-if gave nothing (status 0x%x)",st);
    if (r[0]=='=') return r.substr(1); (void)v;
    if (r[0]=='H') harness_error("in what-if: %s",r.c_str()+1);
    logf_("%s",r.c_str()+1); violation(cls,"%.600s",r.c_str()+1); }

struct Outcome { int status; std::string cls, msg; uint64_t hash; };
static int run_child(const Scenario &sc, Slot *slot, uint64_t seed, const std::vector<uint32_t> *choices, const char *errfile, bool symbolize, double tmo, const char *vlogpath=nullptr){
    resetslot(slot);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        S = slot; rng_state = seed; replaying = choices != nullptr; if (choices) rep = *choices; reppos = 0;
        int fd = open(errfile,O_WRONLY|O_CREAT|O_TRUNC,0600); if (fd>=0){ dup2(fd,2); close(fd);} 
        if (vlogpath) vlog = fopen(vlogpath,"w");
        (void)symbolize;
        g_simtime_us = 0; g_edges = 0; g_edge_budget = 30*1000*1000ull; budget_cls="hang";
        world_reset();
        sc.run();
        finish_slot(); S->status = ST_OK; if (__llvm_profile_write_file) __llvm_profile_write_file(); world_child_abort(); _exit(0);
    }
    double t0 = now(); int st = 0; 
    // wait with timeout (wall clock only as a backstop; hangs are normally found by the edge budget)
    for (int spin=0;;spin++){ pid_t r = waitpid(pid,&st, WNOHANG); if (r==pid) break; if (r<0 && errno!=EINTR){perror("waitpid");exit(2);} 
        if (now()-t0 > tmo) { kill(pid,SIGKILL); waitpid(pid,&st,0); slot->status=ST_HARNESS; snprintf(slot->cls,sizeof slot->cls,"timeout"); snprintf(slot->msg,sizeof slot->msg,"wall clock backstop"); return ST_HARNESS; }
        if (spin < 50) { timespec ts={0,20000}; nanosleep(&ts,0);} else { timespec ts={0,200000}; nanosleep(&ts,0);} }
    if (slot->status == ST_RUNNING) { // died without a verdict
        slot->status = ST_VIOLATION;
        if (WIFSIGNALED(st)) { snprintf(slot->cls,sizeof slot->cls,"crash:signal-%d",WTERMSIG(st)); }
        else snprintf(slot->cls,sizeof slot->cls,"crash:exit-%d",WEXITSTATUS(st));
        snprintf(slot->msg,sizeof slot->msg,"process ended without finishing the run (%s)",slot->cls);
    }
    return slot->status;
}
static uint64_t runseed(uint64_t seed, const char *id, uint64_t idx){ uint64_t h = hmix(0xcbf29ce484222325ull,id,strlen(id)); uint64_t x = h ^ (seed*0x9e3779b97f4a7c15ull) ^ (idx<<1); splitmix(x); return splitmix(x); }

// ---------------------------------------------------------------- minimiser
struct Found { std::vector<uint32_t> v; std::vector<SpanRec> spans; std::string cls, msg; uint64_t hash; };
static void grab(Slot *s, Found &f){ f.v.clear(); for(uint32_t i=0;i<s->nch;i++) f.v.push_back(s->ch[i].v); f.spans.assign(s->span,s->span+s->nspan); for(auto&x:f.spans) if (x.e==0xffffffffu) x.e=s->nch; f.cls=s->cls; f.msg=s->msg; f.hash=s->loghash; }
static long min_execs;
static bool tryc(const Scenario &sc, Slot *slot, const std::vector<uint32_t> &v, const std::string &cls, Found &best, const char *ef){
    min_execs++;
    int st = run_child(sc,slot,0,&v,ef,false,20);
    if (st==ST_VIOLATION && cls==slot->cls && (slot->nch <= best.v.size())) { Found f; grab(slot,f); 
        // accept only if strictly simpler: shorter, or same length and smaller sum
        uint64_t a=0,b=0; for(auto x:f.v)a+=x; for(auto x:best.v)b+=x;
        if (f.v.size()<best.v.size() || (f.v.size()==best.v.size() && a<b)) { best=f; return true; } }
    return false;
}
static void minimise(const Scenario &sc, Slot *slot, Found &best, double budget, const char *ef){
    double t0=now(); std::string cls=best.cls;
    // trailing zeros can be dropped (replay pads with 0)
    bool progress=true;
    while (progress && now()-t0<budget){ progress=false;
        // 1. delete spans, outermost & largest first
        std::vector<SpanRec> sp=best.spans; std::sort(sp.begin(),sp.end(),[](const SpanRec&a,const SpanRec&b){ return (a.e-a.b)>(b.e-b.b);} );
        for (size_t i=0;i<sp.size() && now()-t0<budget;i++){ if (sp[i].e<=sp[i].b || sp[i].e>best.v.size()) continue; if (sp[i].e-sp[i].b==best.v.size()) continue;
            std::vector<uint32_t> v(best.v.begin(),best.v.begin()+sp[i].b); v.insert(v.end(),best.v.begin()+sp[i].e,best.v.end());
            if (tryc(sc,slot,v,cls,best,ef)) { progress=true; // recompute spans
                sp=best.spans; std::sort(sp.begin(),sp.end(),[](const SpanRec&a,const SpanRec&b){ return (a.e-a.b)>(b.e-b.b);} ); i=(size_t)-1; if (min_execs>4000) break; } }
        // 2. truncate the tail
        for (size_t cut=best.v.size()/2; cut>=1 && now()-t0<budget; cut/=2){ while (best.v.size()>cut){ std::vector<uint32_t> v(best.v.begin(),best.v.end()-cut); if (!tryc(sc,slot,v,cls,best,ef)) break; progress=true; if (now()-t0>budget) break; } }
        // 3. delete blocks of choices
        for (size_t blk=8; blk>=1 && now()-t0<budget; blk/=2) for (size_t i=0;i+blk<=best.v.size() && now()-t0<budget;){ std::vector<uint32_t> v(best.v.begin(),best.v.begin()+i); v.insert(v.end(),best.v.begin()+i+blk,best.v.end()); if (tryc(sc,slot,v,cls,best,ef)) progress=true; else i+=blk; }
        // 4. lower values
        for (size_t i=0;i<best.v.size() && now()-t0<budget;i++){ if (!best.v[i]) continue; std::vector<uint32_t> v=best.v; v[i]=0; if (tryc(sc,slot,v,cls,best,ef)) { progress=true; continue; }
            for (uint32_t step=best.v.size()>i?best.v[i]/2:0; step>=1; step/=2){ if (i>=best.v.size()||best.v[i]<step) break; v=best.v; v[i]-=step; if (tryc(sc,slot,v,cls,best,ef)) progress=true; if (now()-t0>budget) break; } }
    }
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, text; };
static std::vector<Known> knowns;
static void load_known(const char *path){ FILE *f=fopen(path,"r"); if(!f) return; char line[4096];
    while (fgets(line,sizeof line,f)) { // known: property=C04 class=<cls> | text
        if (strncmp(line,"known:",6)) continue; std::string l(line); while(!l.empty()&&(l.back()=='\n'||l.back()==' ')) l.pop_back();
        size_t a=l.find("property="), b=l.find("class="), c=l.find(" | "); if (a==std::string::npos||b==std::string::npos||c==std::string::npos) continue;
        Known k; k.prop=l.substr(a+9,l.find(' ',a)-a-9); k.cls=l.substr(b+6,c-b-6); k.text=l.substr(c+3); knowns.push_back(k); }
    fclose(f); }
static const Known *is_known(const char *prop,const char *cls){ for(auto&k:knowns) if(k.prop==prop&&k.cls==cls) return &k; return nullptr; }

// ---------------------------------------------------------------- replay file
static void write_replay(const char *path, const Scenario &sc, uint64_t seed, uint64_t idx, const Found &f, Slot *slot){
    FILE *o=fopen(path,"w"); if(!o){perror(path);exit(2);} 
    fprintf(o,"property %s\nseed %llu run %llu\nclass %s\nloghash %016llx\nchoices %zu\n",sc.id,(unsigned long long)seed,(unsigned long long)idx,f.cls.c_str(),(unsigned long long)f.hash,f.v.size());
    for(size_t i=0;i<f.v.size();i++) fprintf(o,"%u%c",f.v[i],(i%32==31||i+1==f.v.size())?'\n':' ');
    fprintf(o,"message %s\n--- schedule and fault trace (informative) ---\n",f.msg.c_str()); fwrite(slot->log,1,slot->loglen,o); fclose(o); }
static bool read_replay(const char *path, std::string &id, std::string &cls, uint64_t &hash, std::vector<uint32_t> &v){
    FILE *f=fopen(path,"r"); if(!f) return false; char a[256]; unsigned long long s,r,h; size_t n; char line[512];
    if (fscanf(f,"property %255s\n",a)!=1) return false; id=a; if (fscanf(f,"seed %llu run %llu\n",&s,&r)!=2) return false;
    if(!fgets(line,sizeof line,f)) return false; cls=line+6; while(!cls.empty()&&cls.back()=='\n')cls.pop_back();
    if (fscanf(f,"loghash %llx\nchoices %zu\n",&h,&n)!=2) return false; hash=h; v.resize(n); for(auto&x:v) if(fscanf(f,"%u",&x)!=1) return false; fclose(f); return true; }

// ---------------------------------------------------------------- main
static std::string jesc(const std::string &s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32||c>=127)o+=fmt("\\u%04x",c); else o+=c;} return o; }
struct RunRec { uint64_t cov, log; uint32_t checks, faults; uint8_t status; };
struct Shared { volatile long next; volatile int stop; volatile long bestviol; volatile long harness; volatile long nharness; uint64_t totsim, totedges, totchecks; volatile long done; uint32_t nstat; Stat stat[MAXSTAT]; volatile int lock; uint8_t edge[MAXEDGE]; long knowncount[64]; char harnessmsg[512]; };
static void lock(Shared*s){ while(__sync_lock_test_and_set(&s->lock,1)) usleep(10);} static void unlock(Shared*s){ __sync_lock_release(&s->lock);} 

static const Scenario *find(const std::string &id){ for(auto&s:g_scenarios) if(id==s.id) return &s; return nullptr; }

int main(int argc,char**argv){
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) { setenv("SIM_NOPERS","1",1); if (personality(personality(0xffffffff)|ADDR_NO_RANDOMIZE)>=0) execv("/proc/self/exe",argv); }
    std::string mode = argc>1?argv[1]:"", id = argc>2?argv[2]:"";
    std::map<std::string,std::string> opt; for(int i=3;i+1<argc;i+=2) opt[argv[i]]=argv[i+1];
    auto O=[&](const char*k,const char*d){ return opt.count(k)?opt[k]:std::string(d); };
    __asan_set_error_report_callback(asan_cb);
    signal(SIGPIPE,SIG_IGN);
    { rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); }
    tmpdir = O("--tmp","/tmp"); g_thorough = O("--tier","quick")=="thorough";
    world_init();
    if (mode=="list"){ for(auto&s:g_scenarios) printf("%s\n",s.id); return 0; }
    uint64_t seed = strtoull(O("--seed","1").c_str(),0,10);
    std::string errbase = tmpdir+fmt("/err.%d",(int)getpid());
    if (mode=="replay"){ std::string rid,cls; uint64_t h; std::vector<uint32_t> v; if(!read_replay(argv[2],rid,cls,h,v)){ fprintf(stderr,"bad replay file\n"); return 2; }
        const Scenario*sc=find(rid); if(!sc) return 2; Slot*slot=newslot(); std::string ef=errbase;
        int st=run_child(*sc,slot,0,&v,ef.c_str(),true,120); 
        if (O("--quiet","0")=="0"){ fwrite(slot->log,1,slot->loglen,stdout); FILE*f=fopen(ef.c_str(),"r"); if(f){ char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0) fwrite(b,1,n,stdout); fclose(f);} }
        unlink(ef.c_str());
        bool same = st==ST_VIOLATION && cls==slot->cls && h==slot->loghash;
        printf("replay: status=%d class=%s loghash=%016llx expected=%s %016llx %s\n",st,slot->cls,(unsigned long long)slot->loghash,cls.c_str(),(unsigned long long)h,same?"REPRODUCED":"DIFFERENT");
        return same?1:(st==ST_OK?0:2); }
    const Scenario *sc=find(id); if(!sc){ fprintf(stderr,"unknown scenario %s\n",id.c_str()); return 2; }
    if (mode=="one"){ uint64_t idx=strtoull(O("--idx","0").c_str(),0,10); Slot*slot=newslot(); std::string ef=errbase; int st=run_child(*sc,slot,runseed(seed,sc->id,idx),nullptr,ef.c_str(),true,60,O("--vlog","").empty()?nullptr:O("--vlog","").c_str());
        fwrite(slot->log,1,slot->loglen,stdout); FILE*f=fopen(ef.c_str(),"r"); if(f){ char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0) fwrite(b,1,n,stdout); fclose(f);} unlink(ef.c_str());
        printf("status=%d cls=%s msg=%s choices=%u checks=%llu edges=%llu hash=%016llx\n",st,slot->cls,slot->msg,slot->nch,(unsigned long long)slot->checks,(unsigned long long)slot->edges,(unsigned long long)slot->loghash); return st==ST_OK?0:1; }
    if (mode=="hashes"){ long n=atol(O("--runs","50").c_str()); Slot*slot=newslot(); std::string ef=errbase; for(long i=0;i<n;i++){ run_child(*sc,slot,runseed(seed,sc->id,i),nullptr,ef.c_str(),false,60); printf("%ld %d %016llx %016llx %u\n",i,slot->status,(unsigned long long)slot->loghash,(unsigned long long)slot->covhash,slot->nch);} unlink(ef.c_str()); return 0; }
    if (mode!="run") { fprintf(stderr,"usage\n"); return 2; }
    long nruns = atol(O("--runs","0").c_str()); if(!nruns) nruns = g_thorough?sc->thorough_runs:sc->quick_runs;
    double cap = atof(O("--time","0").c_str()); if(cap<=0) cap = g_thorough?sc->thorough_s:sc->quick_s;
    int nw = atoi(O("--workers","8").c_str());
    load_known(O("--known","").c_str());
    Shared *sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(sh,0,sizeof *sh); sh->bestviol=-1; sh->harness=-1;
    RunRec *rr=(RunRec*)mmap(0,sizeof(RunRec)*nruns,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    double t0=now();
    std::vector<pid_t> ws;
    fflush(stdout);
    for(int w=0;w<nw;w++){ pid_t p=fork(); if(p<0){perror("fork");return 2;} if(p){ws.push_back(p);continue;}
        Slot*slot=newslot(); std::string ef=errbase+fmt(".%d",w);
        while(!sh->stop){ long i=__sync_fetch_and_add(&sh->next,1); if(i>=nruns||now()-t0>cap) break;
            int st=run_child(*sc,slot,runseed(seed,sc->id,i),nullptr,ef.c_str(),false,30);
            if (st==ST_HARNESS && !strcmp(slot->cls,"timeout")) st=run_child(*sc,slot,runseed(seed,sc->id,i),nullptr,ef.c_str(),false,120); // overloaded machine: once more, generously
            rr[i]={slot->covhash,slot->loghash,(uint32_t)slot->checks,(uint32_t)slot->faults,(uint8_t)st};
            lock(sh); sh->done++; sh->totsim+=slot->simtime; sh->totedges+=slot->edges; sh->totchecks+=slot->checks; for(uint32_t e=0;e<MAXEDGE;e++) sh->edge[e]|=slot->edge[e];
            for(uint32_t k=0;k<slot->nstat;k++){ uint32_t m; for(m=0;m<sh->nstat;m++) if(!strcmp(sh->stat[m].name,slot->stat[k].name)) break; if(m==sh->nstat&&m<MAXSTAT){ strcpy(sh->stat[m].name,slot->stat[k].name); sh->nstat++; } if(m<MAXSTAT) sh->stat[m].n+=slot->stat[k].n; }
            if(st==ST_VIOLATION){ const Known*k=is_known(sc->id,slot->cls); if(k) sh->knowncount[k-&knowns[0]]++; else { if(sh->bestviol<0||i<sh->bestviol) sh->bestviol=i; if (O("--keepgoing","0")=="0") sh->stop=1; else { printf("run %ld %s: %.300s\n",i,slot->cls,slot->msg); fflush(stdout);} } }
            if(st==ST_HARNESS){ if(sh->harness<0) { sh->harness=i; snprintf(sh->harnessmsg,sizeof sh->harnessmsg,"%s: %.400s",slot->cls,slot->msg);} if(++sh->nharness>=25) sh->stop=1; } // a violation found meanwhile is still an answer
            unlock(sh); }
        unlink(ef.c_str()); _exit(0); }
    for(pid_t p:ws){ int st; waitpid(p,&st,0); }
    double wall=now()-t0;
    int rc=0; std::string violline; Slot*slot=newslot(); std::string ef=errbase+".m"; std::string vio_json="[]"; int nviol=0;
    if (sh->harness>=0){ fprintf(stderr,"HARNESS ERROR in run %ld: %s\n",(long)sh->harness,sh->harnessmsg); rc=2; }
    if (sh->bestviol>=0 && O("--keepgoing","0")=="0"){
        long bi=sh->bestviol; uint64_t s=runseed(seed,sc->id,bi); Found f; rc=0;
        run_child(*sc,slot,s,nullptr,ef.c_str(),false,60); if(slot->status!=ST_VIOLATION){ fprintf(stderr,"run %ld did not fail again: nondeterminism\n",bi); return 2; } grab(slot,f); uint64_t h1=slot->loghash; std::string c1=slot->cls;
        run_child(*sc,slot,0,&f.v,ef.c_str(),false,60); if(slot->status!=ST_VIOLATION||slot->loghash!=h1||c1!=slot->cls){ fprintf(stderr,"run %ld: replay of its choices differs (%s vs %s): nondeterminism\n",bi,c1.c_str(),slot->cls); return 2; }
        if (O("--nomin","0")=="0") minimise(*sc,slot,f,atof(O("--mintime","60").c_str()),ef.c_str());
        run_child(*sc,slot,0,&f.v,ef.c_str(),false,60); if(slot->status!=ST_VIOLATION||slot->loghash!=f.hash){ fprintf(stderr,"minimised run differs: nondeterminism\n"); return 2; }
        std::string dir=O("--replays",tmpdir.c_str()); mkdir(dir.c_str(),0777); std::string rp=dir+"/"+sc->id+".replay"; write_replay(rp.c_str(),*sc,seed,bi,f,slot);
        // fresh process replay
        fflush(stdout); pid_t p=fork(); if(p==0){ execl("/proc/self/exe","sim","replay",rp.c_str(),"--quiet","1","--tmp",tmpdir.c_str(),(char*)0); _exit(9);} int st=0; waitpid(p,&st,0);
        if(!WIFEXITED(st)||WEXITSTATUS(st)!=1){ fprintf(stderr,"fresh-process replay did not reproduce (%d)\n",st); return 2; }
        printf("violation class=%s run=%ld choices=%zu minimise_execs=%ld\n%s\n",f.cls.c_str(),bi,f.v.size(),min_execs,f.msg.c_str());
        violline=fmt("VIOLATION property=%s replay=%s",sc->id,rp.c_str()); nviol=1; rc=1;
    }
    for(size_t k=0;k<knowns.size();k++) if(knowns[k].prop==sc->id) printf("KNOWN-FINDING: property=%s %s (seen in %ld runs)\n",sc->id,knowns[k].text.c_str(),sh->knowncount[k]);
    // evidence
    std::set<uint64_t> covs,logs; long nontriv=0; std::set<uint64_t> ntl; long done=0; 
    for(long i=0;i<nruns;i++) if(rr[i].status){ done++; covs.insert(rr[i].cov); logs.insert(rr[i].log); if(rr[i].checks>=3){ nontriv++; ntl.insert(rr[i].log);} }
    long ec=0; for(uint32_t e=0;e<MAXEDGE;e++) ec+=sh->edge[e];
    std::string out=O("--out",""); if(!out.empty()){ FILE*o=fopen(out.c_str(),"w"); if(!o){perror(out.c_str());return 2;}
        fprintf(o,"{\n \"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\n \"coverage\":{\n",sc->id,g_thorough?"thorough":"quick",(unsigned long long)seed);
        fprintf(o,"  \"evaluations\":%ld,\n  \"distinct_nontrivial\":%zu,\n  \"rule\":\"%s\",\n",done,ntl.size(),jesc(std::string(sc->rule)+" One evaluation is one simulated run decided by one seed; it is non-trivial if its oracle made at least 3 comparisons, and distinct if its complete event log (every simulated system call with its result, every fault, every comparison) differs from all others by 64-bit hash.").c_str());
        // sample: first ok run's trace head
        std::string sample; if(done>0){ Slot*s2=newslot(); run_child(*sc,s2,runseed(seed,sc->id,0),nullptr,ef.c_str(),false,60); sample.assign(s2->log,std::min<size_t>(s2->loglen,1800)); }
        fprintf(o,"  \"samples\":[{\"run\":0,\"trace_head\":\"%s\"}],\n",jesc(sample).c_str());
        fprintf(o,"  \"runs_per_hour\":%.0f,\n  \"simulated_seconds\":%.3f,\n  \"oracle_comparisons\":%llu,\n  \"distinct_event_logs\":%zu,\n  \"distinct_coverage_sets\":%zu,\n  \"library_edges_reached\":%ld,\n  \"library_edges_total\":%u,\n  \"library_edges_executed\":%llu,\n",done/wall*3600,sh->totsim/1e6,(unsigned long long)sh->totchecks,logs.size(),covs.size(),ec,nguards,(unsigned long long)sh->totedges);
        auto dump=[&](const char*pre,const char*name,bool last){ fprintf(o,"  \"%s\":{",name); bool first=true; for(uint32_t k=0;k<sh->nstat;k++) if(!strncmp(sh->stat[k].name,pre,strlen(pre))){ fprintf(o,"%s\"%s\":%llu",first?"":",",jesc(sh->stat[k].name+strlen(pre)).c_str(),(unsigned long long)sh->stat[k].n); first=false;} fprintf(o,"}%s\n",last?"":","); };
        dump("fault.","faults_injected",false); dump("op.","operations",false); dump("probe.","probes",false);
        fprintf(o,"  \"components_real\":[\"all of libcligen, compiled from /repo's working tree with AddressSanitizer\",\"bison/flex generated parser\",\"glibc string, regex and stdio formatting\",\"libxml2\"],\n  \"components_simulated\":[\"terminal (attributes, window, input, VT screen)\",\"descriptors, sockets, select\",\"signals\",\"processes (child side of fork, waitpid, kill)\",\"files behind stdio streams\",\"allocator failures\",\"clock\",\"user and application callbacks\"],\n");
        fprintf(o,"  \"workers\":%d\n },\n \"assumptions\":[\"sampled, not exhaustive\"],\n \"wall_s\":%.2f,\n \"violations\":%d\n}\n",nw,wall,nviol); fclose(o); }
    unlink(ef.c_str());
    printf("%s: runs=%ld/%ld wall=%.1fs checks=%llu distinct_logs=%zu cov_sets=%zu edges=%ld/%u\n",sc->id,done,nruns,wall,(unsigned long long)sh->totchecks,logs.size(),covs.size(),ec,nguards);
    if (g_verbose || O("--stats","0")!="0") for(uint32_t k=0;k<sh->nstat;k++) printf("   %-36s %llu\n",sh->stat[k].name,(unsigned long long)sh->stat[k].n);
    if(!violline.empty()) printf("%s\n",violline.c_str());
    if (rc==0 && done==0) { fprintf(stderr,"no run completed\n"); rc=2; }
    return rc;
}
