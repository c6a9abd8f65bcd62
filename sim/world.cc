#include "world.h"
#include <libxml/parser.h>
#include <libxml/xmlregexp.h>
#include <regex.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unordered_map>
#include <algorithm>

Tty tty; Env null_env; Env *env = &null_env;
bool g_interrupted, in_child;
std::vector<SockEnd> socks; std::vector<Proc> procs; AllocCtl actl; size_t g_sockcap = 65536;
FILE *sim_stdout, *sim_stdin, *sim_stderr; std::string sim_stderr_text;

// ---------------------------------------------------------------- events
struct Ev { uint64_t at, seq; std::function<void()> fn; };
static std::vector<Ev> evq; static uint64_t evseq;
void ev_at(uint64_t d, std::function<void()> fn){ evq.push_back({g_simtime_us + d, evseq++, std::move(fn)}); }
bool ev_empty(){ return evq.empty(); }
void Env::deadlock(const WaitInfo &w){ violation("hang","blocked for ever in %s (nothing left that could wake it)", w.call); }
enum { W_PROGRESS, W_EINTR, W_TIMEOUT };
static uint64_t nblocks;
static int block(WaitInfo &w, uint64_t deadline){
    if (++nblocks > 400000) violation("hang","more than 400000 waits");
    w.has_deadline = deadline != ~0ull;
    for (;;) {
        if (evq.empty() && !env->idle(w)) { if (deadline != ~0ull) { g_simtime_us = deadline; return W_TIMEOUT; } env->deadlock(w); return W_EINTR; }
        if (evq.empty()) return W_PROGRESS;
        size_t b = 0; for (size_t i=1;i<evq.size();i++) if (evq[i].at < evq[b].at || (evq[i].at==evq[b].at && evq[i].seq<evq[b].seq)) b = i;
        if (evq[b].at > deadline) { g_simtime_us = deadline; return W_TIMEOUT; }
        Ev e = std::move(evq[b]); evq.erase(evq.begin()+b);
        if (e.at > g_simtime_us) g_simtime_us = e.at;
        g_interrupted = false; e.fn();
        if (g_interrupted) { g_interrupted = false; return W_EINTR; }
        return W_PROGRESS;
    }
}

// ---------------------------------------------------------------- VT
void VT::put(unsigned char ch){
    if (escst == 1) { if (ch == '[') { escst = 2; pendesc.clear(); } else { escst = 0; unknown++; } return; }
    if (escst == 2) {
        if ((ch >= '0' && ch <= '9') || ch == ';') { pendesc += (char)ch; return; }
        int n = atoi(pendesc.c_str()); if (n < 1) n = 1; escst = 0;
        switch (ch) {
        case 'A': r = std::max(0, r-n); pend=false; break;
        case 'B': r += n; ensure(r); pend=false; break;
        case 'C': c = std::min(w-1, c+n); pend=false; break;
        case 'D': c = std::max(0, c-n); pend=false; break;
        case 'J': if (pendesc=="2") { for (auto &x: rows) x.assign(w,' '); } else { rows[r].replace(c,std::string::npos,std::string(w-c,' ')); for(size_t i=r+1;i<rows.size();i++) rows[i].assign(w,' ');} break;
        case 'K': rows[r].replace(c,std::string::npos,std::string(w-c,' ')); break;
        case 'H': r = c = 0; pend=false; break;
        default: unknown++; }
        return;
    }
    switch (ch) {
    case 27: escst = 1; break;
    case 7: bells++; break;
    case 8: if (pend) { pend=false; } if (c > 0) c--; break;
    case '\r': c = 0; pend = false; break;
    case '\n': r++; c = 0; pend = false; ensure(r); break; // OPOST|ONLCR stays on
    case '\t': c = std::min(w-1, (c/8+1)*8); break;
    default:
        if (ch < 32) { unknown++; break; }
        if (pend) { r++; c = 0; pend = false; ensure(r); }
        rows[r][c] = (char)ch;
        if (c == w-1) pend = true; else c++;
    }
    if (rows.size() > 4000) { rows.erase(rows.begin(), rows.begin()+2000); r -= 2000; }
}

// ---------------------------------------------------------------- terminal
std::string tio_str(const struct termios &t){ return fmt("i%o o%o c%o l%o min%d time%d", t.c_iflag,t.c_oflag,t.c_cflag,t.c_lflag,t.c_cc[VMIN],t.c_cc[VTIME]); }
bool tio_eq(const struct termios &a,const struct termios &b){ return a.c_iflag==b.c_iflag&&a.c_oflag==b.c_oflag&&a.c_cflag==b.c_cflag&&a.c_lflag==b.c_lflag&&!memcmp(a.c_cc,b.c_cc,NCCS); }
bool tio_raw_for_keys(const struct termios &t){ return !(t.c_lflag & (ICANON|ECHO|ISIG|IEXTEN)) && t.c_cc[VMIN]==1 && t.c_cc[VTIME]==0 && !(t.c_iflag & (IXON|ISTRIP|BRKINT)); }
void tty_type(const std::string &s){ LOG("  key bytes arrive: %s", esc(s).c_str()); for (char c: s) tty.in.push_back(c); }
static void tty_out(const char *b,size_t n){ tty.out.append(b,n); if (tty.vt_on) for(size_t i=0;i<n;i++) tty.vt.put((unsigned char)b[i]); }

// ---------------------------------------------------------------- fd table
struct FdEnt { int kind = 0; int obj = -1; }; // kinds: 1 ttyin 2 ttyout 3 err 4 bg 5 sock
static std::map<int,FdEnt> fdt; static std::map<int,bool> bgready;
static int lowfd(int from=0){ int f = from; while (fdt.count(f)) f++; return f; }
int bgfd_new(){ int f = lowfd(3); fdt[f] = {4,0}; bgready[f]=false; return f; }
int bgfd_new_at(int f){ fdt[f]={4,0}; bgready[f]=false; return f; }
void bgfd_ready(int f,bool r){ bgready[f]=r; }
bool bgfd_isready(int f){ return bgready.count(f)&&bgready[f]; }
void bgfd_del(int f){ fdt.erase(f); bgready.erase(f); }
bool fd_is_open(int f){ return fdt.count(f)!=0; }
int fd_open_count(){ int n=0; for(auto&x:fdt) if(x.first>2 && x.second.kind!=4) n++; return n; }
std::string fd_dump(){ std::string s; for(auto&x:fdt) s+=fmt(" %d:%d/%d",x.first,x.second.kind,x.second.obj); return s; }
static void sock_unref(int o){ if (--socks[o].refs==0 && !socks[o].in.empty()) socks[socks[o].peer].reset=true; } // closed with unread data: the peer gets ECONNRESET
static void fd_close_ent(FdEnt e){ if (e.kind==5) sock_unref(e.obj); }
static bool sig_ignored(int sig);
static bool sock_readable(int o){ SockEnd&s=socks[o]; return !s.in.empty() || s.shut_rd || socks[s.peer].refs<=0 || socks[s.peer].shut_wr; }
static bool sock_writable(int o){ SockEnd&s=socks[o]; SockEnd&p=socks[s.peer]; return p.refs<=0 || p.shut_rd || s.shut_wr || p.in.size()<p.cap; }
static bool fd_readable(int f){ auto it=fdt.find(f); if(it==fdt.end()) return false; switch(it->second.kind){ case 1: return !tty.in.empty()||tty.eof||tty.rderr; case 4: return bgready[f]; case 5: return sock_readable(it->second.obj);} return false; }
static bool fd_writable(int f){ auto it=fdt.find(f); if(it==fdt.end()) return false; if(it->second.kind==5) return sock_writable(it->second.obj); return true; }

static void pre(const char *n){ if (!in_child) env->preempt(n); }
extern "C" {

ssize_t sim_read(int fd, void *buf, size_t n){
    pre("read");
    auto it=fdt.find(fd); if (it==fdt.end()) { LOG("read(%d)=EBADF",fd); errno=EBADF; return -1; }
    if (in_child) { errno=EIO; return -1; }
    if (n==0) return 0;
    for (;;) {
        if (it->second.kind==1) {
            if (!tty.in.empty()) { size_t k=std::min(n,tty.in.size()); k=std::max<size_t>(1,std::min(k,env->read_cap(fd,k))); std::string s; for(size_t i=0;i<k;i++){ s+=tty.in.front(); tty.in.pop_front(); }
                memcpy(buf,s.data(),k); tty.consumed+=s; tty.nread++; LOG("read(0)=%s",esc(s).c_str()); for(char c:s) env->key_read((unsigned char)c); return k; }
            if (tty.rderr) { tty.err_reads++; int e=tty.rderr; if (tty.rderr_n && --tty.rderr_n==0) tty.rderr=0; LOG("read(0)=errno %d",e); if(tty.err_reads>5000) violation("hang","input keeps failing and the program keeps reading (%llu reads)",(unsigned long long)tty.err_reads); errno=e; return -1; }
            if (tty.eof) { tty.eof_reads++; LOG("read(0)=EOF"); if(tty.eof_reads>5000) violation("hang","input has ended and the program keeps reading (%llu reads)",(unsigned long long)tty.eof_reads); return 0; }
            env->wait_key();
        } else if (it->second.kind==5) {
            SockEnd&s=socks[it->second.obj];
            if (int e=env->call_fault("read-sock")) { errno=e; LOG("read(%d)=errno %d",fd,e); return -1; }
            if (!s.in.empty()) { size_t k=std::min(n,s.in.size()); k=std::max<size_t>(1,std::min(k,env->read_cap(fd,k))); memcpy(buf,s.in.data(),k); s.in.erase(0,k); LOG("read(%d)=%zu bytes",fd,k); return k; }
            if (s.reset) { s.reset=false; stat_add("fault.econnreset"); LOG("read(%d)=ECONNRESET",fd); errno=ECONNRESET; return -1; }
            if (sock_readable(it->second.obj)) { LOG("read(%d)=EOF",fd); return 0; }
        } else if (it->second.kind==4) { LOG("read(%d) background",fd); memset(buf,'x',1); return 1; }
        else { errno=EBADF; return -1; }
        WaitInfo w{"read",it->second.kind==1,false,{fd},{},0};
        if (block(w,~0ull)==W_EINTR) { LOG("read(%d)=EINTR",fd); errno=EINTR; return -1; }
        it=fdt.find(fd); if (it==fdt.end()) { errno=EBADF; return -1; }
    }
}
static ssize_t sock_write(int fd, const void *buf, size_t n, int fl);
ssize_t sim_write(int fd, const void *buf, size_t n){ return sock_write(fd,buf,n,0); }
static ssize_t broken_pipe(int fd, int fl){ LOG("write(%d)=EPIPE",fd); if(!(fl&MSG_NOSIGNAL)&&!sig_has_handler(SIGPIPE)&&!sig_ignored(SIGPIPE)) violation("crash:sigpipe","the process is killed by SIGPIPE writing to a closed pipe"); errno=EPIPE; return -1; }
static ssize_t sock_write(int fd, const void *buf, size_t n, int fl){
    pre(fl&MSG_DONTWAIT?"send":"write");
    auto it=fdt.find(fd); if (it==fdt.end()) { LOG("write(%d)=EBADF",fd); errno=EBADF; return -1; }
    if (it->second.kind==2||it->second.kind==3) {
        ssize_t r=n; if (!in_child && fd==1 && env->write_fault(fd,n,&r)) { if (r>0) tty_out((const char*)buf,r); return r; }
        if (it->second.kind==2) tty_out((const char*)buf,n); else sim_stderr_text.append((const char*)buf,n);
        return n; }
    if (it->second.kind!=5) { errno=EBADF; return -1; }
    if (in_child) { return n; }
    for (;;) {
        SockEnd&s=socks[it->second.obj]; SockEnd&p=socks[s.peer];
        if (n==0) return 0;
        if (s.shut_wr||p.refs<=0||p.shut_rd) return broken_pipe(fd,fl);
        ssize_t r; if (env->write_fault(fd,n,&r)) { if (r>0) { if((size_t)r>n) r=n; p.in.append((const char*)buf,r);} LOG("write(%d,%zu)=%zd fault",fd,n,r); return r; }
        size_t room=p.cap>p.in.size()?p.cap-p.in.size():0;
        if ((fl&MSG_DONTWAIT) && room<n) { if(!room) { LOG("send(%d)=EAGAIN",fd); stat_add("probe.pipe_full"); errno=EAGAIN; return -1; } p.in.append((const char*)buf,room); LOG("send(%d,%zu)=%zu short",fd,n,room); stat_add("fault.short_write"); return room; }
        // a blocking stream write transfers everything, waiting for room as needed, unless interrupted after a part
        if (room>=n) { p.in.append((const char*)buf,n); LOG("write(%d)=%zu",fd,n); return n; }
        size_t done=0; const char*b=(const char*)buf;
        while (done<n) { room=p.cap>p.in.size()?p.cap-p.in.size():0; size_t k=std::min(room,n-done); p.in.append(b+done,k); done+=k; if(done==n) break;
            if (p.refs<=0||p.shut_rd) { if(done) { LOG("write(%d)=%zu then EPIPE",fd,done); return done;} return broken_pipe(fd,fl); }
            stat_add("probe.pipe_full"); WaitInfo w{"write",false,false,{},{fd},0}; int r2=block(w,~0ull); if(r2==W_EINTR) { if(done){ stat_add("fault.short_write"); LOG("write(%d,%zu)=%zu short",fd,n,done); return done;} stat_add("fault.eintr"); LOG("write(%d)=EINTR",fd); errno=EINTR; return -1; } }
        LOG("write(%d)=%zu",fd,n); return n;
    }
}
ssize_t sim_readv(int fd,const struct iovec*v,int c){ for(int i=0;i<c;i++) if(v[i].iov_len) return sim_read(fd,v[i].iov_base,v[i].iov_len); return 0; }
ssize_t sim_writev(int fd,const struct iovec*v,int c){ ssize_t t=0; for(int i=0;i<c;i++){ if(!v[i].iov_len) continue; ssize_t r=sim_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t sim_send(int fd,const void*b,size_t n,int fl){ return sock_write(fd,b,n,fl); }
ssize_t sim_recv(int fd,void*b,size_t n,int fl){ if (fl&MSG_DONTWAIT){ if(!fd_readable(fd)){ errno=EAGAIN; return -1;} } return sim_read(fd,b,n); }
ssize_t sim_sendto_unsup(int,const void*,size_t,int,const struct sockaddr*,socklen_t){ errno=ENOSYS; return -1; }

static int select_core(const char*nm,int nfds,fd_set*r,fd_set*w,uint64_t timeout_us){
    pre(nm);
    uint64_t deadline = timeout_us==~0ull?~0ull:g_simtime_us+timeout_us;
    std::vector<int> rd,wr; bool key=false;
    for(int i=0;i<nfds&&i<FD_SETSIZE;i++){ if(r&&FD_ISSET(i,r)){ if(!fdt.count(i)){ LOG("%s: fd %d EBADF",nm,i); errno=EBADF; return -1;} rd.push_back(i); if(i==0) key=true; } if(w&&FD_ISSET(i,w)){ if(!fdt.count(i)){errno=EBADF;return -1;} wr.push_back(i);} }
    for(;;){
        std::vector<int> a,b; for(int f:rd) if(fd_readable(f)) a.push_back(f); for(int f:wr) if(fd_writable(f)) b.push_back(f);
        if(a.size()+b.size()||deadline<=g_simtime_us){
            if(r) FD_ZERO(r); if(w) FD_ZERO(w); std::string s; for(int f:a){ FD_SET(f,r); s+=fmt(" r%d",f);} for(int f:b){ FD_SET(f,w); s+=fmt(" w%d",f);} 
            if (!(a.size()==1&&a[0]==0&&b.empty())) LOG("%s ->%s",nm,s.empty()?" timeout":s.c_str()); return a.size()+b.size(); }
        if(key) env->wait_key();
        WaitInfo wi{nm,key,false,rd,wr,0}; int x=block(wi,deadline);
        if(x==W_EINTR){ LOG("%s=EINTR",nm); errno=EINTR; return -1; }
    }
}
int sim_select(int n,fd_set*r,fd_set*w,fd_set*e,struct timeval*tv){ if(e) FD_ZERO(e); uint64_t t=tv?(uint64_t)tv->tv_sec*1000000+tv->tv_usec:~0ull; return select_core("select",n,r,w,t); }
int sim_pselect(int n,fd_set*r,fd_set*w,fd_set*e,const struct timespec*tv,const sigset_t*){ if(e) FD_ZERO(e); uint64_t t=tv?(uint64_t)tv->tv_sec*1000000+tv->tv_nsec/1000:~0ull; return select_core("pselect",n,r,w,t); }
int sim_poll(struct pollfd*p,nfds_t n,int ms){ fd_set r,w; FD_ZERO(&r); FD_ZERO(&w); int mx=0; for(nfds_t i=0;i<n;i++){ if(p[i].fd<0) continue; if(p[i].events&POLLIN) FD_SET(p[i].fd,&r); if(p[i].events&POLLOUT) FD_SET(p[i].fd,&w); mx=std::max(mx,p[i].fd+1);} int x=select_core("poll",mx,&r,&w,ms<0?~0ull:(uint64_t)ms*1000); if(x<0) return x; int c=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; if(p[i].fd<0) continue; if(FD_ISSET(p[i].fd,&r)) p[i].revents|=POLLIN; if(FD_ISSET(p[i].fd,&w)) p[i].revents|=POLLOUT; if(p[i].revents) c++; } return c; }
int sim_ppoll(struct pollfd*p,nfds_t n,const struct timespec*t,const sigset_t*){ return sim_poll(p,n,t?(int)(t->tv_sec*1000+t->tv_nsec/1000000):-1); }

int sim_isatty(int fd){ auto it=fdt.find(fd); if(it!=fdt.end()&&(it->second.kind==1||it->second.kind==2)&&tty.is_tty) return 1; errno=ENOTTY; return 0; }
int sim_tcgetattr(int fd,struct termios*t){ pre("tcgetattr"); if(!sim_isatty(fd)) return -1; *t=tty.tio; return 0; }
int sim_tcsetattr(int fd,int act,const struct termios*t){ pre("tcsetattr"); if(!sim_isatty(fd)) return -1; if(int e=env->call_fault("tcsetattr")){ LOG("tcsetattr=errno %d",e); errno=e; return -1; } bool ch=!tio_eq(tty.tio,*t); if(act==TCSAFLUSH&&!tty.in.empty()){ LOG("tcsetattr TCSAFLUSH discards %zu typed bytes",tty.in.size()); tty.dropped+=tty.in.size(); tty.in.clear(); } tty.tio=*t; if(ch) LOG("tcsetattr %s",tio_raw_for_keys(*t)?"raw":((t->c_lflag&ICANON)?"cooked":"other")); env->tcset(*t,act); return 0; }
int sim_tcflush(int fd,int q){ if(!sim_isatty(fd)) return -1; if(q!=TCOFLUSH){ tty.dropped+=tty.in.size(); tty.in.clear(); } return 0; }
int sim_tcdrain(int){ return 0; }
int sim_ioctl(int fd,unsigned long req,...){ va_list ap; va_start(ap,req); void*p=va_arg(ap,void*); va_end(ap); if(!sim_isatty(fd)) return -1; if(req==TIOCGWINSZ){ if(int e=env->call_fault("winsz")){ errno=e; return -1;} struct winsize*w=(struct winsize*)p; memset(w,0,sizeof *w); w->ws_row=tty.rows; w->ws_col=tty.cols; return 0;} if(req==FIONREAD){ *(int*)p=(int)tty.in.size(); return 0;} errno=EINVAL; return -1; }

static std::map<int,struct sigaction> sigs;
int sim_sigaction(int s,const struct sigaction*a,struct sigaction*o){ if(o){ if(sigs.count(s)) *o=sigs[s]; else memset(o,0,sizeof *o);} if(a) sigs[s]=*a; return 0; }
typedef void (*shf)(int);
shf sim_signal(int s,shf h){ shf o=sigs.count(s)?sigs[s].sa_handler:SIG_DFL; struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=h; a.sa_flags=SA_RESTART; sigs[s]=a; return o; }
int sim_sigprocmask(int,const sigset_t*,sigset_t*o){ if(o) sigemptyset(o); return 0; }
static Proc*findproc(int pid){ for(auto&p:procs) if(p.pid==pid) return &p; return nullptr; }
int sim_kill(pid_t pid,int sig){ pre("kill"); LOG("kill(%d,%d)",(int)pid,sig); if(pid>0){ Proc*p=findproc(pid); if(!p||p->reaped){ env->killed(pid,sig); errno=ESRCH; return -1; } p->kills++; if(p->alive&&sig==SIGTERM&&!p->term_ignored) proc_exit(*p,SIGTERM); else if(p->alive&&sig==SIGKILL) proc_exit(*p,SIGKILL); return 0; } env->killed(pid,sig); return 0; }
int sim_killpg(int pg,int sig){ return sim_kill(pg?-pg:0,sig); }
int sim_raise(int sig){ return sim_kill(0,sig); }

// ---- processes
static int reportfd=-1; static int nextpid=1000;
pid_t sim_fork(){
    pre("fork"); if(int e=env->call_fault("fork")){ stat_add("fault.fork_fails"); LOG("fork()=errno %d",e); errno=e; return -1; }
    int pp[2]; if(::pipe(pp)) harness_error("pipe"); fflush(sim_stdout);
    pid_t r=::fork(); if(r<0) harness_error("real fork");
    if(r==0){ ::close(pp[0]); reportfd=pp[1]; in_child=true; return 0; }
    ::close(pp[1]); std::string rep; char b[4096]; ssize_t n; while((n=::read(pp[0],b,sizeof b))>0) rep.append(b,n); ::close(pp[0]); int st; while(::waitpid(r,&st,0)<0&&errno==EINTR); 
    if(rep.empty()) { violation("pipe:child-died","the forked child ended abnormally before its callback (status 0x%x)",st); }
    Proc p; p.pid=nextpid++; // report: "C|E code\nfd:obj ...\npayload"
    size_t l1=rep.find('\n'), l2=rep.find('\n',l1+1); p.called=rep[0]=='C'; int code=atoi(rep.c_str()+1); std::string ft=rep.substr(l1+1,l2-l1-1); p.report=rep.substr(l2+1);
    const char*q=ft.c_str(); int f,o,k; while(sscanf(q,"%d:%d:%d",&f,&k,&o)==3){ if(k==5){ p.fds[f]=o; socks[o].refs++; } q=strchr(q,' '); if(!q) break; q++; }
    procs.push_back(p); LOG("fork()=%d (child %s, fds %s)",p.pid,p.called?"runs the pipe function":"exits",ft.c_str());
    if(!p.called) proc_exit(procs.back(),(code&0xff)<<8); else env->proc_started(p.pid);
    return p.pid;
}
pid_t sim_vfork(){ return sim_fork(); }
static void send_report(char kind,int code,const std::string&payload){ std::string s=fmt("%c%d\n",kind,code); for(auto&x:fdt) s+=fmt("%d:%d:%d ",x.first,x.second.kind,x.second.obj); s+="\n"+payload; size_t d=0; while(d<s.size()){ ssize_t r=::write(reportfd,s.data()+d,s.size()-d); if(r<=0) break; d+=r; } ::_exit(0); }
[[noreturn]] void sim_exit(int c){ if(in_child){ send_report('E',c,""); } violation("exit","library called exit(%d)",c); }
[[noreturn]] void sim__exit(int c){ sim_exit(c); }
[[noreturn]] void sim_abort(){ violation("crash:abort","library called abort()"); }
[[noreturn]] void sim_assert_fail(const char*a,const char*f,unsigned l,const char*fn){ (void)l; violation("crash:assert","assertion failed: %s in %s %s",a,f,fn); }
pid_t sim_waitpid(pid_t pid,int*st,int opt){
    pre("waitpid");
    for(;;){ if(int e=env->call_fault("waitpid")){ LOG("waitpid=errno %d",e); errno=e; return -1; }
        Proc*p=nullptr; if(pid>0){ p=findproc(pid); if(!p||p->reaped){ errno=ECHILD; return -1;} } else { for(auto&x:procs) if(!x.reaped){ if(!p||(!x.alive&&p->alive)) p=&x; } if(!p){ errno=ECHILD; return -1;} }
        if(!p->alive){ p->reaped=true; if(st) *st=p->status; LOG("waitpid(%d)=%d status 0x%x",(int)pid,p->pid,p->status); return p->pid; }
        if(opt&WNOHANG) return 0;
        WaitInfo w{"waitpid",false,false,{},{},pid}; if(block(w,~0ull)==W_EINTR){ LOG("waitpid=EINTR"); errno=EINTR; return -1; } }
}
pid_t sim_wait(int*st){ return sim_waitpid(-1,st,0); }
pid_t sim_wait4(pid_t p,int*st,int o,void*){ return sim_waitpid(p,st,o); }

int sim_socketpair(int,int,int,int sv[2]){ pre("socketpair"); if(int e=env->call_fault("socketpair")){ stat_add("fault.socketpair_fails"); LOG("socketpair()=errno %d",e); errno=e; return -1; } int a=socks.size(); socks.push_back(SockEnd()); socks.push_back(SockEnd()); socks[a].peer=a+1; socks[a+1].peer=a; socks[a].refs=socks[a+1].refs=1; socks[a].cap=socks[a+1].cap=g_sockcap; sv[0]=lowfd(); fdt[sv[0]]={5,a}; sv[1]=lowfd(); fdt[sv[1]]={5,a+1}; LOG("socketpair()=%d,%d",sv[0],sv[1]); return 0; }
int sim_pipe(int fv[2]){ int sv[2]; if(sim_socketpair(0,0,0,sv)<0) return -1; fv[0]=sv[0]; fv[1]=sv[1]; socks[fdt[fv[0]].obj].shut_wr=true; socks[fdt[fv[1]].obj].shut_rd=true; return 0; }
int sim_shutdown(int fd,int how){ pre("shutdown"); auto it=fdt.find(fd); if(it==fdt.end()||it->second.kind!=5){ errno=EBADF; return -1;} if(int e=env->call_fault("shutdown")){ errno=e; return -1; } SockEnd&s=socks[it->second.obj]; if(socks[s.peer].refs<=0){ /* AF_UNIX: allowed */ } if(how==SHUT_WR||how==SHUT_RDWR) s.shut_wr=true; if(how==SHUT_RD||how==SHUT_RDWR) s.shut_rd=true; LOG("shutdown(%d,%d)",fd,how); return 0; }
int sim_close(int fd){ pre("close"); auto it=fdt.find(fd); if(it==fdt.end()){ LOG("close(%d)=EBADF",fd); stat_add("probe.close_ebadf"); errno=EBADF; return -1;} if(it->second.kind==4){ bgready.erase(fd);} fd_close_ent(it->second); fdt.erase(it); if(!in_child||fd>2) LOG("close(%d)",fd); return 0; }
int sim_dup2(int a,int b){ auto it=fdt.find(a); if(it==fdt.end()){ errno=EBADF; return -1;} if(a==b) return b; FdEnt e=it->second; auto jt=fdt.find(b); if(jt!=fdt.end()) fd_close_ent(jt->second); if(e.kind==5) socks[e.obj].refs++; fdt[b]=e; return b; }
int sim_dup(int a){ if(!fdt.count(a)){ errno=EBADF; return -1;} return sim_dup2(a,lowfd()); }
int sim_fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(!fdt.count(fd)){ errno=EBADF; return -1;} if(cmd==F_GETFL) return O_RDWR; if(cmd==F_GETFD||cmd==F_SETFD) return 0; if(cmd==F_SETFL){ if(a&O_NONBLOCK) harness_error("O_NONBLOCK not modelled"); return 0;} errno=EINVAL; return -1; }
time_t sim_time(time_t*t){ time_t x=1700000000+g_simtime_us/1000000; if(t)*t=x; return x; }
int sim_gettimeofday(struct timeval*tv,void*){ tv->tv_sec=1700000000+g_simtime_us/1000000; tv->tv_usec=g_simtime_us%1000000; return 0; }
int sim_clock_gettime(clockid_t,struct timespec*t){ t->tv_sec=1700000000+g_simtime_us/1000000; t->tv_nsec=g_simtime_us%1000000*1000; return 0; }
static void sleep_us(uint64_t us){ uint64_t dl=g_simtime_us+us; for(;;){ WaitInfo w{"sleep",false,true,{},{},0}; int x=block(w,dl); if(x!=W_PROGRESS) return; } }
unsigned sim_sleep(unsigned s){ sleep_us((uint64_t)s*1000000); return 0; }
int sim_usleep(unsigned u){ sleep_us(u); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*){ sleep_us((uint64_t)t->tv_sec*1000000+t->tv_nsec/1000); return 0; }
pid_t sim_getpid(){ return in_child?1999:500; }
pid_t sim_getpgrp(){ return 500; }

// ---- allocator
struct Al { size_t n; uint64_t seq; void*ra; };
static std::unordered_map<void*,Al> *live; 
static bool afail(void*ra){ if(actl.quiet) return false; uint64_t k=actl.n++; if(actl.rec) actl.rec->push_back((uint64_t)ra); if(k>=actl.fail_from&&k<actl.fail_to){ actl.failed++; stat_add("fault.alloc_fails"); LOG("  allocation %llu fails",(unsigned long long)k); errno=ENOMEM; return true; } return false; }
static void atrack(void*p,size_t n,void*ra){ if(p&&actl.track){ (*live)[p]={n,actl.n,ra}; actl.live_bytes+=n; } }
static void auntrack(void*p){ if(p){ auto it=live->find(p); if(it!=live->end()){ actl.live_bytes-=it->second.n; live->erase(it);} } }
#define RA __builtin_return_address(0)
#define RA3 (actl.rec?(void*)((uintptr_t)__builtin_return_address(0)*31+(uintptr_t)__builtin_return_address(1)*7+(uintptr_t)__builtin_return_address(2)):nullptr)
void*sim_malloc(size_t n){ if(afail(RA3)) return nullptr; void*p=malloc(n); atrack(p,n,RA); return p; }
void*sim_calloc(size_t a,size_t b){ if(afail(RA3)) return nullptr; void*p=calloc(a,b); atrack(p,a*b,RA); return p; }
void*sim_realloc(void*o,size_t n){ if(n&&afail(RA3)) return nullptr; bool was=o&&live->count(o); (void)was; auntrack(o); void*p=realloc(o,n); atrack(p,n,RA); return p; }
void*sim_reallocarray(void*o,size_t a,size_t b){ if(afail(RA3)) return nullptr; auntrack(o); void*p=reallocarray(o,a,b); atrack(p,a*b,RA); return p; }
void sim_free(void*p){ auntrack(p); free(p); }
char*sim_strdup(const char*s){ size_t n=strlen(s)+1; if(afail(RA3)) return nullptr; char*p=(char*)malloc(n); if(p) memcpy(p,s,n); atrack(p,n,RA); return p; }
char*sim___strdup(const char*s){ return sim_strdup(s); }
char*sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); if(afail(RA3)) return nullptr; char*p=(char*)malloc(n+1); if(p){ memcpy(p,s,n); p[n]=0;} atrack(p,n+1,RA); return p; }
int sim_vasprintf(char**o,const char*f,va_list ap){ if(afail(RA3)) return -1; int r=vasprintf(o,f,ap); if(r>=0) atrack(*o,r+1,RA); return r; }
int sim_asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=sim_vasprintf(o,f,ap); va_end(ap); return r; }

int sim_regcomp(regex_t*r,const char*p,int f){ if(afail(RA3)) return REG_ESPACE; int e=regcomp(r,p,f); if(e==0&&actl.track) actl.regs++; return e; }
int sim_regexec(const regex_t*r,const char*s,size_t n,regmatch_t*m,int f){ if(afail(RA3)) return REG_ESPACE; return regexec(r,s,n,m,f); }
void sim_regfree(regex_t*r){ if(actl.track) actl.regs--; regfree(r); }

// ---- stdio on the simulated terminal
int sim_vprintf(const char*f,va_list ap){ return vfprintf(sim_stdout,f,ap); }
int sim_printf(const char*f,...){ va_list ap; va_start(ap,f); int r=vfprintf(sim_stdout,f,ap); va_end(ap); return r; }
int sim_puts(const char*s){ if(fputs(s,sim_stdout)<0) return -1; return fputc('\n',sim_stdout); }
int sim_putchar(int c){ return fputc(c,sim_stdout); }
int sim_getchar(){ return fgetc(sim_stdin); }
void sim_perror(const char*s){ fprintf(sim_stderr,"%s: %s\n",s,strerror(errno)); }
} // extern C

static ssize_t c_out(void*,const char*b,size_t n){ // the terminal end of stdout: same device as write(1)
    size_t d=0; while(d<n){ ssize_t r=sim_write(1,b+d,n-d); if(r<0){ if(errno==EINTR) continue; return 0;} d+=r; } return n; }
static ssize_t c_in(void*,char*b,size_t n){ for(;;){ ssize_t r=sim_read(0,b,n); if (r<0&&errno==EINTR) return -1; return r; } }
static ssize_t c_err(void*,const char*b,size_t n){ sim_stderr_text.append(b,n); LOG("  stderr: %s",esc(b,n,200).c_str()); return n; }
void out_flush(){ fflush(sim_stdout); }

static ssize_t f_rd(void*c,char*b,size_t n){ SimFile*f=(SimFile*)c; if(f->rintr&&f->rintr()){ stat_add("fault.file_read_eintr"); errno=EINTR; return -1; } if(f->pos>=f->rderr_at){ f->rerrs++; stat_add("fault.file_read_error"); errno=f->rd_errno; if(f->rderr_once) f->rderr_at=~(size_t)0; return -1;} size_t lim=std::min(f->data.size(),f->rderr_at); size_t k=std::min(n,lim-std::min(lim,f->pos)); if(k&&f->rchunk) k=std::min(k,std::max<size_t>(1,f->rchunk(k))); memcpy(b,f->data.data()+f->pos,k); f->pos+=k; return k; }
static ssize_t f_wr(void*c,const char*b,size_t n){ SimFile*f=(SimFile*)c; size_t room=f->limit>f->data.size()?f->limit-f->data.size():0; if(room==0){ f->werrs++; stat_add("fault.file_write_error"); errno=f->lim_errno; return 0;} size_t k=std::min(n,room); if(f->wchunk) k=std::min(k,std::max<size_t>(1,f->wchunk(k))); f->data.append(b,k); return k; }
static ssize_t f_wr_all(void*c,const char*b,size_t n){ // kernel semantics: short writes are continued by stdio for real files; emulate the loop of _IO_new_file_write
    size_t d=0; while(d<n){ ssize_t r=f_wr(c,b+d,n-d); if(r<=0) break; d+=r; } return d; }
FILE*simfile_open(SimFile*f,const char*mode,size_t bufsz){ cookie_io_functions_t io={f_rd,f_wr_all,nullptr,nullptr}; FILE*fp=fopencookie(f,mode,io); if(!fp) harness_error("fopencookie"); if(bufsz==0) setvbuf(fp,nullptr,_IONBF,0); else setvbuf(fp,nullptr,_IOFBF,bufsz); return fp; }

void deliver_signal(int sig){ auto it=sigs.find(sig); if(it==sigs.end()||it->second.sa_handler==SIG_DFL||it->second.sa_handler==SIG_IGN) return; LOG("  signal %d delivered",sig); int e=errno; it->second.sa_handler(sig); errno=e; g_interrupted=true; }
bool sig_has_handler(int sig){ auto it=sigs.find(sig); return it!=sigs.end()&&it->second.sa_handler!=SIG_DFL&&it->second.sa_handler!=SIG_IGN; }
static bool sig_ignored(int sig){ auto it=sigs.find(sig); return it!=sigs.end()&&it->second.sa_handler==SIG_IGN; }
void proc_close(Proc&p,int fd){ auto it=p.fds.find(fd); if(it==p.fds.end()) return; sock_unref(it->second); p.fds.erase(it); }
void interrupt_now(){ g_interrupted=true; stat_add("fault.eintr"); LOG("  some signal interrupts the call"); }

void child_report(const std::string&payload){ send_report('C',0,payload); ::_exit(0); }
void proc_exit(Proc&p,int st){ if(!p.alive) return; p.alive=false; p.status=st; for(auto&x:p.fds) sock_unref(x.second); p.fds.clear(); LOG("  process %d ends, status 0x%x",p.pid,st); }
ssize_t proc_read(Proc&p,int fd,std::string&buf,size_t n){ auto it=p.fds.find(fd); if(it==p.fds.end()) return 0; SockEnd&s=socks[it->second]; if(s.in.empty()) return proc_eof(p,fd)?0:-1; size_t k=std::min(n,s.in.size()); buf.append(s.in,0,k); s.in.erase(0,k); return k; }
bool proc_eof(Proc&p,int fd){ auto it=p.fds.find(fd); if(it==p.fds.end()) return true; SockEnd&s=socks[it->second]; return s.in.empty()&&(socks[s.peer].refs<=0||socks[s.peer].shut_wr); }
ssize_t proc_write(Proc&p,int fd,const char*b,size_t n){ auto it=p.fds.find(fd); if(it==p.fds.end()) return -2; SockEnd&s=socks[it->second]; SockEnd&q=socks[s.peer]; if(q.refs<=0||q.shut_rd||s.shut_wr) return -2; size_t room=q.cap>q.in.size()?q.cap-q.in.size():0; if(!room) return -1; size_t k=std::min(room,n); q.in.append(b,k); return k; }

void alloc_track(bool on){ actl.track=on; }
size_t alloc_live_count(){ return live->size(); }
uint64_t alloc_live_bytes(){ return actl.live_bytes; }
extern "C" char __executable_start;
std::string alloc_leaks(size_t*n){ std::vector<std::pair<uint64_t,Al>> v; bool xml=false; for(auto&x:*live) if(x.second.ra) v.push_back({x.second.seq,x.second}); else xml=true; std::sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); *n=v.size()+xml; std::string s=xml?" [a compiled libxml2 expression]":""; std::map<void*,int> by; for(auto&x:v) by[x.second.ra]++; int c=0; for(auto&x:v){ if(c++>=6) break; s+=fmt(" [#%llu %zu bytes at sim+0x%lx]",(unsigned long long)x.first,x.second.n,(unsigned long)((char*)x.second.ra-&__executable_start)); } return s; }
void alloc_fail_at(uint64_t k,uint64_t len){ actl.fail_from=actl.n+k; actl.fail_to=actl.fail_from+len; if(actl.fail_to<actl.fail_from) actl.fail_to=~0ull; }
void alloc_fail_off(){ actl.fail_from=actl.fail_to=~0ull; }

// libxml2 (regular expressions): its blocks are counted as the library's, its allocations never fail
static void *x_malloc(size_t n) { void *p = malloc(n); atrack(p, n, nullptr); return p; }
static void *x_realloc(void *o, size_t n) { auntrack(o); void *p = realloc(o, n); atrack(p, n, nullptr); return p; }
static char *x_strdup(const char *s) { char *p = strdup(s); atrack(p, strlen(s) + 1, nullptr); return p; }
static void libxml_init() {
    xmlInitParser(); for (const char *r : {"(a|b)[0-9]{2}", "x.*"}) { xmlRegexpPtr x = xmlRegexpCompile((const xmlChar *)r); if (x) { xmlRegexpExec(x, (const xmlChar *)"a12"); xmlRegFreeRegexp(x); } }
    xmlMemSetup(sim_free, x_malloc, x_realloc, x_strdup);
}
void world_init(){ libxml_init(); live=new std::unordered_map<void*,Al>();
    cookie_io_functions_t o={nullptr,c_out,nullptr,nullptr}, i={c_in,nullptr,nullptr,nullptr}, e={nullptr,c_err,nullptr,nullptr};
    sim_stdout=fopencookie(nullptr,"w",o); setvbuf(sim_stdout,nullptr,_IOLBF,1024);
    sim_stdin=fopencookie(nullptr,"r",i); setvbuf(sim_stdin,nullptr,_IOFBF,1024);
    sim_stderr=fopencookie(nullptr,"w",e); setvbuf(sim_stderr,nullptr,_IONBF,0);
    setenv("TZ","UTC",1); tzset(); }
void world_reset(){
    tty=Tty(); memset(&tty.tio,0,sizeof tty.tio); tty.tio.c_iflag=ICRNL|IXON|BRKINT|IMAXBEL; tty.tio.c_oflag=OPOST|ONLCR; tty.tio.c_cflag=CS8|CREAD; tty.tio.c_lflag=ISIG|ICANON|ECHO|ECHOE|ECHOK|IEXTEN; tty.tio.c_cc[VINTR]=3; tty.tio.c_cc[VQUIT]=28; tty.tio.c_cc[VERASE]=127; tty.tio.c_cc[VKILL]=21; tty.tio.c_cc[VEOF]=4; tty.tio.c_cc[VSUSP]=26; tty.tio.c_cc[VMIN]=1; tty.vt.reset(80);
    fdt.clear(); fdt[0]={1,0}; fdt[1]={2,0}; fdt[2]={3,0}; bgready.clear(); socks.clear(); socks.reserve(4096); procs.clear(); procs.reserve(1024); sigs.clear(); evq.clear(); evseq=0; nblocks=0; g_interrupted=false; env=&null_env; in_child=false; nextpid=1000; actl=AllocCtl(); live->clear(); sim_stderr_text.clear(); g_sockcap=65536;
}
void world_child_abort(){}
