#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree.  usage: build.py BUILDDIR ; prints the path of the binary."""
import sys,os,subprocess,hashlib,glob,concurrent.futures as cf,shutil,fcntl
REPO=os.environ.get("SIM_REPO","/repo"); HERE=os.path.dirname(os.path.abspath(__file__))
B=os.path.abspath(sys.argv[1] if len(sys.argv)>1 else os.path.join(HERE,"..","build"))
COV=os.environ.get("SIM_SRCCOV")
os.makedirs(B+"/src",exist_ok=True); os.makedirs(B+"/obj",exist_ok=True)
lockf=open(B+"/.lock","w"); fcntl.flock(lockf,fcntl.LOCK_EX)
CC="clang"; CXX="clang++"
def sh(cmd,cwd=None):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,cwd=cwd)
    if r.returncode!=0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n"%(" ".join(cmd),r.stdout.decode(errors="replace"))); sys.exit(2)
    return r.stdout
def h(*parts):
    m=hashlib.sha256()
    for p in parts: m.update(p if isinstance(p,bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()
def rd(p):
    with open(p,"rb") as f: return f.read()
# 1. copy sources (never compile inside /repo, never use its generated files)
SKIP={"cligen_hello.c","cligen_tutorial.c","cligen_file.c","cligen_parse.tab.c","lex.cligen_parse.c","build.c"}
SKIPH={"cligen_parse.tab.h"}
names=[]
for f in sorted(os.listdir(REPO)):
    if (f.endswith(".c") and f not in SKIP) or (f.endswith(".h") and f not in SKIPH) or f.endswith(".y") or f.endswith(".l"):
        names.append(f)
keep=set(names)|{"cligen_parse.tab.c","cligen_parse.tab.h","lex.cligen_parse.c","build.c","cligen_config.h",".gen"}
for f in os.listdir(B+"/src"):
    if f not in keep: os.unlink(B+"/src/"+f)
for f in names:
    d=rd(REPO+"/"+f); p=B+"/src/"+f
    if not os.path.exists(p) or rd(p)!=d: open(p,"wb").write(d)
if "cligen_config.h" not in names:
    shutil.copy(HERE+"/cligen_config.fallback.h",B+"/src/cligen_config.h")
if not os.path.exists(B+"/src/build.c"): open(B+"/src/build.c","w").write('const char CLIGEN_BUILDSTR[64]="sim";\nconst char CLIGEN_VERSION[64]="sim";\n')
g=h(rd(B+"/src/cligen_parse.y"),rd(B+"/src/cligen_parse.l"))
if not os.path.exists(B+"/src/.gen") or open(B+"/src/.gen").read()!=g:
    sh(["bison","-y","-l","-d","-b","cligen_parse","-p","cligen_parse","cligen_parse.y"],cwd=B+"/src")
    sh(["flex","-Pcligen_parse","cligen_parse.l"],cwd=B+"/src")
    open(B+"/src/.gen","w").write(g)
hdrs=h(*[rd(p) for p in sorted(glob.glob(B+"/src/*.h"))])
simh=h(*[rd(p) for p in sorted(glob.glob(HERE+"/*.h"))])
red=rd(HERE+"/redefine.txt")
LIBF=["-std=gnu11","-g","-O1","-fno-omit-frame-pointer","-w","-DHAVE_CONFIG_H","-I"+B+"/src","-I/usr/include/libxml2","-U_FORTIFY_SOURCE","-fsanitize=address","-fsanitize=bounds","-fno-sanitize-recover=bounds","-ftrivial-auto-var-init=pattern","-fsanitize-coverage=trace-pc-guard","-fno-builtin-printf","-fno-builtin-puts"]
if COV: LIBF=[x for x in LIBF if "trace-pc" not in x]+["-fprofile-instr-generate","-fcoverage-mapping"]
LIBF1=LIBF+["-DYY_NO_INPUT"]
SIMF=["-std=c++17","-g1","-O1","-fno-omit-frame-pointer","-Wall","-Wno-unused-function","-fsanitize=address","-I"+HERE,"-I"+B+"/src","-I/usr/include/libxml2","-DHAVE_CONFIG_H"]
jobs=[]; objs=[]
for s in sorted(os.listdir(B+"/src")):
    if not s.endswith(".c"): continue
    src=B+"/src/"+s; o=B+"/obj/lib_"+s[:-2]+".o"; fl=LIBF1 if s.startswith("lex.") else LIBF
    key=h(rd(src),hdrs," ".join(fl),red); jobs.append(("lib",src,o,fl,key)); objs.append(o)
for s in sorted(os.listdir(HERE)):
    if not s.endswith(".cc"): continue
    src=HERE+"/"+s; o=B+"/obj/sim_"+s[:-3]+".o"; key=h(rd(src),simh,hdrs," ".join(SIMF)); jobs.append(("sim",src,o,SIMF,key)); objs.append(o)
redf=B+"/redefine.syms"; open(redf,"wb").write(red)
def build(j):
    k,src,o,fl,key=j
    if os.path.exists(o) and os.path.exists(o+".key") and open(o+".key").read()==key: return False
    if k=="lib":
        sh([CC]+fl+["-c",src,"-o",o+".tmp.o"]); sh(["objcopy","--redefine-syms="+redf,o+".tmp.o",o]); os.unlink(o+".tmp.o")
    else: sh([CXX]+fl+["-c",src,"-o",o])
    open(o+".key","w").write(key); return True
with cf.ThreadPoolExecutor(8) as ex: ch=list(ex.map(build,sorted(jobs,key=lambda j:-os.path.getsize(j[1]))))
for f in os.listdir(B+"/obj"):
    if f.endswith(".o") and B+"/obj/"+f not in objs: os.unlink(B+"/obj/"+f)
exe=B+"/sim"
lk=h(*objs)
if any(ch) or not os.path.exists(exe) or not os.path.exists(exe+".key") or open(exe+".key").read()!=lk:
    sh([CXX,"-fsanitize=address","-fsanitize=bounds"]+(["-fprofile-instr-generate"] if COV else [])+objs+["-lxml2","-o",exe+".new"]); os.rename(exe+".new",exe); open(exe+".key","w").write(lk)
print(exe)
