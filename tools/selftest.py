#!/usr/bin/env python3
"""selftest.py [RUNS]: determinism of the simulator.  Runs the first RUNS seeds of every scenario twice, in different
processes with different environments and load, and compares the hashes of the complete event logs and of the coverage."""
import subprocess,sys,os,tempfile,concurrent.futures as cf
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); n=sys.argv[1] if len(sys.argv)>1 else "100"
exe=subprocess.run([sys.executable,V+"/sim/build.py",V+"/build"],stdout=subprocess.PIPE,check=True).stdout.decode().split()[-1]
ids=subprocess.run([exe,"list"],stdout=subprocess.PIPE).stdout.decode().split()
def one(a):
    i,k=a; t=tempfile.mkdtemp(prefix="verif-self-"); e=dict(os.environ)
    if k: e.update(JUNK="x"*5000,TERM="vt100",COLUMNS="13",LINES="5",TZ="Asia/Tokyo",MALLOC_PERTURB_="77")
    r=subprocess.run([exe,"hashes",i,"--runs",n,"--tmp",t],stdout=subprocess.PIPE,env=e,cwd="/" if k else V).stdout; os.rmdir(t); return r
bad=0
with cf.ThreadPoolExecutor(8) as ex:
    res=dict(zip([(i,k) for i in ids for k in (0,1)],ex.map(one,[(i,k) for i in ids for k in (0,1)])))
for i in ids:
    a,b=res[i,0].splitlines(),res[i,1].splitlines(); d=[x for x,y in zip(a,b) if x!=y]
    print(i,len(a),"runs","same" if a==b and a else "DIFFERENT %s"%d[:2]); bad|=a!=b or not a
sys.exit(bad)
