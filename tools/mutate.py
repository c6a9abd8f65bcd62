#!/usr/bin/env python3
"""mutate.py [-n N] [-s SEED] [-t SECONDS] FILE[:FROM-TO]... : mutation testing of the checks (development tool).
Makes N random single-line mutants of /repo's FILEs in a scratch copy, builds the simulator from it and runs the checks
briefly; prints each mutant that no check notices.  Never touches /repo."""
import sys,os,re,random,subprocess,shutil,argparse,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap=argparse.ArgumentParser(); ap.add_argument('-n',type=int,default=20); ap.add_argument('-s',type=int,default=1); ap.add_argument('-t',type=float,default=6); ap.add_argument('-w',default='/tmp/mut'); ap.add_argument('-c',default=''); ap.add_argument('files',nargs='+'); a=ap.parse_args()
FIRST={'cligen_getline.c':['C01','C02','C04','C05','C20','C03','C06'],'cligen_history.c':['C06','C07','C15'],'cligen_io.c':['C08','C03','C17','C09'],'cligen_eval.c':['C10','C09'],'cligen_match.c':['C10','C12'],'cligen_expand.c':['C10','C12','C11','C13'],'cligen_read.c':['C12','C10','C13'],'cligen_regex.c':['C10'],'cligen_buf.c':['C17'],'cligen_syntax.c':['C19','C10'],'cligen_parse.y':['C19','C10'],'cligen_parse.l':['C19','C10'],'cligen_parsetree.c':['C13','C11','C10','C14'],'cligen_object.c':['C11','C10','C14'],'cligen_handle.c':['C13','C16','C06'],'cligen_pt_head.c':['C13'],'cligen_callback.c':['C13','C10']}
ALL=['C10','C12','C13','C11','C01','C02','C06','C14','C15','C16','C09','C08','C19','C03','C04','C05','C07','C17','C20']
rnd=random.Random(a.s)
def muts(l):
    out=[]; c=l.split('/*')[0]
    if not c.strip() or c.lstrip().startswith(('*','//','#','fprintf','perror')): return out
    for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])',c):
        if '->' in c[max(0,m.start()-1):m.end()+1] : continue
        for r in {'<=':['<'],'>=':['>'],'==':['!='],'!=':['=='],'<':['<='],'>':['>=']}[m.group(1)]: out.append(l[:m.start()]+r+l[m.end():])
    for m in re.finditer(r'&&|\|\|',c): out.append(l[:m.start()]+('||' if m.group()=='&&' else '&&')+l[m.end():])
    for m in re.finditer(r'\s*[-+]\s*1\b',c): out.append(l[:m.start()]+l[m.end():])
    for m in re.finditer(r'\b(0|1|-1)\b(?=\s*[;),])',c): out.append(l[:m.start()]+{'0':'1','1':'0','-1':'0'}[m.group(1)]+l[m.end():])
    for m in re.finditer(r'\+\+|--',c): out.append(l[:m.start()]+('--' if m.group()=='++' else '++')+l[m.end():])
    m=re.match(r'(\s*)(if|while|\} *else if)\s*\((.*)\)(\s*\{?\s*)$',c.rstrip())
    if m and c.count('(')==c.count(')'): out.append('%s%s (!(%s))%s'%m.groups()); 
    if re.match(r'\s+[\w>*\[\]().\-]+ *([-+|&]?=)[^=].*;\s*$',c) or re.match(r'\s+[a-z_]\w*\(.*\);\s*$',c) or re.match(r'\s+(continue|break|goto \w+);\s*$',c):
        if not re.match(r'\s+(char|int|cg_\w+|cvec|size_t|parse_tree|pt_head|struct|const|unsigned|uint\w+|static|enum)\b',c): out.append(re.match(r'\s*',l).group()+';')
    return out
files=[f for f in os.listdir('/repo') if f.endswith(('.c','.h','.y','.l'))]
W=a.w; R=W+'/repo'; os.makedirs(R,exist_ok=True); os.makedirs(W+'/tmp',exist_ok=True)
for f in files: shutil.copy('/repo/'+f,R)
cand=[]
for spec in a.files:
    f,_,r=spec.partition(':'); L=open('/repo/'+f).read().split('\n'); lo,hi=(map(int,r.split('-')) if r else (1,len(L))); inc=False; vms=0
    for i in range(lo-1,min(hi,len(L))):
        s=L[i].strip()
        if s=='goto done;' and rnd.random()<.85: continue
        if re.match(r'retval = (-1|0);',s) and rnd.random()<.7: continue
        if re.match(r'#if.*(vms|VMS|MSDOS|_DEBUG)',s): vms=1
        elif vms and re.match(r'#(el|endif)',s): vms=0
        if vms: continue
        if inc or s.startswith('/*'): inc='*/' not in s; continue
        for m in muts(L[i]): cand.append((f,i,m))
rnd.shuffle(cand); surv=0; n=0; env=dict(os.environ,SIM_REPO=R)
base={f:open('/repo/'+f).read() for f in {c[0] for c in cand}}
print(len(cand),'candidates',flush=True)
for f,i,m in cand:
    if n>=a.n: break
    L=base[f].split('\n'); old=L[i]; L[i]=m; open(R+'/'+f,'w').write('\n'.join(L))
    b=subprocess.run([sys.executable,V+'/sim/build.py',W+'/build'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    res='BUILD'
    if b.returncode==0:
        n+=1; ids=a.c.split(',') if a.c else FIRST.get(f,[])+[x for x in ALL if x not in FIRST.get(f,[])]; res=''
        for c in ids:
            r=subprocess.run([W+'/build/sim','run',c,'--runs','1000000','--time',str(a.t),'--tmp',W+'/tmp','--known',V+'/known_findings.txt','--nomin','1','--seed',str(a.s)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode: 
                o=r.stdout.decode(errors='replace'); mm=re.search(r'class=(\S+)',o); res='%s %s'%(c,mm.group(1) if mm else 'rc=%d %s'%(r.returncode,o[:200])); break
        if not res: surv+=1; res='SURVIVED'
    if res!='BUILD': print('%s %s:%d\n   - %s\n   + %s'%(res,f,i+1,old.strip(),m.strip()),flush=True)
    open(R+'/'+f,'w').write(base[f])
print('mutants %d survived %d'%(n,surv))
