#!/usr/bin/env python3
"""seedcheck.py ID...: for each /verif/seeded/ID: apply to /repo, build, stable tests, demo (must fail), check (should catch), undo, demo (must pass)."""
import sys,os,subprocess,json,shutil,tempfile
def sh(c,t=900):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    except subprocess.TimeoutExpired: 
        class R: returncode=-99; stdout=b"timeout"
        return R
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
notest='--notest' in sys.argv
def demo(d):
    t=tempfile.mkdtemp(prefix="seed-")
    for f in os.listdir(d):
        if not f.endswith(('.diff','.patch','meta.json')): shutil.copy(d+'/'+f,t)
    r=sh('cd /repo && timeout 300 bash %s/demo.sh'%t); shutil.rmtree(t); return r
for i in [a for a in sys.argv[1:] if a[0]!='-']:
    d='/verif/seeded/'+i; m=json.load(open(d+'/meta.json')); res=[]
    assert sh('git -C /repo diff --quiet').returncode==0
    sh('bash /opt/vp/build.sh')
    r=demo(d); res.append('demo-clean=%d'%r.returncode)
    if r.returncode: print(r.stdout.decode()[-1500:])
    if sh('git -C /repo apply %s/patch.diff'%d).returncode: print(i,'PATCH DOES NOT APPLY'); continue
    try:
        if not notest:
            r=sh('bash /opt/vp/test.sh /tmp/st.json'); p=set(json.load(open('/tmp/st.json'))['passed']); miss=stable-p
            res.append('tests-missing=%d'%len(miss)); 
            if miss: print(sorted(miss)[:5])
        else: sh('bash /opt/vp/build.sh')
        r=demo(d); res.append('demo-bug=%d'%r.returncode)
        if r.returncode==0: print(r.stdout.decode()[-1500:])
        r=sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check %s'%m['property'],1000)
        v=[l for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('VIOLATION')]
        res.append('check=%d %s'%(r.returncode,v[:1]))
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    print(i,m['property'],*res,flush=True)
