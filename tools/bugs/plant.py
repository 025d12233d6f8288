"""plant.py BUGS.py [ids]: make, confirm and store planted bugs."""
import json, os, re, shutil, subprocess, sys, tempfile
SRC=sys.argv[1]; only=sys.argv[2:]
ns={}; exec(open(SRC).read(),ns)
ORIG=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo log --format='%H %s'",shell=True,capture_output=True,text=True).stdout
fixes={l.split()[0] for l in ORIG.splitlines() if ' fix: ' in ' '+l}
def sh(c,cwd=None,env=None):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env); return r.returncode,(r.stdout+r.stderr)
WK='/tmp/bugs/wk'
def fresh():
    shutil.rmtree(WK,ignore_errors=True); sh("cp -a /repo %s"%WK)
DEMO="""#!/bin/bash
# cwd: the repository, built
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" -W ignore "$here/demo.py"
"""
HEAD="""import os
import numpy as np
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf

"""
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) ) if True else set()
for b in ns['BUGS']:
    bid=b['id']
    if only and bid not in only: continue
    fresh()
    p=os.path.join(WK,b['file'])
    s=open(p).read()
    reps=b['reps']
    ok=True
    for old,new in reps:
        if s.count(old)!=1:
            print(bid,'OLD TEXT x',s.count(old),repr(old)[:80]); ok=False; break
        # blame
        ln=s[:s.index(old)].count('\n')+1; n=old.rstrip('\n').count('\n')+1
        s=s.replace(old,new)
    if not ok: continue
    open(p,'w').write(s)
    rc,diff=sh("git diff",cwd=WK)
    # blame of the removed lines
    rc,bl=sh("git blame -l HEAD -- %s"%b['file'],cwd=WK)
    bl=bl.splitlines()
    cur=None; mine=[]
    for l in diff.splitlines():
        m=re.match(r'@@ -(\d+)',l)
        if m: cur=int(m.group(1)); continue
        if cur is None: continue
        if l.startswith('-') and not l.startswith('---'):
            h=bl[cur-1].split()[0].lstrip('^')
            if h in fixes: mine.append(cur)
            cur+=1
        elif l.startswith(' '): cur+=1
    if mine: print(bid,'TOUCHES FIX LINES',mine); continue
    d='/verif/seeded/'+bid
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(HEAD+b['demo'].lstrip('\n'))
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['what']},open(d+'/meta.json','w'),indent=1)
    # demo clean
    rc0,o0=sh("bash %s/demo.sh"%d,cwd='/repo')
    # build with the patch in the copy
    # build.sh works on /repo: do it for Fortran by applying there
    rc,o=sh("git apply %s/patch.diff"%d,cwd='/repo')
    if rc: print(bid,'APPLY',o); continue
    try:
        rcb,ob=sh("bash /opt/vp/build.sh")
        rct,ot=sh("bash /opt/vp/test.sh /tmp/bugs/o.json")
        t=json.load(open('/tmp/bugs/o.json')); passed=set(t['passed'])
        rc1,o1=sh("bash %s/demo.sh"%d,cwd='/repo')
        rcc,oc=(None,'')
        if not os.environ.get('NOCHECK'):
            rcc,oc=sh("bash run.sh %s"%b['prop'],cwd='/verif',env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
    finally:
        sh("git checkout -- .",cwd='/repo'); sh("bash /opt/vp/build.sh")
    print(bid,b['prop'],'clean demo',rc0,'build',rcb,'tests',len(passed),'patched demo',rc1,'CHECK',rcc, '' if rcc==1 else 'MISSED', [l for l in oc.splitlines() if '/' in l and ':' in l][:1][0][:150] if rcc==1 else oc[-200:], flush=True)
    if rc0: print(o0[-600:])
    if rc1==0: print('   demo does not fail')
    elif 'Violated' not in o1 and 'AssertionError' not in o1: print('   demo:',o1[-300:])
shutil.rmtree(WK,ignore_errors=True)
sh("rm -f /verif/replays/*.json")
