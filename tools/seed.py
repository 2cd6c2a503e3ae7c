#!/usr/bin/env python3
"""tools/seed.py SPEC.py [ids...] [--notest] [--nocheck]: build /verif/seeded/<id>/ from a list of edits, and confirm each:
applies, demo passes on the unchanged tree and fails with it, stable tests pass with it; then run the property's check against it."""
import sys, os, subprocess, json, shutil, tempfile, importlib.util, concurrent.futures as cf
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args=[a for a in sys.argv[1:] if not a.startswith('--')]; flags={a for a in sys.argv[1:] if a.startswith('--')}
sp=importlib.util.spec_from_file_location('spec',args[0]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want=set(args[1:])
DEMO='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 NUMBA_DISABLE_JIT=%s
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
def sh(cmd,cwd,env=None,timeout=600):
    e=dict(os.environ); e.update(env or {})
    r=subprocess.run(cmd,cwd=cwd,env=e,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return r.returncode,r.stdout
def one(s):
    d=os.path.join(HERE,'seeded',s['id']); os.makedirs(d,exist_ok=True)
    tmp=tempfile.mkdtemp(prefix='seed_'); repo=os.path.join(tmp,'repo')
    try:
        subprocess.check_call(['git','clone','-q','/repo',repo])
        for f,old,new in s['edits']:
            p=os.path.join(repo,f); t=open(p).read()
            if t.count(old)!=1: return s['id'],'EDIT: %d matches for %r'%(t.count(old),old[:60])
            open(p,'w').write(t.replace(old,new))
        diff=subprocess.check_output(['git','-C',repo,'diff'],text=True)
        open(os.path.join(d,'patch.diff'),'w').write(diff)
        open(os.path.join(d,'demo.sh'),'w').write(DEMO%s.get('nojit','1')); os.chmod(os.path.join(d,'demo.sh'),0o755)
        open(os.path.join(d,'demo.py'),'w').write(s['demo'].lstrip('\n'))
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['what']),open(os.path.join(d,'meta.json'),'w'),indent=1)
        rc0,o0=sh('bash %s/demo.sh'%d,'/repo'); rc1,o1=sh('bash %s/demo.sh'%d,repo)
        msg=[]
        if rc0!=0: msg.append('DEMO FAILS ON CLEAN TREE: '+o0[-800:])
        if rc1==0: msg.append('DEMO PASSES WITH PATCH')
        if rc1 and 'AssertionError' not in o1: msg.append('demo dies otherwise: '+o1[-600:])
        if '--notest' not in flags:
            rc,o=sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -k "not test_FitEmissionLines2D" test_models.py test_model2d_creation.py',repo+'/tests',dict(PYTHONPATH=repo,MPLBACKEND='Agg',PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1'))
            if rc: msg.append('TESTS FAIL: '+o[-600:])
        if '--nocheck' not in flags:
            rc,o=sh('python3 %s/check.py %s --repo %s --evidence /dev/null'%(HERE,s['prop'],repo),HERE)
            l=[x for x in o.splitlines() if x.startswith('VIOLATION')]
            msg.append(('caught: ' if rc==1 and l else 'MISSED rc=%d: '%rc)+(l[0] if l else o[-300:])+' | '+o.splitlines()[0][:200])
        return s['id'],'; '.join(msg)
    finally: shutil.rmtree(tmp,ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,[s for s in m.SEEDS if not want or s['id'] in want]): print(*r,flush=True)
