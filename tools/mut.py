#!/usr/bin/env python3
"""tools/mut.py SPEC.py [ids] [--tests]: quick detection sweep over source mutants / refactorings (not kept as planted bugs).
SPEC defines M: list of (id, property or 'P1,P2', [(file,old,new)...]); ids starting with 'ok-' are behaviour preserving: the check must stay quiet."""
import sys,os,subprocess,tempfile,shutil,importlib.util,concurrent.futures as cf,re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args=[a for a in sys.argv[1:] if not a.startswith('--')]
sp=importlib.util.spec_from_file_location('spec',args[0]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want=set(args[1:])
def one(x):
    id,props,edits=x; tmp=tempfile.mkdtemp(prefix='mut_'); out=[]
    try:
        shutil.copytree('/repo/misfit',tmp+'/misfit')
        for f,old,new,*first in edits:
            p=os.path.join(tmp,'misfit',f); t=open(p).read(); n=t.count(old)
            if n!=1 and not(first and n): return id,'EDIT: %d matches for %r'%(n,old[:70])
            open(p,'w').write(t.replace(old,new,1))
        for p in props.split(','):
            r=subprocess.run('timeout 400 python3 check.py %s --repo %s --evidence %s/e.json'%(p,tmp,tmp),shell=True,cwd=HERE,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            s='quiet' if r.returncode==0 else 'NO-INPUT' if v and 'no-failing' in v[0] else 'input' if v else 'rc%d'%r.returncode
            good=(s=='quiet')==id.startswith('ok-')
            out.append('%s %s:%s | %s'%('    ' if good else '****',p,s,r.stdout.splitlines()[0][:230] if r.stdout else ''))
        return id,'; '.join(out)
    finally: shutil.rmtree(tmp,ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for i,r in ex.map(one,[x for x in m.M if not want or x[0] in want]): print('%-28s %s'%(i,r),flush=True)
