#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR] [--no-concrete] [-v]   (run with python3-vt)
Decides one property: loads /repo's current source, generates and discharges every obligation of the property's contracts,
and cross-checks / searches for a failing input by running the real code.  Exit 0 held, 1 violated."""
import os, sys
if os.environ.get('PYTHONHASHSEED')!='0':
    os.environ['PYTHONHASHSEED']='0'; os.environ['PYTHONDONTWRITEBYTECODE']='1'
    VT='/opt/veriftools/pyvenv/bin/python'
    os.execv(VT if os.path.exists(VT) else sys.executable,[VT,os.path.abspath(__file__)]+sys.argv[1:])
sys.dont_write_bytecode=True
import json, time, subprocess, argparse, multiprocessing as mp, importlib, traceback, tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
sys.setrecursionlimit(20000)
ap=argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--repo',default='/repo')
ap.add_argument('--no-concrete',action='store_true'); ap.add_argument('--no-proof',action='store_true'); ap.add_argument('-v',action='store_true'); ap.add_argument('--only'); ap.add_argument('--replay'); ap.add_argument('--evidence')
A=ap.parse_args()
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
THOROUGH=A.tier=='thorough'
PY='/opt/venv/bin/python'
T0=time.time()

def concrete_cmd(secs,out,extra=()):
    return [PY,os.path.join(HERE,'concrete','run.py'),A.prop,'--repo',A.repo,'--seed',str(SEED),'--secs',str(secs),'--out',out]+list(extra)
def start_concrete(secs,extra=()):
    f=tempfile.NamedTemporaryFile(suffix='.json',delete=False); f.close()
    env=dict(os.environ,NUMBA_DISABLE_JIT='1',MPLBACKEND='agg',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',PYTHONDONTWRITEBYTECODE='1',PYTHONWARNINGS='ignore')
    env.pop('PYTHONHASHSEED',None)
    p=subprocess.Popen(concrete_cmd(secs,f.name,extra),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,cwd='/tmp',text=True)
    return p,f.name,secs
def has_failures(f):
    try: return bool(json.load(open(f))['failures'])
    except Exception: return False
def end_concrete(h):
    p,f,secs=h
    try: out,_=p.communicate(timeout=secs+240)
    except subprocess.TimeoutExpired:
        p.kill(); out='timeout'; p.communicate()
    try: r=json.load(open(f))
    except Exception: r=dict(crashed=True,log=out[-3000:],failures=[],cases=0,checks=0)
    os.unlink(f)
    r['log']=out[-2000:]
    return r

def work(args):
    """one harness, in a forked worker"""
    name=args
    e=ENG
    from dv import smt, engine
    h=[x for x in HS if x[0]==name][0]
    t=time.time(); s0=dict(smt.STATS)
    try:
        e.run(engine.Harness(name,h[1],A.prop),maxpaths=2000,timeout=BUDGET)
    except BaseException as ex:
        e.unsup.append((name,'engine: %s: %s\n%s'%(type(ex).__name__,ex,traceback.format_exc()[-1500:])))
    st={k:smt.STATS[k]-s0.get(k,0) if isinstance(smt.STATS[k],(int,float)) else smt.STATS[k] for k in smt.STATS}
    return dict(name=name,t=time.time()-t,obls=[dict(name=o.name,paths=o.paths,bad=o.bad[:3],nbad=len(o.bad),t=o.t) for o in e.results.values()],unsup=e.unsup[:8],vac=e.vac,paths=e.paths.get(name),stats=st,used=sorted(e.used_functions()))
def main():
    global ENG,HS,BUDGET
    if A.replay:
        d=json.load(open(A.replay))
        if 'case' in d:
            h=start_concrete(600,['--only-case',str(d['case']),'--case-seed',str(d['seed'])]); r=end_concrete(h)
            print(json.dumps(r['failures'],indent=1)[:4000]); sys.exit(1 if r['failures'] else 0)
        print(json.dumps(d,indent=1)); sys.exit(1)
    conc=None
    have_conc=os.path.exists(os.path.join(HERE,'concrete',A.prop+'.py')) and not A.no_concrete
    csecs=(120 if THOROUGH else 15)
    if have_conc: conc=start_concrete(csecs)
    from dv import engine, smt
    problems=[]; res=[]; load_error=None
    BUDGET=600 if THOROUGH else 240
    smt.TIMEOUT_SCALE[0]=4 if THOROUGH else 1
    meta=importlib.import_module('contracts.'+A.prop)
    ENG=engine.Engine(A.repo)
    HS=[]
    if not A.no_proof:
        try:
            ENG.load()
            HS=meta.harnesses(ENG)
            if A.only: HS=[h for h in HS if A.only in h[0]]
        except BaseException as ex:
            load_error='%s: %s @ %s'%(type(ex).__name__,ex,engine.where(ex))
            problems.append(dict(obligation='loading the source and binding the contracts',kind='load',detail=load_error,trace=traceback.format_exc()[-1500:]))
        if HS:
            ctx=mp.get_context('fork')
            with ctx.Pool(min(8,len(HS)),maxtasksperchild=1) as pool:
                it=pool.imap_unordered(work,[h[0] for h in HS],chunksize=1); cap=T0+(2400 if THOROUGH else 420); got=set()
                while True:
                    # all obligations are attempted; past the cap what is left counts as not discharged.  With a failing input of the real code already in hand there is no need to wait for all.
                    if conc and conc[0].poll() is not None and time.time()-T0>(300 if THOROUGH else 100) and has_failures(conc[1]): cap=min(cap,time.time())
                    try: r=it.next(timeout=2)
                    except StopIteration: break
                    except mp.TimeoutError:
                        if time.time()>cap: pool.terminate(); break
                        continue
                    res.append(r); got.add(r['name'])
                for h in HS:
                    if h[0] not in got: problems.append(dict(obligation=h[0],kind='outside-the-verifier',detail='not decided within the time allowed'))
    res.sort(key=lambda r:r['name'])
    nob=0; ndis=0; back={}
    samples={}
    for r in res:
        for o in r['obls']:
            nob+=1
            if o['nbad']:
                for b in o['bad']: problems.append(dict(obligation=o['name'],**b))
            else: ndis+=1
        for u in r['unsup']: problems.append(dict(obligation=r['name'],kind='outside-the-verifier',detail=u[1]))
        for v in r['vac']: problems.append(dict(obligation=r['name'],kind='vacuity',detail=v))
        if not r['obls']: problems.append(dict(obligation=r['name'],kind='vacuity',detail='no obligation was generated'))
        for k,v in r['stats'].items():
            if isinstance(v,(int,float)): back[k]=back.get(k,0)+v
    if HS and nob==0: problems.append(dict(obligation='all',kind='vacuity',detail='no obligations'))
    if A.v:
        for r in res:
            print('== %-40s %.1fs paths=%s'%(r['name'],r['t'],r['paths']))
            for o in r['obls']: print('   %s %s (%d) %.2fs'%('ok ' if not o['nbad'] else 'BAD',o['name'],o['paths'],o['t']))
            for u in r['unsup']: print('   UNSUP',u)
            for v in r['vac']: print('   VAC',v)
        for p in problems: print('PROBLEM',json.dumps(p)[:1500])
    cres=end_concrete(conc) if conc else None
    if have_conc and problems and not cres['failures']:
        # the proof failed: look harder for a failing input
        c2=end_concrete(start_concrete(150 if THOROUGH else 60,['--deep']))
        if c2['failures'] or not cres.get('cases'): cres=c2
        else: cres['deep_cases']=c2.get('cases')
    known=load_known()
    viol=0; rc=0
    os.makedirs(os.path.join(HERE,'replays'),exist_ok=True)
    fails=[]; seen_known=set()
    if cres:
        for f in cres['failures']:
            k=[x for x in known if x[0]==A.prop and x[1] in (f['check'],f.get('key'))]
            if k: seen_known.add(k[0])
            else: fails.append(f)
        if cres.get('crashed'):
            problems.append(dict(obligation='concrete run',kind='crash',detail=cres['log'][-1500:]))
            print('concrete run gave no result:\n'+cres['log'][-1500:])
    for k in known:
        if k[0]==A.prop: print('KNOWN-FINDING: property=%s %s'%(A.prop,k[2]))
    if fails:
        f=fails[0]
        rp=os.path.join(HERE,'replays','%s.json'%A.prop)
        json.dump(dict(property=A.prop,kind='failing-input',obligations=[p['obligation'] for p in problems][:20],verifier_output=problems[:5],case=f['case'],seed=f['seed'],check=f['check'],input=f.get('input'),got=f.get('got'),want=f.get('want'),detail=f.get('detail'),replay_cmd='python3 %s/check.py %s --replay %s'%(HERE,A.prop,rp)),open(rp,'w'),indent=1)
        print('failed: %s\n  input %s\n  got %s\n  want %s'%(f['check'],str(f.get('input'))[:600],str(f.get('got'))[:300],str(f.get('want'))[:300]))
        print('VIOLATION property=%s replay=%s'%(A.prop,rp)); rc=1; viol=len(fails)
    elif problems:
        rp=os.path.join(HERE,'replays','%s.json'%A.prop)
        json.dump(dict(property=A.prop,kind='failed-obligation',obligation=problems[0]['obligation'],obligations=[p['obligation'] for p in problems][:40],verifier_output=problems[:10]),open(rp,'w'),indent=1)
        for p in problems[:4]: print('failed obligation: %s [%s] %s'%(p['obligation'],p.get('kind'),str(p.get('detail'))[:400]))
        print('VIOLATION property=%s replay=%s no-failing-input-found'%(A.prop,rp)); rc=1; viol=len(problems)
    M=getattr(meta,'META',{})
    cov=dict(obligations=nob,discharged=ndis,checker_cmd='cd /verif && python3 check.py %s --tier %s'%(A.prop,A.tier),
        trusted_base=TRUST+M.get('trusted',[]),functions_under_contract=M.get('functions',[]),functions_executed=sorted({u for r in res for u in r['used']}),
        harnesses=[dict(name=r['name'],paths=r['paths'],seconds=round(r['t'],2),obligations=len(r['obls'])) for r in res],
        solver=back,bounded_cross_check=(dict(cases=cres.get('cases'),checks=cres.get('checks'),deep_cases=cres.get('deep_cases'),bound='random inputs for %d s on the real code; counted as bounded, not as proved'%csecs) if cres else None),
        extraction_rewrites=engine.loader.REWRITES,obligation_names=[o['name'] for r in res for o in r['obls']])
    cov.update(M.get('coverage',{}))
    ev=dict(property=A.prop,tier=A.tier,seed=SEED,level=M.get('level','proof'),coverage=cov,wall_s=round(time.time()-T0,2),assumptions=ASSUME+M.get('assumptions',[]),violations=viol)
    os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    evp=A.evidence or os.path.join(HERE,'evidence',A.prop+'.json')
    json.dump(ev,open(evp,'w'),indent=1)
    if rc==0: print('%s held: %d/%d obligations discharged, %s concrete cases, %.1f s'%(A.prop,ndis,nob,cres.get('cases') if cres else 0,time.time()-T0))
    sys.exit(rc)
def load_known():
    out=[]
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('known:'):
                # known: property=Cxx key=<check name> | text
                h,t=l.split('|',1); w=h.split(None,2)
                out.append((w[1].split('=')[1],w[2].split('=',1)[1].strip(),t.strip()))
    return out
TRUST=["the verifier itself (/verif/dv: rewriter, path explorer, loop rule, numpy shim, normal-form prover)","z3 4.x (python3-vt z3-solver)",
  "numpy's documented meaning of each operation as written in dv/npshim.py and dv/arrays.py","CPython 3.12 executes the rewritten functions as it executes the originals"]
ASSUME=["machine floating-point arithmetic is treated as exact real arithmetic; NaN/inf are tracked by a finiteness flag, rounding, overflow and underflow are not modelled",
  "decimal literals denote the exact decimal they spell","numba's njit compiles the Python meaning of a function",
  "reshape/ravel results are treated as copies (no write through a reshaped view)"]
if __name__=='__main__': main()
