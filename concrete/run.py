"""Runs one property's executable oracle against the real, untransformed code in /repo (bounded: random inputs, time limited)."""
import sys, os, json, time, argparse, importlib.util, traceback, warnings
sys.dont_write_bytecode=True
ap=argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--repo',default='/repo'); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--secs',type=float,default=15)
ap.add_argument('--out'); ap.add_argument('--deep',action='store_true'); ap.add_argument('--only-case',type=int); ap.add_argument('--case-seed',type=int)
A=ap.parse_args()
sys.path.insert(0,A.repo)
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(1,HERE)
sys.path[:]=[p for i,p in enumerate(sys.path) if not(i>1 and p==HERE)]
import numpy as np
warnings.simplefilter('ignore'); np.seterr(all='ignore')
def js(x,n=0):
    if isinstance(x,np.ndarray):
        return x.tolist() if x.size<=400 else dict(shape=list(x.shape),head=x.ravel()[:40].tolist())
    if isinstance(x,(np.floating,np.integer,np.bool_)): return x.item()
    if isinstance(x,dict): return {str(k):js(v) for k,v in list(x.items())[:40]}
    if isinstance(x,(list,tuple)): return [js(v) for v in x[:100]]
    if isinstance(x,(int,float,str,bool,type(None))): return x
    return repr(x)[:300]
class Stop(Exception): pass
class T:
    """test context handed to the oracle; one `case` = one random input"""
    def __init__(s,seed,secs,deep):
        s.seed=seed; s.t_end=time.time()+secs; s.deep=deep; s.failures=[]; s.cases=0; s.checks=0; s.case=0; s.inp=None; s.fixed=None
    def begin(s,case):
        s.case=case; s.rng=np.random.default_rng([s.seed,case]); s.inp={}; np.random.seed((s.seed*1000003+case)%2**32)
    def input(s,**k): s.inp.update(k)
    def fail(s,name,got=None,want=None,detail=None):
        s.failures.append(dict(check=name,case=s.case,seed=s.seed,input=js(s.inp),got=js(got),want=js(want),detail=detail))
        raise Stop()
    def ok(s,name,cond,got=None,want=None,detail=None):
        s.checks+=1
        if not bool(cond): s.fail(name,got,want,detail)
    def eq(s,name,got,want,rtol=1e-9,atol=None,scale=None):
        s.checks+=1
        try:
            g=np.asarray(got,dtype=float); w=np.asarray(want,dtype=float)
        except Exception as ex: s.fail(name,repr(got),repr(want),'not numeric: %s'%ex)
        if g.shape!=w.shape: s.fail(name,got,want,'shape %s, expected %s'%(g.shape,w.shape))
        if atol is None:
            fw=w[np.isfinite(w)] if w.ndim else (w.reshape(1)[np.isfinite(w.reshape(1))])
            sc=scale if scale is not None else (np.abs(fw).max() if fw.size else 0.)
            atol=rtol*sc
        if not np.allclose(g,w,rtol=rtol,atol=atol,equal_nan=True):
            s.fail(name,got,want)
    def same(s,name,got,want): 
        """exact equality of arrays, NaN equal"""
        s.checks+=1
        g=np.asarray(got); w=np.asarray(want)
        if g.shape!=w.shape: s.fail(name,got,want,'shape %s, expected %s'%(g.shape,w.shape))
        try: e=np.array_equal(g,w,equal_nan=True)
        except TypeError: e=np.array_equal(g,w)
        if not e: s.fail(name,got,want)
    def raises(s,name,f,exc=Exception):
        s.checks+=1
        try: r=f()
        except exc: return
        s.fail(name,'returned %r'%(r,),'an exception')
spec=importlib.util.spec_from_file_location('oracle_'+A.prop,os.path.join(HERE,A.prop+'.py'))
out=dict(failures=[],cases=0,checks=0)
seed=A.case_seed if A.case_seed is not None else A.seed
t=T(seed,A.secs,A.deep)
def dump():
    out.update(failures=t.failures,cases=t.cases,checks=t.checks)
    json.dump(out,open(A.out,'w')) if A.out else print(json.dumps(out,indent=1))
try:
    import misfit
    assert os.path.realpath(misfit.__file__).startswith(os.path.realpath(A.repo)+os.sep),misfit.__file__
    m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
except BaseException as ex:
    t.inp={}
    t.failures.append(dict(check='the package imports',case=-1,seed=seed,input={},got='%s: %s'%(type(ex).__name__,ex),want='import succeeds',detail=traceback.format_exc()[-1500:]))
    dump(); sys.exit(0)
case=0 if not A.deep else 1000000
maxc=getattr(m,'MAXCASES',4000)*(8 if A.deep else 1)
if A.only_case is not None: case=A.only_case
n=0
while True:
    if A.only_case is None and (time.time()>t.t_end and n>=getattr(m,'MINCASES',10) or n>=maxc): break
    t.begin(case)
    try: m.run(t)
    except Stop: pass
    except Exception as ex:
        tb=traceback.extract_tb(ex.__traceback__)
        inrepo=any('/misfit/' in f.filename for f in tb)
        if not inrepo and not isinstance(ex,(TypeError,ValueError,IndexError,ZeroDivisionError)):
            print('ORACLE ERROR',traceback.format_exc()); out['crashed']=True
            dump(); sys.exit(0)
        t.failures.append(dict(check=('no exception (%s)' if inrepo else 'the result can be used (%s)')%type(ex).__name__,case=case,seed=seed,input=js(t.inp),got='%s: %s'%(type(ex).__name__,ex),want='no exception',detail=traceback.format_exc()[-1500:]))
    t.cases+=1; case+=1; n+=1
    if len(t.failures)>=20 or A.only_case is not None: break
dump()
