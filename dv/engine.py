"""Verification-condition driver: every harness is run once per path through the real code, on symbolic inputs; each `ensure`
becomes a named obligation that must be discharged on every path."""
import sys, time, traceback, os, importlib, importlib.util, json
from . import terms as tm, smt, core, arrays, npshim, loader, shims, loops
from .terms import TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,ZERO,ONE,fresh,implies
from .core import S,SB,CTX,Unsupported,PathAbort,Budget,lift_s,tob,mkb
from .arrays import Arr,Dim,FDim,new,frozen

class Obl:
    def __init__(s,name): s.name=name; s.paths=0; s.bad=[]; s.t=0.; s.canary=False
class Harness:
    def __init__(s,name,fn,contract): s.name=name; s.fn=fn; s.contract=contract
class Engine:
    def __init__(s,repo='/repo',stubs=None,budget=300):
        s.repo=repo; s.hs=[]; s.finder=None; s.results={}; s.paths={}; s.unsup=[]; s.assumptions=[]; s.funcs=set(); s.vac=[]; s.budget=budget
        s.t0=time.time(); s.errors=[]; s.can={}; s.names={}
    def used_functions(s):
        return {c for c in _USED if not c.split(':')[1].startswith(('__loop','<'))}
    def h(s,name):
        def deco(f): s.hs.append((name,f)); return f
        return deco
    def load(s):
        track(s.repo)
        for k in [k for k in sys.modules if k=='misfit' or k.startswith('misfit.')]: del sys.modules[k]
        if s.finder: sys.meta_path.remove(s.finder)
        s.finder=loader.Finder(s.repo,shims.base())
        sys.meta_path.insert(0,s.finder)
        import misfit
        return misfit
    def mod(s,name): return importlib.import_module(name)
    def run(s,h,maxpaths=400,timeout=None):
        """all paths of one harness"""
        todo=[[]]; n=0; done=0
        t_end=time.time()+(timeout or s.budget)
        CTX.deadline=t_end
        while todo:
            d=todo.pop(); n+=1
            if n>maxpaths: s.unsup.append((h.name,'more than %d paths'%maxpaths)); break
            CTX.reset(list(d)); tm._fresh[0]=0; npshim._Rand.n=0; loops.REPL[:]=[]; arrays.CTX_LOG[:]=[]; loops._hp[:]=[]
            vc=VC(s,h)
            try:
                h.fn(vc); done+=1
                vc.ended=True
            except PathAbort: pass
            except Unsupported as ex:
                s.unsup.append((h.name,str(ex)+' @ '+where(ex)))
                if len(s.unsup)>20: break
            except Budget as ex:
                s.unsup.append((h.name,'time budget exhausted')); break
            except RecursionError:
                s.unsup.append((h.name,'recursion limit'))
            except Exception as ex:
                # an exception escaping from the code under contract: "does not raise" is part of every contract
                if smt.check(CTX.pc,3000)[0]!='unsat':
                    o=s.obl(h,'%s: no exception'%h.name)
                    o.bad.append(dict(kind='exception',detail='%s: %s @ %s'%(type(ex).__name__,ex,where(ex)),path=[tm.show_b(b) for b in CTX.made][:20],model=getmodel()))
            made,dec=CTX.made,CTX.dec
            for k in range(len(made)-1,len(d)-1,-1): todo.append(list(dec[:k])+[False])
        s.paths[h.name]=(n,done)
        for (hn,nm),v in s.can.items():
            if hn==h.name and v: s.vac.append('%s: canary %s was provable on every path'%(hn,nm))
        CTX.deadline=None
        if done==0 and not any(o.bad for o in s.results.values()) and not any(u[0]==h.name for u in s.unsup): s.vac.append('%s: no path reached its end'%h.name)
    def obl(s,h,name):
        o=s.results.get(name)
        if o is None: o=s.results[name]=Obl(name)
        return o
def where(ex):
    tb=traceback.extract_tb(ex.__traceback__)
    fr=[f for f in tb if '/misfit/' in f.filename]
    f=(fr or tb)[-1]
    g=tb[-1]
    return '%s:%s %s'%(f.filename.split('/misfit/')[-1],f.lineno,f.name)+(' [%s:%s]'%(os.path.basename(g.filename),g.lineno) if not fr or g is not f else '')
def getmodel():
    try:
        return str(smt.LAST[1])[:2000] if smt.LAST[1] is not None else None
    except Exception: return None

class VC:
    def __init__(s,eng,h): s.eng=eng; s.h=h; s.ended=False
    # ---- inputs
    def real(s,name,sign=None): return S(tm.var(s.u(name,sign),'R',sign),TRUE,'f')
    def int_(s,name,lo=None,hi=None):
        sg='nonneg' if lo==0 else 'pos' if (lo or 0)>0 else None
        v=tm.var(s.u(name,sg),'I',sg)
        if lo is not None: CTX.assume(le(const(lo),v))
        if hi is not None: CTX.assume(le(v,const(hi)))
        return S(v,TRUE,'i')
    def u(s,name,sign=None):
        n0=s.eng.names.setdefault(name,sign)
        if n0!=sign: raise RuntimeError('input %s declared with two signs'%name)
        return name
    def bool_(s,name): return mkb(tm.bapp('in_'+s.u(name),[]))
    def arr(s,name,shape,kind='f',sign=None,finite=True):
        nm=s.u(name,sign)
        if sign: tm.APP_SIGN[nm]=sign
        dims=npshim._shape(shape)
        def fn(I):
            a=[x for c in I for x in (c if isinstance(c,tuple) else (c,))]
            if kind=='b': return tm.bapp(nm,a)
            return (tm.app(nm,a,'I' if kind=='i' else 'R'),TRUE if finite else tm.bapp(nm+'_finite',a))
        return new(dims,fn,kind)
    def assume(s,c):
        b=tob(c) if not isinstance(c,tm.B) else c
        CTX.assume(b)
        if smt.check(CTX.pc,1000)[0]=='unsat': raise PathAbort()
    # ---- obligations
    def ensure(s,name,c,hyps=()):
        if isinstance(c,Arr): c=c.all()
        b=c if isinstance(c,tm.B) else tob(c)
        full='%s: %s'%(s.h.name,name)
        o=s.eng.obl(s.h,full); o.paths+=1
        t=time.time()
        ok=b is TRUE or smt.prove(list(CTX.pc)+list(hyps),b)
        o.t+=time.time()-t
        if not ok:
            st=smt.LAST
            o.bad.append(dict(kind='undischarged',detail=tm.show_b(b)[:3000],path=[tm.show_b(x)[:300] for x in CTX.made][:30],verdict=str(st[0]),model=getmodel()))
        return ok
    def ensure_eq(s,name,a,b,finite=False):
        """arrays or scalars equal everywhere (shape included); with finite, also that a is finite"""
        full='%s: %s'%(s.h.name,name)
        o=s.eng.obl(s.h,full)
        if isinstance(a,Arr) or isinstance(b,Arr):
            A=npshim.array(a,copy=False); Bb=npshim.array(b,copy=False)
            if len(A.dims)!=len(Bb.dims) or not all(arrays.same_dim(x,y) for x,y in zip(A.dims,Bb.dims)):
                o.paths+=1; o.bad.append(dict(kind='shape',detail='shape %s, expected %s'%(A.dims,Bb.dims))); return False
            cs=[d.fresh() for d in A.dims]
            rng=[d.rng(c) for d,c in zip(A.dims,cs)]
            if any(x is FALSE for x in rng): o.paths+=1; return True     # no element
            fa,fb=frozen(A),frozen(Bb)
            def go():
                # split generic index cases lazily: element computation may fork
                if A.kind=='b' or Bb.kind=='b':
                    return s.ensure(name,tm.iff(fa.boo(tuple(cs)),fb.boo(tuple(cs))))
                x,ox=fa.num(tuple(cs)); y,oy=fb.num(tuple(cs))
                r=s.ensure(name,eq(x,y)) if oy is TRUE else s.ensure(name,implies(oy,eq(x,y)))
                if finite or oy is not TRUE or ox is not TRUE: r=s.ensure(name+' (finite)',ox if finite else tm.iff(ox,oy)) and r
                return r
            n=len(CTX.pc)
            return CTX.under(rng,go)
        x,y=lift_s(a),lift_s(b)
        r=s.ensure(name,eq(x.v,y.v) if y.ok is TRUE else implies(y.ok,eq(x.v,y.v)))
        if x.ok is not TRUE or y.ok is not TRUE: r=s.ensure(name+' (finite)',x.ok if finite else tm.iff(x.ok,y.ok)) and r
        return r
    def forall(s,name,dims,f):
        """f(index scalars)->SB/B must hold for every index in dims (list of Dim or sizes)"""
        ds=npshim._shape(dims)
        cs=[d.fresh() for d in ds]
        rng=[d.rng(c) for d,c in zip(ds,cs)]
        if any(x is FALSE for x in rng): s.eng.obl(s.h,'%s: %s'%(s.h.name,name)).paths+=1; return True
        return CTX.under(rng,lambda: s.ensure(name,tobx(f(*[S(c,TRUE,'i') for c in cs]))))
    def sum_rule(s,name,n,f,at=()):
        """rule for sums of non-negative terms: obligation 0<=f(i) for every i; then the sum is non-negative and bounds every term"""
        if not s.forall(name+' (terms non-negative)',(n,),lambda i: f(i)>=0): return
        t=npshim.sum(lam_((n,),f)); s.assume(lift_s(t)>=0)
        for a in at: s.assume(mk_or([mk_not(tob(lift_s(a)>=0)),mk_not(tob(lift_s(a)<n)),tob(lift_s(f(a))<=t)]))
    def sum_lemma(s,name,n,f,F):
        """induction rule for sums: obligations F(0)=0 and F(i+1)=F(i)+f(i) for every i; then the sum of f(i), i<n, is F(n) (n>=0)"""
        if not s.ensure(name+' (start)',tobx(lift_s(F(S(ZERO,TRUE,'i')))==0)): return
        if not s.forall(name+' (step)',(n,),lambda i: F(i+1)==F(i)+f(i)): return
        s.assume(lift_s(npshim.sum(lam_((n,),f)))==F(n))
    def canary(s,name,c):
        """a deliberately false goal: must NOT be provable (guards against contradictory assumptions)"""
        b=c if isinstance(c,tm.B) else tob(c)
        key=(s.h.name,name)
        r=b is TRUE or smt.prove(list(CTX.pc),b)
        s.eng.can[key]=s.eng.can.get(key,True) and r
    def raises(s,exc,f):
        """f must raise exc on this path"""
        try: f()
        except exc: return True
        return False
def lam_(*a):
    from . import dsl
    return dsl.lam(*a)
def tobx(x): return x if isinstance(x,tm.B) else tob(x)

_USED=set()
def track(repo):
    """names of the repository functions actually executed"""
    M=sys.monitoring
    try: M.use_tool_id(4,'dv')
    except ValueError: return
    root=os.path.join(os.path.realpath(repo),'misfit')+os.sep
    def start(code,off):
        f=code.co_filename
        if f.startswith(root) or os.path.realpath(f).startswith(root):
            if code.co_name!='<module>': _USED.add(f.split('/misfit/',1)[1]+':'+code.co_qualname.replace('<locals>.',''))
        return M.DISABLE
    M.register_callback(4,M.events.PY_START,start)
    M.set_events(4,M.events.PY_START)
