"""objects shared by several contract files: built from the repository's own classes, with symbolic attributes"""
from dv.dsl import *
def fn2(name,sign=None):
    """an unspecified real function of two reals, applied cell by cell"""
    if sign: tm.APP_SIGN[name]=sign
    def f(a,b):
        A=isinstance(a,Arr); B=isinstance(b,Arr)
        if not A and not B:
            a,b=lift_s(a),lift_s(b); return S(tm.app(name,[a.v,b.v]),both_ok(a,b),'f')
        a=npshim.array(a,copy=False)+0*b if not A else a; b=npshim.array(b,copy=False)+0*a if not B else b
        fa,fb=frozen(a),frozen(b)
        def fn(I):
            x,ox=fa.num(I); y,oy=fb.num(I)
            return (tm.app(name,[x,y]),mk_and([ox,oy]))
        return new(a.dims,fn,'f')
    return f
def both_ok(a,b): return mk_and([a.ok,b.ok])
class AnyIntensity:
    """any light profile: contract only that int(r,z) is some function of r and z, value by value"""
    def __init__(s,name='Iprof'): s.f=fn2(name,'nonneg')
    def int(s,r,z): return s.f(r,z)
    def update_values(s,g): pass
def galaxy(E,vc,**kw):
    gl=E.mod('misfit.galaxy')
    g=gl.Galaxy()
    g.n=vc.real('gal_n','pos'); g.re_arcsec=vc.real('re_arcsec','pos'); g.q=vc.real('gal_q','pos'); g.q0=vc.real('gal_q0','pos')
    vc.assume(both(g.q<=1,g.q0<1))
    g.re_mass_arcsec=vc.real('re_mass_arcsec','pos'); g.q_mass=vc.real('q_mass','pos'); g.delt_PA=vc.real('delt_PA'); g.z=vc.real('gal_z','nonneg')
    g.__dict__.update(kw)
    return g
def instrument(E,vc,psf='Gaussian',**kw):
    im=E.mod('misfit.instrument')
    i=im.Spectrograph(PSF_type=psf,PSF_FWHM=vc.real('PSF_FWHM','pos'))
    i.pixscale=vc.real('pixscale','pos'); i.slit_width=vc.real('slit_width','pos'); i.instrument_resolution=vc.real('inst_res','nonneg')
    i.__dict__.update(kw)
    return i
_INTERN=[False]; _MEMO={}
class interned:
    def __enter__(s): s.o=_INTERN[0]; _INTERN[0]=True
    def __exit__(s,*a): _INTERN[0]=s.o
def opaque(name,shape,*args,sign=None,kind='f'):
    """result of a call known only through its contract: some function of the values of its arguments (no side effect), of the given shape.
    shape entries may be strings: then that extent is itself an unspecified positive function of the arguments."""
    ts=[]; nm=name
    def put(a):
        nonlocal nm
        if isinstance(a,Arr):
            if a.kind=='b': a=npshim.astype(a,npshim.int64)
            l,ok=arrays.lam_over(a.dims,lambda cs: frozen(a).num(cs)); ts.append(l)
            for d in a.dims:
                if isinstance(d,Dim): ts.append(d.n)
            if ok is not TRUE: ts.append(tm.iv(ok))
        elif isinstance(a,(list,tuple)):
            nm+='_%d'%len(a); [put(x) for x in a]
        elif a is None or isinstance(a,str): nm+='_%s'%(a,)
        else:
            s=lift_s(a); ts.append(s.v)
            if s.ok is not TRUE: ts.append(tm.iv(s.ok))
    for a in args: put(a)
    if sign: tm.APP_SIGN[nm]=sign
    if _INTERN[0]:
        # structurally identical arguments give the same result, different ones an unrelated result: weaker than the contract, hence sound, and small
        key=(nm,)+tuple((type(t).__name__,t.id) for t in ts)
        nm='%s@%d'%(name,_MEMO.setdefault(key,len(_MEMO)))
        fv={a for t in ts for a in t.fv if a.kind=='bv' or '!' in a.name}
        ts=[tm.atom_t(a) for a in sorted(fv,key=lambda a:a.id)]
        if sign: tm.APP_SIGN[nm]=sign
    sh=[]
    for x in shape:
        if isinstance(x,str):
            tm.APP_SIGN[nm+x]='pos'; sh.append(S(tm.app_raw(nm+x,tuple(ts),'I'),TRUE,'i'))
        else: sh.append(x)
    if not shape: return S(tm.app_raw(nm,tuple(ts),'R'),TRUE,'f')
    dims=npshim._shape(tuple(sh))
    return new(dims,lambda I:(tm.app_raw(nm,tuple(ts)+tuple(c for c in I),'R'),TRUE),kind)
class patched:
    """replace callees by their contracts while a caller is being verified"""
    def __init__(s,*items): s.items=items
    def __enter__(s):
        s.old=[getattr(m,n) for m,n,f in s.items]
        for m,n,f in s.items: setattr(m,n,f)
    def __exit__(s,*a):
        for (m,n,f),o in zip(s.items,s.old): setattr(m,n,o)
class Lmfit:
    """contract assumed for lmfit.Parameters/minimize: a fit returns a parameter set of the same names, in which fixed parameters keep
    their value and each fitted one is some finite value (>=0 where that bound is set), unrelated between calls; the inputs are not modified"""
    class P(dict):
        def add(s,name,value=None,vary=True,min=None,max=None,expr=None,**k): s[name]=NS(name=name,value=value,vary=vary,min=min,max=max,expr=expr,stderr=None)
        def valuesdict(s): return {k:v.value for k,v in s.items()}
    def __init__(s,tag='fit',positive=('sigma',)): s.calls=[]; s.tag=tag; s.positive=positive
    def Parameters(s): return Lmfit.P()
    def minimize(s,fcn,params,args=(),**kw):
        import sys
        s.calls.append((fcn,params,args)); r=Lmfit.P()
        act=list(loops.ACTIVE); site='%s@%d'%(s.tag,sys._getframe(1).f_lineno if act else -len(s.calls))   # one call site inside a loop: a value per iteration
        for k,p in params.items():
            if p.expr is not None: continue
            if p.vary is False: v=p.value
            else:
                sg='pos' if k in s.positive else 'nonneg' if isinstance(p.min,(int,float)) and p.min==0 else None
                nm=site+'_'+k
                if sg: tm.APP_SIGN[nm]=sg
                v=S(tm.app_raw(nm,tuple(act),'R'),TRUE,'f')
                for bnd,up in((p.min,False),(p.max,True)):
                    if bnd is not None: CTX.learn(tob(v<=bnd if up else v>=bnd))
            r[k]=NS(name=k,value=v,vary=p.vary,min=p.min,max=p.max,stderr=None)
        for k,p in params.items():
            if p.expr is None: continue
            a,op,b=p.expr.replace('-',' - ').replace('+',' + ').split() if ('-' in p.expr or '+' in p.expr) else (p.expr,'',None)
            v=r[a].value if not op else r[a].value-r[b].value if op=='-' else r[a].value+r[b].value
            r[k]=NS(name=k,value=v,vary=False,min=None,max=None,stderr=None)
        s.results.append(r) if hasattr(s,'results') else setattr(s,'results',[r])
        return NS(params=r,message='',success=True,errorbars=True,redchi=None)
    def fit_report(s,*a,**k): return ''
import copy as _cpy
class Files:
    """pickle files: what was last written under a name is what is read from it (equal, and separate)"""
    class FH:
        def __init__(s,F,name,mode): s.F=F; s.name=name; s.mode=mode; s.closed=False
        def __enter__(s): return s
        def __exit__(s,*a): s.closed=True
        def close(s): s.closed=True
        def write(s,o):
            assert not s.closed and ('w' in s.mode or 'a' in s.mode) and 'b' in s.mode and isinstance(o,Files.Bytes)
            if s.name not in s.F.d: s.F.d[s.name]=_cpy.deepcopy(o.o)
            s.F.writes.append(s.name)
        def read(s):
            assert not s.closed and not('w' in s.mode or 'a' in s.mode) and 'b' in s.mode; s.F.reads.append(s.name); return Files.Bytes(s.F.d[s.name])
    class Bytes:
        def __init__(s,o): s.o=_cpy.deepcopy(o)
    HIGHEST_PROTOCOL=5; DEFAULT_PROTOCOL=5
    def __init__(s): s.d={}; s.reads=[]; s.writes=[]
    def open(s,name,mode='r'):
        if 'w' in mode: s.d.pop(name,None)
        elif 'a' not in mode and name not in s.d: raise IOError(name)
        return Files.FH(s,name,mode)
    def dumps(s,o,*a,**k): return Files.Bytes(o)
    def loads(s,b,*a,**k): return _cpy.deepcopy(b.o)
    def dump(s,o,fh,*a,**k): fh.write(s.dumps(o))
    def load(s,fh,*a,**k): return s.loads(fh.read())
class files:
    def __init__(s,F,*mods): s.F=F; s.m=mods
    def __enter__(s):
        s.p=[m.pickle for m in s.m]
        for m in s.m: m.pickle=s.F; m.open=s.F.open
    def __exit__(s,*a):
        for m,p in zip(s.m,s.p): m.pickle=p; del m.open
