"""names available to the contract files"""
from .engine import *
from . import npshim as np, terms as tm, smt, core, arrays, npshim, shims, loops, loader
from .core import S,SB,CTX,K,Unsupported,lift_s,tob,mkb,PathAbort
from .arrays import Arr,Dim,FDim,new,frozen
from types import SimpleNamespace as NS
pi=npshim.pi
C_KMS=K('299792.458')
def both(*bs): return mkb(mk_and([tob(b) for b in bs]))
def either(*bs): return mkb(mk_or([tob(b) for b in bs]))
def no(b): return mkb(mk_not(tob(b)))
def imp(a,b): return mkb(mk_or([mk_not(tob(a)),tob(b)]))
def same(a,b): return mkb(tm.iff(tob(a),tob(b)))
def ite_(c,a,b):
    c=tob(c)
    if c is TRUE: return a
    if c is FALSE: return b
    a,b=lift_s(a),lift_s(b)
    return S(tm.ite(c,a.v,b.v),tm.bite(c,a.ok,b.ok) if not(a.ok is b.ok) else a.ok,'i' if a.kind==b.kind=='i' else 'f')
def finite(x):
    if isinstance(x,Arr): return np.isfinite(x).all()
    x=lift_s(x); return mkb(x.ok)
def fn1(name,sign=None):
    """an unspecified real function of one real (any function at all)"""
    if sign: tm.APP_SIGN[name]=sign
    def f(x):
        if isinstance(x,Arr): return arrays.mapnum(x,lambda v,ok:(tm.app(name,[v]),ok),'f')
        x=lift_s(x); return S(tm.app(name,[x.v]),x.ok,'f')
    return f
def lam(shape,f,kind='f'):
    """array given by a formula: element = f(indices as scalars)"""
    dims=npshim._shape(shape)
    def fn(I):
        a=[S(x,TRUE,'i') for c in I for x in (c if isinstance(c,tuple) else (c,))]
        def go():
            r=f(*a)
            if kind=='b': return tob(r)
            r=lift_s(r); return (r.v,r.ok)
        return CTX.under([d.rng(c) for d,c in zip(dims,I)],go)   # an element only has a meaning inside the range
    return new(dims,fn,kind)
def total(n,f):
    """sum over 0<=t<n of f(t)"""
    return np.sum(lam((n,),f))
def ind(c): return ite_(c,K('1.'),K('0.'))
