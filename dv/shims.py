"""Contracts assumed for the libraries outside /repo (the trusted base), as executable specifications over terms."""
import types, contextlib
from . import terms as tm, core, arrays, npshim, smt, loader
from .terms import TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,ZERO,ONE,fresh
from .core import S,SB,CTX,Unsupported,lift_s,mkb,K
from .arrays import Arr,Dim,FDim,new,frozen,lam_over,sum_over,elementwise,mapnum

class Stub(types.ModuleType):
    """a module none of whose functions the properties depend on; calling anything on it is outside the verifier's reach"""
    def __init__(s,name): super().__init__(name)
    def __getattr__(s,n):
        if n.startswith('__'): raise AttributeError(n)
        v=Stub(s.__name__+'.'+n); setattr(s,n,v); return v
    def __call__(s,*a,**k): raise Unsupported('call of the uncontracted external %s'%s.__name__)
class Quiet(Stub):
    """display-only library: calls have no effect on results"""
    def __getattr__(s,n):
        if n.startswith('__'): raise AttributeError(n)
        v=Quiet(s.__name__+'.'+n); setattr(s,n,v); return v
    def __call__(s,*a,**k): return None
def ns(name,**k):
    m=Stub(name)
    for a,b in k.items(): setattr(m,a,b)
    return m

# ---- numba: njit compiles the same Python semantics (assumed); objmode runs the block in the interpreter
def njit(*a,**k):
    if len(a)==1 and callable(a[0]) and not k: return a[0]
    return lambda f:f
@contextlib.contextmanager
def objmode(*a,**k): yield
numba=ns('numba',njit=njit,jit=njit,objmode=objmode,prange=loader.v_range,vectorize=njit)

# ---- scipy
def fftconvolve(a,b,mode='full',axes=None):
    """scipy.signal.fftconvolve contract: exact linear convolution; 'same' is the centre part of size of the first input"""
    a=npshim.array(a,copy=False); b=npshim.array(b,copy=False)
    nd=len(a.dims)
    if len(b.dims)!=nd: raise ValueError('in1 and in2 should have the same dimensionality')
    if axes is None: axes=list(range(nd))
    if isinstance(axes,(int,S)): axes=[int(axes)]
    axes=[int(x)%nd for x in axes]
    fa,fb=frozen(a),frozen(b)
    for k in range(nd):
        if k not in axes:
            da,db=a.dims[k],b.dims[k]
            if not arrays.same_dim(da,db) and not (isinstance(db,Dim) and db.n is ONE):
                if isinstance(da,Dim) and da.n is ONE: raise Unsupported('fftconvolve broadcasting of the first input')
                raise ValueError('incompatible shapes for in1 and in2')
    dims=list(a.dims)
    off=[]
    for k in axes:
        na,nb=a.dims[k].n,b.dims[k].n
        if mode=='same': off.append(tm.idiv(tm.add(nb,const(-1)),const(2)))
        elif mode=='full': off.append(ZERO); dims[k]=Dim(tm.addn([na,nb,const(-1)]))
        else: raise Unsupported('fftconvolve mode %r'%(mode,))
    # an axis along which the kernel has one sample is not convolved at all: slice by slice
    conv=[k for k in axes if not(b.dims[k].n is ONE)] if mode in('same','full') else axes
    if mode=='full' and any(a.dims[k].n is not ONE and b.dims[k].n is ONE for k in axes): pass
    if not all(isinstance(a.dims[k],Dim) and isinstance(b.dims[k],Dim) for k in axes): raise Unsupported('fftconvolve over a filtered axis')
    name='conv_%s_%s'%(mode,''.join(map(str,conv)))
    def fn(I):
        # out[i] = sum_t a[t] b[i+off-t], 0<=i+off-t<nb: kept as one uninterpreted term, linear in the first input
        def A(cs):
            J=list(I)
            for k,c in zip(conv,cs): J[k]=c
            return fa.num(tuple(J))
        def Bk(cs):
            J=[ZERO if isinstance(b.dims[k],Dim) and b.dims[k].n is ONE else I[k] for k in range(nd)]
            for k,c in zip(conv,cs): J[k]=c
            return fb.num(tuple(J))
        if not conv:
            x,ox=A(()); y,oy=Bk(()); s=tm.mul(x,y)
        else:
            la,ox=arrays.lam_over([a.dims[k] for k in conv],A); lb,oy=arrays.lam_over([b.dims[k] for k in conv],Bk)
            f,la=pull(la); s=tm.mul(f,tm.app(name,[I[k] for k in conv]+[la,lb])) if f is not ZERO else ZERO
        # an FFT mixes every element: finite only if all inputs are finite
        oa=arrays.all_over([a.dims[k] for k in axes],lambda cs:fa.num(tuple(cs[axes.index(k)] if k in axes else I[k] for k in range(nd)))[1])
        ob=arrays.all_over([b.dims[k] for k in axes],lambda cs:fb.num(tuple(cs[axes.index(k)] if k in axes else (ZERO if b.dims[k].n is ONE else I[k]) for k in range(nd)))[1])
        return (s,mk_and([oa,ob]))
    return new(dims,fn,'f')
def pull(L):
    """constant factors of a function body, by linearity"""
    vs,dom,body=tm.open_lam(L)
    if not body.p: return ZERO,L
    at=set()
    for v in vs: at.add(tm.the_atom(v))
    com=None
    for m,c in body.p:
        d={x:e for x,e in m if not any(v in x.fv for v in at)}
        com=d if com is None else {x:(min(e,d[x]) if e>0 and d[x]>0 else max(e,d[x]) if e<0 and d[x]<0 else 0) for x,e in com.items() if x in d}
    com={x:e for x,e in com.items() if e and not (x.kind=='iv')}
    c0,_=tm.content(body)
    if not com and c0==1: return ONE,L
    f=tm._t_mono(tuple(com.items()),c0)
    return f,tm.mk_lam(vs,dom,tm.mul(body,tm.inv(f)))
class _Norm:
    @staticmethod
    def pdf(x,loc=0,scale=1):
        """normal density: exp(-((x-loc)/scale)^2/2)/(scale*sqrt(2 pi)); not finite unless scale>0"""
        z=(x-loc)/scale if isinstance(x,(Arr,S)) else lift_s(x-loc)/scale
        r=npshim.exp(-(z**2)/2)/(scale*npshim.sqrt(2*npshim.pi))
        return r
    def __call__(s,loc=0,scale=1): return ns('scipy.stats.norm',pdf=lambda x: s.pdf(x,loc=loc,scale=scale))
    def __getattr__(s,n): raise Unsupported('scipy.stats.norm.'+n)
norm=_Norm()
def quad(f,a,b,args=(),**k): raise Unsupported('numerical quadrature')
class gaussian_kde:
    def __init__(s,*a,**k): raise Unsupported('gaussian_kde')
scipy=ns('scipy',signal=ns('scipy.signal',fftconvolve=fftconvolve,convolve=fftconvolve),
   stats=ns('scipy.stats',norm=norm,gaussian_kde=gaussian_kde),
   integrate=ns('scipy.integrate',quad=quad),
   optimize=ns('scipy.optimize'))
# ---- astropy constants
class _Q:
    def __init__(s,v): s.value=v
    def to(s,u): 
        if str(u)=='km/s': return _Q(K('299792.458'))
        raise Unsupported('unit %r'%(u,))
class _C:
    cgs=_Q(K('29979245800.')); si=_Q(K('299792458.'))
    value=K('299792458.')
    def to(s,u): return s.cgs.to(u)
class Table(dict): pass
class _Ascii:
    hook=[None]
    def read(s,*a,**k):
        if s.hook[0]: return s.hook[0](*a,**k)
        raise Unsupported('astropy.io.ascii.read')
    def write(s,*a,**k):
        if s.hook[0]: return None
        raise Unsupported('astropy.io.ascii.write')
ascii_=_Ascii()
astropy=ns('astropy',constants=ns('astropy.constants',c=_C()),io=ns('astropy.io',ascii=ascii_))
# ---- the rest
lmfit=Stub('lmfit'); emcee=Stub('emcee'); psutil=Stub('psutil')
emcee.__version__='3.1.4'
mathm=loader.MathShim('math')
matplotlib=Quiet('matplotlib')
import os as _os
def base():
    return dict(numpy=np_module(),scipy=scipy,astropy=astropy,lmfit=lmfit,emcee=emcee,numba=numba,psutil=psutil,matplotlib=matplotlib,mpl_toolkits=Quiet('mpl_toolkits'),
      math=mathm,dill=Stub('dill'),corner=Quiet('corner'),acor=Stub('acor'))
_np=None
def np_module():
    global _np
    if _np is not None: return _np
    m=types.ModuleType('numpy')
    for k,v in vars(npshim).items():
        if k.startswith('_') or k in('tm','core','arrays','smt','builtins_any','builtins_all','builtins_max'): continue
        setattr(m,k,v)
    for k in ('T','B','TRUE','FALSE','const','lt','le','eq','mk_and','mk_or','mk_not','iv','ite','bite','fresh','ZERO','ONE','subst','S','SB','CTX','Unsupported','lift_s','mkb','tob','INF','NAN','U','Arr','Dim','FDim','Buf','DT','new','frozen','elementwise','mapnum','mapany','sum_over','all_over','lam_over','e_scalar','e_num','materialize','same_dim','bcast','pick','e','_bi'):
        if k in m.__dict__ and k!='e': delattr(m,k)
    m.e=npshim.e
    REMOVED={'int','float','bool','object','str','long','complex','NaN','NAN','Inf','infty','Infinity','product','cumproduct','alltrue','sometrue','float_','unicode_','in1d_','row_stack_','trapz_','asfarray','find_common_type'}
    def ga(n):
        if n in REMOVED: raise AttributeError("module 'numpy' has no attribute %r"%n)
        if n.startswith('__'): raise AttributeError(n)
        import numpy
        if not hasattr(numpy,n): raise AttributeError("module 'numpy' has no attribute %r"%n)
        raise Unsupported('numpy.%s'%n)
    m.__getattr__=ga
    _np=m
    return m
