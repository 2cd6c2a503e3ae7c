"""The part of numpy the code uses, over symbolic arrays.  Each function states numpy's documented real-number meaning."""
from . import terms as tm
from .terms import T,B,TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,bite,fresh,ZERO,ONE,subst
import builtins as _bi
from . import core, arrays
from .core import S,SB,CTX,Unsupported,lift_s,mkb,tob,INF,NAN,U
from .arrays import Arr,Dim,FDim,Buf,DT,new,frozen,elementwise,mapnum,mapany,sum_over,all_over,lam_over,e_scalar,e_num,materialize,same_dim,bcast,pick
from . import smt

pi=S(tm.PI,TRUE,'f'); inf=INF; nan=NAN; newaxis=None; e=S(tm.exp(ONE),TRUE,'f')
class ndarray_meta(type):
    def __instancecheck__(c,x): return isinstance(x,Arr)
class ndarray(metaclass=ndarray_meta): pass
class _k:
    def __init__(s,k,name): s.k=k; s.__name__=name
    def __call__(s,x=0):
        if isinstance(x,(Arr,list)): return astype(array(x),s)
        return s_astype(lift_s(x),s)
    def __eq__(s,o): return isinstance(o,_k) and o.k==s.k or isinstance(o,DT) and o.kind==s.k
    def __hash__(s): return hash(s.k)
float64=_k('f','float64'); float32=_k('f','float32'); int64=_k('i','int64'); int32=_k('i','int32'); intp=int64; bool_=_k('b','bool_'); object_=_k('o','object_')
double=float64; integer=int64; floating=float64
def kind_of(dt):
    if dt is None: return None
    if isinstance(dt,str): return {'f':'f','i':'i','b':'b','O':'o','d':'f','o':'o','u':'i'}[dt[0] if dt[0]!='<' else dt[1]]
    if isinstance(dt,_k): return dt.k
    if isinstance(dt,DT): return dt.kind
    n=getattr(dt,'__name__','')
    return {'float':'f','int':'i','bool':'b','object':'o','vfloat':'f','vint':'i','vbool':'b'}[n]
def s_astype(s,dt):
    k=kind_of(dt)
    if k=='f': return S(s.v,s.ok,'f')
    if k=='i':
        if s.kind=='i': return s
        return S(tm.trunc(s.v),s.ok,'i')
    if k=='b': return mkb(tob(s))
    raise Unsupported('astype')
def astype(a,dt):
    k=kind_of(dt)
    if k==a.kind: return materialize(a)
    if k=='f': return mapnum(a,lambda v,ok:(v,ok),'f')
    if k=='i': return mapnum(a,lambda v,ok:(tm.trunc(v),ok),'i')
    if k=='b':
        s=frozen(a); return new(a.dims,lambda I:s.boo(I),'b')
    raise Unsupported('astype object')

def _dimsize(x):
    """a shape entry"""
    if isinstance(x,bool): raise Unsupported('bool shape')
    if isinstance(x,int):
        if x<0: raise ValueError('negative dimensions are not allowed')
        return Dim(const(x))
    if isinstance(x,S):
        if x.kind!='i': raise TypeError("'float' object cannot be interpreted as an integer")
        if x.fd is not None: return x.fd
        if not CTX.fork(le(ZERO,x.v)): raise ValueError('negative dimensions are not allowed')
        return Dim(x.v)
    if isinstance(x,Arr) and not x.dims: return _dimsize(x.item())
    if isinstance(x,float): raise TypeError("'float' object cannot be interpreted as an integer")
    raise Unsupported('shape entry %r'%(type(x),))
def _shape(sh):
    if isinstance(sh,(tuple,list)): return [_dimsize(x) for x in sh]
    if isinstance(sh,Arr): return [_dimsize(x) for x in sh]
    return [_dimsize(sh)]
def full(shape,val,dtype=None):
    k=kind_of(dtype)
    if isinstance(val,(bool,SB)) and k in(None,'b'):
        b=tob(val); return new(_shape(shape),lambda I:b,'b')
    s=lift_s(val)
    k=k or s.kind
    if k=='b':
        b=tob(s); return new(_shape(shape),lambda I:b,'b')
    return new(_shape(shape),lambda I:(s.v,s.ok),k)
def zeros(shape,dtype=None,**kw): return full(shape,0,dtype or 'f')
def ones(shape,dtype=None,**kw): return full(shape,1,dtype or 'f')
def empty(shape,dtype=None,**kw):
    if kind_of(dtype)=='o':
        return new(_shape(shape),lambda I:None,'o')
    n=fresh('emp','I')
    def fn(I):
        a=[x for c in I for x in (c if isinstance(c,tuple) else (c,))]
        return (tm.app('uninit',[n]+a),tm.bapp('uninit_ok',[n]+a))
    return new(_shape(shape),fn,kind_of(dtype) or 'f')
def zeros_like(a,dtype=None,**k):
    a=array(a); return new(a.dims,lambda I:(ZERO,TRUE) if (kind_of(dtype) or a.kind)!='b' else FALSE,kind_of(dtype) or a.kind)
def ones_like(a,dtype=None,**k):
    a=array(a); return new(a.dims,lambda I:(ONE,TRUE) if (kind_of(dtype) or a.kind)!='b' else TRUE,kind_of(dtype) or a.kind)
def full_like(a,v,dtype=None,**k):
    s=lift_s(v); a=array(a); return new(a.dims,lambda I:(s.v,s.ok),kind_of(dtype) or a.kind)
empty_like=zeros_like

def array(x,dtype=None,copy=True,**kw):
    if isinstance(x,Arr): r=materialize(x) if copy else x
    elif isinstance(x,(S,SB,int,float,bool)):
        if isinstance(x,(bool,SB)):
            b=tob(x); r=new([],lambda I:b,'b')
        else:
            s=lift_s(x); r=new([],lambda I:(s.v,s.ok),s.kind)
    elif isinstance(x,(list,tuple)): r=_from_list(list(x))
    elif hasattr(x,'seq'): r=materialize(x.seq())
    elif isinstance(x,range): r=_from_list(list(x))
    elif x is None or isinstance(x,(str,dict)) :
        r=new([],lambda I:x,'o')
    else: r=new([],lambda I:x,'o')
    if dtype is not None and kind_of(dtype)!=r.kind: r=astype(r,dtype)
    return r
asarray=lambda x,dtype=None,**k: array(x,dtype,copy=False)
asanyarray=asarray; ascontiguousarray=asarray
def atleast_1d(x):
    a=array(x,copy=False)
    return a if a.dims else _from_list([x])
def _from_list(l):
    if not l: return new([Dim(0)],lambda I:(ZERO,TRUE),'f')
    if _bi.any(isinstance(y,(Arr,list,tuple)) or hasattr(y,'seq') for y in l):
        subs=[array(y,copy=False) for y in l]
        nd=len(subs[0].dims)
        if _bi.any(len(s.dims)!=nd for s in subs): raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        for s in subs[1:]:
            for d0,d1 in zip(subs[0].dims,s.dims):
                if not same_dim(d0,d1):
                    if isinstance(d0,Dim) and isinstance(d1,Dim) and not CTX.fork(eq(d0.n,d1.n)):
                        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
                    raise Unsupported('ragged array of symbolic shapes')
        kinds={s.kind for s in subs}
        kind='o' if 'o' in kinds else 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'
        fs=[frozen(s) for s in subs]
        def fn(I):
            return _choose(I[0],[lambda s=s:arrays.conv_elem(s.elem(tuple(I[1:])),s.kind,kind) for s in fs],kind)
        return new([Dim(len(l))]+subs[0].dims,fn,kind)
    if _bi.all(isinstance(y,(bool,SB)) for y in l):
        bs=[tob(y) for y in l]
        return new([Dim(len(l))],lambda I:_choose(I[0],[lambda b=b:b for b in bs],'b'),'b')
    ss=[lift_s(y) for y in l]
    if _bi.any(s is None for s in ss):
        return new([Dim(len(l))],lambda I:_choose(I[0],[lambda y=y:y for y in l],'o'),'o')
    kind='f' if _bi.any(s.kind=='f' for s in ss) else 'i'
    return new([Dim(len(l))],lambda I:_choose(I[0],[lambda s=s:(s.v,s.ok) for s in ss],kind),kind)
def _choose(i,alts,kind):
    if i.is_const(): return alts[int(i.const())]()
    r=alts[-1]()
    for k in range(len(alts)-2,-1,-1):
        r=arrays.e_ite(eq(i,const(k)),alts[k](),r,kind)
    return r

# ------------------------------------------------------------------ elementwise
def _u(name):
    def f(x,*a,**kw):
        if isinstance(x,(list,tuple)): x=array(x)
        if isinstance(x,Arr):
            if x.kind=='o': raise TypeError('loop of ufunc does not support argument 0 of type object')
            k='f'
            if name in('abs','sign','square') and x.kind=='i': k='i'
            if name=='abs' and x.kind=='b': k='i'
            r=mapnum(x,lambda v,ok:U[name](v,ok),k)
        else:
            s=lift_s(x)
            if s is None: raise TypeError('ufunc %s not supported for the input type'%name)
            if isinstance(x,float) and x in (INF,-INF):
                if name=='abs': return INF
            r=S(*U[name](s.v,s.ok),kind='i' if (name in('abs','sign','square') and s.kind=='i') else 'f')
        out=kw.get('out')
        if out is not None: out[...]=r; return out
        return r
    f.__name__=name
    return f
sqrt=_u('sqrt');exp=_u('exp');log=_u('log');log10=_u('log10');sin=_u('sin');cos=_u('cos');tan=_u('tan')
arcsin=_u('arcsin');arccos=_u('arccos');arctan=_u('arctan');sinh=_u('sinh');tanh=_u('tanh')
abs=_u('abs');absolute=abs;fabs=abs;radians=_u('radians');deg2rad=radians;degrees=_u('degrees');rad2deg=degrees
floor=_u('floor');ceil=_u('ceil');rint=_u('rint');trunc=_u('trunc');square=_u('square');sign=_u('sign');fix=trunc
def round(x,decimals=0,**k):
    if decimals!=0:
        p=S(const(10)**const(decimals)) if False else lift_s(10**decimals if decimals>0 else 1)
        if decimals<0: raise Unsupported('round decimals')
        return rint(x*p)/p
    if isinstance(x,Arr) and x.kind=='i' or isinstance(x,S) and x.kind=='i' or isinstance(x,int): return x
    return rint(x)
around=round; round_=round
def reciprocal(x): return 1/x if not isinstance(x,int) else None
def power(a,b): return _bin('pow',a,b)
def _bin(op,a,b):
    if isinstance(a,(Arr,list,tuple)) or isinstance(b,(Arr,list,tuple)): return elementwise(op,a,b)
    x,y=lift_s(a),lift_s(b)
    return arrays.OPS[op](x,y)
float_power=power
def add(a,b): return _bin('add',a,b)
def subtract(a,b): return _bin('sub',a,b)
def multiply(a,b): return _bin('mul',a,b)
def divide(a,b): return _bin('div',a,b)
true_divide=divide
def floor_divide(a,b): return _bin('floordiv',a,b)
def mod(a,b): return _bin('mod',a,b)
remainder=mod
def _cmpf(op):
    def f(a,b):
        if isinstance(a,(Arr,list,tuple)) or isinstance(b,(Arr,list,tuple)): return elementwise(op,a,b)
        return core.s_cmp(op,lift_s(a),b)
    return f
less=_cmpf('lt');less_equal=_cmpf('le');greater=_cmpf('gt');greater_equal=_cmpf('ge');equal=_cmpf('eq');not_equal=_cmpf('ne')
def hypot(a,b): return sqrt(a**2+b**2)
def arctan2(y,x): raise Unsupported('arctan2')
def maximum(a,b): return where_(elementwise('lt',a,b) if isinstance(a,Arr) or isinstance(b,Arr) else (lift_s(a)<lift_s(b)),b,a)
def minimum(a,b): return where_(elementwise('lt',b,a) if isinstance(a,Arr) or isinstance(b,Arr) else (lift_s(b)<lift_s(a)),b,a)
fmax=maximum; fmin=minimum
def clip(x,lo,hi,**k):
    if lo is not None: x=maximum(x,lo)
    if hi is not None: x=minimum(x,hi)
    return x
def isfinite(x):
    if isinstance(x,(list,tuple)): x=array(x)
    if isinstance(x,Arr):
        if x.kind=='o': raise TypeError("ufunc 'isfinite' not supported for the input types")
        s=frozen(x)
        return new(x.dims,lambda I:s.num(I)[1],'b') if x.dims else SB(s.num(())[1])
    if isinstance(x,float): return SB(TRUE if x==x and x not in (INF,-INF) else FALSE)
    s=lift_s(x)
    if s is None: raise TypeError("ufunc 'isfinite' not supported for the input types")
    return SB(s.ok)   # a numpy boolean: ~ negates it
def isnan(x):
    # non-finite values are NaN or infinite: left open
    def f(v,ok): return mk_and([mk_not(ok),tm._bapp_lift('isnan',[v])]) if ok is not TRUE else FALSE
    if isinstance(x,Arr):
        s=frozen(x); return new(x.dims,lambda I:f(*s.num(I)),'b')
    if isinstance(x,float): return x!=x
    s=lift_s(x); return mkb(f(s.v,s.ok))
def isinf(x):
    def f(v,ok): return mk_and([mk_not(ok),mk_not(tm._bapp_lift('isnan',[v]))]) if ok is not TRUE else FALSE
    if isinstance(x,Arr):
        s=frozen(x); return new(x.dims,lambda I:f(*s.num(I)),'b')
    if isinstance(x,float): return x in (INF,-INF)
    s=lift_s(x); return mkb(f(s.v,s.ok))
def nan_to_num(x,copy=True,nan=0,**k):
    return where_(isfinite(x),x,nan)
def invert(x):
    if isinstance(x,bool): return not x
    return ~x
logical_not=lambda x: (~x if x.kind=='b' else mapany(x,lambda e:mk_not(arrays.e_bool(e,x.kind)),'b')) if isinstance(x,Arr) else mkb(mk_not(tob(x)))
def _asb(x): return x if (isinstance(x,Arr) and x.kind=='b') else astype(x,'b') if isinstance(x,Arr) else x
def logical_and(a,b): return _asb(a)&_asb(b)
def logical_or(a,b): return _asb(a)|_asb(b)
def logical_xor(a,b): return _asb(a)^_asb(b)
bitwise_and=logical_and; bitwise_or=logical_or
def isscalar(x): return isinstance(x,(S,int,float,str))
def ndim(x): return len(array(x,copy=False).dims)
def shape(x): return array(x,copy=False).shape
def size(x,axis=None):
    a=array(x,copy=False)
    return a.size if axis is None else a.shape[axis]
def where_(c,a,b):
    if isinstance(c,bool): c_=array(c)
    ca=array(c,copy=False); xa=array(a,copy=False); ya=array(b,copy=False)
    dims,(mc,ma,mb)=bcast([ca,xa,ya])
    fc,fa,fb=frozen(ca),frozen(xa),frozen(ya)
    kinds=[xa.kind,ya.kind]
    kind='o' if 'o' in kinds else 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'
    def fn(I):
        cb=fc.boo(pick(mc,I))
        def side(x,m,b):
            return CTX.under([b],lambda: arrays.conv_elem(x.elem(pick(m,I)),x.kind,kind))
        if cb is TRUE: return side(fa,ma,TRUE)
        if cb is FALSE: return side(fb,mb,TRUE)
        return arrays.e_ite(cb,side(fa,ma,cb),side(fb,mb,mk_not(cb)),kind)
    if not dims: return e_scalar(fn(()),kind)
    return new(dims,fn,kind)
def where(c,a=None,b=None):
    if a is not None: return where_(c,a,b)
    return nonzero(c)
def nonzero(c):
    c=array(c,copy=False)
    if c.kind!='b':
        s0=frozen(c); c=new(c.dims,lambda I:s0.boo(I),'b')
    if not c.dims: raise Unsupported('where on scalar')
    if len(c.dims)==1 and isinstance(c.dims[0],FDim): raise Unsupported('where on a filtered axis')
    # fully concrete masks give concrete index arrays
    if len(c.dims)==1 and c.dims[0].const() is not None and c.dims[0].const()<=12:
        bs=[c.boo((const(i),)) for i in range(c.dims[0].const())]
        if all_b(b in (TRUE,FALSE) for b in bs):
            l=[i for i,b in enumerate(bs) if b is TRUE]
            return (new([Dim(len(l))],lambda I:(_choose(I[0],[lambda i=i:(const(i),TRUE) for i in l],'i')),'i') if l else new([Dim(0)],lambda I:(ZERO,TRUE),'i'),)
    fd=arrays.where_fdim(c)
    if fd is None: raise Unsupported('where on a filtered axis')
    return tuple(new([fd],(lambda k:lambda I:(I[0][k],TRUE))(k),'i',enum=(fd,k)) for k in range(fd.rank))
def all_b(it):
    for x in it:
        if not x: return False
    return True
def take(a,ind,axis=None,**k):
    if k: raise Unsupported('take with options')
    a=array(a,copy=False)
    if axis is None: a=ravel(a); axis=0
    ax=_axes(a,axis)[0]
    return a[(slice(None),)*ax+(ind,)]
def compress(cond,a,axis=None,**k):
    if k: raise Unsupported('compress with options')
    return take(a,nonzero(array(cond,copy=False))[0],axis=axis)
def flatnonzero(c): return nonzero(ravel(c))[0]
def argwhere(c): raise Unsupported('argwhere')

# ------------------------------------------------------------------ reductions
def _axes(a,axis):
    nd=len(a.dims)
    if axis is None: return list(range(nd))
    if isinstance(axis,(tuple,list)): return [(x+nd)%nd for x in axis]
    axis=int(axis)
    if axis<-nd or axis>=nd: raise ValueError('axis %d is out of bounds for array of dimension %d'%(axis,nd))
    return [(axis+nd)%nd]
def _reduce(a,axis,f,kind,keepdims=False):
    """f(dims, getter)->element"""
    axs=_axes(a,axis)
    rd=[a.dims[k] for k in axs]; keep=[k for k in range(len(a.dims)) if k not in axs]
    s=frozen(a)
    def fn(I):
        def g(cs):
            J=[None]*len(a.dims)
            for k,c in zip(axs,cs): J[k]=c
            for k,c in zip(keep,I): J[k]=c
            return s.elem(tuple(J))
        return f(rd,g)
    if keepdims:
        dims=[Dim(1) if k in axs else a.dims[k] for k in range(len(a.dims))]
        return new(dims,lambda I: fn(tuple(I[k] for k in keep)),kind)
    if not keep: return e_scalar(fn(()),kind)
    return new([a.dims[k] for k in keep],fn,kind)
def sum(a,axis=None,dtype=None,keepdims=False,**kw):
    if isinstance(a,(list,tuple)) or not isinstance(a,Arr): a=array(a)
    kind='i' if a.kind in 'bi' else 'f'
    if not a.dims: return a.item()
    def f(dims,g):
        ok=[TRUE]
        def val(cs): return e_num(g(cs),a.kind)[0]
        def okf(cs): return e_num(g(cs),a.kind)[1]
        v=sum_over(dims,val)
        ok=all_over(dims,okf)
        return (v,ok)
    return _reduce(a,axis,f,kind,keepdims)
def nansum(a,axis=None,**k): return sum(nan_to_num(a),axis=axis)
def prod(a,axis=None,**kw):
    a=array(a,copy=False)
    def f(dims,g):
        d,=dims
        c=d.const()
        if c is None: raise Unsupported('product of symbolic length')
        v=ONE; ok=TRUE
        for i in range(c):
            x=e_num(g((const(i),)),a.kind); v=tm.mul(v,x[0]); ok=mk_and([ok,x[1]])
        return (v,ok)
    return _reduce(a,axis,f,'i' if a.kind in 'bi' else 'f')
product=prod
def _count(dims):
    r=ONE
    for d in dims: r=tm.mul(r,d.n)
    return r
def mean(a,axis=None,dtype=None,keepdims=False,**kw):
    a=array(a,copy=False)
    if not a.dims: return a.item()
    def f(dims,g):
        n=_count(dims)
        v=sum_over(dims,lambda cs:e_num(g(cs),a.kind)[0]); ok=all_over(dims,lambda cs:e_num(g(cs),a.kind)[1])
        q=core.s_div(S(v,ok),S(n,TRUE))
        return (q.v,q.ok)
    return _reduce(a,axis,f,'f',keepdims)
def average(a,axis=None,weights=None,**kw):
    if weights is None: return mean(a,axis)
    a=array(a,copy=False); w=array(weights,copy=False)
    if len(w.dims)!=len(a.dims):
        if axis is None: raise TypeError('Axis must be specified when shapes of a and weights differ.')
        if len(w.dims)!=1: raise TypeError('1D weights expected when shapes of a and weights differ.')
        ax=_axes(a,axis)[0]
        if ax!=len(a.dims)-1: w=w[(slice(None),)+(None,)*(len(a.dims)-1-ax)]
        # broadcast weights over the array
        den=sum(w*ones_like(a,dtype='f'),axis=axis)
        return sum(a*w,axis=axis)/den
    return sum(a*w,axis=axis)/sum(w,axis=axis)
def _extreme(name):
    def red(a,axis=None,keepdims=False,**kw):
        a=array(a,copy=False)
        if not a.dims: return a.item()
        kind='i' if a.kind in 'bi' else 'f'
        if len(a.dims)==1 and a.enum is not None and isinstance(a.dims[0],FDim) and a.dims[0].rank==1 and axis in (None,0,-1) and not keepdims:
            # a list of true positions is ascending: attained at an end
            if not CTX.prove(a.dims[0].nonempty()) and not CTX.fork(a.dims[0].nonempty()):
                raise ValueError('zero-size array to reduction operation %s which has no identity'%name)
            return a[-1 if name=='max' else 0]
        def f(dims,g):
            n=_count(dims)
            if n.is_const() and n.const()==0: raise ValueError('zero-size array to reduction operation %s which has no identity'%name)
            if len(dims)==1 and isinstance(dims[0],FDim) and not CTX.prove(dims[0].nonempty()):
                if not CTX.fork(dims[0].nonempty()): raise ValueError('zero-size array to reduction operation which has no identity')
            if n.is_const() and n.const()<=8 and all_b(isinstance(d,Dim) for d in dims) and len(dims)==1:
                els=[e_num(g((const(i),)),a.kind) for i in range(int(n.const()))]
                v,ok=els[0]
                for x,o in els[1:]:
                    v=tm.tmax(v,x) if name=='max' else tm.tmin(v,x)
                    ok=mk_and([ok,o])
                return (v,ok)
            if len(dims)==1 and isinstance(dims[0],Dim):
                # affine along the axis: attained at an end
                v=tm.fresh('i'); va=tm.the_atom(v); at=lambda t: e_num(g((t,)),a.kind)[0]
                b0=at(v); d=tm.add(tm.subst(b0,{va:tm.add(v,ONE)}),tm.neg(b0))
                if va not in d.fv and d is not ZERO:
                    up=True if tm.is_nonneg(d) else False if tm.is_nonneg(tm.neg(d)) else None
                    if up is not None and CTX.prove(lt(ZERO,n)):
                        ok=all_over(dims,lambda cs:e_num(g(cs),a.kind)[1])
                        return (at(tm.add(n,const(-1)) if up==(name=='max') else ZERO),ok)
            # constant over the axes
            lam,ok=lam_over(dims,lambda cs:e_num(g(cs),a.kind))
            return (ext_term(name,lam),ok)
        return _reduce(a,axis,f,kind,keepdims)
    return red
def _ext_ax(name):
    def ax(L):
        # attained on a non-empty domain, and bounding
        me=tm.app_raw(name,(L,),'R')
        vs,dom,body=tm.open_lam(L)
        ex=dom
        for v in reversed(vs): ex=tm.mk_ex(v,ex)
        b=tm.implies(dom,le(body,me) if name=='max' else le(me,body))
        for v in reversed(vs): b=tm.mk_all(v,b)
        at=mk_and([dom,eq(body,me)])
        for v in reversed(vs): at=tm.mk_ex(v,at)
        return mk_and([b,tm.implies(ex,at)])
    return ax
smt.AXIOMS['max']=_ext_ax('max'); smt.AXIOMS['min']=_ext_ax('min')
def ext_term(name,lam):
    vs,dom,body=tm.open_lam(lam)
    if not any_b(tm.the_atom(v) in body.fv for v in vs): return body
    a=tm._mk_atom('app',name,(lam,),'I' if body.isint else 'R')
    if a.sgn is None and tm.is_nonneg(body): a.sgn='nonneg'
    if tm.is_pos(body): a.sgn='pos'
    return tm.atom_t(a)
tm.REBUILD['max']=lambda L: ext_term('max',L)
tm.REBUILD['min']=lambda L: ext_term('min',L)
def any_b(it):
    for x in it:
        if x: return True
    return False
max=_extreme('max'); min=_extreme('min'); amax=max; amin=min; nanmax=max; nanmin=min
def _opaque(name,kind='f',sort='R'):
    def red(a,*extra,axis=None,keepdims=False,**kw):
        a=array(a,copy=False)
        ex=tuple(lift_s(x).v for x in extra)
        def f(dims,g):
            lam,ok=lam_over(dims,lambda cs:e_num(g(cs),a.kind))
            n=_count(dims)
            ne=lt(ZERO,n)
            if len(dims)==1 and isinstance(dims[0],FDim): ne=dims[0].nonempty()
            if ne is not TRUE and not CTX.prove(ne): ok=mk_and([ok,ne])
            return (tm.app_raw(name,(lam,)+ex,sort),ok)
        return _reduce(a,axis,f,kind,keepdims)
    return red
_med=_opaque('median'); _pct=_opaque('percentile')
def median(a,axis=None,**k): return _med(a,axis=axis)
def std(a,axis=None,ddof=0,**k):
    a=array(a,copy=False)
    m=mean(a,axis=axis,keepdims=True) if axis is not None else mean(a)
    if ddof: raise Unsupported('ddof')
    return sqrt(mean((a-m)**2,axis=axis))
def var(a,axis=None,**k):
    s=std(a,axis=axis); return s*s
def percentile(a,q,axis=None,**k):
    a=array(a,copy=False)
    if isinstance(q,(list,tuple)) or isinstance(q,Arr):
        return array([_pct(a,x,axis=axis) for x in q])
    return _pct(a,q,axis=axis)
nanpercentile=percentile; nanmedian=median
def _argext(name):
    def red(a,axis=None,**kw):
        a=array(a,copy=False)
        if len(a.dims)>1 and axis is None: a=ravel(a)
        def f(dims,g):
            d,=dims
            if isinstance(d,FDim):
                raise Unsupported('argmin over a filtered axis')
            c=d.const()
            if c is not None and c<=8:
                if c==0: raise ValueError('attempt to get argmin of an empty sequence')
                best=e_num(g((ZERO,)),a.kind)[0]; bi=ZERO; ok=TRUE
                for i in range(1,c):
                    x=e_num(g((const(i),)),a.kind)[0]
                    cnd=lt(x,best) if name=='argmin' else lt(best,x)
                    bi=ite(cnd,const(i),bi); best=ite(cnd,x,best)
                return (bi,TRUE)
            lam,ok=lam_over(dims,lambda cs:e_num(g(cs),a.kind))
            return (tm.app_raw(name,(lam,),'I'),TRUE)
        return _reduce(a,axis,f,'i')
    return red
argmin=_argext('argmin'); argmax=_argext('argmax')
def _arg_ax(name):
    def ax(L):
        me=tm.app_raw(name,(L,),'I')
        vs,dom,body=tm.open_lam(L)
        ex=dom
        for v in vs: ex=tm.mk_ex(v,ex)
        mp={tm.the_atom(vs[0]):me}
        bm=subst(body,mp)
        b=tm.implies(dom,mk_and([le(bm,body) if name=='argmin' else le(body,bm), tm.implies(lt(vs[0],me),lt(bm,body) if name=='argmin' else lt(body,bm))]))
        b=tm.mk_all(vs[0],b)
        return tm.implies(ex,mk_and([subst(dom,mp),b]))
    return ax
smt.AXIOMS['argmin']=_arg_ax('argmin'); smt.AXIOMS['argmax']=_arg_ax('argmax')
def _anyall(name):
    def red(a,axis=None,**kw):
        if isinstance(a,(bool,SB)): return a
        a=array(a,copy=False)
        def f(dims,g):
            if name=='all': return all_over(dims,lambda cs:arrays.e_bool(g(cs),a.kind))
            return mk_not(all_over(dims,lambda cs:mk_not(arrays.e_bool(g(cs),a.kind))))
        return _reduce(a,axis,f,'b')
    return red
any=_anyall('any'); all=_anyall('all'); alltrue=all; sometrue=any
def count_nonzero(a,axis=None):
    a=array(a,copy=False)
    return sum(astype(a,'b') if a.kind!='b' else a,axis=axis)
def allclose(*a,**k): raise Unsupported('allclose')
def array_equal(a,b):
    a=array(a,copy=False); b=array(b,copy=False)
    if len(a.dims)!=len(b.dims): return False
    for d,e_ in zip(a.dims,b.dims):
        if not same_dim(d,e_):
            if not CTX.fork(eq(d.n,e_.n)): return False
            raise Unsupported('array_equal shapes')
    return all(a==b)

# ------------------------------------------------------------------ shapes
def ravel(a,*k):
    a=array(a,copy=False)
    if len(a.dims)==1: return materialize(a)
    if not a.dims: return reshape(a,(1,))
    return reshape(a,(-1,))
def squeeze(a,axis=None):
    keep=[k for k,d in enumerate(a.dims) if not(isinstance(d,Dim) and d.n is ONE)]
    return a[tuple(slice(None) if k in keep else 0 for k in range(len(a.dims)))]
def expand_dims(a,axis):
    nd=len(a.dims)+1; axis=(axis+nd)%nd
    return a[tuple([slice(None)]*axis+[None])]
def transpose(a,*axes):
    a=array(a,copy=False)
    if len(axes)==1 and isinstance(axes[0],(tuple,list)): axes=tuple(axes[0])
    nd=len(a.dims)
    perm=list(range(nd))[::-1] if not axes or axes==(None,) else [int(x)%nd for x in axes]
    inv={p:k for k,p in enumerate(perm)}
    ax=[x if x[0]=='fix' else ('ax',inv[x[1]],x[2],x[3]) for x in a.axes]
    return Arr(a.buf,ax,[a.dims[p] for p in perm])
def swapaxes(a,i,j):
    p=list(range(len(a.dims))); p[i],p[j]=p[j],p[i]
    return transpose(a,*p)
def moveaxis(a,s,d):
    p=[k for k in range(len(a.dims))]; nd=len(p); s=s%nd; d=d%nd
    p.remove(s); p.insert(d,s); return transpose(a,*p)
def rollaxis(a,s,start=0): return moveaxis(a,s,start)
def reshape(a,sh,*k,**kw):
    a=array(a,copy=False)
    if not isinstance(sh,(tuple,list)): sh=(sh,)
    if builtins_any(isinstance(x,S) and x.kind!='i' or isinstance(x,float) for x in sh):
        raise TypeError("'float' object cannot be interpreted as an integer")
    for d in a.dims:
        if isinstance(d,FDim):
            if len(a.dims)==1 and len(sh)==1: return materialize(a)
            if len(a.dims)==1 and builtins_all(isinstance(x,int) and x==1 or (isinstance(x,int) and x==-1) for x in sh):
                s=frozen(a); k=[i for i,x in enumerate(sh) if x==-1][0]
                return new([Dim(1) if i!=k else a.dims[0] for i in range(len(sh))],lambda I:s.elem((I[k],)),a.kind)
            raise Unsupported('reshape of a filtered axis')
    total=ONE
    for d in a.dims: total=tm.mul(total,d.n)
    ts=[None if (isinstance(x,int) and x==-1) else _dimsize(x).n for x in sh]
    if None in ts:
        p=ONE
        for t in ts:
            if t is not None: p=tm.mul(p,t)
        q=tm.div(total,p)
        if not q.isint: raise Unsupported('reshape -1 with inexact size')
        ts=[q if t is None else t for t in ts]
    p=ONE
    for t in ts: p=tm.mul(p,t)
    if p is not total and not CTX.prove(eq(p,total),full=True):
        if CTX.fork(eq(p,total)): raise Unsupported('reshape sizes equal only on this branch')
        raise ValueError('cannot reshape array')
    old=[d.n for d in a.dims]
    # group matching
    groups=[]; i=j=0
    while i<len(old) or j<len(ts):
        gi=[];gj=[]; pi_=ONE; pj=ONE
        if i<len(old): gi.append(i); pi_=tm.mul(pi_,old[i]); i+=1
        if j<len(ts): gj.append(j); pj=tm.mul(pj,ts[j]); j+=1
        guard=0
        while pi_ is not pj:
            guard+=1
            if guard>12: raise Unsupported('reshape group matching')
            q=tm.div(pi_,pj)
            if q is ONE: break
            if CTX.prove(eq(pi_,pj)): break
            # extend the side that divides the other
            r=tm.div(pj,pi_)
            if j<len(ts) and q.isint and not (r.isint and i<len(old) and not q.is_const() and False):
                gj.append(j); pj=tm.mul(pj,ts[j]); j+=1
            elif i<len(old) and r.isint:
                gi.append(i); pi_=tm.mul(pi_,old[i]); i+=1
            elif j<len(ts): gj.append(j); pj=tm.mul(pj,ts[j]); j+=1
            elif i<len(old): gi.append(i); pi_=tm.mul(pi_,old[i]); i+=1
            else: raise Unsupported('reshape group matching')
        groups.append((gi,gj))
    s=frozen(a)
    def fn(I):
        J=[None]*len(old)
        for gi,gj in groups:
            if len(gi)==len(gj)==1: J[gi[0]]=I[gj[0]]; continue
            if not gi: continue
            # flat index of the group (row-major), then split
            rng=[]
            flat=ZERO
            for b in gj: flat=tm.add(tm.mul(flat,ts[b]),I[b])
            if len(gj)>1: FLAT[flat]=([I[b] for b in gj],[ts[b] for b in gj])
            if len(gi)==1: J[gi[0]]=flat; continue
            if not gj:
                for x in gi: J[x]=ZERO
                continue
            rem=flat
            hyp=[mk_and([le(ZERO,I[b]),lt(I[b],ts[b])]) for b in gj]
            def split():
                nonlocal rem
                for k,x in enumerate(gi):
                    p=ONE
                    for y in gi[k+1:]: p=tm.mul(p,old[y])
                    if p is ONE: J[x]=rem
                    else:
                        q=divfloor(rem,p); J[x]=q; rem=tm.add(rem,tm.neg(tm.mul(q,p)))
            CTX.under(hyp,split)
        return s.elem(tuple(J))
    return new([Dim(t) for t in ts],fn,a.kind)
import builtins as _bi
builtins_any=_bi.any; builtins_all=_bi.all
FLAT={}
def divfloor(t,p):
    """floor(t/p) for integer terms, splitting off the multiples of p"""
    if p is ONE: return t
    f=FLAT.get(t)
    if f is not None:
        # t is a row-major index over in-range coordinates: dividing by the size of trailing axes drops them
        I,N=f; sz=ONE
        for k in range(len(I)-1,0,-1):
            sz=tm.mul(sz,N[k])
            if sz is p and CTX.prove(mk_and([mk_and([le(ZERO,i),lt(i,n)]) for i,n in zip(I[k:],N[k:])])):
                q=ZERO
                for i,n in zip(I[:k],N[:k]): q=tm.add(tm.mul(q,n),i)
                if k>1: FLAT[q]=(I[:k],N[:k])
                return q
    if p.is_const(): return tm.idiv(t,p)
    q=ZERO; r=t
    # multiples of p when p is a single monomial or matching sum
    if len(p.p)==1:
        pm=dict(p.p[0][0]); pc=p.p[0][1]
        qq={}; rr={}
        for m,c in t.p:
            dm=dict(m); ok=True
            for a,e_ in pm.items():
                if dm.get(a,0)<e_: ok=False;break
            if ok and (c/pc).denominator==1:
                for a,e_ in pm.items():
                    dm[a]-=e_
                    if dm[a]==0: del dm[a]
                k=tm._sortm(dm); qq[k]=qq.get(k,0)+c/pc
            else: rr[m]=c
        q=tm.mk(qq); r=tm.mk(rr)
    if not r.p: return q
    if CTX.prove(mk_and([le(ZERO,r),lt(r,p)])): return q
    return tm.add(q,tm.app('floor',(tm.div(r,p),),'I'))
def tile(a,reps):
    a=array(a,copy=False)
    if not isinstance(reps,(tuple,list)): reps=(reps,)
    reps=[_dimsize(r).n for r in reps]
    nd=builtins_max(len(reps),len(a.dims))
    reps=[ONE]*(nd-len(reps))+list(reps)
    off=nd-len(a.dims)
    dims=[]
    for k in range(nd):
        n=ONE if k<off else a.dims[k-off].n
        if k>=off and reps[k] is ONE: dims.append(a.dims[k-off])
        else: dims.append(Dim(tm.mul(reps[k],n)))
    s=frozen(a)
    def fn(I):
        J=[]
        for k in range(off,nd):
            d=a.dims[k-off]; c=I[k]
            if reps[k] is ONE: J.append(c)
            elif isinstance(d,Dim) and d.n is ONE: J.append(ZERO)
            elif isinstance(d,FDim): raise Unsupported('tile of a filtered axis')
            else: J.append(tm.add(c,tm.neg(tm.mul(d.n,tm.floor(tm.div(c,d.n))))))
        return s.elem(tuple(J))
    return new(dims,fn,a.kind)
builtins_max=_bi.max
def repeat(a,n,axis=None):
    a=array(a,copy=False)
    if axis is None: a=ravel(a); axis=0
    nd=len(a.dims); axis%=nd
    if isinstance(n,Arr): raise Unsupported('repeat with an array of counts')
    k=_dimsize(n).n; d=a.dims[axis]
    if isinstance(d,FDim): raise Unsupported('repeat of a filtered axis')
    s=frozen(a)
    def fn(I):
        J=list(I)
        c=I[axis]
        J[axis]=divfloor(c,k) if d.n is not ONE else ZERO
        return s.elem(tuple(J))
    dims=list(a.dims); dims[axis]=Dim(tm.mul(d.n,k))
    return new(dims,fn,a.kind)
def broadcast_to(a,sh,**k):
    a=array(a,copy=False); dims=_shape(sh); off=len(dims)-len(a.dims); s=frozen(a)
    m=[None if isinstance(d,Dim) and d.n is ONE else j+off for j,d in enumerate(a.dims)]
    return new(dims,lambda I:s.elem(pick(m,I)),a.kind)
def linspace(start,stop,num=50,endpoint=True,retstep=False,dtype=None,**kw):
    if isinstance(num,float) or (isinstance(num,S) and num.kind!='i'): raise TypeError("'float' object cannot be interpreted as an integer")
    d=_dimsize(num); n=d.n
    a,b=lift_s(start),lift_s(stop)
    dv=tm.add(n,const(-1)) if endpoint else n
    ok=core.both(a,b)
    step=tm.div(tm.add(b.v,tm.neg(a.v)),dv) if not (dv.is_const() and dv.const()==0) else ZERO
    def fn(I):
        i=I[0]
        return (tm.add(a.v,tm.mul(i,step)),ok)
    r=new([d],fn,'f')
    if retstep: return r,S(step,ok)
    return r
def arange(a,b=None,step=None,dtype=None):
    if b is None: a,b=0,a
    a,b=lift_s(a),lift_s(b)
    st=lift_s(1 if step is None else step)
    kind='i' if a.kind=='i' and b.kind=='i' and st.kind=='i' else 'f'
    n=tm.ceil(tm.div(tm.add(b.v,tm.neg(a.v)),st.v))
    if not CTX.fork(le(ZERO,n)): n=ZERO
    r=new([Dim(n)],lambda I:(tm.add(a.v,tm.mul(I[0],st.v)),TRUE),kind)
    return r if dtype is None else astype(r,dtype)
def meshgrid(x,y,indexing='xy',**k):
    x=array(x,copy=False);y=array(y,copy=False); fx,fy=frozen(x),frozen(y)
    if indexing=='xy':
        return [new([y.dims[0],x.dims[0]],lambda I:fx.elem((I[1],)),x.kind),new([y.dims[0],x.dims[0]],lambda I:fy.elem((I[0],)),y.kind)]
    return [new([x.dims[0],y.dims[0]],lambda I:fx.elem((I[0],)),x.kind),new([x.dims[0],y.dims[0]],lambda I:fy.elem((I[1],)),y.kind)]
def outer(a,b): 
    a=ravel(a);b=ravel(b); return a[:,None]*b[None,:]
def concatenate(l,axis=0,**k):
    l=[array(x,copy=False) for x in l]
    nd=len(l[0].dims); axis=(axis+nd)%nd if nd else 0
    if nd==0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    for x in l[1:]:
        if len(x.dims)!=nd: raise ValueError('all the input array dimensions must match')
        for k_ in range(nd):
            if k_!=axis and not same_dim(l[0].dims[k_],x.dims[k_]): raise_or(l[0].dims[k_],x.dims[k_])
    l2=[x for x in l if not(isinstance(x.dims[axis],Dim) and x.dims[axis].n is ZERO)]
    kinds={x.kind for x in l}
    kind='o' if 'o' in kinds else 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'
    if not l2: return new(l[0].dims,lambda I:(ZERO,TRUE),kind)
    if len(l2)==1:
        r=materialize(l2[0])
        return r if r.kind==kind else astype(r,{'f':float64,'i':int64}[kind])
    if _bi.any(isinstance(x.dims[axis],FDim) for x in l2): return _concat_filtered(l2,axis,kind)
    fs=[frozen(x) for x in l2]; offs=[ZERO]
    for x in l2: offs.append(tm.add(offs[-1],x.dims[axis].n))
    def fn(I):
        c=I[axis]; r=None
        for k_ in range(len(fs)-1,-1,-1):
            J=list(I); J[axis]=tm.add(c,tm.neg(offs[k_]))
            if c.is_const() and offs[k_].is_const() and offs[k_+1].is_const():
                if not (offs[k_].const()<=c.const()<offs[k_+1].const()): continue
                return arrays.conv_elem(fs[k_].elem(tuple(J)),fs[k_].kind,kind)
            cnd=lt(c,offs[k_+1])
            if CTX.prove(cnd): cnd=TRUE
            elif CTX.prove(mk_not(cnd)): cnd=FALSE
            if r is None: r=arrays.conv_elem(fs[k_].elem(tuple(J)),fs[k_].kind,kind)
            elif cnd is not FALSE: r=arrays.e_ite(cnd,arrays.conv_elem(fs[k_].elem(tuple(J)),fs[k_].kind,kind),r,kind)
        return r
    dims=list(l2[0].dims); dims[axis]=Dim(offs[-1])
    return new(dims,fn,kind)
def _concat_filtered(l,axis,kind):
    """filtered pieces one after the other: the axis enumerates (piece number, index in the piece) in lexicographic order"""
    ds=[x.dims[axis] for x in l]
    if _bi.any(isinstance(d,FDim) and d.rank!=1 for d in ds): raise Unsupported('concatenation with a filtered axis of more than one index')
    ex=[d.exts[0] if isinstance(d,FDim) else d.n for d in ds]
    big=ex[0] if _bi.all(x is ex[0] for x in ex) else tm.addn(ex)
    def cond(c):
        t,i=c
        one=lambda k: mk_and([lt(i,ex[k])]+([ds[k].cond((i,))] if isinstance(ds[k],FDim) else []))
        if t.is_const(): return one(int(t.const()))
        return mk_or([mk_and([eq(t,const(k)),one(k)]) for k in range(len(l))])
    fd=FDim([const(len(l)),big],cond); fs=[frozen(x) for x in l]
    def at(k,I):
        J=list(I); i=I[axis][1]; J[axis]=(i,) if isinstance(ds[k],FDim) else i
        return arrays.conv_elem(fs[k].elem(tuple(J)),fs[k].kind,kind)
    def fn(I):
        t=I[axis][0]
        if t.is_const(): return at(int(t.const()),I)
        r=None
        for k in range(len(l)-1,-1,-1):
            if r is None: r=CTX.under([eq(t,const(k))],lambda: at(k,I))
            else: r=arrays.e_ite(eq(t,const(k)),CTX.under([eq(t,const(k))],lambda: at(k,I)),r,kind)
        return r
    dims=list(l[0].dims); dims[axis]=fd
    return new(dims,fn,kind)
def raise_or(a,b): arrays.raise_shape(a,b)
def append(a,b,axis=None):
    if hasattr(a,'appended'):
        x=array(b,copy=False)
        if axis is not None or (x.dims and x.dims[0].const()!=1): raise Unsupported('append of a block in a loop')
        return a.appended(x if not x.dims else x[0])
    if axis is None: return concatenate([ravel(atleast_1d(a)),ravel(atleast_1d(b))])
    return concatenate([array(a,copy=False),array(b,copy=False)],axis=axis)
def stack(l,axis=0):
    l=[array(x,copy=False) for x in l]
    return concatenate([expand_dims(x,axis) for x in l],axis=axis)
def vstack(l): return concatenate([x if len(x.dims)>1 else x[None,:] for x in [array(y,copy=False) for y in l]],axis=0)
def hstack(l):
    l=[atleast_1d(y) for y in l]
    return concatenate(l,axis=0 if len(l[0].dims)==1 else 1)
def column_stack(l):
    l=[array(y,copy=False) for y in l]
    return concatenate([x[:,None] if len(x.dims)==1 else x for x in l],axis=1)
def flip(a,axis=None):
    k=[slice(None)]*len(a.dims)
    for x in _axes(a,axis): k[x]=slice(None,None,-1)
    return a[tuple(k)]
flipud=lambda a:flip(a,0); fliplr=lambda a:flip(a,1)
def roll(*a,**k): raise Unsupported('roll')
def pad(*a,**k): raise Unsupported('pad')
def diff(a,n=1,axis=-1):
    if len(a.dims)!=1: raise Unsupported('diff nd')
    return a[1:]-a[:-1]
def dot(a,b):
    a=array(a,copy=False); b=array(b,copy=False)
    if len(a.dims)==1 and len(b.dims)==1: return sum(a*b)
    if len(a.dims)==2 and len(b.dims)==1: return sum(a*b[None,:],axis=1)
    if len(a.dims)==2 and len(b.dims)==2: return sum(a[:,:,None]*b[None,:,:],axis=1)
    raise Unsupported('dot')
matmul=dot
def setdiff1d(a,b,**k):
    a=array(a,copy=False); b=array(b,copy=False)
    fb=frozen(b)
    def inb(v):
        if b.enum is not None:
            fd,pos=b.enum
            if fd.rank==1: return mk_and([le(ZERO,v),lt(v,fd.exts[0]),fd.cond((v,))])
        return mk_not(all_over(b.dims,lambda cs: mk_not(eq(v,fb.num(cs)[0]))))
    if a.enum is not None and a.enum[0].rank==1:
        fd=a.enum[0]; f2=FDim(fd.exts,lambda c:mk_and([fd.cond(c),mk_not(inb(c[0]))]))
        return new([f2],lambda I:(I[0][0],TRUE),'i',enum=(f2,0))
    if len(a.dims)==1 and isinstance(a.dims[0],Dim):
        fa=frozen(a)
        # increasing affine index lists (arange) are already sorted and unique
        v=fresh('z','I'); t=fa.num((v,))[0]
        if tm.lin_coef(t,tm.the_atom(v))==1:
            off=tm.add(t,tm.neg(v))
            if off is ZERO:
                f2=FDim([a.dims[0].n],lambda c:mk_not(inb(c[0])))
                return new([f2],lambda I:(I[0][0],TRUE),'i',enum=(f2,0))
    raise Unsupported('setdiff1d')
def isin(a,b,**k):
    a=array(a,copy=False); b=array(b,copy=False); fa,fb=frozen(a),frozen(b)
    return new(a.dims,lambda I: mk_not(all_over(b.dims,lambda cs: mk_not(eq(fa.num(I)[0],fb.num(cs)[0])))),'b')
in1d=isin
def unique(*a,**k): raise Unsupported('unique')
def sort(*a,**k): raise Unsupported('sort')
def argsort(*a,**k): raise Unsupported('argsort')
def cumsum(*a,**k): raise Unsupported('cumsum')
def histogram(*a,**k): raise Unsupported('histogram')
def interp(*a,**k): raise Unsupported('interp')
def polyfit(*a,**k): raise Unsupported('polyfit')
def polyval(p,x):
    r=0*x
    for c in p: r=r*x+c
    return r
def nditer(*a,**k): raise Unsupported('nditer')
def loadtxt(*a,**k): raise Unsupported('loadtxt')
def savetxt(*a,**k): raise Unsupported('savetxt')
def errstate(*a,**k):
    import contextlib
    return contextlib.nullcontext()
def seterr(*a,**k): return {}
def vectorize(f,*a,**k): raise Unsupported('vectorize')
def trapz(*a,**k): raise Unsupported('trapz')
def shares_memory(a,b): return a.buf is b.buf
may_share_memory=shares_memory
def _iters():
    """loop and element indices in scope: a draw inside a loop differs from iteration to iteration"""
    fv=set()
    for b in CTX.pc: fv|={a for a in b.fv if a.kind=='var' and a.sort=='I' and '!' in a.name}
    return [tm.atom_t(a) for a in sorted(fv,key=lambda a:a.id)]
class _Rand:
    n=0
    def _draw(self,name,shape,sign=None):
        _Rand.n+=1
        nm='%s_%d'%(name,_Rand.n)
        if sign: tm.APP_SIGN[nm]=sign
        if not shape:
            return S(tm.app(nm,_iters()),TRUE,'f')
        it=_iters()
        return new(_shape(shape),lambda I:(tm.app(nm,[c for c in I]+it),TRUE),'f')
    def randn(self,*sh): return self._draw('randn',sh)
    def random_sample(self,size=None):
        sh=() if size is None else size if isinstance(size,(tuple,list)) else (size,)
        _Rand.n+=1
        nm='rand01_%d'%_Rand.n
        tm.APP_SIGN[nm]='nonneg'
        smt.AXIOMS[nm]=lambda *a: mk_and([le(ZERO,tm.app_raw(nm,a)),lt(tm.app_raw(nm,a),ONE)])
        it=_iters()
        if not sh: return S(tm.app(nm,it),TRUE,'f')
        return new(_shape(sh),lambda I:(tm.app(nm,list(I)+it),TRUE),'f')
    random=random_sample
    def rand(self,*sh): return self.random_sample(sh if sh else None)
    def normal(self,loc=0,scale=1,size=None):
        return loc+scale*self._draw('randn',() if size is None else size if isinstance(size,(tuple,list)) else (size,))
    def uniform(self,lo=0,hi=1,size=None): return lo+(hi-lo)*self.random_sample(size)
    def seed(self,*a): pass
    def __getattr__(self,n): raise Unsupported('np.random.'+n)
random=_Rand()
class _Lin:
    def __getattr__(self,n): raise Unsupported('np.linalg.'+n)
linalg=_Lin()
