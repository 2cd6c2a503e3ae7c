"""Symbolic n-dimensional arrays with numpy view semantics."""
from . import terms as tm
from .terms import T,B,TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,bite,fresh,ZERO,ONE,subst
from . import core
from .core import S,SB,CTX,Unsupported,lift_s,mkb,tob,INF
import itertools

class Dim:
    """plain axis 0..n-1"""
    __slots__=('n',)
    rank=1
    def __init__(s,n): s.n=n if isinstance(n,T) else const(n)
    def fresh(s):
        v=fresh('i','I'); return v
    def rng(s,c): return mk_and([le(ZERO,c),lt(c,s.n)])
    def vars(s,c): return [c]
    def size(s): return S(s.n,TRUE,'i')
    def const(s): return int(s.n.const()) if s.n.is_const() else None
    def __repr__(s): return 'Dim(%s)'%tm.show(s.n)
_canon=[tm.var('fd!%d'%i,'I') for i in range(6)]
class FDim:
    """axis enumerating, in order, the index tuples of a box that satisfy a condition"""
    __slots__=('exts','cond','_cnt')
    def __init__(s,exts,cond): s.exts=tuple(exts); s.cond=cond; s._cnt=None
    @property
    def rank(s): return len(s.exts)
    def fresh(s): return tuple(fresh('i','I') for _ in s.exts)
    def rng(s,c): return mk_and([mk_and([le(ZERO,x),lt(x,n)]) for x,n in zip(c,s.exts)]+[s.cond(c)])
    def vars(s,c): return list(c)
    def key(s):
        c=tuple(_canon[:len(s.exts)])
        return (s.exts,s.cond(c))
    @property
    def n(s):
        if s._cnt is None:
            s._cnt=sum_over([s],lambda cs: ONE)
        return s._cnt
    def nonempty(s):
        c=s.fresh(); b=s.rng(c)
        for v in reversed(c): b=tm.mk_ex(v,b)
        return b
    def size(s): return S(s.n,TRUE,'i',fd=s)
    def const(s):
        n=s.n
        return int(n.const()) if n.is_const() else None
    def __repr__(s): return 'FDim(%s)'%(s.key(),)
def dim_rng(dims,cs): return mk_and([d.rng(c) for d,c in zip(dims,cs)])
def sum_over(dims,f):
    """sum of term f(comps) over all index tuples of dims (f evaluated with ranges assumed)"""
    cs=[]; vs=[]; small=True
    def rec(k,cs):
        if k==len(dims):
            return f(tuple(cs))
        d=dims[k]
        if isinstance(d,Dim):
            c=d.const()
            if c is not None and c<=tm.SMALL: return tm.addn([rec(k+1,cs+[const(i)]) for i in range(c)])
            v=fresh('s','I')
            body=CTX.under([d.rng(v)],lambda: rec(k+1,cs+[v]))
            return CTX.under([],lambda: tm.mk_sum(v,d.n,body))
        comp=d.fresh()
        body=CTX.under([d.rng(comp)],lambda: rec(k+1,cs+[comp]))
        t=tm.mul(iv(d.cond(comp)),body)
        for v,n in reversed(list(zip(comp,d.exts))): t=tm.mk_sum(v,n,t)
        return t
    return rec(0,[])
def all_over(dims,f):
    """forall: B"""
    def rec(k,cs):
        if k==len(dims): return f(tuple(cs))
        d=dims[k]
        if isinstance(d,Dim):
            c=d.const()
            if c is not None and c<=tm.SMALL: return mk_and([rec(k+1,cs+[const(i)]) for i in range(c)])
            v=d.fresh()
            r=d.rng(v)
            body=CTX.under([r],lambda: rec(k+1,cs+[v]))
            return tm.mk_all(v,tm.implies(r,body)) if body is not TRUE else TRUE
        comp=d.fresh(); r=d.rng(comp)
        body=CTX.under([r],lambda: rec(k+1,cs+[comp]))
        if body is TRUE: return TRUE
        b=tm.implies(r,body)
        for v in reversed(comp): b=tm.mk_all(v,b)
        return b
    return rec(0,[])
def lam_over(dims,f):
    """closed function object of f over dims; (Lam of value, B all-ok)"""
    cs=tuple(d.fresh() for d in dims)
    vs=[v for d,c in zip(dims,cs) for v in d.vars(c)]
    dom=dim_rng(dims,cs)
    v,ok=CTX.under([dom],lambda: f(cs))
    lam=tm.mk_lam(vs,dom,v)
    if ok is TRUE: return lam,TRUE
    b=tm.implies(dom,ok)
    for x in reversed(vs): b=tm.mk_all(x,b)
    return lam,b

def same_dim(a,b):
    """are the two axes the same index set (True), or broadcast-compatible"""
    if a is b: return True
    if isinstance(a,Dim) and isinstance(b,Dim):
        if a.n is b.n: return True
        return CTX.prove(eq(a.n,b.n),full=True)
    if isinstance(a,FDim) and isinstance(b,FDim):
        if a.exts!=b.exts:
            if len(a.exts)!=len(b.exts) or not all(CTX.prove(eq(x,y),full=True) for x,y in zip(a.exts,b.exts)): return False
        c=a.fresh()
        x=CTX.under([mk_and([mk_and([le(ZERO,v),lt(v,n)]) for v,n in zip(c,a.exts)])],lambda:(a.cond(c),b.cond(c)))
        if x[0] is x[1]: return True
        rng=[mk_and([le(ZERO,v),lt(v,n)]) for v,n in zip(c,a.exts)]
        return CTX.under(rng,lambda: CTX.prove(tm.iff(x[0],x[1]),full=True))
    return False

class Buf:
    __slots__=('fn','memo','kind','dims','log','__weakref__')
    def __init__(s,dims,fn,kind):
        s.dims=list(dims); s.fn=fn; s.kind=kind; s.memo={}
        if CTX_LOG: CTX_LOG[-1].new.add(id(s)); CTX_LOG[-1].keep.append(s)
    def get(s,J):
        k=(CTX.scope,J)
        r=s.memo.get(k)
        if r is None:
            r=s.fn(J); s.memo[k]=r
        return r
    def set(s,fn):
        if CTX_LOG:
            for L in CTX_LOG: L.write(s)
        s.fn=fn; s.memo={}
CTX_LOG=[]

def e_num(e,kind):
    """numeric (v,ok) of an element"""
    if kind=='b': return (iv(e),TRUE)
    if kind=='o':
        s=lift_s(e)
        if s is None: raise Unsupported('object element used as number')
        return (s.v,s.ok)
    return e
def e_bool(e,kind):
    if kind=='b': return e
    if kind=='o': return tob(e)
    v,ok=e
    return mk_not(eq(v,ZERO)) if ok is TRUE else mk_or([mk_not(ok),mk_not(eq(v,ZERO))])
def e_scalar(e,kind):
    if kind=='b': return mkb(e)
    if kind=='o': return e
    return S(e[0],e[1],kind)

class Arr:
    """view onto a Buf.  axes[a] for buf axis a: ('ax',k,start,step) or ('fix',comp)"""
    __slots__=('buf','axes','dims','enum','__weakref__')
    __array_priority__=100
    def __init__(s,buf,axes=None,dims=None,enum=None):
        s.buf=buf
        s.dims=list(buf.dims) if dims is None else list(dims)
        s.axes=axes if axes is not None else [('ax',k,ZERO,ONE) for k in range(len(buf.dims))]
        s.enum=enum
    @property
    def kind(s): return s.buf.kind
    @property
    def dtype(s): return DT(s.buf.kind)
    @property
    def ndim(s): return len(s.dims)
    @property
    def shape(s): return tuple(_pyint(d.size()) for d in s.dims)
    @property
    def size(s):
        r=1
        for x in s.shape: r=r*x
        return r
    def elem(s,I):
        J=[]
        for ax in s.axes:
            if ax[0]=='fix': J.append(ax[1])
            else:
                c=I[ax[1]]
                if ax[3] is ONE and ax[2] is ZERO: J.append(c)
                else: J.append(tm.add(tm.mul(c,ax[3]),ax[2]))
        return s.buf.get(tuple(J))
    def num(s,I): return e_num(s.elem(I),s.kind)
    def boo(s,I): return e_bool(s.elem(I),s.kind)
    # -------- sequence protocol
    def __len__(s):
        if not s.dims: raise TypeError('len() of unsized object')
        c=s.dims[0].const()
        if c is None: raise Unsupported('len of symbolic array as a machine integer')
        return c
    def __iter__(s):
        c=s.dims[0].const() if s.dims else None
        if not s.dims: raise TypeError('iteration over a 0-d array')
        if c is None: raise Unsupported('iteration over an array of symbolic length')
        return iter([s[i] for i in range(c)])
    def __bool__(s):
        if not s.dims: return bool(e_scalar(s.elem(()),s.kind))
        n=s.size
        if isinstance(n,int) and n==1: return bool(s.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
    def __contains__(s,x): return bool((s==x).any())
    def item(s): return e_scalar(s.elem(tuple(ZERO if isinstance(d,Dim) else _first(d) for d in s.dims)),s.kind)
    def __index__(s):
        if not s.dims: return s.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __float__(s): return float(s.item())
    def __format__(s,spec): return '<symarr>'
    def __repr__(s): return 'Arr(%s,%s)'%(s.kind,s.dims)
    __str__=__repr__
    __hash__=object.__hash__
    # -------- arithmetic
    def __add__(s,o): return elementwise('add',s,o)
    def __radd__(s,o): return elementwise('add',o,s)
    def __sub__(s,o): return elementwise('sub',s,o)
    def __rsub__(s,o): return elementwise('sub',o,s)
    def __mul__(s,o): return elementwise('mul',s,o)
    def __rmul__(s,o): return elementwise('mul',o,s)
    def __truediv__(s,o): return elementwise('div',s,o)
    def __rtruediv__(s,o): return elementwise('div',o,s)
    def __floordiv__(s,o): return elementwise('floordiv',s,o)
    def __mod__(s,o): return elementwise('mod',s,o)
    def __pow__(s,o): return elementwise('pow',s,o)
    def __rpow__(s,o): return elementwise('pow',o,s)
    def __neg__(s): return mapnum(s,lambda v,ok:(tm.neg(v),ok),s.kind if s.kind!='b' else 'i')
    def __pos__(s): return s
    def __abs__(s): return mapnum(s,lambda v,ok:(tm.absv(v),ok),s.kind)
    def _ip(s,op,o):
        r=elementwise(op,s,o)
        if s.kind=='i' and isinstance(r,Arr) and r.kind=='f': raise TypeError('Cannot cast ufunc output from float to int')
        s[tuple([slice(None)]*len(s.dims)) if s.dims else ()]=r
        return s
    def __iadd__(s,o): return s._ip('add',o)
    def __isub__(s,o): return s._ip('sub',o)
    def __imul__(s,o): return s._ip('mul',o)
    def __itruediv__(s,o): return s._ip('div',o)
    def __ipow__(s,o): return s._ip('pow',o)
    def __lt__(s,o): return elementwise('lt',s,o)
    def __le__(s,o): return elementwise('le',s,o)
    def __gt__(s,o): return elementwise('gt',s,o)
    def __ge__(s,o): return elementwise('ge',s,o)
    def __eq__(s,o):
        if o is None or isinstance(o,str):
            if s.kind=='o': return objmap(s,lambda x:x==o)
            return mapany(s,lambda e:FALSE,'b')
        return elementwise('eq',s,o)
    def __ne__(s,o):
        if o is None or isinstance(o,str):
            if s.kind=='o': return objmap(s,lambda x:x!=o)
            return mapany(s,lambda e:TRUE,'b')
        return elementwise('ne',s,o)
    def __and__(s,o): return logic('and',s,o)
    __rand__=__and__
    def __or__(s,o): return logic('or',s,o)
    __ror__=__or__
    def __xor__(s,o): return logic('xor',s,o)
    def __invert__(s):
        if s.kind!='b': raise TypeError('invert of non-bool')
        return mapany(s,lambda e:mk_not(e),'b')
    # -------- reductions etc. delegated
    def _np(s):
        from . import npshim
        return npshim
    def sum(s,axis=None,**k): return s._np().sum(s,axis=axis,**k)
    def mean(s,axis=None,**k): return s._np().mean(s,axis=axis,**k)
    def max(s,axis=None,**k): return s._np().max(s,axis=axis,**k)
    def min(s,axis=None,**k): return s._np().min(s,axis=axis,**k)
    def std(s,axis=None,**k): return s._np().std(s,axis=axis,**k)
    def prod(s,axis=None,**k): return s._np().prod(s,axis=axis,**k)
    def argmin(s,axis=None,**k): return s._np().argmin(s,axis=axis,**k)
    def argmax(s,axis=None,**k): return s._np().argmax(s,axis=axis,**k)
    def any(s,axis=None,**k): return s._np().any(s,axis=axis,**k)
    def all(s,axis=None,**k): return s._np().all(s,axis=axis,**k)
    def copy(s,*a,**k): return materialize(s)
    def __copy__(s): return materialize(s)
    def __deepcopy__(s,m): return materialize(s)
    def astype(s,k,**kw): return s._np().astype(s,k)
    def reshape(s,*sh,**k):
        if len(sh)==1 and isinstance(sh[0],(tuple,list)): sh=tuple(sh[0])
        return s._np().reshape(s,sh)
    def transpose(s,*a): return s._np().transpose(s,*a)
    @property
    def T(s): return s._np().transpose(s)
    def flatten(s,*a): return s._np().ravel(s)
    def ravel(s,*a): return s._np().ravel(s)
    def tolist(s):
        c=s.dims[0].const() if s.dims else None
        if not s.dims: return s.item()
        if c is None: return s    # list of symbolic length: kept as an array (element access, len, iteration agree)
        return [x.tolist() if isinstance(x,Arr) else x for x in s]
    def repeat(s,n,axis=None): return s._np().repeat(s,n,axis=axis)
    def fill(s,v): s[...]=v
    def squeeze(s,*a,**k): return s._np().squeeze(s,*a,**k)
    def dot(s,o): return s._np().dot(s,o)
    def index(s,x): raise Unsupported('list.index on symbolic list')
    # -------- indexing
    def __getitem__(s,key): return getitem(s,key)
    def __setitem__(s,key,val): setitem(s,key,val)
core._arrcls[0]=Arr

class DT:
    def __init__(s,k): s.kind=k; s.name={'f':'float64','i':'int64','b':'bool','o':'object'}[k]
    def __eq__(s,o): return (isinstance(o,DT) and o.kind==s.kind) or o is {'f':float,'i':int,'b':bool,'o':object}[s.kind] or o==s.name
    def __hash__(s): return hash(s.kind)

def _pyint(sz):
    if sz.v.is_const(): return int(sz.v.const())
    return sz
def _first(d):
    """comp of the first element of an axis"""
    if isinstance(d,Dim): return ZERO
    return fd_pos(d,'first')
def fd_pos(d,which):
    """first/last index tuple of a filtered axis (existence must be established by the caller)"""
    cs=tuple(fresh('l','I') for _ in d.exts)
    lam=tm.mk_lam(list(cs),TRUE,tm.iv(d.rng(cs)))
    out=[]
    for k in range(len(cs)):
        name='%s%d'%(which,k)
        def ax(L,which=which,name=name,k=k):
            # the chosen index satisfies the condition; nothing before (after) it does (rank 1)
            vs,dom,body=tm.open_lam(L)
            me=[tm.app_raw('%s%d'%(which,j),(L,),'I') for j in range(len(vs))]
            mp={tm.the_atom(v):m for v,m in zip(vs,me)}
            b=subst(body,mp)
            exq=mk_not(eq(body,ZERO))
            for v in reversed(vs): exq=tm.mk_ex(v,exq)
            facts=[mk_not(eq(b,ZERO))]
            if len(vs)==1:
                v=vs[0]
                before=lt(v,me[0]) if which=='first' else lt(me[0],v)
                facts.append(tm.mk_all(v,tm.implies(before,eq(body,ZERO))))
            return tm.implies(exq,mk_and(facts))
        from . import smt
        smt.AXIOMS[name]=ax
        out.append(tm.app_raw(name,(lam,),'I'))
    return tuple(out)

def new(dims,fn,kind,enum=None): return Arr(Buf(dims,fn,kind),enum=enum)
def asarr(x):
    from . import npshim
    return npshim.array(x,copy=False)
def materialize(a):
    """independent copy with the current contents"""
    b=a.buf; fn=b.fn; memo=b.memo; axes=list(a.axes)
    if all(ax[0]=='ax' and ax[1]==k and ax[2] is ZERO and ax[3] is ONE for k,ax in enumerate(axes)) and len(axes)==len(a.dims):
        r=Buf(a.dims,fn,b.kind)
        return Arr(r,enum=a.enum)
    snap=Arr(Buf(b.dims,fn,b.kind),axes,a.dims)
    return Arr(Buf(a.dims,lambda I:snap.elem(I),b.kind),enum=a.enum)
def frozen(a):
    """read-only snapshot (values at this moment), cheap"""
    return Arr(Buf(a.buf.dims,a.buf.fn,a.buf.kind),a.axes,a.dims,a.enum)

def bcast(arrs):
    """broadcast dims of several Arr: (dims, list of index maps)"""
    nd=max(len(a.dims) for a in arrs)
    out=[]
    for k in range(nd):
        cand=None
        for a in arrs:
            j=k-(nd-len(a.dims))
            if j<0: continue
            d=a.dims[j]
            if isinstance(d,Dim) and d.n is ONE: 
                if cand is None: cand=d
                continue
            if cand is None or (isinstance(cand,Dim) and cand.n is ONE): cand=d
            elif not same_dim(cand,d):
                if rank_adapt(d,cand): pass
                elif rank_adapt(cand,d): cand=d
                else: raise_shape(cand,d)
        out.append(cand)
    maps=[]
    for a in arrs:
        m=[]
        off=nd-len(a.dims)
        for j,d in enumerate(a.dims):
            o=out[j+off]
            one=isinstance(d,Dim) and d.n is ONE and not (isinstance(o,Dim) and o.n is ONE)
            ra=None if one or type(d) is type(o) else rank_adapt(d,o)
            m.append(None if one else (lambda I,ra=ra,q=j+off: ra(I[q])) if ra else j+off)
        maps.append(m)
    return out,maps
RANKS={}
def fd_rank(fd,c):
    """how many selected indices come before c (one-dimensional selections)"""
    v=fresh('rk','I')
    t=CTX.under([le(ZERO,v),lt(v,c[0]),lt(c[0],fd.exts[0])],lambda: tm.mk_sum(v,c[0],iv(fd.cond((v,)))))
    RANKS[t]=(fd,c)
    return t
def fix_first(p,comp):
    axes=[]
    for ax in p.axes:
        if ax[0]=='fix': axes.append(ax)
        elif ax[1]==0: axes.append(('fix',comp))
        else: axes.append(('ax',ax[1]-1,ax[2],ax[3]))
    return axes,p.dims[1:]
def rank_adapt(d,o):
    """plain axis d as long as the filtered axis o: element number rank(c) of d goes with index c of o"""
    if isinstance(d,Dim) and isinstance(o,FDim) and o.rank==1 and CTX.prove(eq(d.n,o.n),full=True):
        return lambda c: fd_rank(o,c)
def raise_shape(a,b):
    if isinstance(a,Dim) and isinstance(b,Dim):
        if (a.n.is_const() and b.n.is_const()): 
            raise ValueError('operands could not be broadcast together with shapes %s %s'%(a,b))
        # numpy would broadcast when one of them is 1
        e=eq(a.n,b.n)
        if CTX.fork(e): raise Unsupported('shapes equal only on this branch: %s %s'%(a,b))
        raise ValueError('operands could not be broadcast together with shapes %s %s'%(a,b))
    raise Unsupported('cannot relate the axes %s and %s'%(a,b))
def pick(m,I): return tuple(ZERO if k is None else k(I) if callable(k) else I[k] for k in m)

def mapany(a,f,kind):
    s=frozen(a)
    if not a.dims: return e_scalar(f(s.elem(())),kind)
    return new(a.dims,lambda I:f(s.elem(I)),kind)
def mapnum(a,f,kind):
    s=frozen(a)
    if not a.dims: return e_scalar(f(*s.num(())),kind)
    return new(a.dims,lambda I:f(*s.num(I)),kind)
def objmap(a,f):
    s=frozen(a)
    return new(a.dims,lambda I:tob(f(s.elem(I))),'b')
OPS={'add':core.s_add,'sub':core.s_sub,'mul':core.s_mul,'div':core.s_div,'floordiv':core.s_floordiv,'mod':core.s_mod,'pow':core.s_pow}
def elementwise(op,a,b):
    a=asarr(a); b=asarr(b)
    if a.kind=='o' or b.kind=='o':
        if op in('eq','ne') :
            dims,(ma,mb)=bcast([a,b]); fa,fb=frozen(a),frozen(b)
            import operator
            return new(dims,lambda I: tob(getattr(operator,op)(e_scalar(fa.elem(pick(ma,I)),fa.kind),e_scalar(fb.elem(pick(mb,I)),fb.kind))),'b')
        raise Unsupported('arithmetic on object arrays')
    dims,(ma,mb)=bcast([a,b])
    fa,fb=frozen(a),frozen(b)
    ka='i' if a.kind=='b' else a.kind; kb='i' if b.kind=='b' else b.kind
    if op in('lt','le','gt','ge','eq','ne'):
        if op in('eq','ne') and a.kind=='b' and b.kind=='b':
            fn=lambda I:(lambda x:x if op=='eq' else mk_not(x))(tm.iff(fa.elem(pick(ma,I)),fb.elem(pick(mb,I))))
        else:
            def fn(I):
                x,ox=fa.num(pick(ma,I)); y,oy=fb.num(pick(mb,I))
                return core.cmp_e(op,x,ox,y,oy)
        kind='b'
    else:
        f=OPS[op]
        kind='f' if op=='div' or 'f' in (ka,kb) else 'i'
        def fn(I):
            x,ox=fa.num(pick(ma,I)); y,oy=fb.num(pick(mb,I))
            r=f(S(x,ox,ka),S(y,oy,kb))
            return (r.v,r.ok)
        if op=='mul' and kind=='f': pass
    if not dims: return e_scalar(fn(()),kind)
    return new(dims,fn,kind)
def logic(op,a,b):
    a=asarr(a); b=asarr(b)
    if a.kind!='b' or b.kind!='b': raise Unsupported('bitwise op on non-bool')
    dims,(ma,mb)=bcast([a,b]); fa,fb=frozen(a),frozen(b)
    f={'and':lambda x,y:mk_and([x,y]),'or':lambda x,y:mk_or([x,y]),'xor':lambda x,y:mk_not(tm.iff(x,y))}[op]
    return new(dims,lambda I:f(fa.elem(pick(ma,I)),fb.elem(pick(mb,I))),'b')

# ------------------------------------------------------------------ indexing
def _int_t(x,what='index'):
    if isinstance(x,bool): raise Unsupported('bool scalar index')
    if isinstance(x,int): return const(x)
    if isinstance(x,S):
        if x.kind!='i': raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        return x.v
    if isinstance(x,float): raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    if isinstance(x,Arr) and not x.dims and x.kind=='i': return x.num(())[0]
    raise Unsupported('index %r'%(type(x),))
def _sint(x):
    """slice bound"""
    if isinstance(x,S) and x.kind!='i': raise TypeError('slice indices must be integers or None or have an __index__ method')
    if isinstance(x,float): raise TypeError('slice indices must be integers or None or have an __index__ method')
    return _int_t(x)
LENIENT=[]   # non-empty during the first (guessing) pass over a loop body, whose result is re-checked
def norm_index(t,d):
    n=d.n
    if LENIENT and not t.is_const(): return t
    if t.is_const() and n.is_const():
        i=int(t.const()); N=int(n.const())
        if i<-N or i>=N: raise IndexError('index %d is out of bounds for axis with size %d'%(i,N))
        return const(i%N) if N else t
    if t.is_const() and t.const()<0:
        r=tm.add(t,n)
        if not CTX.fork(le(ZERO,r)): raise IndexError('index out of bounds')
        return r
    inb=mk_and([le(ZERO,t),lt(t,n)])
    if CTX.prove(inb): return t
    if CTX.fork(le(ZERO,t)):
        if CTX.fork(lt(t,n)): return t
        raise IndexError('index out of bounds')
    r=tm.add(t,n)
    if CTX.fork(le(ZERO,r)): return r
    raise IndexError('index out of bounds')
def norm_slice(sl,d):
    """(start, step, length) for a plain axis"""
    n=d.n
    step=ONE if sl.step is None else _sint(sl.step)
    if not step.is_const(): raise Unsupported('symbolic slice step')
    st=int(step.const())
    if st==0: raise ValueError('slice step cannot be zero')
    if st<0:
        if sl.start is None and sl.stop is None:
            if st==-1: return tm.add(n,const(-1)),step,n
        raise Unsupported('negative slice step')
    def bound(x,default):
        if x is None: return default
        t=_sint(x)
        if t is n: return n
        if CTX.fork(lt(t,ZERO)):
            t=tm.add(t,n)
            if CTX.fork(lt(t,ZERO)): return ZERO
            return t
        if t.is_const() and t.const()==0: return ZERO
        if CTX.fork(lt(n,t)): return n
        return t
    a=bound(sl.start,ZERO); b=bound(sl.stop,n)
    ln=tm.add(b,tm.neg(a))
    if not CTX.fork(le(ZERO,ln)): return a,step,ZERO
    if st==1: return a,ONE,ln
    return a,step,tm.idiv(tm.add(ln,const(st-1)),step)

def _isbool(x): return isinstance(x,Arr) and x.kind=='b'
def expand_key(a,key):
    if not isinstance(key,tuple): key=(key,)
    key=list(key)
    key=[asarr(k) if isinstance(k,(list,range)) else k for k in key]
    key=[k.seq() if hasattr(k,'seq') else k for k in key]
    n=0
    for k in key:
        if k is None or k is Ellipsis: continue
        n+= len(k.dims) if _isbool(k) else 1
    nd=len(a.dims)
    if Ellipsis in [k if k is Ellipsis else 0 for k in key]:
        i=[k is Ellipsis for k in key].index(True)
        key[i:i+1]=[slice(None)]*(nd-n)
    else: key+= [slice(None)]*(nd-n)
    if n>nd: raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed'%(nd,n))
    return key
def where_fdim(mask):
    """axis enumerating the true positions of a bool array (plain dims only)"""
    for d in mask.dims:
        if not isinstance(d,Dim): return None
    m=frozen(mask)
    return FDim([d.n for d in mask.dims],lambda c:m.elem(tuple(c)))
def mask_index(mask):
    """list of index arrays, one per mask axis, enumerating True positions"""
    if len(mask.dims)==1 and isinstance(mask.dims[0],FDim):
        fd=mask.dims[0]; m=frozen(mask)
        sub=FDim(fd.exts,lambda c:mk_and([fd.cond(c),m.elem((tuple(c),))]))
        return ('sub',fd,sub)
    fd=where_fdim(mask)
    if fd is None: raise Unsupported('boolean mask over a filtered axis')
    return [new([fd],(lambda k:lambda I:(I[0][k],TRUE))(k),'i',enum=(fd,k)) for k in range(fd.rank)]

def getitem(a,key):
    if isinstance(key,str):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
    key=expand_key(a,key)
    # mask on a filtered axis
    if len(key)==1 and _isbool(key[0]) and len(a.dims)==1 and isinstance(a.dims[0],FDim):
        mi=mask_index(key[0])
        if isinstance(mi,tuple) and same_dim(mi[1],a.dims[0]):
            s=frozen(a)
            return new([mi[2]],lambda I:s.elem(I),a.kind,enum=None)
        raise Unsupported('mask over filtered axis')
    k2=[]; ax=0
    for k in key:
        if _isbool(k):
            for j,d in enumerate(k.dims):
                if not same_dim(d,a.dims[ax+j]):
                    raise IndexError('boolean index did not match indexed array')
            k2.extend(mask_index(k)); ax+=len(k.dims)
        else:
            k2.append(k)
            if k is not None: ax+=1
    key=k2
    adv=[i for i,k in enumerate(key) if isinstance(k,Arr) and k.dims]
    if not adv: return basic(a,key)
    # advanced: integer arrays (and scalars, which join the advanced group)
    vax=0; dims_before=[]; items=[]
    for i,k in enumerate(key):
        if k is None: items.append(('new',None)); continue
        d=a.dims[vax]
        if isinstance(k,Arr) and k.dims:
            if k.kind!='i': raise IndexError('arrays used as indices must be of integer (or boolean) type')
            items.append(('adv',vax,k))
        elif isinstance(k,slice):
            items.append(('slice',vax)+slice_on(k,d))
        else:
            if isinstance(d,FDim): raise Unsupported('int+adv on filtered axis')
            items.append(('int',vax,norm_index(_int_t(k),d)))
        vax+=1
    advpos=[i for i,x in enumerate(items) if x[0] in('adv','int')]
    contiguous=advpos==list(range(advpos[0],advpos[-1]+1))
    arrs=[x[2] for x in items if x[0]=='adv']
    bd,maps=bcast(arrs)
    # out-of-bounds / negative handling of gathered indices
    infos=[]
    for x,m in zip([x for x in items if x[0]=='adv'],maps):
        infos.append((x[1],gather_index(a,x[1],x[2],m,bd)))
    out=[]; comps={}
    def place():
        for d in bd: out.append(('b',d))
    placed=False
    if not contiguous: place(); placed=True
    for i,x in enumerate(items):
        if x[0] in('adv','int'):
            if not placed: place(); placed=True
        elif x[0]=='new': out.append(('n',Dim(ONE)))
        else: out.append(('s',x))
    dims=[]; bpos=[]; spos={}
    for k,o in enumerate(out):
        if o[0]=='b': bpos.append(k); dims.append(o[1])
        elif o[0]=='n': dims.append(o[1])
        else:
            x=o[1]; spos[x[1]]=k
            dims.append(x[4])
    s=frozen(a)
    def fn(I):
        J=[None]*len(a.dims)
        bi=tuple(I[k] for k in bpos)
        for va,g in infos: J[va]=g(bi)
        for x in items:
            if x[0]=='int': J[x[1]]=x[2]
            elif x[0]=='slice':
                c=I[spos[x[1]]]
                J[x[1]]=c if x[2] is ZERO and x[3] is ONE else tm.add(tm.mul(c,x[3]),x[2])
        return s.elem(tuple(J))
    en=None
    if len(items)==1 and a.enum is not None and False: en=None
    if not dims: return e_scalar(fn(()),a.kind)
    return new(dims,fn,a.kind)
def gather_index(a,vax,k,m,bd):
    d=a.dims[vax]
    ks=frozen(k)
    if isinstance(d,FDim): raise Unsupported('integer-array index into a filtered axis')
    if k.enum is not None:
        fd,pos=k.enum
        if fd.exts[pos] is d.n or CTX.prove(le(fd.exts[pos],d.n)):
            return lambda bi: ks.num(pick(m,bi))[0]
    # general: must be within [-n,n)
    inb=all_over(k.dims,lambda cs: mk_and([le(ZERO,ks.num(cs)[0]),lt(ks.num(cs)[0],d.n)]))
    if CTX.fork(inb): return lambda bi: ks.num(pick(m,bi))[0]
    inb2=all_over(k.dims,lambda cs: mk_and([le(tm.neg(d.n),ks.num(cs)[0]),lt(ks.num(cs)[0],d.n)]))
    if CTX.fork(inb2):
        def g(bi):
            t=ks.num(pick(m,bi))[0]
            return ite(lt(t,ZERO),tm.add(t,d.n),t)
        return g
    raise IndexError('index out of bounds')
def slice_on(sl,d):
    """(start,step,dim)"""
    if isinstance(d,FDim):
        if sl.start in (None,0) and sl.stop is None and sl.step is None: return (ZERO,ONE,d)
        raise Unsupported('slice of a filtered axis')
    if sl.start is None and sl.stop is None and sl.step is None: return (ZERO,ONE,d)
    st,sp,ln=norm_slice(sl,d)
    return (st,sp,Dim(ln))
def basic(a,key):
    vax=0; dims=[]; vmap={}
    for k in key:
        if k is None: dims.append(Dim(ONE)); continue
        d=a.dims[vax]
        if isinstance(k,slice):
            st,sp,nd=slice_on(k,d)
            vmap[vax]=('ax',len(dims),st,sp); dims.append(nd)
        else:
            t=_int_t(k)
            if isinstance(d,FDim):
                rk=RANKS.get(t)
                if rk is not None and same_dim(rk[0],d) and CTX.prove(d.rng(rk[1])):
                    vmap[vax]=('fix',rk[1]); vax+=1; continue
                if not (t.is_const() and t.const() in (0,-1)): raise Unsupported('element %s of a filtered axis'%tm.show(t))
                if not CTX.fork(d.nonempty()): raise IndexError('index 0 is out of bounds for axis 0 with size 0')
                vmap[vax]=('fix',fd_pos(d,'first' if t.const()==0 else 'last'))
            else: vmap[vax]=('fix',norm_index(t,d))
        vax+=1
    axes=[]
    for ax in a.axes:
        if ax[0]=='fix': axes.append(ax)
        else:
            v=vmap[ax[1]]
            if v[0]=='fix':
                c=v[1]
                if isinstance(c,tuple): axes.append(('fix',c))
                else: axes.append(('fix',tm.add(tm.mul(c,ax[3]),ax[2])))
            else:
                axes.append(('ax',v[1],tm.add(tm.mul(v[2],ax[3]),ax[2]) if not(v[2] is ZERO) else ax[2],tm.mul(v[3],ax[3])))
    r=Arr(a.buf,axes,dims)
    if not dims: return e_scalar(r.elem(()),a.kind)
    if a.enum is not None and all(isinstance(k,slice) and k==slice(None) for k in key): r.enum=a.enum
    return r

def setitem(a,key,val):
    key=expand_key(a,key)
    k2=[]; ax=0
    # mask over filtered axis
    if len(key)==1 and _isbool(key[0]) and len(a.dims)==1 and isinstance(a.dims[0],FDim):
        m=frozen(key[0])
        assign(a,lambda I:(m.elem(I),I),val,None); return
    for k in key:
        if _isbool(k):
            for j,d in enumerate(k.dims):
                if not same_dim(d,a.dims[ax+j]): raise IndexError('boolean index did not match indexed array')
            if len(k.dims)==1 and isinstance(k.dims[0],FDim): raise Unsupported('mask assignment over filtered axis inside tuple key')
            k2.extend(mask_index(k)); ax+=len(k.dims)
        else:
            k2.append(k)
            if k is not None: ax+=1
    key=k2
    # per view axis selection; result dims
    items=[]; vax=0
    for k in key:
        if k is None: raise Unsupported('newaxis in assignment')
        d=a.dims[vax]
        if isinstance(k,Arr) and k.dims:
            if k.kind!='i': raise IndexError('arrays used as indices must be of integer (or boolean) type')
            items.append(('adv',vax,k))
        elif isinstance(k,slice): items.append(('slice',vax)+slice_on(k,d))
        else:
            t=_int_t(k)
            if isinstance(d,FDim): raise Unsupported('scalar assignment into filtered axis')
            items.append(('int',vax,norm_index(t,d)))
        vax+=1
    advs=[x for x in items if x[0]=='adv']
    fixedlist=None
    if advs:
        bd,maps=bcast([x[2] for x in advs])
        advpos=[i for i,x in enumerate(items) if x[0] in('adv','int')]
        contiguous=advpos==list(range(advpos[0],advpos[-1]+1))
        # concrete short index lists
        if all(d.const() is not None for d in bd) and not any(x[2].enum for x in advs):
            import itertools as it
            out_dims,order=_layout(items,bd,contiguous)
            v=asarr(val)
            vd,vm=_fit(v,out_dims)
            vs=frozen(v)
            for combo in it.product(*[range(d.const()) for d in bd]):
                bi=tuple(const(i) for i in combo)
                sub={x[1]:norm_index(x[2].num(pick(m,bi))[0],a.dims[x[1]]) for x,m in zip(advs,maps)}
                def sel(I,sub=sub,bi=bi):
                    return _sel(items,I,sub,bi,order)
                assign(a,sel,vs,vm)
            return
        # inverse of index arrays
        inv=make_inverse(a,advs,maps,bd)
    else:
        bd=[]; contiguous=True; inv=None
    out_dims,order=_layout(items,bd,contiguous)
    v=asarr(val)
    vd,vm=_fit(v,out_dims)
    vs=frozen(v)
    def sel(I):
        return _sel(items,I,None,None,order,inv)
    assign(a,sel,vs,vm)
def _layout(items,bd,contiguous):
    out=[]; order=[]; placed=False
    def place():
        for j,d in enumerate(bd): out.append(d); order.append(('b',j))
    if bd and not contiguous: place(); placed=True
    for x in items:
        if x[0] in('adv','int'):
            if bd and not placed: place(); placed=True
        else: out.append(x[4]); order.append(('s',x[1]))
    return out,order
def _fit(v,out_dims):
    """value dims broadcast to out_dims: index map"""
    off=len(out_dims)-len(v.dims)
    dims=list(v.dims)
    drop=0
    while off<0:
        d=dims[0]
        if isinstance(d,Dim) and d.n is ONE: dims=dims[1:]; drop+=1; off+=1
        else: raise ValueError('could not broadcast input array into shape')
    m=[None]*drop
    for j,d in enumerate(dims):
        o=out_dims[j+off]
        if isinstance(d,Dim) and d.n is ONE and not (isinstance(o,Dim) and o.n is ONE): m.append(None); continue
        if not same_dim(d,o):
            if isinstance(d,Dim) and isinstance(o,Dim):
                if CTX.fork(eq(d.n,o.n)): raise Unsupported('assignment shapes equal only on this branch')
                raise ValueError('could not broadcast input array into shape')
            ra=rank_adapt(d,o)
            if ra:
                m.append(lambda I,ra=ra,q=j+off: ra(I[q])); continue
            raise Unsupported('cannot relate axes in assignment: %s %s'%(d,o))
        m.append(j+off)
    return dims,m
def _sel(items,I,sub,bi,order,inv=None):
    cond=[]; comps={}
    for x in items:
        c=I[x[1]]
        if x[0]=='int': cond.append(eq(c,x[2]))
        elif x[0]=='slice':
            st,sp,d=x[2],x[3],x[4]
            if isinstance(d,FDim) or (st is ZERO and sp is ONE and False): comps[x[1]]=c; continue
            if sp is ONE: q=tm.add(c,tm.neg(st))
            elif sp.is_const() and sp.const()==-1: q=tm.add(st,tm.neg(c))
            else:
                dlt=tm.add(c,tm.neg(st)); q=tm.idiv(dlt,sp)
                cond.append(eq(tm.mul(q,sp),dlt))
            # the index is inside the array by assumption: only the tighter bounds matter
            if not (st is ZERO and sp is ONE and x[5:] == ('full',)):
                cond.append(le(ZERO,q)); cond.append(lt(q,d.n))
            comps[x[1]]=q
        else:
            if sub is not None: cond.append(eq(c,sub[x[1]]))
    if inv is not None:
        b,bi=inv(I); cond.append(b)
    res=[]
    for o in order:
        res.append(bi[o[1]] if o[0]=='b' else comps[o[1]])
    return mk_and(cond),tuple(res)
def make_inverse(a,advs,maps,bd):
    """given view index I: (cond, broadcast index) such that the index arrays hit I"""
    if len(bd)==1:
        d=bd[0]
        if isinstance(d,FDim):
            # enumerations of a filtered axis, one per component
            poss={}
            ok=True
            for x in advs:
                if x[2].enum is not None and same_dim(x[2].enum[0],d): poss[x[2].enum[1]]=x[1]
                else: ok=False
            if ok and len(poss)==d.rank:
                def inv(I):
                    c=tuple(I[poss[k]] for k in range(d.rank))
                    return mk_and([d.cond(c)]),(c,)
                return inv
            if len(advs)==1 and d.rank==1:
                # affine function of the enumerated index
                k=frozen(advs[0][2]); va=advs[0][1]
                v=fresh('z','I'); t=k.num(((v,),))[0]
                c=tm.lin_coef(t,tm.the_atom(v))
                if c in (1,-1):
                    rest=tm.add(t,tm.neg(tm.scale(v,c)))
                    def inv(I):
                        q=tm.scale(tm.add(I[va],tm.neg(rest)),c)
                        return mk_and([d.rng((q,))]),((q,),)
                    return inv
        elif len(advs)==1 and isinstance(d,Dim):
            k=frozen(advs[0][2]); va=advs[0][1]
            v=fresh('z','I'); t=k.num((v,))[0]
            c=tm.lin_coef(t,tm.the_atom(v))
            if c in (1,-1):
                rest=tm.add(t,tm.neg(tm.scale(v,c)))
                def inv(I):
                    q=tm.scale(tm.add(I[va],tm.neg(rest)),c)
                    return mk_and([d.rng(q)]),(q,)
                return inv
    raise Unsupported('assignment through an index array that cannot be inverted')
def conv_elem(e,src,dst):
    if dst=='b': return e_bool(e,src)
    if dst=='o': return e_scalar(e,src)
    return e_num(e,src)
def e_ite(c,x,y,kind):
    if c is TRUE: return x
    if c is FALSE: return y
    if kind=='b': return bite(c,x,y)
    if kind=='o':
        if x is y: return x
        raise Unsupported('merge of objects')
    return (ite(c,x[0],y[0]), TRUE if (x[1] is TRUE and y[1] is TRUE) else bite(c,x[1],y[1]))
def assign(a,sel,val,vm):
    """a[I]=val for every view index I with sel(I)=(cond,resultindex)"""
    if vm is None:
        v=asarr(val)
        if v.dims: 
            if not (len(v.dims)==1): raise Unsupported('assignment through mask on filtered axis')
        vs=frozen(v); vm=list(range(len(v.dims)))
    else: vs=val
    buf=a.buf; old=buf.fn; oldmemo=buf.memo; axes=list(a.axes); dims=list(a.dims); kind=buf.kind
    oldb=Buf.__new__(Buf); oldb.dims=buf.dims; oldb.fn=old; oldb.kind=kind; oldb.memo=oldmemo
    if kind=='i' and vs.kind=='f':
        # numpy casts silently when assigning floats into an int array: truncation
        vk=lambda e:(tm.trunc(e[0]),e[1])
    else: vk=None
    def fn(J):
        I=[None]*len(dims); cond=[]
        for c,ax in zip(J,axes):
            if ax[0]=='fix':
                if isinstance(c,tuple): cond.append(mk_and([eq(x,y) for x,y in zip(c,ax[1])]))
                else: cond.append(eq(c,ax[1]))
            else:
                st,sp=ax[2],ax[3]
                if isinstance(c,tuple): I[ax[1]]=c; continue
                if st is ZERO and sp is ONE:
                    q=c
                    d=dims[ax[1]]
                    cond.append(lt(q,d.n) if isinstance(d,Dim) and d.n is not None else TRUE)
                    if isinstance(d,Dim): cond[-1]= TRUE if _fullaxis(buf,axes,ax,d) else mk_and([le(ZERO,q),lt(q,d.n)])
                elif sp is ONE or (sp.is_const() and sp.const()==-1):
                    q=tm.add(c,tm.neg(st))
                    if sp is not ONE: q=tm.neg(q)
                    d=dims[ax[1]]; cond.append(mk_and([le(ZERO,q),lt(q,d.n)]))
                else:
                    dl=tm.add(c,tm.neg(st)); q=tm.idiv(dl,sp)
                    d=dims[ax[1]]; cond.append(mk_and([eq(tm.mul(q,sp),dl),le(ZERO,q),lt(q,d.n)]))
                I[ax[1]]=q
        for k in range(len(I)):
            if I[k] is None: I[k]=ZERO
        b,R=sel(tuple(I))
        b=mk_and(cond+[b])
        if b is FALSE: return oldb.get(J)
        # drop bounds already known for J
        b=strip_known(b,buf.dims,J)
        e=conv_elem(vs.elem(pick(vm,R)),vs.kind,kind)
        if vk: e=vk(e)
        if b is TRUE: return e
        return e_ite(b,e,oldb.get(J),kind)
    buf.set(fn)
def _fullaxis(buf,axes,ax,d):
    k=axes.index(ax)
    bd=buf.dims[k]
    return isinstance(bd,Dim) and bd.n is d.n
def strip_known(b,dims,J):
    """remove range conjuncts implied by J lying inside the buffer"""
    known=set()
    for d,c in zip(dims,J):
        if isinstance(d,Dim):
            for x in (le(ZERO,c),lt(c,d.n)): known.add(x)
    if b in known: return TRUE
    if b.kind=='and':
        return mk_and([x for x in b.args[0] if x not in known])
    return b
