"""Execution context: path forking by re-execution, assumptions, contextual proving; symbolic scalars and booleans."""
from . import terms as tm
from .terms import T,B,TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,fresh,var,ZERO,ONE
from . import smt
from fractions import Fraction as Fr
import time

class Unsupported(BaseException): pass
class PathAbort(BaseException): pass          # infeasible / cut path
class Budget(BaseException): pass

class Ctx:
    def __init__(self):
        self.reset([])
        self.maxdec=400
        self.deadline=None
    def reset(self,decisions):
        self.pc=[]; self.dec=decisions; self.pos=0; self.made=[]; self.depth=0
        self.unroll_used=[]
        self.scope=0; self.scopes=0; self.learned=set()
    def assume(self,b):
        if b is TRUE: return
        if b is FALSE: raise PathAbort()
        for x in (b.args[0] if b.kind=='and' else (b,)):
            if x not in self.pc: self.pc.append(x)
    def learn(self,b):
        """a callee's postcondition: assumed, and true of every call, so it does not count as a condition of the path"""
        for x in (b.args[0] if b.kind=='and' else (b,)): self.learned.add(x)
        self.assume(b)
    def under(self,bs,f):
        """evaluate f() with extra temporary assumptions"""
        old=list(self.pc); os=self.scope
        self.scopes+=1; self.scope=self.scopes
        try:
            for b in bs:
                if b is FALSE: break
                for x in (b.args[0] if b.kind=='and' else (b,)):
                    if x is not TRUE and x not in self.pc: self.pc.append(x)
            return f()
        finally:
            self.pc[:]=old; self.scope=os
    def prove(self,b,full=False):
        if b is TRUE: return True
        if b is FALSE: return False
        if b in self.pc: return True
        try: return smt.prove(self.pc,b) if full else smt.quick(self.pc,b)
        except NotImplementedError: return False      # a bound variable in the middle of a substitution: nothing is claimed
    def fork(self,b):
        if b is TRUE: return True
        if b is FALSE: return False
        nb=mk_not(b)
        if b in self.pc: return True
        if nb in self.pc: return False
        if self.deadline and time.time()>self.deadline: raise Budget('time budget exhausted')
        # decided by the path condition?
        if smt.check(self.pc+[nb],800)[0]=='unsat': return True
        if smt.check(self.pc+[b],800)[0]=='unsat': return False
        if self.pos<len(self.dec): d=self.dec[self.pos]
        else:
            d=True
            if len(self.dec)>self.maxdec: raise Unsupported('too many branch decisions on one path')
            self.dec.append(True)
        self.pos+=1
        self.made.append(b)
        self.assume(b if d else nb)
        return d
CTX=Ctx()
def _hook(b): return CTX.prove(b)
tm.PROVE[0]=_hook
def _floorhook(t):
    """value of floor(t) for 0<=t<1 etc."""
    if CTX.prove(mk_and([le(ZERO,t),lt(t,ONE)])): return ZERO
    if CTX.prove(mk_and([le(const(-1),t),lt(t,ZERO)])): return const(-1)
    return None
tm.FLOOR_HOOK[0]=_floorhook

INF=float('inf'); NAN=float('nan')
def isnan(x): return x!=x

class SB:
    """symbolic boolean"""
    __slots__=('b',)
    def __init__(s,b): s.b=b
    def __bool__(s): return CTX.fork(s.b)
    def __invert__(s): return mkb(mk_not(s.b))
    def __and__(s,o):
        if _isarr(o): return NotImplemented
        return mkb(mk_and([s.b,tob(o)]))
    __rand__=__and__
    def __or__(s,o):
        if _isarr(o): return NotImplemented
        return mkb(mk_or([s.b,tob(o)]))
    __ror__=__or__
    def __eq__(s,o):
        if isinstance(o,(bool,SB)): return mkb(tm.iff(s.b,tob(o)))
        return s.num()==o
    def __ne__(s,o):
        r=s.__eq__(o)
        return (not r) if isinstance(r,bool) else ~r
    def __hash__(s): return id(s.b)
    def num(s): return S(iv(s.b),TRUE,'i')
    def __mul__(s,o): return s.num()*o
    __rmul__=__mul__
    def __add__(s,o): return s.num()+o
    __radd__=__add__
    def __sub__(s,o): return s.num()-o
    def __rsub__(s,o): return o-s.num()
    def __lt__(s,o): return s.num()<o
    def __gt__(s,o): return s.num()>o
    def __le__(s,o): return s.num()<=o
    def __ge__(s,o): return s.num()>=o
    def any(s): return s
    def all(s): return s
    def __repr__(s): return 'SB(%r)'%s.b
def mkb(b):
    if b is TRUE: return True
    if b is FALSE: return False
    return SB(b)
def tob(x):
    if isinstance(x,SB): return x.b
    if isinstance(x,bool): return TRUE if x else FALSE
    if isinstance(x,(S,int,float)):
        s=lift_s(x); return mk_not(eq(s.v,ZERO)) if s.ok is TRUE else mk_or([mk_not(s.ok),mk_not(eq(s.v,ZERO))])
    raise Unsupported('truth value of %r'%(type(x),))
_arrcls=[None]
def _isarr(o): return _arrcls[0] is not None and isinstance(o,_arrcls[0])

TOKENS={}
class SymStr(str):
    """text containing the decimal spelling of symbolic numbers, as tokens; only concatenation is defined"""
    def __add__(s,o): return SymStr(str.__add__(s,o)) if isinstance(o,str) else NotImplemented
    def __radd__(s,o): return SymStr(str.__add__(o,s)) if isinstance(o,str) else NotImplemented
    def __eq__(s,o):
        if isinstance(o,str) and str.__eq__(s,o): return True
        raise Unsupported('comparison of text spelled from a symbolic number')
    def __ne__(s,o): return not s.__eq__(o)
    __hash__=str.__hash__
def sym_str(s):
    k='\x01%d%s\x02'%(s.v.id,'' if s.ok is TRUE else 'n'); TOKENS[k]=s
    return SymStr(k)
def text_parts(x):
    """(literal, number, literal, number ...) of a text with tokens"""
    import re
    return [TOKENS[q] if q.startswith('\x01') else q for q in re.split('(\x01[^\x02]*\x02)',str.__str__(x)) if q]
class S:
    """symbolic real (kind 'f') or integer (kind 'i') scalar: value term and finiteness"""
    __slots__=('v','ok','kind','fd')
    def __init__(s,v,ok=TRUE,kind='f',fd=None): s.v=v; s.ok=ok; s.kind=kind; s.fd=fd
    shape=(); ndim=0; size=1
    @property
    def dtype(s): return s.kind
    def _b(s,o,f,r=False):
        if _isarr(o): return NotImplemented
        if isinstance(o,(list,tuple,str,dict)) or o is None: return NotImplemented
        o=lift_s(o) if not isinstance(o,S) else o
        if o is None: return NotImplemented
        return f(o,s) if r else f(s,o)
    def __add__(s,o): return s._b(o,s_add)
    def __radd__(s,o): return s._b(o,s_add,True)
    def __sub__(s,o): return s._b(o,s_sub)
    def __rsub__(s,o): return s._b(o,s_sub,True)
    def __mul__(s,o):
        if isinstance(o,(list,tuple)) and s.kind=='i' and s.v.is_const(): return o*int(s.v.const())
        return s._b(o,s_mul)
    def __rmul__(s,o):
        if isinstance(o,(list,tuple)) and s.kind=='i' and s.v.is_const(): return o*int(s.v.const())
        return s._b(o,s_mul,True)
    def __truediv__(s,o): return s._b(o,s_div)
    def __rtruediv__(s,o): return s._b(o,s_div,True)
    def __floordiv__(s,o): return s._b(o,s_floordiv)
    def __rfloordiv__(s,o): return s._b(o,s_floordiv,True)
    def __mod__(s,o): return s._b(o,s_mod)
    def __rmod__(s,o): 
        if isinstance(o,str): return NotImplemented
        return s._b(o,s_mod,True)
    def __divmod__(s,o): return s//o,s%o
    def __pow__(s,o): return s._b(o,s_pow)
    def __rpow__(s,o): return s._b(o,s_pow,True)
    def __neg__(s): return S(tm.neg(s.v),s.ok,s.kind)
    def __pos__(s): return s
    def __abs__(s): return S(tm.absv(s.v),s.ok,s.kind)
    def _c(s,o,op):
        if _isarr(o): return NotImplemented
        if isinstance(o,(str,list,tuple,dict)) or o is None:
            if op=='eq': return False
            if op=='ne': return True
            return NotImplemented
        if isinstance(o,S) and s.fd is not None and o.v.is_const() and o.ok is TRUE and o.v.const() in(0,1): o=int(o.v.const())
        if s.fd is not None and not isinstance(o,S) and o==0 and op in('eq','ne','lt','ge','gt','le'):
            ex=s.fd.nonempty()
            return {'eq':mkb(mk_not(ex)),'ne':mkb(ex),'gt':mkb(ex),'le':mkb(mk_not(ex)),'lt':False,'ge':True}[op]
        if s.fd is not None and not isinstance(o,S) and o==1 and op in('lt','ge'):
            ex=s.fd.nonempty()
            return mkb(mk_not(ex)) if op=='lt' else mkb(ex)
        r=s_cmp(op,s,o)
        return r
    def __lt__(s,o): return s._c(o,'lt')
    def __le__(s,o): return s._c(o,'le')
    def __gt__(s,o): return s._c(o,'gt')
    def __ge__(s,o): return s._c(o,'ge')
    def __eq__(s,o): return s._c(o,'eq')
    def __ne__(s,o): return s._c(o,'ne')
    def __hash__(s):
        if s.v.is_const():
            c=s.v.const()
            return hash(c)
        return hash(s.v.id)
    def __bool__(s): return CTX.fork(tob(s))
    def __index__(s):
        if s.kind!='i': raise TypeError("'float' object cannot be interpreted as an integer")
        if s.v.is_const() and s.v.const().denominator==1: return int(s.v.const())
        raise Unsupported('symbolic integer used where a concrete one is needed: %s'%tm.show(s.v))
    def __int__(s):
        if s.v.is_const(): return int(s.v.const())
        raise Unsupported('int() of symbolic')
    def __float__(s):
        if s.v.is_const(): return float(s.v.const())
        raise Unsupported('float() of symbolic')
    def __round__(s,n=None):
        if n in (None,0): return S(tm.rnd(s.v),s.ok,'i' if n is None else s.kind)
        raise Unsupported('round digits')
    def __format__(s,spec):
        if s.v.is_const() and s.kind=='i': return format(int(s.v.const()),spec)
        return str.__str__(sym_str(s))
    def __str__(s): return str(int(s.v.const())) if s.v.is_const() and s.kind=='i' else sym_str(s)
    def __repr__(s): return 'S(%s%s)'%(tm.show(s.v)[:200],'' if s.ok is TRUE else ' ok=%r'%s.ok)
    def __copy__(s): return s
    def __deepcopy__(s,m): return s
    def __reduce__(s): raise Unsupported('pickle of symbolic')
    # numpy scalar protocol
    def copy(s): return s
    def item(s): return s
    def tolist(s): return s
    def astype(s,k):
        from . import npshim
        return npshim.s_astype(s,k)
    def max(s,*a,**k): return s
    def min(s,*a,**k): return s
    def sum(s,*a,**k): return s
    def mean(s,*a,**k): return s
    def is_integer(s): return mkb(eq(tm.floor(s.v),s.v))
    def __getitem__(s,k):
        raise TypeError("'float' object is not subscriptable")
    def __len__(s): raise TypeError("object of type 'float' has no len()")
    def __iter__(s): raise TypeError("'float' object is not iterable")
    @property
    def value(s): return s
    @property
    def real(s): return s

_kc={}
def K(txt):
    """float literal of the source, as the exact decimal it spells"""
    r=_kc.get(txt)
    if r is None:
        t=txt.replace('_','').lower()
        if t in('inf','nan'): r=float(t)
        else: r=S(const(Fr(t)),TRUE,'f')
        _kc[txt]=r
    return r
def lift_s(x):
    if isinstance(x,S): return x
    if isinstance(x,bool): return S(const(int(x)),TRUE,'i')
    if isinstance(x,int): return S(const(x),TRUE,'i')
    if isinstance(x,float):
        if x!=x or x in (INF,-INF): return S(ZERO,FALSE,'f')
        return S(const(x),TRUE,'f')
    if isinstance(x,Fr): return S(const(x),TRUE,'f')
    if isinstance(x,SB): return x.num()
    if _isarr(x) and x.ndim==0: return x.item()
    return None
def both(a,b): return mk_and([a.ok,b.ok]) if (a.ok is not TRUE or b.ok is not TRUE) else TRUE
def _k(a,b): return 'i' if a.kind=='i' and b.kind=='i' else 'f'
def s_add(a,b): return S(tm.add(a.v,b.v),both(a,b),_k(a,b))
def s_sub(a,b): return S(tm.add(a.v,tm.neg(b.v)),both(a,b),_k(a,b))
def s_mul(a,b): return S(tm.mul(a.v,b.v),both(a,b),_k(a,b))
def s_div(a,b):
    if b.v.is_const() and not b.v.p: return S(ZERO,FALSE,'f')
    nz=mk_not(eq(b.v,ZERO))
    ok=both(a,b)
    if nz is not TRUE:
        if CTX.prove(nz): nz=TRUE
        else: ok=mk_and([ok,nz])
    return S(tm.div(a.v,b.v),ok,'f')
def s_floordiv(a,b):
    return S(tm.idiv(a.v,b.v),mk_and([both(a,b),mk_not(eq(b.v,ZERO))]),_k(a,b))
def s_mod(a,b):
    return S(tm.imod(a.v,b.v),mk_and([both(a,b),mk_not(eq(b.v,ZERO))]),_k(a,b))
def s_pow(a,b):
    ok=both(a,b); kind='f'
    if b.v.is_const():
        c=b.v.const()
        if c.denominator==1:
            if c<0:
                nz=mk_not(eq(a.v,ZERO))
                if not CTX.prove(nz): ok=mk_and([ok,nz])
            elif _k(a,b)=='i': kind='i'
            return S(tm.power(a.v,b.v),ok,kind)
        need=le(ZERO,a.v) if c>0 else lt(ZERO,a.v)
    else:
        need=mk_or([lt(ZERO,a.v),mk_and([eq(a.v,ZERO),lt(ZERO,b.v)])])
    if need is not TRUE and not CTX.prove(need): ok=mk_and([ok,need])
    return S(tm.power(a.v,b.v),ok,kind)
def cmp_t(op,x,y):
    if op=='lt': return lt(x,y)
    if op=='gt': return lt(y,x)
    if op=='le': return le(x,y)
    if op=='ge': return le(y,x)
    if op=='eq': return eq(x,y)
    return mk_not(eq(x,y))
def cmp_e(op,x,okx,y,oky):
    """comparison with IEEE semantics for not-finite operands left open (NaN compares false, infinity may compare true)"""
    if okx is FALSE or oky is FALSE: return TRUE if op=='ne' else FALSE
    ok=mk_and([okx,oky])
    c=cmp_t(op,x,y)
    if ok is TRUE: return c
    return mk_or([mk_and([ok,c]),mk_and([mk_not(ok),tm._bapp_lift('nfcmp_'+op,[x,y])])]) if op!='ne' else \
        mk_or([mk_and([ok,c]),mk_and([mk_not(ok),mk_not(tm._bapp_lift('nfcmp_eq',[x,y]))])])
def s_cmp(op,a,o):
    if isinstance(o,float) and (o in (INF,-INF) or o!=o):
        if o!=o: return op=='ne'
        if a.ok is TRUE or CTX.prove(a.ok):
            return {'lt':o==INF,'le':o==INF,'gt':o==-INF,'ge':o==-INF,'eq':False,'ne':True}[op]
        return mkb(mk_or([mk_and([a.ok,TRUE if {'lt':o==INF,'le':o==INF,'gt':o==-INF,'ge':o==-INF,'eq':False,'ne':True}[op] else FALSE]),
                          mk_and([mk_not(a.ok),tm.bapp('nfinf_'+op+('p' if o>0 else 'm'),[a.v])])]))
    b=lift_s(o)
    if b is None: return NotImplemented
    return mkb(cmp_e(op,a.v,a.ok,b.v,b.ok))

def unary(name):
    def f(x):
        s=lift_s(x)
        return S(*U[name](s.v,s.ok),kind='f')
    return f
def _need(ok,b):
    if b is TRUE or CTX.prove(b): return ok
    return mk_and([ok,b])
U={
 'sqrt':lambda v,ok:(tm.sqrt(v),_need(ok,le(ZERO,v))),
 'exp':lambda v,ok:(tm.exp(v),ok),
 'log':lambda v,ok:(tm.log(v),_need(ok,lt(ZERO,v))),
 'log10':lambda v,ok:(tm.div(tm.log(v),tm.log(const(10))),_need(ok,lt(ZERO,v))),
 'sin':lambda v,ok:(tm.sin(v),ok),'cos':lambda v,ok:(tm.cos(v),ok),
 'tan':lambda v,ok:(tm.tan(v),_need(ok,mk_not(eq(tm.cos(v),ZERO)))),
 'arcsin':lambda v,ok:(tm.arcsin(v),_need(ok,mk_and([le(const(-1),v),le(v,ONE)]))),
 'arccos':lambda v,ok:(tm.arccos(v),_need(ok,mk_and([le(const(-1),v),le(v,ONE)]))),
 'arctan':lambda v,ok:(tm.arctan(v),ok),
 'sinh':lambda v,ok:(tm.sinh(v),ok),'tanh':lambda v,ok:(tm.tanh(v),ok),
 'abs':lambda v,ok:(tm.absv(v),ok),
 'radians':lambda v,ok:(tm.mul(v,tm.scale(tm.PI,Fr(1,180))),ok),
 'degrees':lambda v,ok:(tm.div(tm.scale(v,180),tm.PI),ok),
 'floor':lambda v,ok:(tm.floor(v),ok),'ceil':lambda v,ok:(tm.ceil(v),ok),'rint':lambda v,ok:(tm.rnd(v),ok),
 'trunc':lambda v,ok:(tm.trunc(v),ok),
 'square':lambda v,ok:(tm.mul(v,v),ok),
 'sign':lambda v,ok:(tm.add(iv(lt(ZERO,v)),tm.neg(iv(lt(v,ZERO)))),ok),
}
