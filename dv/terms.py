"""Hash-consed real/integer terms in a canonical (Laurent) polynomial normal form over atoms.

A term T is a sum of coefficient * monomial; a monomial is a product of atoms with integer exponents.
Atoms: variables, bound variables, applications of named functions (known or uninterpreted), Iverson
brackets iv(B) of atomic propositions, reciprocals of multi-term polynomials, and sums over the integers.
Every smart constructor below is an algebraic identity of the reals (for arguments where both sides are
defined; definedness is tracked separately by the value layer)."""
from fractions import Fraction as Fr
import zlib, math, itertools

_M61=(1<<61)-1
def _h(*xs):
    r=1469598103934665603
    for x in xs:
        if isinstance(x,str): x=zlib.crc32(x.encode())
        elif isinstance(x,Fr): x=_h(x.numerator,x.denominator)
        elif isinstance(x,tuple): x=_h(*x) if x else 77
        r=((r ^ (x & _M61))*1099511628211 + 0x9E3779B97F4A7C15) & _M61
    return r

EMPTY=frozenset()
_atoms={}; _terms={}; _bs={}
_aid=[0]

class Atom:
    __slots__=('kind','name','args','sort','sh','id','fv','h','sgn')
    def __repr__(self): return show_atom(self)

def _mk_atom(kind,name,args,sort):
    k=(kind,name,args,sort)
    a=_atoms.get(k)
    if a is not None: return a
    a=Atom(); a.kind=kind; a.name=name; a.args=args; a.sort=sort
    a.id=_aid[0]; _aid[0]+=1; a.sgn=None
    if kind=='var':
        a.fv=frozenset((a,)); a.h=0; a.sh=_h('var',name,sort)
    elif kind=='bv':
        a.fv=frozenset((a,)); a.h=0; a.sh=_h('bv',name,sort)
    else:
        fv=EMPTY; h=0
        for x in args:
            if isinstance(x,(T,B,Lam)):
                fv=fv|x.fv; h=max(h,x.h)
        if kind=='sum':
            h=max(h,name); fv=fv-{_mk_atom('bv',name,None,'I')}
        a.fv=fv; a.h=h
        a.sh=_h(kind,name if name is not None else 'none',sort,tuple(x.sh if isinstance(x,(T,B,Lam)) else _h(str(x)) for x in args))
    _atoms[k]=a
    return a

class T:
    __slots__=('p','sh','fv','h','id','_isint','__weakref__')
    def __repr__(self): return show(self)
    def is_const(self): return len(self.p)==0 or (len(self.p)==1 and self.p[0][0]==())
    def const(self): return self.p[0][1] if self.p else Fr(0)
    @property
    def isint(self):
        if self._isint is None:
            self._isint=all(c.denominator==1 and all(a.sort=='I' and e>0 for a,e in m) for m,c in self.p) \
                or _int_poly(self)
        return self._isint
    def __add__(s,o): return add(s,_t(o))
    __radd__=__add__
    def __sub__(s,o): return add(s,neg(_t(o)))
    def __rsub__(s,o): return add(_t(o),neg(s))
    def __mul__(s,o): return mul(s,_t(o))
    __rmul__=__mul__
    def __truediv__(s,o): return div(s,_t(o))
    def __rtruediv__(s,o): return div(_t(o),s)
    def __neg__(s): return neg(s)
    def __pow__(s,o): return power(s,_t(o))

def _int_poly(t): return False

def _t(x):
    if isinstance(x,T): return x
    return const(x)

def _mono_key(m): return tuple((a.sh,e) for a,e in m)

def mk(d):
    """dict mono->coef (no zeros) -> T"""
    items=[(m,c) for m,c in d.items() if c!=0]
    k=frozenset(items)
    t=_terms.get(k)
    if t is not None: return t
    items.sort(key=lambda mc:(len(mc[0]),_mono_key(mc[0])))
    t=T(); t.p=tuple(items); t.id=len(_terms)
    fv=EMPTY; h=0
    for m,c in items:
        for a,e in m:
            if a.fv: fv=fv|a.fv
            if a.h>h: h=a.h
    t.fv=fv; t.h=h; t._isint=None
    t.sh=_h('T',tuple(_h(c,tuple((a.sh,e) and _h(a.sh,e+1000) for a,e in m)) for m,c in items)) if items else 5
    _terms[k]=t
    return t

_cc={}
def const(x):
    if isinstance(x,T): return x
    if isinstance(x,bool): x=int(x)
    if isinstance(x,float):
        if x!=x or x in (float('inf'),float('-inf')): raise ValueError('nonfinite const')
        x=Fr(repr(x))
    f=Fr(x)
    t=_cc.get(f)
    if t is None:
        t=mk({():f} if f!=0 else {}); _cc[f]=t
    return t
ZERO=const(0); ONE=const(1)

def atom_t(a,e=1): return mk({((a,e),):Fr(1)})

_NN=set()      # terms known non-negative from how they were built (sums and products of squares); _PP: known positive
_PP=set()
def add(a,b):
    if not a.p: return b
    if not b.p: return a
    r=_add(a,b)
    if (a in _NN or b in _NN) and (a in _NN or is_nonneg(a)) and (b in _NN or is_nonneg(b)):
        _NN.add(r)
        if a in _PP or b in _PP or is_pos(a) or is_pos(b): _PP.add(r)
    return r
def _add(a,b):
    d=dict(a.p)
    for m,c in b.p:
        n=d.get(m)
        if n is None: d[m]=c
        else:
            n=n+c
            if n==0: del d[m]
            else: d[m]=n
    return mk(d)
def addn(ts):
    d={}
    for t in ts:
        for m,c in t.p:
            n=d.get(m,0)+c
            if n==0: d.pop(m,None)
            else: d[m]=n
    return mk(d)
def neg(a): return mk({m:-c for m,c in a.p})
def scale(a,c):
    if c==0: return ZERO
    if c==1: return a
    r=mk({m:x*c for m,x in a.p})
    if c>0 and a in _NN:
        _NN.add(r)
        if a in _PP: _PP.add(r)
    return r

def _sortm(d): return tuple(sorted(d.items(),key=lambda ae:(ae[0].sh,ae[0].id)))

_monocache={}
def _mono_mul(m1,m2):
    """product of two monomials -> (mono, None) or (None, T)"""
    if not m1: return m2,None
    if not m2: return m1,None
    k=(m1,m2)
    r=_monocache.get(k)
    if r is None:
        d=dict(m1)
        for a,e in m2:
            n=d.get(a,0)+e
            if n==0: del d[a]
            else: d[a]=n
        r=_norm_mono(d)
        _monocache[k]=r
    return r

def _norm_mono(d):
    """apply reduction rules; returns (mono,None) or (None,T)"""
    exps=[]; ivs=[]; special=False; pows=[]
    for a,e in d.items():
        k=a.kind
        if k=='iv':
            ivs.append(a)
            if e!=1: special=True
        elif k=='app':
            n=a.name
            if n=='exp':
                exps.append((a,e))
                if e!=1: special=True
            elif n=='sqrt' and e not in (1,): special=True
            elif n=='sin' and e>=2: special=True
            elif n=='pow': pows.append((a,e))
    if len(exps)>1: special=True
    if pows and _pow_special(pows): special=True
    ivzero=False
    if len(ivs)>1 and _iv_conflict(ivs): return None,ZERO
    if len(ivs)>1:
        red=_iv_reduce(ivs)
        if red is not None: special=True
        else: red=ivs
    else: red=ivs
    if not special: return _sortm(d),None
    nd={}; factors=[]
    ex=ZERO
    pw={}
    for a,e in d.items():
        k=a.kind
        if k=='iv':
            if a in red: nd[a]=1
        elif k=='app' and a.name=='exp': ex=add(ex,scale(a.args[0],e))
        elif k=='app' and a.name=='sqrt' and e!=1:
            A=a.args[0]
            q,r=divmod(e,2)
            if r: nd[a]=1
            if q: factors.append(ipow(A,q))
        elif k=='app' and a.name=='sin' and e>=2:
            q,r=divmod(e,2)
            if r: nd[a]=1
            c=cos(a.args[0])
            factors.append(ipow(add(ONE,neg(mul(c,c))),q))
        elif k=='app' and a.name=='pow':
            b=a.args[0]
            pw.setdefault(b,[]).append((a,e))
        else: nd[a]=e
    for b,l in pw.items():
        if len(l)==1 and l[0][1]==1: nd[l[0][0]]=1
        elif is_pos(b):
            s=ZERO
            for a,e in l: s=add(s,scale(a.args[1],e))
            factors.append(power(b,s))
        else:
            for a,e in l: nd[a]=e
    if ex is not ZERO:
        factors.append(exp(ex))
    t=mk({_sortm(nd):Fr(1)})
    for f in factors: t=mul(t,f)
    return None,t
def _pow_special(pows):
    seen=set()
    for a,e in pows:
        if not is_pos(a.args[0]): continue
        if e!=1 or a.args[0] in seen: return True
        seen.add(a.args[0])
    return False

def _eq_solution(b):
    """for b = ('eq',t) with t = +-v + rest: (v,rest)"""
    return None
def _iv_conflict(ivs):
    s={a.args[0] for a in ivs}
    # v==e1 and v==e2 with different constants
    eqs={}
    for b in s:
        if b.kind=='eq':
            t=b.args[0]
            c=t.p[0][1] if t.p and t.p[0][0]==() else Fr(0)
            rest=add(t,const(-c))
            if rest in eqs and eqs[rest]!=c: return True
            if neg(rest) in eqs and eqs[neg(rest)]!=-c: return True
            eqs[rest]=c
    # eq with lt over same linear form: t==0 makes t+c<0 decidable
    for b in s:
        if b.kind=='lt':
            t=b.args[0]
            c=t.p[0][1] if t.p and t.p[0][0]==() else Fr(0)
            rest=add(t,const(-c))
            if rest in eqs and not (-eqs[rest]+c<0): return True
            nr=neg(rest)
            if nr in eqs and not (eqs[nr]+c<0): return True
    # two lts bounding a form in an empty integer/real range:  r+c1<0 and -r+c2<0  -> c2<r<-c1
    lts={}
    for b in s:
        if b.kind=='lt':
            t=b.args[0]
            c=t.p[0][1] if t.p and t.p[0][0]==() else Fr(0)
            rest=add(t,const(-c))
            if rest not in lts or c>lts[rest]: lts[rest]=c
    for r,c1 in lts.items():
        n=neg(r)
        if n in lts:
            c2=lts[n]
            # r < -c1, r > c2
            if r.isint:
                if -c1-1 < c2+1: return True
            elif -c1<=c2: return True
    return False
def _iv_reduce(ivs):
    """drop brackets implied by another one in the same monomial (same linear form); None if nothing drops"""
    lts={}; eqs={}; drop=set()
    for a in ivs:
        b=a.args[0]
        if b.kind in('lt','eq'):
            t=b.args[0]
            c=t.p[0][1] if t.p and t.p[0][0]==() else Fr(0)
            rest=add(t,const(-c))
            if b.kind=='lt': lts.setdefault(rest,[]).append((c,a))
            else: eqs[rest]=c
    for r,l in lts.items():
        if len(l)>1:
            l.sort(key=lambda x:x[0])
            for c,a in l[:-1]: drop.add(a)
        if r in eqs or neg(r) in eqs:
            for c,a in l: drop.add(a)   # consistent (conflict checked before), hence implied
    if not drop: return None
    return [a for a in ivs if a not in drop]

_mulc={}
def mul(a,b):
    if not a.p or not b.p: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if a.id>b.id: a,b=b,a
    k=(a,b)
    r=_mulc.get(k)
    if r is not None: return r
    d={}; extra=[]
    for m1,c1 in a.p:
        for m2,c2 in b.p:
            m,t=_mono_mul(m1,m2)
            c=c1*c2
            if t is None:
                n=d.get(m,0)+c
                if n==0: d.pop(m,None)
                else: d[m]=n
            else: extra.append(scale(t,c))
    r=mk(d)
    if extra: r=addn([r]+extra)
    if a is b: _NN.add(r)
    elif (a in _NN or b in _NN) and (a in _NN or is_nonneg(a)) and (b in _NN or is_nonneg(b)):
        _NN.add(r)
        if (a in _PP or is_pos(a)) and (b in _PP or is_pos(b)): _PP.add(r)
    _mulc[k]=r
    return r
def muln(ts):
    r=ONE
    for t in ts: r=mul(r,t)
    return r

def ipow(a,n):
    if n==0: return ONE
    if n<0: return inv(ipow(a,-n)) if len(a.p)!=1 else ipow(inv(a),-n)
    r=ONE; b=a
    while n:
        if n&1: r=mul(r,b)
        n>>=1
        if n: b=mul(b,b)
    return r

# ---------------------------------------------------------------- lifting of brackets out of arguments
def top_ivs(t):
    s=set()
    for m,c in t.p:
        for a,e in m:
            if a.kind=='iv': s.add(a)
    return s
LIFT_MAX=8
def set_iv(t,val):
    """val: dict iv-atom -> 0/1, substitution at the top level only"""
    d={}
    for m,c in t.p:
        out=[]; z=False
        for a,e in m:
            if a in val:
                if val[a]==0: z=True; break
            else: out.append((a,e))
        if z: continue
        m=tuple(out)
        n=d.get(m,0)+c
        if n==0: d.pop(m,None)
        else: d[m]=n
    return mk(d)
def lift(f,*args):
    """f applied to args (T or other) with top-level brackets pulled out: sum over truth values"""
    ivs=None
    for x in args:
        if isinstance(x,T):
            s=top_ivs(x)
            if s: ivs=s if ivs is None else ivs|s
    if not ivs or len(ivs)>LIFT_MAX: return f(*args)
    a=min(ivs,key=lambda x:(x.sh,x.id))
    one=lift(f,*[set_iv(x,{a:1}) if isinstance(x,T) else x for x in args])
    zero=lift(f,*[set_iv(x,{a:0}) if isinstance(x,T) else x for x in args])
    if one is zero: return one
    at=atom_t(a)
    return add(zero,mul(at,add(one,neg(zero))))

# ---------------------------------------------------------------- signs
VAR_SIGN={}   # name -> 'pos'|'nonneg'
def atom_sign(a):
    """'pos','nonneg' or None"""
    k=a.kind
    if k=='var': return VAR_SIGN.get(a.name)
    if a.sgn is not None: return a.sgn or None
    r=None
    if k=='app':
        n=a.name
        if n in('exp',): r='pos'
        elif n=='log' and a.args[0].is_const() and a.args[0].const()>1: r='pos'
        elif n=='sqrt': r='pos' if is_pos(a.args[0]) else 'nonneg'
        elif n=='pow':
            if is_pos(a.args[0]): r='pos'
            elif is_nonneg(a.args[0]): r='nonneg'
        else: r=APP_SIGN.get(n)
    elif k=='iv': r='nonneg'
    elif k=='inv': r='pos' if is_pos(a.args[0]) else None
    elif k=='sum':
        # summand nonneg?
        r='pos' if is_pos(a.args[1]) and is_pos(a.args[0]) else 'nonneg' if is_nonneg(a.args[1]) else None
    if k in('inv',) or (k=='app' and a.name in('sqrt','pow')) or k=='sum': pass
    a.sgn=r or ''
    return r
APP_SIGN={}   # uninterpreted function name -> sign
def mono_sign(m):
    r='pos'
    for a,e in m:
        s=atom_sign(a)
        if s=='pos': continue
        if e%2==0 and e>0:
            r='nonneg' if r else r; continue
        if s=='nonneg' and e>0: r='nonneg'; continue
        if e%2==0: continue   # even negative power: positive where defined
        return None
    return r
def is_pos(t):
    if not t.p: return False
    if t in _PP: return True
    ok=False
    for m,c in t.p:
        if c<0: return False
        s=mono_sign(m)
        if s is None: return False
        if s=='pos': ok=True
    return ok
def is_nonneg(t):
    if t in _NN: return True
    for m,c in t.p:
        if c<0: return False
        if mono_sign(m) is None: return False
    return True
def is_neg(t): return is_pos(neg(t))

# ---------------------------------------------------------------- division
def _mono_inv(m): return tuple((a,-e) for a,e in m)
def _t_mono(m,c=Fr(1)):
    r,t=_norm_mono(dict(m))
    return mk({r:c}) if t is None else scale(t,c)
def content(t):
    """(c, mono) with t = c*mono*rest, rest having trivial content; mono = gcd of monomials"""
    p=t.p
    common=dict(p[0][0])
    for m,c in p[1:]:
        dm=dict(m)
        for a in list(common):
            e=dm.get(a,0)
            if e==0: del common[a]
            elif (e>0)!=(common[a]>0): del common[a]
            else: common[a]=min(e,common[a]) if e>0 else max(e,common[a])
        # atoms only in m with negative exponents are not in common -> handled by den clearing below
    # clear negative exponents: take the most negative over all monomials
    neg_={}
    for m,c in p:
        for a,e in m:
            if e<0: neg_[a]=min(neg_.get(a,0),e)
    for a,e in neg_.items(): common[a]=e
    # constant content
    from math import gcd
    num=0; den=1
    for m,c in p:
        num=gcd(num,abs(c.numerator)); den=den*c.denominator//gcd(den,c.denominator)
    c0=Fr(num,den)
    return c0,_sortm(common)
def lead_sign(t):
    return 1 if t.p[-1][1]>0 else -1
def inv(t):
    return lift(_inv,t)
def _inv(t):
    if not t.p: return atom_t(_mk_atom('app','invzero',(),'R'))
    if len(t.p)==1:
        m,c=t.p[0]
        return _t_mono(_mono_inv(m),1/c)
    c,m=content(t)
    if any(a.kind=='iv' for a,e in m): m=tuple((a,e) for a,e in m if a.kind!='iv')
    rest=mul(scale(t,1/c),_t_mono(_mono_inv(m)))
    if len(rest.p)==1 : return mul(_inv(rest),_t_mono(_mono_inv(m),1/c))
    # clear inner reciprocals: rest may contain inv atoms (with positive exponent) in some monomials
    dens={}
    for mm,cc in rest.p:
        for a,e in mm:
            if a.kind=='inv' and e>0: dens[a]=max(dens.get(a,0),e)
    if dens:
        D=ONE
        for a,e in dens.items(): D=mul(D,ipow(a.args[0],e))
        num=clear_inv(rest,dens)
        return muln([_inv(num),D,_t_mono(_mono_inv(m),1/c)])
    s=lead_sign(rest)
    if s<0: rest=neg(rest)
    a=_mk_atom('inv',None,(rest,),'R')
    return mul(mul(atom_t(a),_t_mono(_mono_inv(m),1/c)),const(s))
def clear_inv(t,dens):
    """t * prod(P^e) for inv atoms in dens"""
    out=[]
    for m,c in t.p:
        r=Fr(c); keep=[]; f=ONE
        md=dict(m)
        for a,e in dens.items():
            k=e-md.pop(a,0)
            if k: f=mul(f,ipow(a.args[0],k))
        out.append(mul(_t_mono(tuple(md.items()),r),f))
    return addn(out)
def div(a,b):
    if b.is_const() and b.p: return scale(a,1/b.const())
    if not a.p: return ZERO
    if a is b and a.p: return ONE
    if len(b.p)>1 and len(a.p)>=len(b.p) and not top_ivs(b):
        q=exact_div(a,b)
        if q is not None: return q
    return mul(a,inv(b))
def exact_div(a,b,limit=60):
    """multivariate exact division (polynomials); None when not exact.  Uses one main atom ordering."""
    if len(a.p)>200: return None
    def key(mc): return tuple(sorted(((-at.sh if False else at.sh,e) for at,e in mc[0]),reverse=True))
    def lm(t):
        # lexicographic leading monomial under atom order by sh
        best=None
        for m,c in t.p:
            k=sorted(((at.sh,e) for at,e in m),reverse=True)
            if best is None or k>best[0]: best=(k,m,c)
        return best[1],best[2]
    q=ZERO; r=a
    mb,cb=lm(b)
    db=dict(mb)
    n=0
    while r.p:
        n+=1
        if n>limit: return None
        mr,cr=lm(r)
        dr=dict(mr)
        dq=dict(dr)
        for at,e in db.items():
            x=dq.get(at,0)-e
            if e>0 and x<0: return None
            if x==0: dq.pop(at,None)
            else: dq[at]=x
        mq,tt=_norm_mono(dq)
        if tt is not None: return None
        qt=mk({mq:cr/cb})
        nr=add(r,neg(mul(qt,b)))
        if nr.p and len(nr.p)>len(r.p)+len(b.p): return None
        q=add(q,qt); r=nr
    return q

# ---------------------------------------------------------------- functions
def app_raw(name,args,sort='R'): return atom_t(_mk_atom('app',name,tuple(args),sort))
def app(name,args,sort='R'):
    """uninterpreted application; brackets are lifted out of term arguments"""
    return lift(lambda *a: app_raw(name,a,sort),*args)

def _squarefree(n):
    s=1; f=2; r=1
    while f*f<=n and f<2000:
        while n%(f*f)==0: n//=f*f; s*=f
        f+=1
    q=math.isqrt(n)
    if q*q==n: s*=q; n=1
    return s,n
def sqrt(t): return lift(_sqrt,t)
def _sqrt(t):
    if not t.p: return ZERO
    c,m=content(t)
    if len(t.p)==1: c=t.p[0][1]; m=t.p[0][0]
    if c<0: return app_raw('sqrt',(t,))
    out=ONE; rest=t
    pull=[]
    if len(t.p)==1:
        rest=ONE; inside=[]
        for a,e in m:
            s=atom_sign(a)
            if a.kind=='app' and a.name=='exp': out=mul(out,exp(scale(a.args[0],Fr(e,2))))
            elif e%2==0:
                b=atom_t(a,e//2) if a.kind!='app' or a.name!='sqrt' else ipow(atom_t(a),e//2)
                out=mul(out,b if (s or (e//2)%2==0) else absv(b))
            elif s=='pos' or (s=='nonneg' and e>0):
                q,r=divmod(e,2)
                if q: out=mul(out,ipow(atom_t(a),q))
                out=mul(out,app_raw('sqrt',(atom_t(a),)))
            else: inside.append((a,e))
        n,d=c.numerator,c.denominator
        s,r=_squarefree(n*d)
        out=scale(out,Fr(s,d))
        if r!=1:
            out=mul(out,app_raw('sqrt',(const(r),)))
        if inside:
            q=[]
            for a,e in inside:
                q.append((a,e))
            out=mul(out,app_raw('sqrt',(mk({_sortm(dict(q)):Fr(1)}),)))
        return out
    # polynomial: pull the even part of positive content
    n,d=c.numerator,c.denominator
    s,r=_squarefree(n*d)
    out=const(Fr(s,d)); rest=scale(t,1/(Fr(s,d)**2))
    mm=[]
    for a,e in m:
        sg=atom_sign(a)
        ev=e if e%2==0 else (e-1 if e>0 else e-1)
        if ev!=0 and (sg=='pos' or (sg=='nonneg' and ev>0)):
            mm.append((a,ev))
        elif ev!=0 and e%2==0 and ev:
            mm.append((a,ev))
    if mm:
        rest=mul(rest,_t_mono(_mono_inv(tuple(mm))))
        for a,ev in mm:
            b=ipow(atom_t(a),ev//2)
            sg=atom_sign(a)
            out=mul(out,b if (sg or (ev//2)%2==0) else absv(b))
    # perfect square of a binomial-like polynomial
    sq=_poly_sqrt(rest)
    if sq is not None: return mul(out,absv(sq))
    if len(rest.p)==1: return mul(out,_sqrt(rest))
    return mul(out,app_raw('sqrt',(rest,)))
def _poly_sqrt(t):
    if len(t.p) not in (3,6,10): return None
    sq=[]
    for m,c in t.p:
        if c>0 and all(e%2==0 for a,e in m):
            f=_fsqrt(c)
            if f is not None: sq.append((tuple((a,e//2) for a,e in m),f))
    k={3:2,6:3,10:4}[len(t.p)]
    for comb in itertools.combinations(sq,k):
        for signs in itertools.product((1,-1),repeat=k-1):
            s=addn([_t_mono(comb[0][0],comb[0][1])]+[_t_mono(m,f*sg) for (m,f),sg in zip(comb[1:],signs)])
            if mul(s,s) is t: return s
    return None
def _fsqrt(c):
    a=math.isqrt(c.numerator); b=math.isqrt(c.denominator)
    return Fr(a,b) if a*a==c.numerator and b*b==c.denominator else None

def exp(t): return lift(_exp,t)
def _exp(t):
    if not t.p: return ONE
    rest=dict(t.p); out=ONE
    for m,c in t.p:
        if len(m)==1 and m[0][1]==1 and m[0][0].kind=='app' and m[0][0].name=='log':
            del rest[m]; out=mul(out,power(m[0][0].args[0],const(c)))
    if not rest: return out
    return mul(out,app_raw('exp',(mk(rest),)))
def log(t): return lift(_log,t)
def _log(t):
    if t is ONE: return ZERO
    if t.p:
        c,m=content(t)
        if len(t.p)==1: c=t.p[0][1]
        if c>0:
            out=ZERO; pulled=[]
            for a,e in m:
                if atom_sign(a)=='pos':
                    pulled.append((a,e))
                    if a.kind=='app' and a.name=='exp': out=add(out,scale(a.args[0],e))
                    elif a.kind=='app' and a.name=='pow': out=add(out,scale(mul(a.args[1],_log(a.args[0])),e))
                    elif a.kind=='app' and a.name=='sqrt': out=add(out,scale(_log(a.args[0]),Fr(e,2)))
                    elif a.kind=='inv': out=add(out,scale(_log(a.args[0]),-e))
                    else: out=add(out,scale(app_raw('log',(atom_t(a),)),e))
            rest=mul(scale(t,1/c),_t_mono(_mono_inv(tuple(pulled))))
            if c!=1: 
                for q,s in ((c.numerator,1),(c.denominator,-1)):
                    if q!=1: out=add(out,scale(app_raw('log',(const(q),)),s))
            if rest is not ONE: out=add(out,app_raw('log',(rest,)))
            return out
    return app_raw('log',(t,))

PI_A=_mk_atom('var','PI',None,'R'); PI=atom_t(PI_A); VAR_SIGN['PI']='pos'
_PIM=((PI_A,1),)
def _pi_multiple(t):
    if not t.p: return Fr(0)
    if len(t.p)==1 and t.p[0][0]==_PIM: return t.p[0][1]
    return None
def _pi_split(t):
    """t = k*PI + rest"""
    for m,c in t.p:
        if m==_PIM: return c,add(t,scale(PI,-c))
    return Fr(0),t
def sin(t): return lift(_sin,t)
def cos(t): return lift(_cos,t)
def _trig_table(k):
    """sin(k*PI) for k multiple of 1/2,1/6,1/4 ; None otherwise"""
    k=k%2
    tab={Fr(0):ZERO,Fr(1,6):const(Fr(1,2)),Fr(1,4):scale(sqrt(const(2)),Fr(1,2)),Fr(1,3):scale(sqrt(const(3)),Fr(1,2)),Fr(1,2):ONE}
    s=1
    if k>1: k-=1; s=-1
    if k>Fr(1,2): k=1-k
    r=tab.get(k)
    return None if r is None else scale(r,s)
def _sin(t):
    k,rest=_pi_split(t)
    if not rest.p:
        r=_trig_table(k)
        if r is not None: return r
    elif k!=0 and (2*k).denominator==1:
        q=int(2*k)%4
        return [lambda:_sin(rest),lambda:_cos(rest),lambda:neg(_sin(rest)),lambda:neg(_cos(rest))][q]()
    if lead_sign(t)<0: return neg(_sin(neg(t)))
    if len(t.p)==1 and len(t.p[0][0])==1 and t.p[0][1]==1:
        a,e=t.p[0][0][0]
        if e==1 and a.kind=='app' and a.name=='arcsin': return a.args[0]
        if e==1 and a.kind=='app' and a.name=='arccos': return sqrt(add(ONE,neg(ipow(a.args[0],2))))
        if e==1 and a.kind=='app' and a.name=='arctan': return div(a.args[0],sqrt(add(ONE,ipow(a.args[0],2))))
    return app_raw('sin',(t,))
def _cos(t):
    k,rest=_pi_split(t)
    if not rest.p:
        r=_trig_table(k+Fr(1,2))
        if r is not None: return r
    elif k!=0 and (2*k).denominator==1:
        q=int(2*k)%4
        return [lambda:_cos(rest),lambda:neg(_sin(rest)),lambda:neg(_cos(rest)),lambda:_sin(rest)][q]()
    if lead_sign(t)<0: return _cos(neg(t))
    if len(t.p)==1 and len(t.p[0][0])==1 and t.p[0][1]==1:
        a,e=t.p[0][0][0]
        if e==1 and a.kind=='app' and a.name=='arccos': return a.args[0]
        if e==1 and a.kind=='app' and a.name=='arcsin': return sqrt(add(ONE,neg(ipow(a.args[0],2))))
        if e==1 and a.kind=='app' and a.name=='arctan': return inv(sqrt(add(ONE,ipow(a.args[0],2))))
    return app_raw('cos',(t,))
def tan(t): return div(sin(t),cos(t))
def _odd(name):
    def f(t):
        if not t.p: return ZERO
        if lead_sign(t)<0: return neg(app_raw(name,(neg(t),)))
        return app_raw(name,(t,))
    return lambda t: lift(f,t)
def _arcsin(t):
    if not t.p: return ZERO
    if t is ONE: return scale(PI,Fr(1,2))
    if t is const(-1): return scale(PI,Fr(-1,2))
    if lead_sign(t)<0: return neg(app_raw('arcsin',(neg(t),)))
    return app_raw('arcsin',(t,))
def arcsin(t): return lift(_arcsin,t)
def arccos(t): return add(scale(PI,Fr(1,2)),neg(arcsin(t)))
def eq_t(a,b): return a is b or add(a,neg(b)) is ZERO or not add(a,neg(b)).p
def arctan(t):
    def f(t):
        if not t.p: return ZERO
        if lead_sign(t)<0: return neg(f(neg(t)))
        if t is ONE: return scale(PI,Fr(1,4))
        if len(t.p)==1 and t.p[0][1]==1 and len(t.p[0][0])==2:
            # arctan(tan x) = x - pi*floor(x/pi+1/2) wherever tan x is defined
            sn=[a for a,e in t.p[0][0] if e==1 and a.kind=='app' and a.name=='sin']
            if sn:
                x=sn[0].args[0]
                if eq_t(div(sin(x),cos(x)),t): return add(x,neg(mul(PI,floor(add(div(x,PI),const(Fr(1,2)))))))
        return app_raw('arctan',(t,))
    return lift(f,t)
sinh=_odd('sinh'); tanh=_odd('tanh')
def absv(t):
    if is_nonneg(t): return t
    if is_nonneg(neg(t)): return neg(t)
    def f(t):
        if len(t.p)==1:
            m,c=t.p[0]
            known=[];rest=[]
            for a,e in m:
                if atom_sign(a) or e%2==0: known.append((a,e))
                else: rest.append((a,e))
            if known or abs(c)!=1:
                r=_t_mono(tuple(rest)) if rest else ONE
                return mul(_t_mono(tuple(known),abs(c)),absv(r))
        i=iv(lt(t,ZERO))
        return add(t,neg(scale(mul(i,t),2)))
    return lift(f,t)
def power(b,e):
    if e.is_const():
        c=e.const()
        if c.denominator==1: return ipow(b,int(c)) if c>=0 else inv(ipow(b,int(-c)))
        if c.denominator==2:
            n=int(c-Fr(1,2))
            s=sqrt(b)
            return mul(s,ipow(b,n) if n>=0 else inv(ipow(b,-n)))
    return lift(_power,b,e)
def expand_inv(b):
    """write (1/X)^-k as X^k throughout"""
    if not any(a.kind=='inv' and k<0 for m,c in b.p for a,k in m): return b
    out=[]
    for m,c in b.p:
        t=_t_mono(tuple((a,k) for a,k in m if not(a.kind=='inv' and k<0)),c)
        for a,k in m:
            if a.kind=='inv' and k<0: t=mul(t,ipow(a.args[0],-k))
        out.append(t)
    return addn(out)
def _power(b,e):
    if b is ONE: return ONE
    x=expand_inv(b)
    if x is not b and len(x.p)==1: b=x
    if not e.p: return ONE
    if e.is_const() and e.const().denominator<=2: return power(b,e)
    if len(b.p)==1 and b.p[0][0]:
        m,c=b.p[0]
        if c>0:
            out=ONE; rest=[]
            for a,k in m:
                if atom_sign(a)=='pos':
                    if a.kind=='app' and a.name=='exp': out=mul(out,exp(mul(scale(a.args[0],k),e)))
                    elif a.kind=='app' and a.name=='pow': out=mul(out,power(a.args[0],mul(scale(a.args[1],k),e)))
                    elif a.kind=='app' and a.name=='sqrt': out=mul(out,power(a.args[0],mul(scale(e,Fr(k,2)),ONE)))
                    elif a.kind=='inv': out=mul(out,_powat(a.args[0],scale(e,-k)))
                    else: out=mul(out,_powat(atom_t(a),scale(e,k)))
                else: rest.append((a,k))
            if c!=1: out=mul(out,_pconst(c,e))
            if rest:
                if len(rest)==1 and atom_sign(rest[0][0])=='nonneg' and rest[0][1]>1:
                    out=mul(out,_powat(atom_t(rest[0][0]),scale(e,rest[0][1])))
                else: out=mul(out,_powat(_t_mono(tuple(rest)),e))
            return out
    elif b.p:
        if len(b.p)==1: return _pconst(b.p[0][1],e) if b.p[0][1]>0 else _powat(b,e)
        # several terms: pull out the positive content, so that equal bases written over different denominators agree
        c,m=content(b)
        mm=tuple((a,k) for a,k in m if atom_sign(a)=='pos')
        if c>0 and (c!=1 or mm):
            f=_t_mono(mm,c) if mm else const(c)
            rest=mul(b,inv(f))
            c2,m2=content(rest)
            if len(rest.p)>1 and c2==1 and not any(atom_sign(a)=='pos' for a,k in m2):
                return mul(_power(f,e),_powat(rest,e))
    return _powat(b,e)
def _pconst(c,e):
    out=ONE
    for n,sg in ((c.numerator,1),(c.denominator,-1)):
        k=2
        while n>1 and k<2000:
            j=0
            while n%k==0: n//=k; j+=1
            if j: out=mul(out,_powat(const(k),scale(e,sg*j)))
            k+=1
        if n>1: out=mul(out,_powat(const(n),scale(e,sg)))
    return out
def _powat(b,e):
    if e.is_const():
        c=e.const()
        if c.denominator<=2: return power(b,e)
        n=c.numerator//c.denominator
        if n!=0 and is_pos(b):
            return mul(ipow(b,n) if n>=0 else inv(ipow(b,-n)),app_raw('pow',(b,const(c-n))))
    elif is_pos(b):
        # split constant integer part of exponent
        c=e.p[0][1] if e.p[0][0]==() else Fr(0)
        n=c.numerator//c.denominator
        if n!=0:
            return mul(ipow(b,n) if n>=0 else inv(ipow(b,-n)),app_raw('pow',(b,add(e,const(-n)))))
    return app_raw('pow',(b,e))

def floor(t): return lift(_floor,t)
FLOOR_HOOK=[None]
def _floor(t):
    """integer floor; pulls out integer parts"""
    if t.isint: return t
    if t.is_const(): return const(math.floor(t.const()))
    ip={};rest={}
    for m,c in t.p:
        if all(a.sort=='I' and e>0 for a,e in m):
            k=c.numerator//c.denominator
            if m==() or c.denominator==1:
                if k: ip[m]=Fr(k)
                if c-k: rest[m]=c-k
            else: rest[m]=c
        else: rest[m]=c
    r=mk(rest); i=mk(ip)
    if FLOOR_HOOK[0] is not None:
        k=FLOOR_HOOK[0](r)
        if k is not None: return add(i,k)
    return add(i,app_raw('floor',(r,),'I'))
def idiv(a,b): return floor(div(a,b))
def imod(a,b): return add(a,neg(mul(b,idiv(a,b))))
def ceil(t): return neg(floor(neg(t)))
def trunc(t):
    if t.isint: return t
    if is_nonneg(t): return floor(t)
    i=iv(lt(t,ZERO))
    return add(mul(i,ceil(t)),mul(add(ONE,neg(i)),floor(t)))
def rnd(t):
    def f(t):
        if t.isint: return t
        if t.is_const():
            return const(round(t.const()))
        ip={};rest={}
        for m,c in t.p:
            if m and c.denominator==1 and all(a.sort=='I' and e>0 for a,e in m) and c.numerator%2==0: ip[m]=c
            elif m==():
                k=2*((c.numerator//c.denominator)//2)
                if k: ip[m]=Fr(k)
                if c-k: rest[m]=c-k
            else: rest[m]=c
        return add(mk(ip),app_raw('round',(mk(rest),),'I'))
    return lift(f,t)

# ---------------------------------------------------------------- booleans
class B:
    __slots__=('kind','args','sh','fv','h','id')
    def __repr__(self): return show_b(self)
def _mkb(kind,args):
    k=(kind,args)
    b=_bs.get(k)
    if b is not None: return b
    b=B(); b.kind=kind; b.args=args; b.id=len(_bs)
    fv=EMPTY; h=0; hs=[]
    for x in args:
        if isinstance(x,(T,B,Lam)):
            fv=fv|x.fv; h=max(h,x.h); hs.append(x.sh)
        elif isinstance(x,tuple):
            for y in x:
                fv=fv|y.fv; h=max(h,y.h); hs.append(y.sh)
        else: hs.append(_h(str(x)))
    if kind=='ex':
        h=max(h,args[0]); fv=fv-{_mk_atom('bv',args[0],None,args[1])}
    b.fv=fv; b.h=h
    b.sh=_h('B',kind,tuple(hs))
    _bs[k]=b
    return b
class Lam:
    """closed function object: heights of its bound variables, domain proposition, body term/prop"""
    __slots__=('hs','dom','body','sh','fv','h','id')
_lams={}
def _mklam(hs,dom,body):
    k=(hs,dom,body)
    l=_lams.get(k)
    if l is None:
        l=Lam(); l.hs=hs; l.dom=dom; l.body=body; l.id=len(_lams)
        l.fv=(dom.fv|body.fv)-frozenset(_mk_atom('bv',x,None,'I') for x in hs); l.h=max(hs+(dom.h,body.h))
        l.sh=_h('lam',tuple(hs),dom.sh,body.sh)
        _lams[k]=l
    return l
TRUE=_mkb('T',()); FALSE=_mkb('F',())
def bconst(x): return TRUE if x else FALSE

def _canon_cmp(t):
    """scale by positive factors: constant content and positive monomial content"""
    c,m=content(t)
    mm=tuple((a,e) for a,e in m if atom_sign(a)=='pos')
    if mm: t=mul(t,_t_mono(_mono_inv(mm)))
    c,_=content(t)
    return scale(t,1/c)
def lt0(t):
    """t<0"""
    if t in _NN: return FALSE
    if top_ivs(t) : return _lift_b(lt0,t)
    if t.is_const(): return bconst(t.const()<0)
    if is_nonneg(t): return FALSE
    if is_neg(t): return TRUE
    it=t.isint or _scaled_int(t) 
    t=_canon_cmp(t)
    if t.is_const(): return bconst(t.const()<0)
    if it and t.isint:
        # t<0 <=> not(-t-1<0); tighten constant by gcd of nonconstant coefs (content already 1 overall)
        t=_tighten(t)
        ls=t.p[-1][1]
        if ls<0:
            return _mkb('not',(_mkb('lt',(add(neg(t),const(-1)),)),))
        return _mkb('lt',(t,))
    return _mkb('lt',(t,))
def _scaled_int(t):
    return all(all(a.sort=='I' and e>0 for a,e in m) for m,c in t.p)
def _tighten(t):
    from math import gcd
    g=0; c0=Fr(0)
    for m,c in t.p:
        if m==(): c0=c
        else: g=gcd(g,c.numerator)
    if g>1:
        # g*r + c0 < 0 <=> r < -c0/g <=> r + floor(c0/g)... r <= ceil(-c0/g)-1
        ub=math.ceil(Fr(-c0)/g)-1
        r=scale(add(t,const(-c0)),Fr(1,g))
        return add(r,const(-ub-1))
    return t
def eq0(t):
    if not t.p: return TRUE
    if t.is_const(): return FALSE
    if top_ivs(t): return _lift_b(eq0,t)
    if is_pos(t) or is_neg(t): return FALSE
    t=_canon_cmp(t)
    if len(t.p)==1:
        # product is zero iff some non-positive atom is
        m=t.p[0][0]
        ats=[(a,e) for a,e in m if atom_sign(a)!='pos']
        if len(ats)>1: return mk_or([eq0(atom_t(a)) if e>0 else FALSE for a,e in ats])
        if len(ats)==1 and ats[0][1]!=1:
            return eq0(atom_t(ats[0][0])) if ats[0][1]>0 else FALSE
        if ats and ats[0][0].kind=='app' and ats[0][0].name=='sqrt' : return eq0(ats[0][0].args[0])
        if ats and ats[0][0].kind=='inv': return FALSE
    if t.isint:
        from math import gcd
        g=0; c0=Fr(0)
        for m,c in t.p:
            if m==(): c0=c
            else: g=gcd(g,c.numerator)
        if g>1 and c0.numerator%g: return FALSE
    if lead_sign(t)<0: t=neg(t)
    return _mkb('eq',(t,))
def _lift_b(f,t):
    ivs=top_ivs(t)
    if len(ivs)>LIFT_MAX: return _mkb('lt' if f is lt0 else 'eq',(t,))
    a=min(ivs,key=lambda x:(x.sh,x.id))
    c=a.args[0]
    one=f(set_iv(t,{a:1})); zero=f(set_iv(t,{a:0}))
    return mk_or([mk_and([c,one]),mk_and([mk_not(c),zero])])
def lt(a,b): return lt0(add(a,neg(b)))
def le(a,b): return mk_not(lt(b,a))
def eq(a,b): return eq0(add(a,neg(b)))
def ne(a,b): return mk_not(eq(a,b))
def bapp(name,args): return _mkb('app',(name,)+tuple(args))
_notc={}; _andc={}; _orc={}      # negation, conjunction and disjunction of interned formulas, each computed once
def mk_not(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.kind=='not': return b.args[0]
    r=_notc.get(b)
    if r is None:
        if b.kind=='and': r=mk_or([mk_not(x) for x in b.args[0]])
        elif b.kind=='or': r=mk_and([mk_not(x) for x in b.args[0]])
        else: r=_mkb('not',(b,))
        _notc[b]=r
    return r
def mk_and(bs):
    k=tuple(bs); r=_andc.get(k)
    if r is None: r=_andc[k]=_mk_and(k)
    return r
def mk_or(bs):
    k=tuple(bs); r=_orc.get(k)
    if r is None: r=_orc[k]=_mk_or(k)
    return r
def _mk_and(bs):
    s={}
    for b in bs:
        if b is TRUE: continue
        if b is FALSE: return FALSE
        for x in (b.args[0] if b.kind=='and' else (b,)): s[x]=1
    for x in list(s):
        if mk_not(x) in s: return FALSE
    if not s: return TRUE
    # absorption: a and (not a or b) -> b part
    ors=[x for x in s if x.kind=='or']
    if ors:
        changed=False
        for o in ors:
            parts=o.args[0]
            if any(p in s for p in parts): del s[o]; changed=True; continue
            np_=[p for p in parts if mk_not(p) not in s]
            if len(np_)!=len(parts): del s[o]; changed=True; n=mk_or(np_); s[n]=1
        if changed: return mk_and(list(s))
    if len(s)==1: return next(iter(s))
    if _and_conflict(s): return FALSE
    return _mkb('and',(tuple(sorted(s,key=lambda x:(x.sh,x.id))),))
def _and_conflict(s):
    l=[x for x in s if x.kind in('lt','eq')]
    if len(l)<2: return False
    class _A: pass
    at=[]
    for x in l:
        a=_A(); a.args=(x,); at.append(a)
    return _iv_conflict(at)
def _mk_or(bs):
    s={}
    for b in bs:
        if b is FALSE: continue
        if b is TRUE: return TRUE
        for x in (b.args[0] if b.kind=='or' else (b,)): s[x]=1
    for x in list(s):
        if mk_not(x) in s: return TRUE
    if not s: return FALSE
    # factor: (c and a) or (not c and a) -> a
    if len(s)==2:
        x,y=list(s)
        xs=set(x.args[0]) if x.kind=='and' else {x}
        ys=set(y.args[0]) if y.kind=='and' else {y}
        com=xs&ys
        if com:
            return mk_and(list(com)+[mk_or([mk_and(list(xs-com)),mk_and(list(ys-com))])])
    if len(s)==1: return next(iter(s))
    return _mkb('or',(tuple(sorted(s,key=lambda x:(x.sh,x.id))),))
def implies(a,b): return mk_or([mk_not(a),b])
def iff(a,b):
    if a is b: return TRUE
    return mk_and([implies(a,b),implies(b,a)])
_ivc={}
def iv(b):
    r=_ivc.get(b)
    if r is not None: return r
    if b is TRUE: r=ONE
    elif b is FALSE: r=ZERO
    elif b.kind=='not': r=add(ONE,neg(iv(b.args[0])))
    elif b.kind=='and': r=muln([iv(x) for x in b.args[0]])
    elif b.kind=='or':
        q=ONE
        for x in b.args[0]: q=mul(q,add(ONE,neg(iv(x))))
        r=add(ONE,neg(q))
    else: r=atom_t(_mk_atom('iv',None,(b,),'I'))
    _ivc[b]=r
    return r
def ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    i=iv(c)
    return add(b,mul(i,add(a,neg(b))))
def bite(c,a,b): return mk_or([mk_and([c,a]),mk_and([mk_not(c),b])])
def tmax(a,b): return ite(lt(a,b),b,a)
def tmin(a,b): return ite(lt(b,a),b,a)

# ---------------------------------------------------------------- variables
def var(name,sort='R',sign=None):
    if sign: VAR_SIGN[name]=sign
    return atom_t(_mk_atom('var',name,None,sort))
_fresh=[0]
def fresh(prefix='x',sort='I'):
    _fresh[0]+=1
    return var('%s!%d'%(prefix,_fresh[0]),sort)
def the_atom(t):
    (m,c),=t.p; (a,e),=m
    assert c==1 and e==1
    return a
def bv(h,sort): return atom_t(_mk_atom('bv',h,None,sort))

# ---------------------------------------------------------------- substitution
def subst(x,mp,_memo=None):
    """mp: dict var/bv Atom -> T"""
    if not mp: return x
    memo={} if _memo is None else _memo
    keys=frozenset(mp)
    hasbv=False
    return _subst(x,mp,keys,hasbv,memo)
def _touch(x,keys,hasbv):
    return hasbv or not keys.isdisjoint(x.fv)
def _subst(x,mp,keys,hasbv,memo):
    if not _touch(x,keys,hasbv): return x
    r=memo.get(x)
    if r is not None: return r
    if isinstance(x,T):
        out=[]; plain={}
        for m,c in x.p:
            f=None; keep=[]
            for a,e in m:
                if hasbv or not keys.isdisjoint(a.fv):
                    v=_subst_atom(a,mp,keys,hasbv,memo)
                    if v is not None:
                        v=ipow(v,e) if e>=0 else inv(ipow(v,-e))
                        f=v if f is None else mul(f,v)
                        continue
                keep.append((a,e))
            if f is None: plain[m]=c
            else: out.append(mul(_t_mono(tuple(keep),c),f))
        r=addn([mk(plain)]+out)
    elif isinstance(x,B):
        k=x.kind
        if k=='lt': r=lt0(_subst(x.args[0],mp,keys,hasbv,memo))
        elif k=='eq': r=eq0(_subst(x.args[0],mp,keys,hasbv,memo))
        elif k=='not': r=mk_not(_subst(x.args[0],mp,keys,hasbv,memo))
        elif k=='and': r=mk_and([_subst(y,mp,keys,hasbv,memo) for y in x.args[0]])
        elif k=='or': r=mk_or([_subst(y,mp,keys,hasbv,memo) for y in x.args[0]])
        elif k=='app': r=_bapp_lift(x.args[0],[_subst(y,mp,keys,hasbv,memo) if isinstance(y,(T,B,Lam)) else y for y in x.args[1:]])
        elif k=='ex':
            h,sort,body=x.args
            v=fresh('q',sort)
            body=subst(body,{_mk_atom('bv',h,None,sort):v})
            r=mk_ex(v,_subst(body,mp,keys,hasbv,{}))
        else: r=x
    elif isinstance(x,Lam):
        vs,dom,body=open_lam(x)
        r=mk_lam(vs,_subst(dom,mp,keys,hasbv,{}),_subst(body,mp,keys,hasbv,{}))
    memo[x]=r
    return r
def _subst_atom(a,mp,keys,hasbv,memo):
    """replacement term for atom a, or None when unchanged"""
    if a in mp: return mp[a]
    k=a.kind
    if k in('var','bv'): return None
    r=memo.get(a)
    if r is not None: return r
    if k=='inv': r=inv(_subst(a.args[0],mp,keys,hasbv,memo))
    elif k=='iv': r=iv(_subst(a.args[0],mp,keys,hasbv,memo))
    elif k=='sum':
        v,body=open_sum(a)
        r=mk_sum(v,_subst(a.args[0],mp,keys,hasbv,memo),_subst(body,mp,keys,hasbv,{}))
    else:
        args=[_subst(y,mp,keys,hasbv,memo) if isinstance(y,(T,B,Lam)) else y for y in a.args]
        if all(x is y for x,y in zip(args,a.args)): return None
        r=rebuild(a.name,args,a.sort)
    memo[a]=r
    return r
REBUILD={}
def rebuild(name,args,sort):
    f=REBUILD.get(name)
    if f is not None: return f(*args)
    return app(name,args,sort)
REBUILD.update(dict(sqrt=sqrt,exp=exp,log=log,sin=sin,cos=cos,arcsin=arcsin,arctan=arctan,pow=power,floor=floor,round=rnd,sinh=sinh,tanh=tanh))
def _bapp_lift(name,args):
    ivs=set()
    for x in args:
        if isinstance(x,T): ivs|=top_ivs(x)
    if not ivs or len(ivs)>LIFT_MAX: return bapp(name,args)
    a=min(ivs,key=lambda x:(x.sh,x.id))
    one=_bapp_lift(name,[set_iv(x,{a:1}) if isinstance(x,T) else x for x in args])
    zero=_bapp_lift(name,[set_iv(x,{a:0}) if isinstance(x,T) else x for x in args])
    return bite(a.args[0],one,zero)

# ---------------------------------------------------------------- binders
def _close(v,body):
    h=body.h+1
    a=the_atom(v)
    return h,subst(body,{a:bv(h,a.sort)})
def open_sum(a):
    """fresh variable and opened body (extent is a.args[0])"""
    v=fresh('s','I')
    return v,subst(a.args[1],{_mk_atom('bv',a.name,None,'I'):v})
def mk_ex(v,b):
    a=the_atom(v)
    if a not in b.fv: return b      # nonempty sort
    if b.kind=='or': return mk_or([mk_ex(v,x) for x in b.args[0]])
    if b.kind=='and':
        # pull out parts free of v; solve v==e
        out=[x for x in b.args[0] if a not in x.fv]; inn=[x for x in b.args[0] if a in x.fv]
        if out: return mk_and(out+[mk_ex(v,mk_and(inn))])
        for x in inn:
            if x.kind=='eq':
                s=solve_for(x.args[0],a)
                if s is not None and (a.sort=='R' or s.isint):
                    return subst(b,{a:s})
    if b.kind=='eq' :
        s=solve_for(b.args[0],a)
        if s is not None and (a.sort=='R' or s.isint): return TRUE
    h,body=_close(v,b)
    return _mkb('ex',(h,a.sort,body))
def mk_all(v,b): return mk_not(mk_ex(v,mk_not(b)))
def open_ex(b):
    h,sort,body=b.args
    v=fresh('q',sort)
    return v,subst(body,{_mk_atom('bv',h,None,sort):v})
def mk_lam(vs,dom,body):
    # canonical: close variables in order, heights above everything
    h=max(dom.h,body.h)
    mp={}; hs=[]
    for i,v in enumerate(vs):
        h+=1; a=the_atom(v); mp[a]=bv(h,a.sort); hs.append(h)
    return _mklam(tuple(hs),subst(dom,mp),subst(body,mp))
def open_lam(l,vs=None):
    if vs is None: vs=[fresh('l','I') for _ in l.hs]
    mp={_mk_atom('bv',h,None,'I'):v for h,v in zip(l.hs,vs)}
    return vs,subst(l.dom,mp),subst(l.body,mp)
def solve_for(t,a):
    """t==0 linear in atom a with constant +-1 coefficient (and a nowhere else): value of a"""
    coef=None; rest={}
    for m,c in t.p:
        if any(x is a for x,e in m):
            if len(m)==1 and m[0][1]==1 and coef is None: coef=c
            else: return None
        else:
            if any(a in x.fv for x,e in m): return None
            rest[m]=c
    if coef is None: return None
    return scale(mk(rest),-1/coef)
def lin_coef(t,a):
    coef=None
    for m,c in t.p:
        if any(x is a for x,e in m):
            if len(m)==1 and m[0][1]==1 and coef is None: coef=c
            else: return None
        elif any(a in x.fv for x,e in m): return None
    return coef

PROVE=[lambda b:False]   # contextual prover hook (engine installs it)

def mk_sum(v,n,body):
    """sum over 0<=v<n of body"""
    a=the_atom(v)
    if not n.p: return ZERO
    if a not in body.fv:
        return mul(nat(n),body)
    if n.is_const():
        k=n.const()
        if k<=0: return ZERO
        if k<=SMALL: return addn([subst(body,{a:const(i)}) for i in range(int(k))])
    out=[]
    for m,c in body.p:
        dep=[];ind=[]
        for x,e in m: (dep if a in x.fv else ind).append((x,e))
        out.append(mul(_t_mono(tuple(ind),c),_sum_mono(v,a,n,tuple(dep))))
    return addn(out)
SMALL=12
def nat(n):
    """max(n,0)"""
    if is_nonneg(n) or PROVE[0](le(ZERO,n)): return n
    return mul(iv(lt(ZERO,n)),n)
def _sum_mono(v,a,n,dep):
    if not dep: return nat(n)
    # Kronecker
    for x,e in dep:
        if x.kind=='iv' and x.args[0].kind=='eq':
            s=solve_for(x.args[0].args[0],a)
            if s is not None and s.isint:
                rest=_t_mono(tuple((y,f) for y,f in dep if y is not x))
                return muln([iv(le(ZERO,s)),iv(lt(s,n)),subst(rest,{a:s})])
    t=_t_mono(dep)
    if len(t.p)!=1 or t.p[0][0]!=dep:
        return mk_sum(v,n,t)
    if len(dep)==1 and dep[0][0] is a and dep[0][1] in (1,2):
        k=nat(n); k1=add(k,const(-1))
        if dep[0][1]==1: return scale(mul(k,k1),Fr(1,2))
        return scale(muln([k,k1,add(k,k1)]),Fr(1,6))
    # brackets bounding v move into the range
    for x,e in dep:
        if x.kind=='iv' and x.args[0].kind=='lt':
            q=x.args[0].args[0]
            c=lin_coef(q,a)
            if c is None or abs(c)!=1: continue
            rest=add(q,scale(v,-c))
            if not rest.isint: continue
            others=_t_mono(tuple((y,f) for y,f in dep if y is not x))
            if c==1:      # v < k := -rest
                k=neg(rest)
                if PROVE[0](le(k,n)): return mk_sum(v,k,others)
                if PROVE[0](le(n,k)): return mk_sum(v,n,others)
            else:         # v > rest : v>=rest+1
                k=add(rest,ONE)
                if PROVE[0](le(k,ZERO)): return mk_sum(v,n,others)
                if PROVE[0](le(ZERO,k)):
                    return mk_sum(v,add(n,neg(k)),subst(others,{a:add(v,k)}))
    blk=_block(v,a,n,t)
    if blk is not None: return blk
    best=None
    for tt in _variants(v,a,n,t):
        cc=_close_sum(v,n,tt)
        if best is None or cc.sh<best.sh: best=cc
    return atom_t(best)
def _occ_coef(t,a,out):
    """coefficients (polynomials) with which a occurs linearly inside application arguments of t"""
    seen=set()
    def vis(x):
        if x in seen: return
        seen.add(x)
        if isinstance(x,T):
            for m,c in x.p:
                k=None
                for y,e in m:
                    if y is a: k=e
                if k==1: out.add(_t_mono(tuple((y,e) for y,e in m if y is not a),c))
                for y,e in m:
                    if a in y.fv and y is not a:
                        for z in y.args:
                            if isinstance(z,(T,B)) and a in z.fv: vis(z)
        elif isinstance(x,B):
            for y in x.args:
                for z in (y if isinstance(y,tuple) else (y,)):
                    if isinstance(z,(T,B)) and a in z.fv: vis(z)
    vis(t)
def _block(v,a,n,t):
    """sum_{v<n} sum_{w<k} F(w+k*v) = sum_{y<k*n} F(y)  (and with the roles exchanged)"""
    if len(t.p)!=1: return None
    m,c=t.p[0]
    sums=[x for x,e in m if x.kind=='sum' and e==1]
    if not sums: return None
    for s0 in sums:
        chain=[]; core_=_t_mono(tuple((x,e) for x,e in m if x is not s0)); cur=s0; ok=True
        while True:
            w,b=open_sum(cur)
            chain.append((w,cur.args[0]))
            if len(b.p)!=1 or b.p[0][1]!=1: ok=False; break
            bm=b.p[0][0]
            inner=[x for x,e in bm if x.kind=='sum' and e==1]
            if len(inner)==1 and len(chain)<6:
                core_=mul(core_,_t_mono(tuple((x,e) for x,e in bm if x is not inner[0])))
                cur=inner[0]; continue
            core_=mul(core_,b); break
        if not ok: continue
        cv=set(); _occ_coef(core_,a,cv)
        for i,(w,k) in enumerate(chain):
            wa=the_atom(w)
            if a in k.fv or not k.isint: continue
            if any(wa in k2.fv for _,k2 in chain): continue
            if wa in n.fv: continue
            for minor in ('w','v'):
                if minor=='w':
                    if k not in cv or k is ONE: continue
                    y=fresh('s','I'); r=subst(core_,{wa:add(y,neg(mul(k,v)))})
                    if a in r.fv: continue
                else:
                    cw=set(); _occ_coef(core_,wa,cw)
                    if n not in cw or n is ONE: continue
                    y=fresh('s','I'); r=subst(core_,{a:add(y,neg(mul(n,w)))})
                    if wa in r.fv: continue
                if not(is_nonneg(k) or PROVE[0](le(ZERO,k))) or not(is_nonneg(n) or PROVE[0](le(ZERO,n))): continue
                if any(a in k2.fv for _,k2 in chain): continue
                r=mk_sum(y,mul(k,n),r)
                for j in range(len(chain)-1,-1,-1):
                    if j!=i: r=mk_sum(chain[j][0],chain[j][1],r)
                return scale(r,c)
    return None
def _variants(v,a,n,t):
    yield t
    if _has_neg(t,a):
        tt=subst(t,{a:add(add(n,const(-1)),neg(v))})
        if len(tt.p)==1 and tt.p[0][1]==1: yield tt
def _has_neg(t,a):
    seen=set()
    def vis(x):
        if x in seen: return False
        seen.add(x)
        if isinstance(x,T):
            for m,c in x.p:
                for y,e in m:
                    if a in y.fv and y.kind!='var':
                        for z in y.args:
                            if isinstance(z,T) and a in z.fv:
                                if lin_coef(z,a)==-1: return True
                                if vis(z): return True
                            elif isinstance(z,B) and a in z.fv and vis(z): return True
        elif isinstance(x,B):
            for y in x.args:
                for z in (y if isinstance(y,tuple) else (y,)):
                    if isinstance(z,(T,B)) and a in z.fv and vis(z): return True
        return False
    return vis(t)
def _close_sum(v,n,t):
    """close, with canonical order of nested sums"""
    ch=_chain(v,n,t)
    if ch is not None:
        r=_canon_chain(*ch)
        if r is not None: return r
    at=_raw_close(v,n,t)
    m,c=t.p[0]
    inner=[x for x,e in m if x.kind=='sum' and e==1]
    if c==1:
        for inn in inner:
            alt=_exchange(v,n,m,inn)
            if alt is not None and alt.sh<at.sh: at=alt
    return at
def _chain(v,n,t):
    """t a product with exactly one inner sum, recursively, all bounds independent: ([(var,bound)..], core)"""
    vs=[(v,n)]
    while True:
        if len(t.p)!=1 or t.p[0][1]!=1: break
        m=t.p[0][0]
        inner=[x for x,e in m if x.kind=='sum']
        if len(inner)!=1 or dict(m)[inner[0]]!=1: break
        k=inner[0].args[0]
        if any(the_atom(w) in k.fv for w,_ in vs): break
        w,ib=open_sum(inner[0])
        t2=mul(_t_mono(tuple((x,e) for x,e in m if x is not inner[0])),ib)
        if len(t2.p)!=1 or t2.p[0][1]!=1: return None
        t=t2; vs.append((w,k))
    return (vs,t) if 3<=len(vs)<=4 else None
def _canon_chain(vs,core):
    def close_in(v,n,t):
        """innermost: only the factors depending on v go under the sum"""
        a=the_atom(v)
        if len(t.p)!=1 or t.p[0][1]!=1: return None
        m=t.p[0][0]
        dep=tuple((x,e) for x,e in m if a in x.fv); ind=tuple((x,e) for x,e in m if a not in x.fv)
        if not dep: return None
        td=_t_mono(dep)
        best=None
        for tt in _variants(v,a,n,td):
            c=_raw_close(v,n,tt)
            if best is None or c.sh<best.sh: best=c
        r=mul(_t_mono(ind),atom_t(best))
        return r if len(r.p)==1 and r.p[0][1]==1 else None
    best=None
    for perm in itertools.permutations(vs):
        t=core
        for v,n in perm:
            t=close_in(v,n,t)
            if t is None: break
        if t is None or len(t.p[0][0])!=1 or t.p[0][0][0][1]!=1: continue
        x=t.p[0][0][0][0]
        if x.kind!='sum': continue
        if best is None or x.sh<best.sh: best=x
    return best
def _sum_sort(b): return 'I' if b.isint else 'R'
def _raw_close(v,n,t):
    h=max(t.h,n.h)+1
    body=subst(t,{the_atom(v):bv(h,'I')})
    return _mk_atom('sum',h,(n,body),_sum_sort(body))
def _exchange(v,n,m,inner):
    a=the_atom(v)
    k=inner.args[0]
    if a in k.fv: return None
    w,ib=open_sum(inner)
    full=mul(_t_mono(tuple((x,e) for x,e in m if x is not inner)),ib)
    if len(full.p)!=1: return None
    fm,fc=full.p[0]
    if fc!=1: return None
    wa=the_atom(w)
    dep=tuple((x,e) for x,e in fm if a in x.fv); ind=tuple((x,e) for x,e in fm if a not in x.fv)
    t=_t_mono(dep)
    if len(t.p)!=1 or t.p[0][1]!=1: return None
    best=None
    for tt in _variants(v,a,n,t):
        c=_raw_close(v,n,tt)
        if best is None or c.sh<best.sh: best=c
    t2=mul(_t_mono(ind),atom_t(best))
    if len(t2.p)!=1 or wa not in t2.fv or t2.p[0][1]!=1: return None
    best=None
    for tt in _variants(w,wa,k,t2):
        c=_raw_close(w,k,tt)
        if best is None or c.sh<best.sh: best=c
    return best
def msum(n,f,name='s'):
    """sum_{0<=v<n} f(v)"""
    n=_t(n)
    if n.is_const() and n.const()<=SMALL:
        return addn([f(const(i)) for i in range(int(n.const()))])
    v=fresh(name,'I')
    return mk_sum(v,n,f(v))

# ---------------------------------------------------------------- printing
def show(t):
    if not t.p: return '0'
    out=[]
    for m,c in t.p:
        s='*'.join((show_atom(a)+('^%d'%e if e!=1 else '')) for a,e in m)
        if s=='' : s=str(c)
        elif c==-1: s='-'+s
        elif c!=1: s=str(c)+'*'+s
        out.append(s)
    return ' + '.join(out)
def show_atom(a):
    if a.kind=='var': return a.name
    if a.kind=='bv': return '$%s'%a.name
    if a.kind=='inv': return '1/(%s)'%show(a.args[0])
    if a.kind=='iv': return '[%s]'%show_b(a.args[0])
    if a.kind=='sum': return 'SUM[$%d<%s](%s)'%(a.name,show(a.args[0]),show(a.args[1]))
    return '%s(%s)'%(a.name,', '.join(show_any(x) for x in a.args))
def show_any(x):
    if isinstance(x,T): return show(x)
    if isinstance(x,B): return show_b(x)
    if isinstance(x,Lam): return 'lam%s{%s}: %s'%(x.hs,show_b(x.dom),show_any(x.body))
    return str(x)
def show_b(b):
    k=b.kind
    if k=='T': return 'true'
    if k=='F': return 'false'
    if k=='lt': return '%s < 0'%show(b.args[0])
    if k=='eq': return '%s == 0'%show(b.args[0])
    if k=='not': return '!(%s)'%show_b(b.args[0])
    if k in('and','or'): return '('+(' & ' if k=='and' else ' | ').join(show_b(x) for x in b.args[0])+')'
    if k=='ex': return 'exists $%d. %s'%(b.args[0],show_b(b.args[2]))
    return '%s(%s)'%(b.args[0],', '.join(show_any(x) for x in b.args[1:]))
