"""Discharge of propositions: normal form, case split, congruence, pointwise sums, then z3."""
import z3, time
from . import terms as tm
from .terms import *

AXIOMS={}        # app name -> function(args)-> B   (contract facts about an uninterpreted symbol, instantiated at every occurrence)
TIMEOUT_SCALE=[1]
STATS={'z3_calls':0,'z3_time':0.0,'z3_unknown':0,'nf':0,'z3':0}
TIMEOUT=[4000]
_zv={}
def _zsort(s): return z3.IntSort() if s=='I' else (z3.BoolSort() if s=='B' else z3.RealSort())
class Ctx:
    """one translation context (collects axioms for the atoms met)"""
    def __init__(self):
        self.floors=[]; self.pows=[]; self.sums=[]
        self.memo={}; self.ax=[]; self.pend=[]; self.bound=set()
    def t(self,x):
        r=self.memo.get(x)
        if r is not None: return r
        isint=all(c.denominator==1 and all(a.sort=='I' and e>0 for a,e in m) for m,c in x.p)
        parts=[]
        for m,c in x.p:
            ivs=[a for a,e in m if a.kind=='iv']
            fs=[]
            for a,e in m:
                if a.kind=='iv': continue
                if a.kind=='inv' : v=self.t(a.args[0]); e=-e
                else: v=self.a(a)
                if not isint and v.sort()==z3.IntSort(): v=z3.ToReal(v)
                if v.sort()==z3.IntSort() and not isint: v=z3.ToReal(v)
                if e<0:
                    if v.sort()==z3.IntSort(): v=z3.ToReal(v)
                    w=v
                    for _ in range(-e-1): w=w*v
                    fs.append(1/w)
                else:
                    for _ in range(e): fs.append(v)
            c_=z3.IntVal(c.numerator) if isint else z3.RealVal(str(c))
            p=c_
            if fs:
                p=fs[0]
                for f in fs[1:]: p=p*f
                if c!=1: p=c_*p
            if ivs:
                z=z3.IntVal(0) if isint else z3.RealVal(0)
                p=z3.If(z3.And([self.b(a.args[0]) for a in ivs]),p,z)
            parts.append(p)
        if not parts: r=z3.IntVal(0)
        elif len(parts)==1: r=parts[0]
        else: r=z3.Sum(parts)
        self.memo[x]=r
        return r
    def a(self,a):
        r=self.memo.get(a)
        if r is not None: return r
        k=a.kind
        if k=='var':
            r=z3.Const(a.name,_zsort(a.sort)); self.memo[a]=r
            s=VAR_SIGN.get(a.name)
            if s=='pos': self.ax.append(r>0)
            elif s=='nonneg': self.ax.append(r>=0)
            if a.name=='PI': self.ax.append(z3.And(r>z3.RealVal('3.14159265'),r<z3.RealVal('3.14159266')))
            return r
        if k=='sum':
            r=self.opaque('sum',a,self.params(a),a.sort)
            vs=[v for v in a.fv if v in self.bound]
            self.memo[a]=r
            if atom_sign(a) and not vs:
                self.ax.append(r>=0)
                # prefix sums of one non-negative body: monotone in the extent, one more term when the extent is strictly larger
                me=tm._mk_atom('bv',a.name,None,'I')
                for b_,z in self.sums:
                    if b_.args[1] is a.args[1]:
                        for p,q,zp,zq in ((a,b_,r,z),(b_,a,z,r)):
                            n1,n2=self.t(p.args[0]),self.t(q.args[0])
                            self.ax.append(z3.Implies(n1<=n2,zp<=zq))
                            self.ax.append(z3.Implies(z3.And(n1>=0,n1<n2),zp+self.t(subst(p.args[1],{me:p.args[0]}))<=zq))
                self.sums.append((a,r))
                if all(len(m)>0 and c==1 and all(x.kind=='iv' for x,e in m) for m,c in a.args[1].p) and len(a.args[1].p)==1:
                    n1=self.t(a.args[0]); self.ax.append(z3.Implies(n1>=0,r<=n1))
            return r
        if k=='app':
            n=a.name; args=[]
            if any(isinstance(x,Lam) for x in a.args) or any(isinstance(x,str) for x in a.args) :
                r=self.opaque(n,a,self.params(a),a.sort)
                self.memo[a]=r
            else:
                for x in a.args:
                    if isinstance(x,T):
                        z=self.t(x)
                        if n in REALARGS or not x.isint:
                            if z.sort()==z3.IntSort(): z=z3.ToReal(z)
                        args.append(z)
                    else: args.append(self.b(x))
                if args:
                    f=z3.Function('f_'+n+'_'+''.join(str(z.sort())[0] for z in args),*([z.sort() for z in args]+[_zsort(a.sort)]))
                    r=f(*args)
                else: r=z3.Const('f_'+n,_zsort(a.sort))
                self.memo[a]=r
            self.axioms(a,r)
            return r
        raise NotImplementedError(k)
    def params(self,x):
        """an opaque term is a function of its integer variables, so that quantified and free occurrences of it agree"""
        return sorted([v for v in x.fv if v in self.bound or (v.kind=='var' and v.sort=='I')],key=lambda v:v.id)
    def opaque(self,n,a,vs,sort):
        if not vs: return z3.Const('o_%s_%d'%(n,a.id),_zsort(sort))
        zs=[self.a(v) for v in vs]
        # template independent of the bound variable names
        mp={v:bv(-1-i,v.sort) for i,v in enumerate(vs)}
        t=subst(atom_t(a),mp)
        return z3.Function('o_%s_%d'%(n,t.id),*([z.sort() for z in zs]+[_zsort(sort)]))(*zs)
    def axioms(self,a,r):
        if any(v in self.bound for v in a.fv): return   # no axioms under quantifiers
        n=a.name
        if n=='sqrt':
            z=self.t(a.args[0])
            self.ax.append(r>=0); self.ax.append(z3.Implies(z>=0,r*r==z)); 
        elif n=='exp':
            z=self.t(a.args[0]); self.ax.append(r>0); self.ax.append(z3.And(z3.Implies(z<=0,r<=1),z3.Implies(z<0,r<1),z3.Implies(z>0,r>1)))
        elif n in('sin','cos'):
            x=a.args[0]
            s=self.a(tm._mk_atom('app','sin',(x,),'R')) if n=='cos' else r
            c=self.a(tm._mk_atom('app','cos',(x,),'R')) if n=='sin' else r
            self.ax.append(s*s+c*c==1); self.ax.append(z3.And(r<=1,r>=-1))
        elif n=='floor':
            z=self.t(a.args[0])
            self.ax.append(z3.And(z3.ToReal(r)<=z,z<z3.ToReal(r)+1))
            for x2,z2,r2 in self.floors:
                for sg in (1,-1):
                    d=tm.add(a.args[0],tm.scale(x2,sg))
                    if d.is_const() and d.const().denominator==1:
                        c=int(d.const())
                        self.ax.append(r-r2==c if sg<0 else r+r2==c-1+z3.If(z3.ToReal(r)==z,1,0))
            self.floors.append((a.args[0],z,r))
        elif n=='round':
            z=self.t(a.args[0])
            self.ax.append(z3.And(z3.ToReal(r)-z<=z3.Q(1,2),z-z3.ToReal(r)<=z3.Q(1,2)))
        elif n=='arctan':
            z=self.t(a.args[0]); pi=self.a(PI_A)
            self.ax.append(z3.And(2*r<pi,2*r>-pi,(z>0)==(r>0),(z<0)==(r<0)))
        elif n=='arcsin':
            z=self.t(a.args[0]); pi=self.a(PI_A)
            self.ax.append(z3.And(2*r<=pi,2*r>=-pi))
            self.ax.append(z3.Implies(z3.And(z<=1,z>=-1),z3.And((z>0)==(r>0),(z<0)==(r<0))))
        elif n=='pow':
            s=atom_sign(a)
            if s=='pos': self.ax.append(r>0)
            elif s=='nonneg': self.ax.append(r>=0)
            b_,e_=self.t(a.args[0]),self.t(a.args[1])
            self.ax.append(z3.Implies(b_>0,z3.And(r>0,z3.Implies(b_>1,z3.And((e_>0)==(r>1),(e_<0)==(r<1))),z3.Implies(b_<1,z3.And((e_>0)==(r<1),(e_<0)==(r>1))),z3.Implies(b_==1,r==1))))
            for b2,e2,r2,bz2 in self.pows:
                q=a.args[1].p and e2.p and tm.div(e2,a.args[1])
                if q is not None and isinstance(q,T) and q.is_const() and q.const().denominator==1 and 0<abs(q.const())<=4:
                    k=int(q.const())
                    P=b_
                    for _ in range(abs(k)): P=P*bz2 if k>0 else P/bz2
                    self.ax.append(z3.Implies(z3.And(b_>0,bz2>0),z3.And(z3.Implies(z3.Or(z3.And(P>1,e_>0),z3.And(P<1,e_<0)),r*r2>1),z3.Implies(z3.Or(z3.And(P>1,e_<0),z3.And(P<1,e_>0)),r*r2<1),z3.Implies(P==1,r*r2==1))))
            self.pows.append((a.args[0],a.args[1],r,b_))
        elif n=='log':
            z=self.t(a.args[0])
            self.ax.append(z3.Implies(z>0,z3.And((z>1)==(r>0),(z<1)==(r<0))))
            if atom_sign(a)=='pos': self.ax.append(r>0)
        s=APP_SIGN.get(n)
        if s=='pos': self.ax.append(r>0)
        elif s=='nonneg': self.ax.append(r>=0)
        f=AXIOMS.get(n)
        if f is not None:
            p=f(*a.args)
            if p is not None and p is not TRUE: self.pend.append(p)
    def b(self,x):
        r=self.memo.get(x)
        if r is not None: return r
        k=x.kind
        if k=='T': r=z3.BoolVal(True)
        elif k=='F': r=z3.BoolVal(False)
        elif k=='lt':
            z=self.t(x.args[0]); r=z<0
        elif k=='eq':
            z=self.t(x.args[0]); r=z==0
        elif k=='not': r=z3.Not(self.b(x.args[0]))
        elif k=='and': r=z3.And([self.b(y) for y in x.args[0]])
        elif k=='or': r=z3.Or([self.b(y) for y in x.args[0]])
        elif k=='ex':
            v,body=open_ex(x)
            a=the_atom(v)
            self.bound.add(a)
            z=self.a(a)
            r=z3.Exists([z],self.b(body))
        elif k=='app':
            n=x.args[0]; args=[]
            if any(isinstance(y,Lam) for y in x.args[1:]):
                vs=self.params(x)
                zs=[self.a(v) for v in vs]
                if not vs: r=z3.Bool('ob_%s_%d'%(n,x.id))
                else:
                    mp={v:bv(-1-i,v.sort) for i,v in enumerate(vs)}
                    r=z3.Function('ob_%s_%d'%(n,subst(x,mp).id),*([z.sort() for z in zs]+[z3.BoolSort()]))(*zs)
            elif len(x.args)==1: r=z3.Bool('b_'+n)
            else:
                for y in x.args[1:]:
                    if isinstance(y,T):
                        z=self.t(y); args.append(z if y.isint or z.sort()!=z3.IntSort() else z3.ToReal(z))
                    else: args.append(self.b(y))
                r=z3.Function('b_'+n+'_'+''.join(str(z.sort())[0] for z in args),*([z.sort() for z in args]+[z3.BoolSort()]))(*args)
            f=AXIOMS.get(n)
            if f is not None and not any(v in self.bound for v in x.fv):
                self.memo[x]=r
                p=f(*x.args[1:])
                if p is not None and p is not TRUE: self.pend.append(p)
        self.memo[x]=r
        return r
REALARGS={'sqrt','exp','log','sin','cos','arctan','arcsin','pow','floor','round'}

def check(hyps,timeout=None):
    """z3 status of the conjunction of hyps: 'sat','unsat','unknown' (+ model)"""
    hyps=[h for h in hyps if h is not TRUE]
    if any(h is FALSE for h in hyps): return 'unsat',None
    k=frozenset(hyps)
    r=_chk.get(k)
    if r is not None and (r[0]!='unknown' or r[2]>=(timeout or TIMEOUT[0])): return r[0],r[1]
    c=Ctx()
    fs=[c.b(h) for h in hyps]
    n=0
    while c.pend and n<400:
        p=c.pend.pop(); n+=1
        fs.append(c.b(p))
    s=z3.Solver(); s.set('timeout',int((timeout or TIMEOUT[0])*TIMEOUT_SCALE[0]))
    for f in fs: s.add(f)
    for f in c.ax: s.add(f)
    t0=time.time()
    r=str(s.check())
    STATS['z3_calls']+=1; STATS['z3_time']+=time.time()-t0
    if r=='unknown': STATS['z3_unknown']+=1
    m=None
    if r=='sat':
        try: m=str(s.model())[:3000]
        except Exception: m=None
    _chk[k]=(r,m,timeout or TIMEOUT[0])
    return r,m
_chk={}

class Fail(Exception): pass

def relevant(hyps,extra_fv):
    return hyps

def prove(hyps,goal,timeout=None,depth=0):
    """True when hyps |= goal"""
    goal_s=goal
    if goal is TRUE: return True
    if goal in hyps: return True
    if goal.kind=='and': return all(prove(hyps,g,timeout,depth) for g in goal.args[0])
    if goal.kind=='eq':
        if prove_zero(hyps,goal.args[0],depth): return True
        if depth>0: return False
        return False if LAST[0]=='refuted' else _z(hyps,goal,timeout)
    if goal.kind=='not' and goal.args[0].kind=='ex':
        v,body=open_ex(goal.args[0])
        return prove(hyps,mk_not(body),timeout,depth)
    if goal.kind=='or':
        # assume the negation of all but equality/quantified disjuncts
        parts=list(goal.args[0])
        hard=[p for p in parts if p.kind=='eq' or (p.kind=='not' and p.args[0].kind=='ex') or (p.kind=='and')]
        if hard:
            for h in hard:
                others=[mk_not(p) for p in parts if p is not h]
                hy=hyps+[x for o in others for x in (o.args[0] if o.kind=='and' else (o,))]
                if h.kind=='and':
                    if all(prove(hy,g,timeout,depth) for g in h.args[0]): return True
                elif prove(hy,h,timeout,depth): return True
    return _z(hyps,goal,timeout)
LAST=[None,None]
import re as _re
_fn_re=_re.compile(r'([A-Za-z_]+)\(')
def _fnames(b): return set(_fn_re.findall(tm.show_b(b)))&{'sin','cos','exp','log','pow','sqrt','arctan','arcsin','sum','SUM','Sum'}
def _z(hyps,goal,timeout=None):
    r,m=check(hyps+[mk_not(goal)],timeout)
    if r=='unknown':
        # weaken: only the hypotheses whose transcendental atoms the goal mentions
        g=_fnames(goal)
        hy=[h for h in hyps if _fnames(h)<=g]
        if len(hy)<len(hyps): 
            r2,_=check(hy+[mk_not(goal)],timeout)
            if r2=='unsat': r=r2
    LAST[0]='refuted' if r=='sat' else r; LAST[1]=m
    if r=='unsat': STATS['z3']+=1
    return r=='unsat'

def feasible(hyps,timeout=800):
    r,_=check(hyps,timeout)
    return r!='unsat'

def quick(hyps,goal):
    """cheap entailment used inside simplification"""
    if goal is TRUE: return True
    if goal is FALSE: return False
    if goal in hyps: return True
    r,_=check(hyps+[mk_not(goal)],300)
    return r=='unsat'

def _eq_substs(hyps):
    mp={}
    for h in hyps:
        if h.kind=='eq':
            t=subst(h.args[0],mp) if mp else h.args[0]
            for m,c in t.p:
                if len(m)==1 and m[0][1]==1 and abs(c)==1 and m[0][0].kind=='var' and m[0][0].name!='PI':
                    a=m[0][0]
                    s=solve_for(t,a)
                    if s is not None and (a.sort=='R' or s.isint):
                        mp={k:subst(v,{a:s}) for k,v in mp.items()}
                        mp[a]=s; break
    return mp

def prove_zero(hyps,d,depth=0):
    if not d.p: STATS['nf']+=1; return True
    if depth>7: return False
    mp=_eq_substs(hyps)
    if mp:
        d=subst(d,mp)
        if not d.p: STATS['nf']+=1; return True
        hyps=[h2 for h2 in (subst(h,mp) for h in hyps) if h2 is not TRUE]+[h for h in hyps if h.kind=='eq']
    return _pz(hyps,d,depth)

def _pz(hyps,d,depth):
    if not d.p: STATS['nf']+=1; return True
    # 1. decided brackets
    ivs=top_ivs(d)
    if ivs:
        hs=set(hyps); val={}
        for a in ivs:
            b=a.args[0]
            if b in hs: val[a]=1
            elif mk_not(b) in hs: val[a]=0
        if val:
            return _pz(hyps,set_iv(d,val),depth)
    # 2. clear reciprocals
    d2=clear_all(d)
    if not d2.p: STATS['nf']+=1; return True
    # 3. case split
    ivs=top_ivs(d2)
    if ivs:
        # prefer deciding by z3
        a=min(ivs,key=lambda x:(len(x.fv),x.sh))
        for cand in sorted(ivs,key=lambda x:(len(x.fv),x.sh)):
            b=cand.args[0]
            if quick(hyps,b): return _pz(hyps,set_iv(d2,{cand:1}),depth)
            if quick(hyps,mk_not(b)): return _pz(hyps,set_iv(d2,{cand:0}),depth)
        b=a.args[0]
        if len(ivs)>14: return False
        for val,lit in ((1,b),(0,mk_not(b))):
            hy=hyps+[lit]
            if not feasible(hy): continue
            dd=set_iv(d2,{a:val})
            if lit.kind=='eq':
                if not prove_zero(hy,dd,depth): return False
            elif not _pz(hy,dd,depth): return False
        return True
    # 4. simplify floors etc. under hyps by re-substitution with a contextual prover
    # 5. pointwise sums
    if _sums_zero(hyps,d2,depth): return True
    # 6. congruence
    d3=_congr(hyps,d2,depth)
    if d3 is not d2:
        return _pz(hyps,d3,depth)
    # 7. z3
    if depth<=1:
        return _z(hyps,tm._mkb('eq',(d2,)) if not d2.is_const() else FALSE)
    r,_=check(hyps+[tm._mkb('not',(tm._mkb('eq',(d2,)),))],600)
    return r=='unsat'

def clear_all(d):
    for _ in range(6):
        dens={}; neg={}
        for m,c in d.p:
            for a,e in m:
                if a.kind=='inv' and e>0: dens[a]=max(dens.get(a,0),e)
                elif e<0 : neg[a]=min(neg.get(a,0),e)
        if not dens and not neg: return d
        if dens: d=clear_inv(d,dens)
        if neg:
            f=muln([ipow(atom_t(a),-e) for a,e in neg.items()])
            d=mul(d,f)
        if not d.p: return d
    return d

def _sums_zero(hyps,d,depth):
    """d = sum_k coef_k * Sum(n,body_k) with a common extent: prove the combined body vanishes pointwise"""
    groups={}
    for m,c in d.p:
        sums=[a for a,e in m if a.kind=='sum' and e==1]
        if len(sums)==0: return False
        groups.setdefault(m,(c,sums))
    # choose for every monomial one sum; require equal extents
    exts=set()
    for m,(c,sums) in groups.items():
        for a in sums: exts.add(a.args[0])
    for n in exts:
        v=fresh('w','I')
        tot=[]; ok=True
        for m,(c,sums) in groups.items():
            cand=[a for a in sums if a.args[0] is n]
            if len(cand)!=1: 
                ok=False; break
            a=cand[0]
            body=subst(a.args[1],{tm._mk_atom('bv',a.name,None,'I'):v})
            tot.append(mul(tm._t_mono(tuple((x,e) for x,e in m if x is not a),c),body))
        if not ok: continue
        t=addn(tot)
        if not t.p: return True
        if prove_zero(hyps+[le(ZERO,v),lt(v,n)],t,depth+1): return True
    # different extents that are provably equal
    if len(exts)==2:
        n1,n2=sorted(exts,key=lambda x:x.sh)
        if depth<3 and prove(hyps,eq(n1,n2),600,depth+1):
            d2=addn([_swap_extent(m,c,n2,n1) for m,c in d.p])
            return not d2.p or _sums_zero(hyps,d2,depth)
    return False
def _swap_extent(m,c,n2,n1):
    r=const(c)
    for a,e in m:
        if a.kind=='sum' and a.args[0] is n2:
            v,body=open_sum(a)
            r=mul(r,ipow(mk_sum(v,n1,body),e))
        else: r=mul(r,tm._t_mono(((a,e),)))
    return r

def _congr(hyps,d,depth):
    """merge provably equal applications"""
    if depth>5: return d
    ats={}
    for m,c in d.p:
        for a,e in m:
            if a.kind in('app','sum'):
                key=(a.kind,a.name if a.kind=='app' else None,len(a.args),a.sort)
                ats.setdefault(key,[])
                if a not in ats[key]: ats[key].append(a)
    for key,l in ats.items():
        if len(l)<2 or len(l)>12: continue
        for i in range(len(l)):
            for j in range(i+1,len(l)):
                if _args_equal(hyps,l[i],l[j],depth):
                    return _rep_atom(d,l[j],l[i])
    # inside reciprocals / powers nothing more to do
    return d
def _rep_atom(d,a,b):
    out=[]
    for m,c in d.p:
        if any(x is a for x,e in m):
            md={}
            r=const(c)
            for x,e in m:
                r=mul(r,tm._t_mono(((b if x is a else x,e),)))
            out.append(r)
        else: out.append(mk({m:c}))
    return addn(out)
def _args_equal(hyps,a,b,depth):
    if a.kind=='sum':
        n1,n2=a.args[0],b.args[0]
        if n1 is not n2 and not prove(hyps,eq(n1,n2),300,depth+1): return False
        v=fresh('w','I')
        b1=subst(a.args[1],{tm._mk_atom('bv',a.name,None,'I'):v})
        b2=subst(b.args[1],{tm._mk_atom('bv',b.name,None,'I'):v})
        return prove_zero(hyps+[le(ZERO,v),lt(v,n1)],add(b1,neg(b2)),depth+1)
    for x,y in zip(a.args,b.args):
        if x is y: continue
        if isinstance(x,T) and isinstance(y,T):
            dd=add(x,neg(y))
            if dd.is_const(): return False
            if not prove_zero(hyps,dd,depth+1): return False
        elif isinstance(x,Lam) and isinstance(y,Lam):
            if not lam_equal(hyps,x,y,depth+1): return False
        elif isinstance(x,B) and isinstance(y,B):
            if not prove(hyps,iff(x,y),300,depth+1): return False
        else: return False
    return True
def lam_equal(hyps,x,y,depth=0):
    if len(x.hs)!=len(y.hs): return False
    vs,d1,b1=open_lam(x); _,d2,b2=open_lam(y,vs)
    if d1 is not d2:
        if not prove(hyps,implies(d1,d2),1000,depth) or not prove(hyps,implies(d2,d1),1000,depth): return False
    hy=hyps+list(d1.args[0] if d1.kind=='and' else [d1])
    if isinstance(b1,T): return prove_zero(hy,add(b1,neg(b2)),depth+1)
    return prove(hy,iff(b1,b2),1000,depth)
