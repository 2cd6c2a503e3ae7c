"""Loop rule: concrete loops run natively; a loop of symbolic length is executed once at a generic iteration and summarised
(map writes, accumulations, per-iteration scalars, list building).  See DESIGN.md for the soundness argument."""
from . import terms as tm
from .terms import TRUE,FALSE,const,lt,le,eq,mk_and,mk_or,mk_not,iv,ite,fresh,ZERO,ONE,subst
from . import core, arrays
import types, dis
from .core import S,SB,CTX,Unsupported,lift_s,PathAbort
from .arrays import Arr,Buf,Dim,FDim,new,frozen
class _B: pass
BRK=_B()
class Ret:
    def __init__(s,v): s.v=v
class SymList:
    """python list built by a loop of symbolic length: concrete head, then one element per iteration"""
    def __init__(s,arr): s.arr=arr
    def seq(s): return s.arr
    def symlen(s): return s.arr.dims[0].size()
    def __getitem__(s,k): return s.arr[k]
    def __iter__(s): return iter(s.arr)
    def append(s,x): raise Unsupported('append to a symbolic list outside its loop')
def seq_at(p,i):
    """i-th item of a symbolic sequence (i within range)"""
    if isinstance(p,Arr):
        return p[S(i,TRUE,'i')]
    if hasattr(p,'at'): return p.at(i)
    if hasattr(p,'a') and hasattr(p,'st'):
        a=lift_s(p.a); return S(tm.add(i,a.v),TRUE,'i')
    if hasattr(p,'seq'): return p.seq()[S(i,TRUE,'i')]
    raise Unsupported('symbolic position in a concrete sequence')
def fdim_of(it):
    """the selection a sequence runs over, if any"""
    if isinstance(it,Arr): return it.dims[0] if it.dims and isinstance(it.dims[0],FDim) else None
    if isinstance(it,SymList): return fdim_of(it.arr)
    if hasattr(it,'parts'):
        for p in it.parts:
            d=fdim_of(p)
            if d is not None: return d
        return None
    if hasattr(it,'a') and hasattr(it,'st'):
        b=it.b
        return b.fd if isinstance(b,S) and b.fd is not None and not isinstance(it.a,S) and it.a==0 and it.st==1 else None
    return None
def loop(it,body,names,line,frame):
    fd=fdim_of(it)
    if fd is not None and fd.const() is None: return symbolic_loop(it,fd,body,names,line)

    n=None
    if isinstance(it,Arr):
        if not it.dims: raise TypeError('iteration over a 0-d array')
        if it.dims[0].const() is None: n=it.dims[0]
    elif hasattr(it,'symlen'):
        k=it.symlen()
        if isinstance(k,S) and not k.v.is_const(): n=k.fd if k.fd is not None else Dim(k.v)
        else:
            for i in range(int(k)):
                r=body(seq_at(it,const(i)))
                if r is BRK: return BRK
                if isinstance(r,Ret): return r
            return None
    if n is None:
        for x in it:
            r=body(x)
            if r is BRK: return BRK
            if isinstance(r,Ret): return r
        return None
    return symbolic_loop(it,n,body,names,line)
def listcomp(it,f,cond):
    n=fdim_of(it)
    if n is not None and n.const() is None: pass
    elif isinstance(it,Arr):
        if it.dims and it.dims[0].const() is None: n=it.dims[0]
    elif hasattr(it,'symlen'):
        k=it.symlen()
        if isinstance(k,S) and not k.v.is_const(): n=k.fd if k.fd is not None else Dim(k.v)
        else: it=[seq_at(it,const(i)) for i in range(int(k))]
    if n is None:
        return [f(x) for x in it if (cond is None or cond(x))]
    gate=None
    if isinstance(n,FDim):
        if n.rank!=1: raise Unsupported('comprehension over a filtered axis')
        fd=n; it=Filtered(it,fd); n=Dim(fd.exts[0]); c0=cond
        gate=fd
        ii=fresh('it','I')
        SK=object()
        def run():
            if not CTX.fork(fd.cond((ii,))): return SK
            x=seq_at(it,ii)
            return f(x) if (c0 is None or c0(x)) else SK
        cases=explore([n.rng(ii)],run,[])
        return SymList(collected(n,ii,[(c,None if v is SK else v) for c,v,h in cases]))
    i=fresh('it','I')
    if cond is not None:
        SKIP=object()
        def run():
            x=seq_at(it,i)
            return f(x) if cond(x) else SKIP
        cases=explore([n.rng(i)],run,[])
        return SymList(collected(n,i,[(c,None if v is SKIP else v) for c,v,h in cases]))
    res=generic(n,i,lambda: f(seq_at(it,i)))
    return SymList(res)
def generic(n,i,run):
    """run() at generic index i, all internal branches merged; returns Arr over n"""
    cases=explore([n.rng(i)],run,[])
    vals=[(c,v) for c,v,h in cases]
    return merge_to_arr(n,i,vals)
def merge_to_arr(n,i,vals):
    a=tm.the_atom(i)
    items=[(c,arrays_of(v)) for c,v in vals]
    shapes=items[0][1].dims; kind=items[0][1].kind
    for c,v in items[1:]:
        if len(v.dims)!=len(shapes) or v.kind!=kind:
            if {v.kind,kind}=={'i','f'}: kind='f'
            else: raise Unsupported('loop items of different shape')
    fs=[(c,frozen(v)) for c,v in items]
    def fn(I):
        r=None
        for c,v in reversed(fs):
            e=arrays.conv_elem(v.elem(tuple(I[1:])),v.kind,kind)
            e=sub_elem(e,kind,{a:I[0]})
            cc=subst(c,{a:I[0]})
            r=e if r is None else arrays.e_ite(cc,e,r,kind)
        return r
    return new([n]+list(shapes),fn,kind)
def arrays_of(v):
    from . import npshim
    return npshim.array(v,copy=False)
def sub_elem(e,kind,mp):
    if kind=='b': return subst(e,mp)
    if kind=='o': return e
    return (subst(e[0],mp),subst(e[1],mp))

class Log:
    def __init__(s): s.new=set(); s.keep=[]; s.written={}
    def write(s,buf):
        if id(buf) not in s.new and id(buf) not in s.written:
            s.written[id(buf)]=(buf,buf.fn,buf.memo)

def explore(assume,run,snap_cells):
    """all paths of run() under extra assumptions, with heap and locals restored between paths.
    -> list of (path condition relative to entry, value, heap effects dict)"""
    results=[]
    base_pc=list(CTX.pc); base=(CTX.dec,CTX.pos,CTX.made)
    decs=[]
    cells=[(c,get_cell(c)) for c in snap_cells]
    lists={}
    for _,v in cells:
        if isinstance(v,list): lists[id(v)]=(v,list(v))
    todo=[[]]
    budget=0
    hs=heap([v for c,v in cells if v is not _EMPTY])
    try:
        while todo:
            d=todo.pop()
            budget+=1
            if budget>64: raise Unsupported('too many paths through a loop body')
            log=Log(); arrays.CTX_LOG.append(log)
            CTX.scopes+=1; CTX.scope=CTX.scopes
            CTX.pc=list(base_pc); CTX.dec=list(d); CTX.pos=0; CTX.made=[]
            try:
                try:
                    for b in assume: CTX.assume(b)
                    n0=len(CTX.pc)
                    v=run()
                    ch=changed(hs,lists)
                    if ch:
                        restore(hs,lists)
                        raise Unsupported('a loop of symbolic length changes the state of a %s%s'%(type(ch[0]).__name__,'' if ch[1] is None else ' (%s)'%ch[1]))
                    cond=mk_and([x for x in CTX.pc[n0:] if x not in CTX.learned])
                    eff={k:(b,b.fn) for k,(b,fn,me) in log.written.items()}
                    state=[(c,get_cell(c)) for c in snap_cells]
                    lst={k:list(l) for k,(l,o) in lists.items()}
                    results.append((cond,v,(eff,state,lst)))
                except PathAbort: pass
                made=CTX.made; dec=CTX.dec
                for k in range(len(made)-1,len(d)-1,-1):
                    todo.append(list(dec[:k])+[False])
            finally:
                arrays.CTX_LOG.pop()
                for k,(b,fn,me) in log.written.items(): b.fn=fn; b.memo=dict()
                for c,v0 in cells: set_cell(c,v0)
                for k,(l,o) in lists.items(): l[:]=o
    finally:
        CTX.pc=base_pc; CTX.dec,CTX.pos,CTX.made=base
        CTX.scopes+=1; CTX.scope=0 if False else CTX.scope
    return results
_SKIP=(S,SB,Arr,Buf,Dim,FDim,tm.T,tm.B,str,bytes,int,float,complex,bool,type(None),type)
def _state(o):
    if isinstance(o,list): return list(o)
    if isinstance(o,dict): return list(o.items())
    d=getattr(o,'__dict__',None)
    return list(d.items()) if type(d) is dict else None
def heap(roots):
    """plain python state reachable from roots: [(object, shallow state)]"""
    seen={}; todo=list(roots)
    while todo:
        o=todo.pop()
        if id(o) in seen or isinstance(o,_SKIP): continue
        if isinstance(o,(tuple,set,frozenset)): seen[id(o)]=None; todo.extend(o); continue
        if isinstance(o,types.ModuleType) or callable(o) and not isinstance(o,(list,dict)): seen[id(o)]=None; continue
        st=_state(o)
        if st is None: seen[id(o)]=None; continue
        seen[id(o)]=(o,st)
        todo.extend(st if isinstance(o,list) else [x for _,x in st])
    return [x for x in seen.values() if x is not None]
def changed(h,skip):
    for o,st in h:
        if id(o) in skip: continue
        now=_state(o)
        if len(now)!=len(st): return o,None
        if isinstance(o,list):
            for a,b in zip(st,now):
                if a is not b: return o,None
        else:
            for (k,a),(k2,b) in zip(st,now):
                if k is not k2 and k!=k2: return o,k2
                if a is not b and not(isinstance(a,_SCAL) and type(a) is type(b) and a==b): return o,k
    return None
_SCAL=(str,int,float,bool)
def restore(h,skip):
    for o,st in h:
        if id(o) in skip: continue
        if isinstance(o,list): o[:]=st
        elif isinstance(o,dict): o.clear(); o.update(st)
        else: o.__dict__.clear(); o.__dict__.update(st)
_EMPTY=object()
def get_cell(c):
    try: return c.cell_contents
    except ValueError: return _EMPTY
def set_cell(c,v):
    if v is _EMPTY:
        try: del c.cell_contents
        except ValueError: pass
    else: c.cell_contents=v
def cells_of(f,names):
    m=dict(zip(f.__code__.co_freevars,f.__closure__ or ()))
    return {n:m[n] for n in names if n in m}

class Filtered:
    """iteration over the selected positions of a box, in order: index k of the box, position number rank(k)"""
    def __init__(s,it,fd): s.it=it; s.fd=fd
    def at(s,k): return part_at(s.it,s.fd,k)
def part_at(p,fd,k):
    if isinstance(p,Arr):
        d=p.dims[0]
        if isinstance(d,FDim):
            if d is not fd and not arrays.same_dim(d,fd): raise Unsupported('two different selections in one loop')
            fz=frozen(p)
            if len(p.dims)==1: return arrays.e_scalar(fz.elem(((k,),)),p.kind)
            return Arr(p.buf,*arrays.fix_first(p,(k,)))
        return p[S(arrays.fd_rank(fd,(k,)),TRUE,'i')]
    if hasattr(p,'parts'): return tuple(part_at(q,fd,k) for q in p.parts)
    if hasattr(p,'a') and hasattr(p,'st'):
        if p.st!=1: raise Unsupported('stepped range over a selection')
        return S(tm.add(lift_s(p.a).v,arrays.fd_rank(fd,(k,))),TRUE,'i')
    if hasattr(p,'seq'): return part_at(p.seq(),fd,k)
    raise Unsupported('loop over a filtered sequence')
def symbolic_loop(it,n,body,names,line):
    if isinstance(n,FDim):
        if n.rank!=1: raise Unsupported('loop over a filtered sequence of rank %d (line %s)'%(n.rank,line))
        fd=n; src=Filtered(it,fd); body0=body
        # locals of the loop body are closure cells of the body: keep them visible to the rule
        def gate(k): return CTX.fork(fd.cond((k,)))
        return symbolic_loop_(src,Dim(fd.exts[0]),body0,names,line,gate)
    return symbolic_loop_(it,n,body,names,line,None)
ANNOT=[]      # loop annotations in force: objects with applies(it,n,cells) and run(it,n,body,cells)
class annotated:
    """verify the loops of a call by an explicit invariant instead of the automatic summary"""
    def __init__(s,spec): s.spec=spec
    def __enter__(s): ANNOT.append(s.spec)
    def __exit__(s,*a): ANNOT.pop()
ACTIVE=[]     # counters of the symbolic loops being summarised
class NOLEAVE:
    """the iterations considered do not leave the loop"""
    def __init__(s,cond,i,pre): s.cond=cond; s.i=i; s.pre={k:D for k,(x,D) in pre.items()}
def symbolic_loop_(it,n,body,names,line,gate):
    k=len(ACTIVE)
    try: return symbolic_loop__(it,n,body,names,line,gate)
    finally: del ACTIVE[k:]
def symbolic_loop__(it,n,body,names,line,gate):
    cells=cells_of(body,names)
    if ANNOT and gate is None:
        ac=dict(zip(body.__code__.co_freevars,body.__closure__ or ()))
        for sp in reversed(ANNOT):
            if sp.applies(it,n,ac):
                sp.it=it; sp.body=body
                if getattr(sp,'leaves',False):
                    # one generic iteration from any state the invariant allows: it preserves the invariant; if it leaves the loop or is the last one, the code after the loop follows
                    if not CTX.fork(lt(ZERO,n.n)): return None
                    i=fresh('it','I'); CTX.assume(mk_and([le(ZERO,i),lt(i,n.n)]))
                    sp.init(ac); sp.havoc(ac,S(i,TRUE,'i')); hs=heap([v for v in (get_cell(c) for c in ac.values()) if v is not _EMPTY])
                    r=body(seq_at(it,i))
                    ch=changed(hs,{})
                    if ch: raise Unsupported('a loop of symbolic length changes the state of a %s%s'%(type(ch[0]).__name__,'' if ch[1] is None else ' (%s)'%ch[1]))
                    if r is BRK or isinstance(r,Ret): return r
                    sp.preserved(ac,S(tm.add(i,ONE),TRUE,'i'))
                    if CTX.fork(eq(tm.add(i,ONE),n.n)): return None
                    raise PathAbort()
                # two obligations' paths: one generic iteration preserves the invariant; after the loop it holds at n
                if not CTX.fork(lt(ZERO,n.n)): return None
                if CTX.fork(tm.bapp('annotated_loop_step',[])):
                    i=fresh('it','I'); CTX.assume(mk_and([le(ZERO,i),lt(i,n.n)]))
                    sp.init(ac); sp.havoc(ac,S(i,TRUE,'i'))
                    r=body(seq_at(it,i))
                    if r is BRK or isinstance(r,Ret): raise Unsupported('an annotated loop left early')
                    sp.preserved(ac,S(tm.add(i,ONE),TRUE,'i'))
                    raise PathAbort()
                sp.init(ac); sp.havoc(ac,n.size() if hasattr(n,'size') else S(n.n,TRUE,'i'))
                return None
    allcells=dict(zip(body.__code__.co_freevars,body.__closure__ or ()))
    # empty loop
    if not CTX.fork(lt(ZERO,n.n)): return None
    i=fresh('it','I'); ACTIVE.append(i)
    entry={k:get_cell(c) for k,c in cells.items()}
    scope0=CTX.scope
    # phase 1: which buffers are written
    strict=[]
    def run():
        if isinstance(gate,NOLEAVE):
            CTX.assume(subst(mk_not(gate.cond),{tm.the_atom(gate.i):i}))
            r=body(seq_at(it,i))
            if (r is BRK or isinstance(r,Ret)) and not strict: raise PathAbort()
            if r is BRK or isinstance(r,Ret): raise Unsupported('leaving a loop depends on loop-carried state (line %s)'%line)
            return r
        if gate is not None and not gate(i): return None
        r=body(seq_at(it,i))
        return r
    snap=list(allcells.values())
    saved={k:get_cell(c) for k,c in cells.items()}
    ph={}
    def placeholders():
        for k,c in cells.items():
            v=saved[k]
            if v is _EMPTY: continue
            p=place(v,k)
            if p is not None: ph[k]=p; set_cell(c,p[0])
    placeholders()
    LENIENT.append(1)
    try: res=explore([n.rng(i)],run,snap)
    finally: LENIENT.pop()
    # array locals that are rebound to a new array of the same shape (x = x + g): carried in a private copy that each iteration overwrites;
    # nothing else may hold that copy, and the new value must be an array allocated in the iteration
    reb={}
    for k,c in cells.items():
        v0=saved[k]
        if not isinstance(v0,Arr) or k in ph or v0.kind not in 'fi' or not all(isinstance(d,arrays.Dim) for d in v0.dims): continue
        fin=[[y for cc,y in st if cc is c][0] for _,_,(eff,st,ls) in res]
        if all(y is v0 for y in fin) or not all(isinstance(y,Arr) for y in fin): continue
        if any(id(v0.buf) in eff for _,_,(eff,st,ls) in res): continue
        if not all(y is v0 or (y.kind in 'fi' and len(y.dims)==len(v0.dims) and all(isinstance(e,arrays.Dim) and arrays.same_dim(d,e) for d,e in zip(v0.dims,y.dims))) for y in fin): continue
        a0=arrays.materialize(v0)
        if a0.kind=='i' and any(y.kind=='f' for y in fin): a0=a0.astype(float)
        saved[k]=a0; set_cell(c,a0); reb[k]=(c,a0)
    if reb:
        run0=run
        def run():
            for k,(c,a0) in reb.items(): set_cell(c,a0)
            r=run0()
            for k,(c,a0) in reb.items():
                v=get_cell(c)
                if v is a0: continue
                if id(v.buf) not in arrays.CTX_LOG[-1].new: raise Unsupported('loop rebinds %s to a view'%k)
                for kk,c2 in allcells.items():
                    o=get_cell(c2)
                    if c2 is not c and ((isinstance(o,Arr) and o.buf is a0.buf) or (isinstance(o,(list,tuple)) and any(isinstance(z,Arr) and z.buf is a0.buf for z in o))): raise Unsupported('loop keeps the old value of %s'%k)
                if id(a0.buf) in arrays.CTX_LOG[-1].written: raise Unsupported('loop both updates and rebinds %s'%k)
            for k,(c,a0) in reb.items():
                v=get_cell(c)
                if v is not a0: a0[...]=arrays.materialize(v); set_cell(c,a0)
            return r
        LENIENT.append(1)
        try: res=explore([n.rng(i)],run,snap)
        finally: LENIENT.pop()
    # integer counters whose step does not depend on carried state: closed form by prefix sums, re-checked below (induction step)
    pre={}
    for k,p in list(ph.items()):
        if p[1]!='s': continue
        if p[3].kind!='i': continue
        x=None
        try:
            if isinstance(gate,NOLEAVE) and k in gate.pre: D=subst(gate.pre[k],{tm.the_atom(gate.i):i})
            else: D=step_of(p,cells[k],[q for q in res if not(q[1] is BRK or isinstance(q[1],Ret))])
            if D is None: continue
            others=[q[2] for q in ph.values() if q[1]!='g']
            if any(a in D.fv for a in others): continue
            if not D.p: pass
            w=fresh('pv','I')
            x=S(tm.add(p[3].v,tm.mk_sum(w,i,subst(D,{tm.the_atom(i):w}))),p[3].ok,'i')
        except Unsupported: continue
        pre[k]=(x,D)
    for k,(x,D) in pre.items():
        set_cell(cells[k],x); 
    for k,p in list(ph.items()):
        if k not in pre: set_cell(cells[k],p[0])
    strict.append(1)
    res=explore([n.rng(i)],run,snap)
    for k,(x,D) in pre.items():
        for c,v,(eff,st,ls) in res:
            if v is BRK or isinstance(v,Ret): continue
            y=[z for cc,z in st if cc is cells[k]][0]
            y=lift_s(y)
            g=eq(tm.add(y.v,tm.neg(x.v)),D)
            if not CTX.under([n.rng(i),c],lambda: y.ok is x.ok and CTX.prove(g,full=True)): raise Unsupported('counter %s is not a prefix sum'%k)
    # an iteration that leaves the loop (break, return): either none does, or there is a first one
    leave=None
    if any(v is BRK or isinstance(v,Ret) for c,v,h in res):
        if gate is not None: raise Unsupported('break/return in a loop over a selection (line %s)'%line)
        carried=[p[2] for k,p in ph.items() if p[1]!='g' and k not in pre]
        bad=[c for c,v,h in res if v is BRK or isinstance(v,Ret)]
        if any(uses(c,a) for c in bad for a in carried): raise Unsupported('leaving a loop depends on loop-carried state (line %s)'%line)
        leave=mk_or(bad)
        for k,c in cells.items(): set_cell(c,saved[k])
        ACTIVE.pop()
        none=tm.mk_all(i,tm.implies(n.rng(i),mk_not(leave)))
        if not CTX.fork(none):
            first=fresh('exit','I')
            CTX.assume(mk_and([n.rng(first),subst(leave,{tm.the_atom(i):first})]))
            j=fresh('bef','I'); CTX.assume(tm.mk_all(j,tm.implies(mk_and([le(ZERO,j),lt(j,first)]),subst(mk_not(leave),{tm.the_atom(i):j}))))
            symbolic_loop__(it,Dim(first),body,names,line,NOLEAVE(leave,i,pre))
            r=body(seq_at(it,first))
            if r is BRK or isinstance(r,Ret): return r
            raise PathAbort()
        return symbolic_loop__(it,n,body,names,line,NOLEAVE(leave,i,pre))
    written={}
    for c,v,(eff,st,ls) in res:
        for kk,(b,fn) in eff.items(): written[kk]=b
    hp={}
    if written:
        # phase 2: make the written buffers symbolic at loop entry, so that loop-carried reads show
        for kk,b in written.items():
            nm='heap!%d'%(len(_hp))
            _hp.append(nm)
            hp[kk]=(b,b.fn,nm)
            b.fn=mkph(nm,b); b.memo={}
        try: res=explore([n.rng(i)],run,snap)
        finally:
            for kk,(b,fn,nm) in hp.items(): b.fn=fn; b.memo={}
        for c,v,(eff,st,ls) in res:
            for kk,(b,fn) in eff.items():
                if kk not in hp: raise Unsupported('loop writes vary between phases')
    for k,c in cells.items():
        if k in ph or k in reb or saved[k] is _EMPTY or isinstance(saved[k],list): continue
        if any([y for cc,y in st if cc is c][0] is not saved[k] for _,_,(eff,st,ls) in res) and read_first(body,k):
            if isinstance(saved[k],str) and all(isinstance(y,str) and y==saved[k] for y in [[y for cc,y in st if cc is c][0] for _,_,(eff,st,ls) in res]): continue
            raise Unsupported('%s is carried from one iteration to the next (line %s)'%(k,line))
    for k,c in cells.items(): set_cell(c,saved[k])
    for c,v,h in res:
        for p in ph.values():
            if p[1]=='s' and uses(c,p[2]): raise Unsupported('loop branch depends on loop-carried state (line %s)'%line)
        for kk,(b,fn,nm) in hp.items():
            if mentions(c,nm): raise Unsupported('loop branch depends on loop-carried array state')
    ACTIVE.pop()
    flags=[p[2] for p in ph.values() if p[1]=='b']
    # heap summary
    ia=tm.the_atom(i)
    for kk,(b,fn0,nm) in hp.items():
        b.set(summarise_buf(b,fn0,nm,res,kk,n,i,hp,flags))
    # local summary
    for k,c in cells.items():
        if k in pre:
            x,D=pre[k]; s0=ph[k][3]
            set_cell(c,S(tm.add(s0.v,tm.mk_sum(i,n.n,CTX.under([n.rng(i)],lambda:D))),s0.ok,'i')); continue
        if k in ph and ph[k][1]=='g':
            set_cell(c,grown(k,saved[k],ph[k][0],res,cells[k],n,i)); continue
        if k in ph and ph[k][1]=='b': 
            x=summarise_flag(k,ph[k],res,cells[k],n,i,hp)
        else: x=summarise_local(k,saved[k],ph.get(k),res,cells[k],n,i,hp)
        if any((isinstance(x,S) and (f in x.v.fv or f in x.ok.fv)) or (isinstance(x,SB) and f in x.b.fv) for f in flags): raise Unsupported('a value depends on a flag carried through a loop')
        set_cell(c,x)
    # lists appended to
    lists={}
    for _,cv in allcells.items():
        v=get_cell(cv)
        if isinstance(v,list): lists[id(v)]=v
    for lid,l in lists.items():
        grew=[]
        for c,v,(eff,st,ls) in res:
            new_=ls.get(lid)
            if new_ is None: continue
            grew.append((c,new_[len(l):],new_[:len(l)]==l if False else len(new_)>=len(l)))
        if not grew or all(len(g[1])==0 for g in grew): continue
        if not all(len(g[1])<=1 for g in grew): raise Unsupported('several appends per iteration of a loop of symbolic length')
        if l: raise Unsupported('append to a non-empty list in a loop of symbolic length')
        arr=collected(n,i,[(c,x[0] if x else None) for c,x,_ in grew])
        sl=SymList(arr)
        for cn,cv in allcells.items():
            if get_cell(cv) is l: set_cell(cv,sl)
        REPL.append((l,sl))
    return None
REPL=[]
_hp=[]
LENIENT=arrays.LENIENT
def collected(n,i,items):
    """items: (path condition, value or None) of one generic iteration -> array over the iterations that produced a value"""
    some=[(c,v) for c,v in items if v is not None]
    arr=merge_to_arr(n,i,some)
    if len(some)==len(items): return arr
    ia=tm.the_atom(i); cond=mk_or([c for c,v in some])
    fd=FDim([n.n],lambda cs: subst(cond,{ia:cs[0]}))
    fz=frozen(arr)
    return new([fd]+list(arr.dims[1:]),lambda I: fz.elem((I[0][0],)+tuple(I[1:])),arr.kind)
class Grow:
    """placeholder of an array that starts empty and is extended by np.append"""
    def __init__(s,entry,items=()): s.entry=entry; s.items=tuple(items)
    def appended(s,x): return Grow(s.entry,s.items+(x,))
    def _bad(s,*a,**k): raise Unsupported('use of a growing array inside its loop')
    __getitem__=__setitem__=__len__=__iter__=__bool__=__add__=__radd__=__mul__=__rmul__=_bad
def grown(k,v0,g,res,cell,n,i):
    out=[]
    for c,v,(eff,st,ls) in res:
        x=[y for cc,y in st if cc is cell][0]
        if not isinstance(x,Grow) or x.entry is not v0 or len(x.items)>1: raise Unsupported('growing array %s'%k)
        out.append((c,x.items[0] if x.items else None))
    if all(v is None for c,v in out): return v0
    r=collected(n,i,out)
    if len(r.dims)!=1: raise Unsupported('growing array of arrays')
    return r
def step_of(p,cell,res):
    """guess of the increment of a counter over one iteration (re-checked on every path afterwards)"""
    groups=[]
    for c,val,(eff,st,ls) in res:
        x=[y for cc,y in st if cc is cell][0]
        if not isinstance(x,(S,int)) or isinstance(x,bool): return None
        x=lift_s(x)
        if x.kind!='i' or x.ok is not TRUE: return None
        d=tm.add(x.v,tm.neg(tm.atom_t(p[2])))
        # conjuncts that mention carried state are dropped from the guess
        cs=[y for y in (c.args[0] if c.kind=='and' else (c,)) if p[2] not in y.fv]
        c2=mk_and(cs)
        for g in groups:
            if g[0] is d: g[1].append(c2); break
        else: groups.append([d,[c2]])
    if not groups: return None
    D=groups[-1][0]
    for d,cs in reversed(groups[:-1]): D=ite(mk_or(cs),d,D)
    return D
def mkph(nm,b):
    kind=b.kind
    if kind=='o': raise Unsupported('loop writes an object array')
    def fn(J):
        a=[x for c in J for x in (c if isinstance(c,tuple) else (c,))]
        if kind=='b': return tm.bapp(nm,a)
        return (tm.app(nm,a,'I' if kind=='i' else 'R'),tm._bapp_lift(nm+'ok',a))
    return fn
def place(v,name):
    """placeholder for a loop-carried local: (value, kind, atom)"""
    if isinstance(v,(bool,SB)):
        t=fresh('car_'+name,'I')
        return (SB(eq(t,ONE)),'b',tm.the_atom(t),v)
    if isinstance(v,float): v=lift_s(v)
    if isinstance(v,(int,S)) :
        s=lift_s(v)
        t=fresh('car_'+name,'I' if s.kind=='i' else 'R')
        return (S(t,TRUE,s.kind),'s',tm.the_atom(t),s)
    if isinstance(v,float): return None
    if isinstance(v,Arr) and len(v.dims)==1 and v.dims[0].const()==0: return (Grow(v),'g',None,None)
    return None
def uses(x,a): return a in x.fv
def mentions(x,nm,_m=None):
    """does term/prop x mention application nm (or nm+'ok')"""
    return any(a.name in(nm,nm+'ok') for a in apps_in(x)) 
_apc={}
def apps_in(x):
    r=_apc.get(x)
    if r is not None: return r
    out=set()
    def vis(y):
        if isinstance(y,tm.T):
            for m,c in y.p:
                for a,e in m: va(a)
        elif isinstance(y,tm.B):
            if y.kind=='app': out.add(_BA(y))
            for z in y.args:
                if isinstance(z,tuple):
                    for w in z: vis2(w)
                else: vis2(z)
        elif isinstance(y,tm.Lam): vis2(y.dom); vis2(y.body)
    seen=set()
    def vis2(y):
        if isinstance(y,(tm.T,tm.B,tm.Lam)) and y not in seen:
            seen.add(y); vis(y)
    def va(a):
        if a in seen: return
        seen.add(a)
        if a.kind=='app': out.add(a)
        for z in (a.args or ()): vis2(z)
    vis2(x)
    _apc[x]=out
    return out
class _BA:
    """boolean application seen as an atom-like (name,args)"""
    def __init__(s,b): s.name=b.args[0]; s.args=b.args[1:]; s.b=b
def replace_app(x,nm,fv,fok):
    """replace applications nm(args) by fv(args) (and nm+'ok' by fok) everywhere in x"""
    memo={}
    def rt(y):
        r=memo.get(y)
        if r is not None: return r
        if isinstance(y,tm.T):
            if not mentions(y,nm): r=y
            else:
                out=[]
                for m,c in y.p:
                    f=const(c)
                    for a,e in m:
                        q=ra(a)
                        f=tm.mul(f,tm.ipow(q,e) if e>=0 else tm.inv(tm.ipow(q,-e)))
                    out.append(f)
                r=tm.addn(out)
        elif isinstance(y,tm.B):
            if not mentions(y,nm): r=y
            else:
                k=y.kind
                if k=='lt': r=tm.lt0(rt(y.args[0]))
                elif k=='eq': r=tm.eq0(rt(y.args[0]))
                elif k=='not': r=mk_not(rt(y.args[0]))
                elif k=='and': r=mk_and([rt(z) for z in y.args[0]])
                elif k=='or': r=mk_or([rt(z) for z in y.args[0]])
                elif k=='app':
                    args=[rt(z) if isinstance(z,(tm.T,tm.B,tm.Lam)) else z for z in y.args[1:]]
                    r=fok(args) if y.args[0]==nm+'ok' else fok(args) if y.args[0]==nm else tm._bapp_lift(y.args[0],args)
                elif k=='ex':
                    v,bo=tm.open_ex(y); r=tm.mk_ex(v,rt(bo))
        else:
            vs,dom,bo=tm.open_lam(y); r=tm.mk_lam(vs,rt(dom),rt(bo))
        memo[y]=r
        return r
    def ra(a):
        if a.kind in('var','bv'): return tm.atom_t(a)
        if a.kind=='app':
            args=[rt(z) if isinstance(z,(tm.T,tm.B,tm.Lam)) else z for z in a.args]
            if a.name==nm: return fv(args)
            return tm.rebuild(a.name,args,a.sort)
        if a.kind=='inv': return tm.inv(rt(a.args[0]))
        if a.kind=='iv': return iv(rt(a.args[0]))
        if a.kind=='sum':
            v,bo=tm.open_sum(a); return tm.mk_sum(v,rt(a.args[0]),rt(bo))
        raise Unsupported('replace in '+a.kind)
    return rt(x)
def summarise_buf(b,fn0,nm,res,kk,n,i,hp,flags=()):
    ia=tm.the_atom(i)
    others=[q for k2,q in hp.items() if k2!=kk]
    kind=b.kind
    if kind=='b': raise Unsupported('loop writes a boolean array')
    old=Buf.__new__(Buf); old.dims=b.dims; old.fn=fn0; old.kind=kind; old.memo={}
    phf=mkph(nm,b)
    def fn1(J):
        flat=[x for c in J for x in (c if isinstance(c,tuple) else (c,))]
        # value after one generic iteration
        v=None;ok=None
        for c,val,(eff,st,ls) in reversed(res):
            e=eff[kk][1](J) if kk in eff else phf(J)
            if v is None: v,ok=e
            else: v=ite(c,e[0],v) if e[0] is not v else v; ok=e[1] if e[1] is ok else tm.bite(c,e[1],ok)
        if any(f in v.fv or f in ok.fv for f in flags): raise Unsupported('array contents depend on a flag carried through a loop')
        p,pok=phf(J)
        D=tm.add(v,tm.neg(p))
        for (b2,f2,nm2) in others:
            if mentions(D,nm2): raise Unsupported('loop-carried dependence between arrays')
        if mentions(D,nm): D=under_brackets(D,nm)
        if ok is not pok: ok=ok_brackets(ok,pok,nm)
        if not mentions(D,nm) and ok is pok:
            # accumulation
            t=CTX.under([n.rng(i)],lambda: D)
            s=tm.mk_sum(i,n.n,t)
            o=old.get(J)
            return (tm.add(o[0],s),o[1])
        # map-type writes: every change is guarded by J_k == i + c
        # the guard must make the iteration a function of J
        for kx,c in enumerate(flat):
            g=find_guard(D,ia,c)
            if g is None: continue
            # iteration index that touches J:  i = g
            mp={ia:g}
            inr=mk_and([le(ZERO,g),lt(g,n.n)])
            # outside iteration g nothing changes: D vanishes unless i==g
            chk=subst(D,{ia:fresh('ot','I')})
            def fin():
                v1=subst(v,mp); ok1=subst(ok,mp)
                # reads of the buffer in iteration g at positions not yet or no longer changed: only positions whose kx-component
                # equals that of J are allowed (their iteration is g itself)
                for a in list(apps_in(v1))+list(apps_in(ok1)):
                    if a.name in(nm,nm+'ok'):
                        d=tm.add(a.args[kx],tm.neg(c))
                        if d.p and not CTX.prove(eq(a.args[kx],c)): raise Unsupported('loop reads another iteration\'s element')
                f=lambda args: old.get(unflat(J,args))[0]
                fo=lambda args: old.get(unflat(J,args))[1]
                return replace_app(v1,nm,f,fo),replace_app(ok1,nm,f,fo)
            r=CTX.under([inr],fin)
            o=old.get(J)
            return arrays.e_ite(inr,r,o,kind)
        # accumulation with changed finiteness, D free of the placeholder value
        if not mentions(D,nm):
            x=fresh('q','I')
            oki=okacc(ok,pok,nm)
            if oki is not None:
                s=tm.mk_sum(i,n.n,D)
                o=old.get(J)
                allok=tm.mk_all(i,tm.implies(n.rng(i),oki))
                return (tm.add(o[0],s),mk_and([o[1],allok]))
        raise Unsupported('loop effect on an array is neither a map nor an accumulation: %s'%tm.show(D)[:6000])
    def fn(J):
        try: return fn1(J)
        except Unsupported:
            # a special position: evaluate at a generic one and substitute
            flat=[x for c in J for x in (c if isinstance(c,tuple) else (c,))]
            if all(len(x.p)==1 and x.p[0][1]==1 and len(x.p[0][0])==1 and x.p[0][0][0][0].kind=='var' for x in flat): raise
            g=[fresh('gj','I') for _ in flat]
            v,ok=fn1(unflat(J,g))
            mp={tm.the_atom(a):x for a,x in zip(g,flat)}
            return subst(v,mp),subst(ok,mp)
    return fn
def eq_map(eqs):
    mp={}
    for q in eqs:
        for a in sorted(q.fv,key=lambda a:a.id):
            if a in mp or getattr(a,'sort',None)!='I' or a.kind!='var': continue
            s=tm.solve_for(q,a)
            if s is None or not s.isint: continue
            s=subst(s,mp)
            if a not in s.fv:
                mp={k:subst(v,{a:s}) for k,v in mp.items()}; mp[a]=s; break
    return mp
def ok_brackets(ok,pok,nm):
    """pok & rest, when ok is a disjunction each case of which contains pok up to its own equalities"""
    if ok.kind!='or': return ok
    rest=[]
    for d in ok.args[0]:
        cs=list(d.args[0]) if d.kind=='and' else [d]
        mp=eq_map([c.args[0] for c in cs if c.kind=='eq'])
        def fo(args): return tm._bapp_lift(nm+'ok',[subst(z,mp) for z in args])
        p2=subst(pok,mp) if mp else pok
        r=[];hit=False
        for c in cs:
            c2=replace_app(c,nm,lambda args: tm.app(nm,args),fo) if mp and mentions(c,nm) else c
            if c2 is p2 or c2 is pok: hit=True
            else: r.append(c)
        if not hit: return ok
        rest.append(mk_and(r))
    R=mk_or(rest)
    if R is TRUE or CTX.prove(R,full=True): return pok
    return mk_and([pok,R])
def under_brackets(D,nm):
    """within a monomial carrying [x == s], the reads nm(..x..) are nm(..s..)"""
    out=[]
    for m,co in D.p:
        eqs=[a.args[0].args[0] for a,e in m if a.kind=='iv' and a.args[0].kind=='eq']
        mp=eq_map(eqs)
        t=const(co)
        for a,e in m:
            x=tm.atom_t(a)
            if mp and a.kind=='app' and a.name==nm:
                x=replace_app(x,nm,lambda args: tm.app(nm,[subst(z,mp) for z in args],a.sort),lambda args: tm._bapp_lift(nm+'ok',args))
            t=tm.mul(t,tm.ipow(x,e) if e>=0 else tm.inv(tm.ipow(x,-e)))
        out.append(t)
    return tm.addn(out)
def okacc(ok,pok,nm):
    """ok == pok & rest(i) -> rest"""
    if ok is pok: return TRUE
    if ok.kind=='and' and pok in ok.args[0]:
        r=mk_and([x for x in ok.args[0] if x is not pok])
        return None if mentions(r,nm) else r
    return None
def unflat(J,args):
    out=[];k=0
    for c in J:
        if isinstance(c,tuple): out.append(tuple(args[k:k+len(c)])); k+=len(c)
        else: out.append(args[k]); k+=1
    return tuple(out)
def find_guard(D,ia,c):
    """term g such that every monomial of D carries a bracket forcing i == g (with c the J component)"""
    g=None
    if not D.p: return None
    for m,co in D.p:
        found=None
        for a,e in m:
            if a.kind=='iv' and a.args[0].kind=='eq':
                s=tm.solve_for(a.args[0].args[0],ia)
                if s is not None and s.isint and not c.is_const() and (c.fv<=s.fv):
                    d=tm.add(s,tm.neg(c))
                    if ia not in s.fv and (d.is_const() or not(c.fv & d.fv)): found=s; break
        if found is None: return None
        if g is None: g=found
        elif g is not found: return None
    return g
def summarise_flag(k,p,res,cell,n,i,hp):
    """boolean carried through the loop: conjunction, disjunction or not carried at all"""
    ia=tm.the_atom(i); t=p[2]; out=[]
    for c,v,(eff,st,ls) in res:
        x=[y for cc,y in st if cc is cell][0]
        if not isinstance(x,(bool,SB)): return Poison(k)
        out.append(mk_and([c,core.tob(x)]))
    F=mk_or(out)
    F1=subst(F,{t:ONE}); F0=subst(F,{t:ZERO})
    for b,f,nm in hp.values():
        if mentions(F,nm): return Poison(k)
    b0=core.tob(p[3])
    iff=lambda a,b: a is b or CTX.under([n.rng(i)],lambda: CTX.prove(tm.iff(a,b),full=True))
    if iff(F1,TRUE) and iff(F0,FALSE): return p[3]
    if iff(F1,F0): return core.mkb(subst(F1,{ia:tm.add(n.n,const(-1))}))
    if iff(F0,FALSE): return core.mkb(mk_and([b0,tm.mk_all(i,tm.implies(n.rng(i),F1))]))
    if iff(F1,TRUE): return core.mkb(mk_or([b0,tm.mk_ex(i,mk_and([n.rng(i),F0]))]))
    raise Unsupported('loop-carried flag %s is neither a conjunction nor a disjunction'%k)
def read_first(body,k):
    """may the loop body read local k before assigning it (every path through the bytecode, exception handlers included)"""
    bc=dis.Bytecode(body); ins=list(bc); at={x.offset:n for n,x in enumerate(ins)}; table=list(getattr(bc,'exception_entries',()))
    todo=[0]; seen=set()
    while todo:
        n=todo.pop()
        if n in seen or n>=len(ins): continue
        seen.add(n); x=ins[n]
        for e in table:
            if e.start<=x.offset<e.end: todo.append(at[e.target])
        if x.argval==k and x.opname.startswith('LOAD'): return True
        if x.argval==k and x.opname.startswith('DELETE'): return True
        if x.argval==k and x.opname.startswith('STORE'): continue
        if x.opname in('RETURN_VALUE','RETURN_CONST','RAISE_VARARGS','RERAISE'): continue
        if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs: todo.append(at[x.argval])
        if x.opname in('JUMP_FORWARD','JUMP_BACKWARD','JUMP_BACKWARD_NO_INTERRUPT','JUMP_ABSOLUTE'): continue
        todo.append(n+1)
    return False
def summarise_local(k,v0,p,res,cell,n,i,hp):
    ia=tm.the_atom(i)
    vals=[]
    for c,v,(eff,st,ls) in res:
        x=[y for cc,y in st if cc is cell][0]
        vals.append((c,x))
    if p is not None and all(x is p[0] for c,x in vals): return v0
    if p is None and v0 is not _EMPTY and all(x is v0 for c,x in vals): return v0
    last={ia:tm.add(n.n,const(-1))}
    def final(x,c):
        if isinstance(x,S):
            return S(subst(x.v,last),subst(x.ok,last),x.kind)
        if isinstance(x,SB): return core.mkb(subst(x.b,last))
        return x
    if p is not None and all(isinstance(x,(S,int)) and not isinstance(x,bool) for c,x in vals):
        pa=p[2]
        # accumulation x = p + g(i)
        v=None; ok=None
        for c,x in reversed(vals):
            s=lift_s(x)
            if v is None: v,ok,kind=s.v,s.ok,s.kind
            else: v=ite(c,s.v,v); ok=s.ok if ok is s.ok else tm.bite(c,s.ok,ok); kind='f' if s.kind=='f' else kind
        D=tm.add(v,tm.neg(tm.atom_t(pa)))
        for b,f,nm in hp.values():
            if mentions(D,nm): raise Unsupported('loop scalar depends on loop-carried array')
        if pa not in D.fv and pa not in ok.fv:
            s0=p[3]
            tot=CTX.under([n.rng(i)],lambda:D)
            return S(tm.add(s0.v,tm.mk_sum(i,n.n,tot)),mk_and([s0.ok,tm.mk_all(i,tm.implies(n.rng(i),ok))]),'f' if 'f' in(s0.kind,kind) else 'i')
        if pa not in v.fv and pa not in ok.fv:
            r=S(subst(v,last),subst(ok,last),kind); return r
        raise Unsupported('loop-carried scalar %s is not an accumulation'%k)
    def dep(x):
        """does the value depend on the iteration"""
        if isinstance(x,S): return ia in x.v.fv or ia in x.ok.fv
        if isinstance(x,SB): return ia in x.b.fv
        return isinstance(x,(Arr,list,dict,tuple)) 
    if len(vals)==1:
        x=vals[0][1]
        if isinstance(x,(S,SB)): 
            chk=x.v if isinstance(x,S) else x.b
            for b,f,nm in hp.values():
                if mentions(chk,nm): return Poison(k)
            for q in ():
                pass
            return final(x,vals[0][0])
        if isinstance(x,(str,int,type(None))): return x
    if all(isinstance(x,(str,bool,int,type(None))) for c,x in vals) and len({x for c,x in vals})==1: return vals[0][1]
    return Poison(k)
class Poison:
    """value of a loop temporary after the loop; using it is outside the rule"""
    def __init__(s,k): object.__setattr__(s,'_k',k)
    def _bad(s,*a,**k): raise Unsupported('use of loop temporary %s after a loop of symbolic length'%s._k)
    __getattr__=__call__=__getitem__=__setitem__=__len__=__iter__=__bool__=_bad
    __add__=__radd__=__sub__=__rsub__=__mul__=__rmul__=__truediv__=__rtruediv__=__pow__=__neg__=__eq__=__lt__=__gt__=__le__=__ge__=_bad
    __hash__=None
