from dv.dsl import *
from contracts.common import *
from dv import loops
from dv.terms import const
META=dict(functions=['general_utils.wh_continuous'],assumptions=['the list elements compare and subtract as mathematical integers'])
class Seg:
    """ghost view of a python list holding wh[s:e], neighbours differing by one"""
    def __init__(g,C,s,e): g.C=C; g.s=s; g.e=e
    def append(g,x):
        C=g.C
        C.vc.ensure('appended value is the next one of the input',both(g.e<C.n,x==C.wh[g.e]))
        C.vc.ensure('inside a group the step is exactly one',either(g.e==g.s,C.wh[g.e]-C.wh[g.e-1]==1))
        g.e=g.e+1
    def symlen(g): return g.e-g.s
    def __len__(g): return int(g.e-g.s)
    def __bool__(g): return bool(g.e>g.s)
    def __getitem__(g,k):
        if isinstance(k,int) and k<0: return g.C.wh[g.e+k]
        return g.C.wh[g.s+k]
class Groups:
    """ghost view of the list of groups: complete maximal groups covering wh[0:c], then those appended since"""
    def __init__(g,C,c,last=None): g.C=C; g.c=c; g.new=[]; g.last=last
    def append(g,x): g.new.append(x)
    def __getitem__(g,k):
        if k==-1:
            if g.new: return g.new[-1]
            if g.last is not None: return g.last
        raise Unsupported('inspection of earlier groups')
    def symlen(g): raise Unsupported('number of groups inspected')
    def __bool__(g):
        if g.new: return True
        return bool(g.c>0) if g.last is None else bool(g.last.e>0)
class Inv:
    """at iteration i: finished groups cover wh[0:s]; the current group is wh[s:i], either held apart (two lists) or as the last one (one list)"""
    def __init__(C,vc,wh,n): C.vc=vc; C.wh=wh; C.n=n
    def lists(C,cells):
        r={}
        for k,c in cells.items():
            try: v=c.cell_contents
            except ValueError: continue
            if isinstance(v,(list,Groups,Seg)): r[k]=c
        return r
    def applies(C,it,n,cells): return len(C.lists(cells)) in(1,2)
    def init(C,cells):
        L=C.lists(cells); C.cells=L
        C.vc.ensure('both lists start empty',all(c.cell_contents==[] for c in L.values()))
        C.names=sorted(L)
        if len(L)==2:
            # the list of groups is the one the other list is put into
            C.outer=C.names[1] if C.nested(cells,C.names[0],C.names[1]) else C.names[0]
            C.inner=[k for k in C.names if k!=C.outer][0]
        else: C.outer=C.names[0]; C.inner=None
    def nested(C,cells,a,b):
        """does the body put list a into list b (the last iteration must)"""
        class Rec:
            def __init__(s): s.items=[]
            def append(s,x): s.items.append(x)
            def __bool__(s): return True
            def __getitem__(s,k): return C.wh[0]
        ra,rb=Rec(),Rec(); saved=[(cells[k],cells[k].cell_contents) for k in(a,b)]
        i=tm.add(lift_s(C.n).v,const(-1))
        def run():
            cells[a].cell_contents=ra; cells[b].cell_contents=rb
            C.body(loops.seq_at(C.it,i))
        loops.explore([],run,[cells[a],cells[b]])
        for c,v in saved: c.cell_contents=v
        return any(x is ra for x in rb.items)
    def scalars(C,cells,i):
        """locals read before they are assigned: entry value at iteration 0, else what iteration i-1 gave them (must not depend on earlier state)"""
        import dis
        st={x.argval for x in dis.get_instructions(C.body) if x.opname.startswith('STORE')}
        ks=[k for k in cells if k in st and k not in C.cells and loops.read_first(C.body,k)]
        if not ks or bool(i==0): return
        class Rec:
            def __init__(s): s.items=[]
            def append(s,x): s.items.append(x)
            def __bool__(s): return True
            def __getitem__(s,k): return s
        j=tm.add(lift_s(i).v,const(-1)); saved=[(c,loops.get_cell(c)) for c in cells.values()]; ph={}
        def run():
            for k in C.cells: cells[k].cell_contents=Rec()
            for k in ks: ph[k]=tm.fresh('car','I'); cells[k].cell_contents=S(ph[k],TRUE,'i')
            C.body(loops.seq_at(C.it,j))
        res=loops.explore([],run,list(cells.values()))
        for c,v in saved: loops.set_cell(c,v)
        for k in ks:
            vals=[[y for cc,y in st2 if cc is cells[k]][0] for _,_,(e,st2,l) in res]
            v=vals[0]
            if not all(isinstance(x,S) and x.v is v.v for x in vals) or any(tm.the_atom(p) in v.v.fv for p in ph.values()): raise Unsupported('local %s carries state the invariant does not describe'%k)
            cells[k].cell_contents=v
    def brk(C,k): return either(k==0,C.wh[k]-C.wh[k-1]!=1)
    def havoc(C,cells,i):
        C.scalars(cells,i)
        vc=C.vc; s=S(tm.fresh('start','I'),TRUE,'i'); C.i=i
        CTX.assume(tob(both(s>=0,s<=i)))
        atend=i==C.n
        if C.inner is not None:
            g=Groups(C,s); cells[C.outer].cell_contents=g; cells[C.inner].cell_contents=Seg(C,s,i)
            if bool(atend): CTX.assume(tob(s==C.n))
            else:
                CTX.assume(tob(imp(s<C.n,C.brk_at(s)))); CTX.assume(tob(imp(i>s,C.wh[i]-C.wh[i-1]==1)))
        else:
            CTX.assume(tob(both(imp(i>0,s<i),imp(i==0,s==0)))); CTX.assume(tob(imp(s<C.n,C.brk_at(s))))
            cells[C.outer].cell_contents=Groups(C,s,Seg(C,s,i))
    def brk_at(C,s): return either(s==0,C.wh[s]-C.wh[s-1]!=1)
    def preserved(C,cells,i1):
        vc=C.vc; g=cells[C.outer].cell_contents
        vc.ensure('the list of groups is kept',isinstance(g,Groups))
        c=g.c; groups=list(g.new)
        if C.inner is None and g.last is not None:
            # the previously open last group: finished unless it is still the last one
            L=g.last; groups=([L] if bool(L.e>0) else [])+groups
        closed=groups if C.inner is not None else groups[:-1]
        def as_seg(x,c):
            if isinstance(x,Seg): return x
            if isinstance(x,list):
                y=Seg(C,c,c)
                for v in x: y.append(v)
                return y
            raise Unsupported('unexpected group')
        segs=[]
        for x in groups:
            x=as_seg(x,c); segs.append(x)
            vc.ensure('groups follow each other',x.s==c); vc.ensure('no group is empty',x.e>x.s); c=x.e
        for x in segs[:len(closed)]:
            vc.ensure('the step across a group boundary is never one',either(x.e==C.n,C.wh[ite_(x.e<C.n,x.e,0)]-C.wh[x.e-1]!=1))
        if C.inner is None:
            vc.ensure('every value so far is in a group',c==i1)
            return
        a=cells[C.inner].cell_contents
        emitted=any(x is a for x in g.new)
        if not emitted: a=as_seg(a,c)
        if bool(i1==C.n): vc.ensure('every value is in a group at the end',c==C.n)
        else:
            vc.ensure('the open group is separate from the finished ones',not emitted)
            vc.ensure('the open group follows the finished ones',both(a.s==c,a.e==i1))
            vc.ensure('the open group continues or is empty after a break',both(imp(a.e>a.s,C.wh[i1]-C.wh[i1-1]==1),imp(a.e==a.s,C.wh[i1]-C.wh[i1-1]!=1)))
def harnesses(E):
    gu=E.mod('misfit.general.general_utils')
    def final(vc,C,r,n):
        if isinstance(r,list): return vc.ensure('no groups for an empty list',both(n==0,r==[]))
        vc.ensure('returns the list of groups, unmodified after the loop',isinstance(r,Groups) and not r.new)
        if r.last is not None: vc.ensure('every value is in a group',r.last.e==n)
        else: vc.ensure('every value is in a group',r.c==n)
    @E.h('groups')
    def h(vc):
        n=vc.int_('n',0); wh=vc.arr('wh',(n,),kind='i')
        C=Inv(vc,wh,n)
        with loops.annotated(C): r=gu.wh_continuous(wh)
        final(vc,C,r,n)
        vc.canary('one group',n<=1)
    return E.hs
