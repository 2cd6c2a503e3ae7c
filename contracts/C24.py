from dv.dsl import *
from contracts.common import *
META=dict(functions=['fit_core.init_walker_pos','general_utils.range_arrs'],
 assumptions=['bounds are finite','one flag, one name and one pair of bounds per parameter','numpy.random.random_sample returns values in [0,1), independent from call to call'])
def rank(vary,i): return total(i,lambda k: ind(vary[k]))
def harnesses(E):
    fc=E.mod('misfit.fit.fit_core'); gu=E.mod('misfit.general.general_utils')
    def fit(vc):
        n=vc.int_('n',1); va=vc.arr('vary',(n,),kind='b'); bd=vc.arr('bounds',(n,2)); names=vc.arr('names',(n,),kind='i')
        f=NS(kinModel=NS(theta_names=names,theta_vary=va,theta=vc.arr('theta',(n,))),thetaPrior=NS(theta_bounds=bd))
        return f,n,va,bd
    lo=lambda bd,i: ite_(bd[i,0]<=bd[i,1],bd[i,0],bd[i,1])
    hi=lambda bd,i: ite_(bd[i,0]<=bd[i,1],bd[i,1],bd[i,0])
    def el(a,va,i,*ix):
        """entry belonging to parameter i on the last axis (a selection over the parameters, or a plain vector in their order)"""
        d=a.dims[-1]; k=(lift_s(i).v,) if isinstance(d,arrays.FDim) else lift_s(rank(va,i)).v
        return S(frozen(a).num(tuple(lift_s(x).v for x in ix)+(k,))[0],TRUE,'f')
    @E.h('bounds of the free parameters')
    def h(vc):
        f,n,va,bd=fit(vc); b0=bd.copy()
        r,l=gu.range_arrs(f)
        r,l=np.array(r),np.array(l); k=rank(va,n)
        vc.ensure('one entry per free parameter',both(r.shape[0]==k,l.shape[0]==k))
        vc.forall('lower bound and range, in order',(n,),lambda i: imp(va[i],both(el(l,va,i)==lo(bd,i),el(r,va,i)==hi(bd,i)-lo(bd,i))))
        vc.ensure_eq('bounds unchanged',bd,b0)
    @E.h('starting positions')
    def h(vc):
        f,n,va,bd=fit(vc); b0=bd.copy(); nw=vc.int_('nwalkers',1)
        k=S(lift_s(rank(va,n)).v,TRUE,'i'); CTX.assume(tob(k>=1))
        pos=fc.init_walker_pos(f,ndim=k,nwalkers=nw)
        p=np.array(pos)
        vc.ensure('as many walkers and coordinates as requested',both(p.shape[0]==nw,p.shape[1]==k))
        vc.forall('inside the bounds, in order',(nw,n),lambda w,i: imp(va[i],both(el(p,va,i,w)>=lo(bd,i),el(p,va,i,w)<=hi(bd,i))))
        vc.ensure_eq('bounds unchanged',bd,b0)
        vc.canary('all walkers at the lower bound',no(va[0]))
    return E.hs
