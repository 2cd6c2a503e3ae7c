import numpy as np
from types import SimpleNamespace as NS
from misfit.fit import fit_core as fc
from misfit.general import general_utils as gu
def run(t):
    r=t.rng; n=int(r.integers(1,8)); va=r.random(n)<.6
    if not va.any(): va[int(r.integers(n))]=True
    bd=[tuple(float(v) for v in r.normal(0,50,2)) for _ in range(n)]
    if r.random()<.2: bd[0]=(bd[0][0],bd[0][0])
    bb=bd if r.random()<.5 else np.array(bd)
    f=NS(kinModel=NS(theta_names=['p%d'%i for i in range(n)],theta_vary=va if r.random()<.5 else list(va),theta=np.zeros(n)),thetaPrior=NS(theta_bounds=bb))
    k=int(va.sum()); nw=int(r.integers(1,30)); t.input(bounds=bd,vary=va,nwalkers=nw)
    lo=np.array([min(b) for b,v in zip(bd,va) if v]); hi=np.array([max(b) for b,v in zip(bd,va) if v])
    rg,lw=gu.range_arrs(f); t.eq('lower',lw,lo); t.eq('range',rg,hi-lo)
    p=np.array(fc.init_walker_pos(f,ndim=k,nwalkers=nw))
    t.ok('shape',p.shape==(nw,k),p.shape,(nw,k)); eps=1e-12*(np.abs(lo)+np.abs(hi))
    t.ok('inside',((p>=lo-eps)&(p<=hi+eps)).all(),p,[lo,hi])
    t.ok('walkers differ',nw<2 or (hi-lo).max()==0 or np.ptp(p,axis=0).max()>0,p)
