import numpy as np
from types import SimpleNamespace as NS
from misfit.model.kin_classes import ThetaPriorFlat
from misfit.fit import fit_core as fc
def run(t):
    r=t.rng; n=int(r.integers(1,8)); va=r.random(n)<r.choice([.3,.7,1.]); nf=int(va.sum()); lo=r.integers(-5,3,n).astype(float); hi=lo+r.integers(0,6,n)
    fit=np.array([r.choice([lo[i],hi[i],(lo[i]+hi[i])/2,lo[i]-(r.random()<.3),hi[i]+(r.random()<.3)]) for i in np.where(va)[0]]); th=r.choice([1e9,-1e9,0.],n)
    bo=np.stack([lo,hi],1); bo2=bo.copy(); bo2[~va]=r.choice([np.nan,1e9,0],(n,2))[~va]
    t.input(vary=va,bounds=bo2,fit=fit,theta=th)
    P=ThetaPriorFlat(theta=th,theta_vary=va,theta_bounds=bo2.tolist() if r.random()<.5 else bo2)
    want=0. if all(lo[i]<=x<=hi[i] for i,x in zip(np.where(va)[0],fit)) else -np.inf
    t.same('log prior',np.float64(P.log_prior(theta_fitting=fit)),np.float64(want))
    like=float(r.choice([-12.5,0.,3.,np.nan,np.inf,-np.inf])); t.input(likelihood=like); calls=[]
    F=NS(thetaPrior=P,update_model=lambda theta_fitting=None: calls.append(1),kinModel=NS(model_llike=lambda: like))
    lp=fc.lnprob(fit,F)
    t.same('log posterior',np.float64(lp),np.float64(like if want==0 and np.isfinite(like) else -np.inf)); t.ok('model not evaluated outside',bool(calls)==(want==0.))
