import numpy as np
from types import SimpleNamespace as NS
from misfit.model import kin_model as km
def run(t):
    r=t.rng; sh=(int(r.integers(1,6)),int(r.integers(1,9)))
    f=r.normal(0,3,sh); e=r.uniform(.1,3,sh); mo=r.normal(0,3,sh); mo[r.random(sh[0])<.2]=0; ns=r.random(sh[1])<r.choice([.5,.9,1.,0.])
    if r.random()<.2: mo[:,ns]=0
    t.input(flux=f,err=e,model=mo,nosky=ns)
    idx=np.where(ns)[0]; k=object.__new__(km.KinModel2D); m0=mo.copy(); f0=f.copy(); k.__dict__.update(model=mo.copy())
    k.scale_model(NS(spec2D=NS(flux=f,flux_err=e,wh_nosky=idx)))
    for i in range(sh[0]):
        a=(m0[i]/e[i])[ns]; d=(f[i]/e[i])[ns]
        q=np.linalg.lstsq(a[:,None],d,rcond=None)[0][0] if (a**2).sum()>0 else 0.
        t.eq('row %d'%i,k.model[i],q*m0[i],rtol=1e-7,scale=10.)
    t.same('flux unchanged',f,f0); t.same('indices unchanged',idx,np.where(ns)[0])
