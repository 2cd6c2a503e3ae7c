import numpy as np
from types import SimpleNamespace as NS
from misfit.model import kin_model as km
def run(t):
    r=t.rng; sh=(int(r.integers(1,6)),int(r.integers(1,9)))
    mask=(r.random(sh)<r.choice([.3,.8,1.,0.])).astype(r.choice([int,float])); f=r.normal(0,3,sh); e=r.uniform(.1,3,sh); w=r.uniform(0,2,sh); mo=r.normal(0,3,sh)
    f[mask==0]=r.choice([-99.,1e6],int((mask==0).sum())); e[mask==0]=-99.
    t.input(mask=mask,flux=f,err=e,weight=w,model=mo)
    k=object.__new__(km.KinModel2D); nf=int(r.integers(0,5)); k.__dict__.update(aperModel=NS(galaxy=NS(spec2D=NS(flux=f,flux_err=e,spec_mask=mask,fitting_weight_matrix=w))),model=mo,n_free_param=nf)
    m=mask==1; c=lambda mo,w: float(np.sum((w*((f-mo)/e)**2)[m])); one=np.ones(sh)
    t.eq('chi-square',k.model_chisq(),c(mo,w)); t.eq('unweighted',km._model_chisq_no_weight(k),c(mo,one))
    m2=r.normal(0,3,sh); t.input(model2=m2); t.eq('given model',km._model_chisq(k,model=m2),c(m2,w))
    t.eq('likelihood difference',km._model_llike(k)-km._model_llike(k,model=m2),-.5*(c(mo,w)-c(m2,w)),rtol=1e-8,scale=c(mo,w)+c(m2,w)+1)
    m3=np.where(m,mo,1e5); t.eq('masked model',km._model_llike(k,model=m3),km._model_llike(k)); t.eq('masked model chi',km._model_chisq(k,model=m3),c(mo,w))
    if m.sum()!=nf:
        t.eq('reduced',k.model_redchisq(),c(mo,w)/(m.sum()-nf)); t.eq('reduced unweighted',k.model_redchisq_no_weight(),c(mo,one)/(m.sum()-nf))
