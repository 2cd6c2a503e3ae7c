import numpy as np
from types import SimpleNamespace as NS
from misfit.model.kin_model import KinModel2D
from misfit.fit import fit_core as fc
def run(t):
    r=t.rng; n=int(r.integers(1,9)); th=r.normal(0,10,n); va=r.random(n)<r.choice([.2,.5,.9,1.,0.]); t.input(theta=th,vary=va)
    img=np.ones((2,3)); got=[]
    m=object.__new__(KinModel2D)
    A=NS(model=img,spectra_cube=img,galaxy=None,update_model=lambda theta=None,**k: got.append(theta.copy()))
    m.__dict__.update(theta=th.copy(),theta_vary=va.copy(),theta_names=None,theta_names_nice=None,theta_init=None,kinProfile=NS(update_theta=lambda x:None),intensityProfile=None,spec_type='wave',no_scale=True,model=None,bestfit=None,aperModel=A,debug=False,kinModelOptions=None)
    m.setAttr(); nf=int(va.sum()); t.eq('free count',m.n_free_param,nf)
    v2=r.random(n)<.5; m.setAttr(theta_vary=v2.copy()); t.eq('free count after the free set changed',m.n_free_param,int(v2.sum())); t.same('vector kept',m.theta,th); m.setAttr(theta_vary=va.copy())
    for e in ('update_parameters','update_model','make_model','update_3D_int_model'):
        fit=r.normal(0,10,nf); t.input(fit=fit,entry=e); before=m.theta.copy(); w=before.copy(); w[va]=fit
        getattr(m,e)(**({'theta_fitting':fit})); t.same('full vector',m.theta,w); t.same('initial vector',m.theta_init,th)
        t.same('read back',np.asarray(fc.initialize_fitting_theta(m.theta,m.theta_vary)),fit)
        if e!='update_parameters':
            t.same('evaluated at',got[-1],w)
            k=int(r.integers(0,n+3))
            if k!=nf:
                ng=len(got); t.raises('wrong length',lambda: getattr(m,e)(theta_fitting=r.normal(0,1,k)),ValueError); t.same('unchanged after rejection',m.theta,w); t.ok('not evaluated',len(got)==ng)
