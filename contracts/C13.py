from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_model.KinModel2D.scale_model','kin_model.KinModel2D.make_model','kin_model.KinModel2D.update_model'],
 assumptions=['fluxes, errors and model finite, errors not zero'])
def harnesses(E):
    km=E.mod('misfit.model.kin_model')
    def setup(vc):
        sh=(vc.int_('nY',1),vc.int_('nW',1)); nY,nW=sh
        ns=vc.arr('nosky',(nW,),kind='b'); idx=np.where(ns)[0]
        f=vc.arr('flux',sh); e=vc.arr('err',sh); mo=vc.arr('raw',sh)
        CTX.assume(tob((e!=0).all()))
        sp=NS(flux=f,flux_err=e,wh_nosky=idx); g=NS(spec2D=sp)
        k=object.__new__(km.KinModel2D); k.__dict__.update(model=mo.copy(),aperModel=None,no_scale=False)
        return k,g,sp,nY,nW,ns,f,e,mo
    def off(nW,ns,g): return total(nW,lambda j: ite_(ns[j],g(j),K('0.')))
    def parts(nW,ns,f,e,mo,i):
        return off(nW,ns,lambda j: f[i,j]*mo[i,j]/e[i,j]**2),off(nW,ns,lambda j: mo[i,j]**2/e[i,j]**2)
    def factor(nW,ns,f,e,mo,i):
        num,den=parts(nW,ns,f,e,mo,i)
        z=lift_s(den); nz=mk_not(eq(z.v,ZERO))
        q=num/den; return S(q.v,TRUE,'f'),mkb(nz)
    @E.h('scaling')
    def h(vc):
        k,g,sp,nY,nW,ns,f,e,mo=setup(vc); cp=[a.copy() for a in(f,e,sp.wh_nosky)]
        k.scale_model(g)
        def want(i,j):
            q,nz=factor(nW,ns,f,e,mo,i)
            return ite_(nz,q*mo[i,j],K('0.'))
        vc.ensure_eq('each row times its least-squares factor, zero without weight',k.model,lam((nY,nW),want),True)
        for a,b,nm in zip((sp.flux,sp.flux_err,sp.wh_nosky),cp,('flux','errors','sky-free columns')): vc.ensure_eq(nm+' unchanged',a,b)
        vc.canary('unscaled',k.model[0,0]==mo[0,0])
    @E.h('least squares')
    def h(vc):
        """lemma over the contract: residual orthogonal to the row, and no other factor does better"""
        k,g,sp,nY,nW,ns,f,e,mo=setup(vc); k.scale_model(g)
        i=vc.int_('row',0); vc.assume(i<nY)
        num,den=parts(nW,ns,f,e,mo,i); s=vc.real('other')
        vc.assume(den!=0)
        r=off(nW,ns,lambda j: (f[i,j]-k.model[i,j])*mo[i,j]/e[i,j]**2)
        vc.ensure_eq('residual orthogonal to the model row',r,K('0.'),True)
        # chi2(s) - chi2(scaled) = den*(s-q)^2 >= 0
        c0=off(nW,ns,lambda j: ((f[i,j]-k.model[i,j])/e[i,j])**2); c1=off(nW,ns,lambda j: ((f[i,j]-s*mo[i,j])/e[i,j])**2)
        q=num/den
        vc.ensure_eq('chi-square excess of any other factor is a square times the model weight',c1-c0,den*(s-q)**2)
        vc.ensure('model weight not negative',den>=0)
    @E.h('sky columns do not matter')
    def h(vc):
        k,g,sp,nY,nW,ns,f,e,mo=setup(vc); f2=vc.arr('flux2',(nY,nW)); e2=vc.arr('err2',(nY,nW)); CTX.assume(tob((e2!=0).all()))
        k.scale_model(g)
        k2=object.__new__(km.KinModel2D); k2.__dict__.update(model=mo.copy())
        pick=lambda a,b: lam((nY,nW),lambda i,j: ite_(ns[j],a[i,j],b[i,j]))
        k2.scale_model(NS(spec2D=NS(flux=pick(f,f2),flux_err=pick(e,e2),wh_nosky=sp.wh_nosky)))
        vc.ensure_eq('same scaled model',k.model,k2.model)
    for entry in('make_model','update_model'):
        @E.h(entry+' scales a copy')
        def h(vc,entry=entry):
            k,g,sp,nY,nW,ns,f,e,mo=setup(vc)
            A=NS(model=mo,galaxy=g,update_model=lambda theta=None: None); m0=mo.copy()
            k.__dict__.update(aperModel=A,theta=np.array([vc.real('t0')]),theta_vary=np.array([True]),n_free_param=1,kinProfile=NS(update_theta=lambda t:None))
            getattr(k,entry)(theta_fitting=[vc.real('t1')])
            def want(i,j):
                q,nz=factor(nW,ns,f,e,mo,i); return ite_(nz,q*mo[i,j],K('0.'))
            vc.ensure_eq('scaled',k.model,lam((nY,nW),want),True); vc.ensure_eq('aperture model untouched',mo,m0)
            k.no_scale=True
            getattr(k,entry)(theta_fitting=[vc.real('t1')]); vc.ensure_eq('unscaled on request',k.model,mo)
    return E.hs
