from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_classes.ThetaPriorFlat.log_prior','kin_functions._between','fit_core.lnprob','fit_core.lnlike'],
 assumptions=['parameters and bounds are finite; one pair of bounds per parameter','the likelihood may be any value at all, including NaN and infinities'])
def rank(vary,i): return total(i,lambda k: ind(vary[k]))
def harnesses(E):
    kc=E.mod('misfit.model.kin_classes'); fc=E.mod('misfit.fit.fit_core')
    def prior(vc):
        n=vc.int_('n',1); va=vc.arr('vary',(n,),kind='b'); bo=vc.arr('bounds',(n,2)); th=vc.arr('theta',(n,))
        fit=vc.arr('fit',(S(lift_s(rank(va,n)).v,TRUE,'i'),))
        return n,va,bo,th,fit,kc.ThetaPriorFlat(theta=th,theta_vary=va,theta_bounds=bo)
    def elem(a,r):
        v,ok=frozen(a).num((lift_s(r).v,)); return S(v,ok,'f')
    def inside(n,va,bo,fit):
        x=lam((n,),lambda i: imp(va[i],both(bo[i,0]<=elem(fit,rank(va,i)),elem(fit,rank(va,i))<=bo[i,1])),'b')
        return x.all()
    @E.h('prior')
    def h(vc):
        n,va,bo,th,fit,P=prior(vc); cp=[x.copy() for x in(va,bo,th,fit)]
        p=P.log_prior(theta_fitting=fit); q=inside(n,va,bo,fit)
        if isinstance(p,float) and p==-np.inf: vc.ensure('minus infinity only outside',no(q))
        else: vc.ensure('zero inside',both(q,p==0))
        for a,b,nm in zip((va,bo,th,fit),cp,('flags','bounds','parameters','free vector')): vc.ensure_eq(nm+' unchanged',a,b)
    @E.h('prior does not look at fixed parameters')
    def h(vc):
        n,va,bo,th,fit,P=prior(vc)
        b2=vc.arr('bounds2',(n,2)); t2=vc.arr('theta2',(n,))
        bo2=lam((n,2),lambda i,j: ite_(va[i],bo[i,j],b2[i,j]))
        p=P.log_prior(theta_fitting=fit); p2=kc.ThetaPriorFlat(theta=t2,theta_vary=va,theta_bounds=bo2).log_prior(theta_fitting=fit)
        z=lambda p: not(isinstance(p,float) and p==-np.inf)
        vc.ensure('same prior',z(p)==z(p2))
    class Fit:
        """fit object: prior value and likelihood are whatever the contract of each allows"""
        def __init__(s,vc,prior,like):
            s.calls=[]; s.thetaPrior=NS(log_prior=lambda theta_fitting=None:(s.calls.append(('prior',theta_fitting)),prior)[1])
            s.kinModel=NS(model_llike=lambda:(s.calls.append(('like',None)),like)[1])
        def update_model(s,theta_fitting=None): s.calls.append(('model',theta_fitting))
    def anylike(vc): return S(tm.var(vc.u('like'),'R',None),tm.bapp('in_'+vc.u('like_finite'),[]),'f')
    @E.h('posterior inside')
    def h(vc):
        L=anylike(vc); f=Fit(vc,K('0.'),L); x=vc.arr('fit',(vc.int_('nf',1),))
        r=fc.lnprob(x,f)
        if isinstance(r,float) and r==-np.inf: vc.ensure('minus infinity only when the likelihood is not finite',no(mkb(L.ok)))
        else: vc.ensure('prior plus likelihood, finite',both(mkb(lift_s(r).ok),r==L))
        vc.ensure('model evaluated at the given vector',len([c for c in f.calls if c[0]=='model' and c[1] is x])==1 and len(f.calls)==3 and f.calls[-1][0]=='like')
    @E.h('posterior adds a general prior')
    def h(vc):
        L=anylike(vc); p0=vc.real('prior'); f=Fit(vc,p0,L); r=fc.lnprob(vc.arr('fit',(vc.int_('nf',1),)),f)
        if isinstance(r,float) and r==-np.inf: vc.ensure('minus infinity only when the likelihood is not finite',no(mkb(L.ok)))
        else: vc.ensure('prior plus likelihood, finite',both(mkb(lift_s(r).ok),r==p0+L))
    for bad in (-np.inf,np.nan):
        @E.h('posterior outside (%s)'%bad)
        def h(vc,bad=bad):
            f=Fit(vc,bad,anylike(vc)); r=fc.lnprob(vc.arr('fit',(vc.int_('nf',1),)),f)
            vc.ensure('minus infinity',isinstance(r,float) and r==-np.inf)
            vc.ensure('model not evaluated',not any(c[0] in('model','like') for c in f.calls))
    for like in (np.nan,np.inf,-np.inf):
        @E.h('posterior with likelihood %s'%like)
        def h(vc,like=like):
            r=fc.lnprob(vc.arr('fit',(vc.int_('nf',1),)),Fit(vc,K('0.'),like))
            vc.ensure('minus infinity',isinstance(r,float) and r==-np.inf)
    @E.h('posterior with the real prior')
    def h(vc):
        n,va,bo,th,fit,P=prior(vc); L=anylike(vc); f=Fit(vc,None,L); f.thetaPrior=P
        r=fc.lnprob(fit,f); q=inside(n,va,bo,fit)
        if isinstance(r,float) and r==-np.inf: vc.ensure('minus infinity only outside or for a non-finite likelihood',either(no(q),no(mkb(L.ok))))
        else: vc.ensure('likelihood inside',both(q,r==L))
        vc.ensure('model evaluated only inside',imp(bool(f.calls),q))
    return E.hs
