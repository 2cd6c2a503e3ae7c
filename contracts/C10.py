from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_model.KinModel2D.update_parameters','kin_model.KinModel2D.make_model','kin_model.KinModel2D.update_model','kin_model.KinModel2D.update_3D_int_model','kin_model.KinModel2D.setAttr','fit_core.initialize_fitting_theta'],
 assumptions=['one free/fixed flag per parameter'])
def rank(vary,i): return total(i,lambda k: ind(vary[k]))
class Spy:
    """kinematic profile and aperture model stand-ins: record the parameter vector they are handed"""
    def __init__(s,img): s.got=[]; s.model=img; s.spectra_cube=img; s.galaxy=None
    def update_theta(s,theta): s.got.append(theta.copy())
    def update_model(s,theta=None,**k): s.got.append(theta.copy())
def harnesses(E):
    km=E.mod('misfit.model.kin_model'); fc=E.mod('misfit.fit.fit_core')
    def model(vc,n=None):
        n=vc.int_('n',1) if n is None else n
        m=object.__new__(km.KinModel2D); th=vc.arr('theta',(n,)); va=vc.arr('vary',(n,),kind='b')
        img=vc.arr('img',(vc.int_('nY',1),vc.int_('nW',1)))
        m.__dict__.update(theta=th.copy(),theta_vary=va.copy(),theta_names=None,theta_names_nice=None,theta_init=None,kinProfile=Spy(img),intensityProfile=None,spec_type='wave',no_scale=True,model=None,bestfit=None,aperModel=Spy(img),debug=False,model_cube=None,kinModelOptions=None)
        m.setAttr()
        return m,n,th,va,img
    def elem(a,r):
        """entry r of the free vector, without a range test (rank(i) is in range exactly when i is free)"""
        v,ok=frozen(a).num((lift_s(r).v,)); return S(v,ok,'f')
    def plain(k): return S(lift_s(k).v,TRUE,'i')
    def reads(vc,m,n,th,va,fit):
        vc.ensure_eq('free entries written in order, fixed ones kept',m.theta,lam((n,),lambda i: ite_(va[i],elem(fit,rank(va,i)),th[i])))
    @E.h('set-up')
    def h(vc):
        m,n,th,va,img=model(vc)
        vc.ensure('number of free parameters',m.n_free_param==rank(va,n))
        vc.ensure_eq('initial vector stored',m.theta_init,th)
        m.theta[0]=m.theta[0]+1
        vc.ensure_eq('initial vector is a copy',m.theta_init,th)
        vc.ensure_eq('flags kept',m.theta_vary,va)
    @E.h('free set changed later')
    def h(vc):
        m,n,th,va,img=model(vc); v2=vc.arr('vary2',(n,),kind='b'); w=v2.copy(); m.setAttr(theta_vary=v2)
        vc.ensure('number of free parameters follows',m.n_free_param==rank(w,n)); vc.ensure_eq('vector unchanged',m.theta,th); vc.ensure_eq('initial vector unchanged',m.theta_init,th)
        vc.canary('as before',m.n_free_param==rank(va,n))
    for entry in ('update_parameters','update_model','make_model','update_3D_int_model'):
        @E.h(entry)
        def h(vc,entry=entry):
            m,n,th,va,img=model(vc); nf=plain(m.n_free_param)
            fit=vc.arr('fit',(nf,)); f0=fit.copy()
            getattr(m,entry)(fit) if entry=='update_parameters' else getattr(m,entry)(theta_fitting=fit)
            reads(vc,m,n,th,va,fit)
            vc.ensure_eq('initial vector unchanged',m.theta_init,th); vc.ensure_eq('free vector unchanged',fit,f0); vc.ensure_eq('flags unchanged',m.theta_vary,va)
            if entry!='update_parameters':
                vc.ensure_eq('aperture model evaluated at the full vector',m.aperModel.got[-1],m.theta)
                vc.ensure('evaluated once',len(m.aperModel.got)==1)
            vc.canary('theta free of fit',m.theta[0]==th[0])
    for entry in ('update_model','make_model','update_3D_int_model'):
        @E.h(entry+': wrong length')
        def h(vc,entry=entry):
            m,n,th,va,img=model(vc); k=vc.int_('nfit',0); vc.assume(k!=m.n_free_param); m.kinProfile.got.clear()
            ok=vc.raises(ValueError,lambda: getattr(m,entry)(theta_fitting=vc.arr('fit',(k,))))
            vc.ensure('rejected',ok)
            vc.ensure_eq('parameters unchanged',m.theta,th); vc.ensure_eq('initial vector unchanged',m.theta_init,th); vc.ensure('no model evaluated',len(m.aperModel.got)==0 and len(m.kinProfile.got)==0)
    @E.h('reading back')
    def h(vc):
        n=vc.int_('n',1); th=vc.arr('theta',(n,)); va=vc.arr('vary',(n,),kind='b'); t0=th.copy()
        out=fc.initialize_fitting_theta(th,va)
        vc.ensure_eq('free entries in order',out,th[va]); vc.ensure_eq('parameters unchanged',th,t0)
    @E.h('round trip')
    def h(vc):
        m,n,th,va,img=model(vc); fit=vc.arr('fit',(plain(m.n_free_param),))
        m.update_parameters(fit)
        out=fc.initialize_fitting_theta(m.theta,m.theta_vary)
        vc.ensure('same number of entries',out.shape[0]==m.n_free_param)
        # entries of `out` are listed by their place i in the full vector; that entry is number rank(i) of the free vector
        vc.ensure_eq('reading back returns what was written',out,lam((n,),lambda i: elem(fit,rank(va,i)))[va])
    return E.hs
