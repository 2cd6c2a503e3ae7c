from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_model._model_llike','kin_model._model_chisq','kin_model._model_chisq_no_weight','kin_model.KinModel2D.model_llike','kin_model.KinModel2D.model_chisq','kin_model.KinModel2D.model_redchisq','kin_model.KinModel2D.model_redchisq_no_weight'],
 assumptions=['the mask holds 0 and 1; fluxes, weights and model finite; errors finite and not zero (masked spectra carry a fill value)','number of unmasked pixels differs from the number of free parameters (reduced values)'])
def harnesses(E):
    km=E.mod('misfit.model.kin_model')
    def setup(vc):
        sh=(vc.int_('nY',1),vc.int_('nW',1))
        mb=vc.arr('keep',sh,kind='b'); mask=lam(sh,lambda i,j: ite_(mb[i,j],1,0),'i')
        f=vc.arr('flux',sh); e=vc.arr('err',sh); w=vc.arr('weight',sh); mo=vc.arr('model',sh)
        CTX.assume(tob((e!=0).all()))
        sp=NS(flux=f,flux_err=e,spec_mask=mask,fitting_weight_matrix=w)
        k=object.__new__(km.KinModel2D); k.__dict__.update(aperModel=NS(galaxy=NS(spec2D=sp)),model=mo,n_free_param=vc.int_('nfree',0))
        return k,sp,sh,mb,f,e,w,mo
    def tot(sh,g): return np.sum(lam(sh,g))
    def chi(sh,mb,f,e,w,mo): return tot(sh,lambda i,j: ite_(mb[i,j],w[i,j]*((f[i,j]-mo[i,j])/e[i,j])**2,K('0.')))
    def chi1(sh,mb,f,e,mo): return tot(sh,lambda i,j: ite_(mb[i,j],((f[i,j]-mo[i,j])/e[i,j])**2,K('0.')))
    def kept(vc,sp,mo,cp):
        for a,b,nm in zip((sp.flux,sp.flux_err,sp.spec_mask,sp.fitting_weight_matrix,mo),cp,('flux','errors','mask','weights','model')): vc.ensure_eq(nm+' unchanged',a,b)
    @E.h('chi-square')
    def h(vc):
        k,sp,sh,mb,f,e,w,mo=setup(vc); cp=[a.copy() for a in(f,e,sp.spec_mask,w,mo)]
        vc.ensure_eq('weighted',k.model_chisq(),chi(sh,mb,f,e,w,mo),True)
        vc.ensure_eq('unweighted',km._model_chisq_no_weight(k),chi1(sh,mb,f,e,mo),True)
        vc.canary('zero',k.model_chisq()==0)
        m2=vc.arr('model2',sh)
        vc.ensure_eq('weighted, given model',km._model_chisq(k,model=m2),chi(sh,mb,f,e,w,m2),True)
        vc.ensure_eq('unweighted, given model',km._model_chisq_no_weight(k,model=m2),chi1(sh,mb,f,e,m2),True)
        kept(vc,sp,mo,cp)
    @E.h('reduced chi-square')
    def h(vc):
        k,sp,sh,mb,f,e,w,mo=setup(vc); cp=[a.copy() for a in(f,e,sp.spec_mask,w,mo)]
        npix=tot(sh,lambda i,j: ind(mb[i,j])); d=npix-k.n_free_param; vc.assume(d!=0)
        vc.ensure_eq('weighted',k.model_redchisq(),chi(sh,mb,f,e,w,mo)/d,True)
        vc.ensure_eq('unweighted',k.model_redchisq_no_weight(),chi1(sh,mb,f,e,mo)/d,True)
        kept(vc,sp,mo,cp)
    @E.h('likelihood')
    def h(vc):
        k,sp,sh,mb,f,e,w,mo=setup(vc); cp=[a.copy() for a in(f,e,sp.spec_mask,w,mo)]
        L=k.model_llike(); vc.ensure('finite',finite(L))
        m2=vc.arr('model2',sh); L2=km._model_llike(k,model=m2)
        vc.ensure_eq('difference between two models is minus half the chi-square difference',L-L2,-(chi(sh,mb,f,e,w,mo)-chi(sh,mb,f,e,w,m2))/2,True)
        vc.ensure_eq('model-independent term',L+chi(sh,mb,f,e,w,mo)/2,L2+chi(sh,mb,f,e,w,m2)/2)
        kept(vc,sp,mo,cp)
    @E.h('masked pixels have no influence')
    def h(vc):
        k,sp,sh,mb,f,e,w,mo=setup(vc); m2=vc.arr('model2',sh); f2=vc.arr('flux2',sh); e2=vc.arr('err2',sh); w2=vc.arr('weight2',sh)
        CTX.assume(tob((e2!=0).all()))
        pick=lambda a,b: lam(sh,lambda i,j: ite_(mb[i,j],a[i,j],b[i,j]))
        k2=object.__new__(km.KinModel2D); k2.__dict__.update(aperModel=NS(galaxy=NS(spec2D=NS(flux=pick(f,f2),flux_err=pick(e,e2),spec_mask=sp.spec_mask,fitting_weight_matrix=pick(w,w2)))),model=pick(mo,m2),n_free_param=k.n_free_param)
        vc.ensure_eq('chi-square',k.model_chisq(),k2.model_chisq()); vc.ensure_eq('unweighted chi-square',km._model_chisq_no_weight(k),km._model_chisq_no_weight(k2)); vc.ensure_eq('likelihood',k.model_llike(),k2.model_llike())
    return E.hs
