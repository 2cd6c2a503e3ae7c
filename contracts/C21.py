from dv.dsl import *
from contracts.common import *
META=dict(functions=['galaxy_utils.calculate_2D_fit_weights','galaxy.ObsSpectrum2D.calculate_fit_weights','general_utils.gaus_profile','general_utils.gaus_simple'],
 assumptions=['finite fluxes and errors (masked data carry a fill value); positive row signal-to-noise cut: the low signal-to-noise rows include every row whose signal-to-noise is zero or undefined','optimal mode: the fitted width is positive'],
 trusted=['lmfit.minimize: fitted values are some finite numbers (positive width), fixed ones kept'])
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy')
    def build(vc,mode):
        sh=(vc.int_('rows',1),vc.int_('cols',1)); lowbits=vc.arr('low',(sh[0],),'b'); sky=vc.arr('skybits',sh,'b')
        s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(flux=vc.arr('flux',sh),flux_err=vc.arr('err',sh,sign='pos'),flux_incl_cont=vc.arr('fluxc',sh),mask_sky=lam(sh,lambda i,j: ind(sky[i,j])),weighting_type=mode)
        return s,sh,lowbits
    def snr(s,sh): return lambda i: abs(total(sh[1],lambda j: s.flux[i,j]*s.mask_sky[i,j]))/np.sqrt(total(sh[1],lambda j: (s.flux_err[i,j]*s.mask_sky[i,j])**2))
    def common(vc,s,sh,old):
        w,W=s.fitting_weight_profile,s.fitting_weight_matrix; n=sh[0]
        vc.ensure_eq('one weight per row, constant along wavelength',W,lam(sh,lambda i,j: w[i]),True)
        vc.ensure_eq('weight profile has one entry per row',w,lam((n,),lambda i: w[i]),True)
        for k,v in old.items(): vc.ensure_eq(k+' kept',s.__dict__[k],v)
        vc.canary('equal weights',np.all(lam((n,),lambda i: w[i]*n==1,'b')))
        return w
    def keep(s): return {k:lam(s.__dict__[k].shape,lambda i,j,a=s.__dict__[k].copy(): a[i,j]) for k in('flux','flux_err','flux_incl_cont','mask_sky')}
    def sums(vc,w,n,raw,pos,at=()):
        vc.sum_rule('row weights of one sign',n,pos,at); t=total(n,raw); vc.ensure_eq('weights proportional to the row weights',lam((n,),lambda i: w[i]*t),lam((n,),lambda i: ite_(t==0,K('0.'),raw(i))))
        vc.ensure('sum is one, or zero when no row carries weight',ite_(t==0,K('0.'),K('1.'))==np.sum(w))
        vc.forall('never negative',(n,),lambda i: w[i]>=0); return t
    @E.h('weights towards the edges')
    def h(vc):
        s,sh,low=build(vc,'up-edges'); S_=snr(s,sh); v=lam((sh[0],),lambda i: ind(finite(S_(i))))
        vc.assume(np.all(lam((sh[0],),lambda i: either(low[i],both(finite(S_(i)),no(S_(i)==0))),'b')))
        s.low_snr_row_inds=np.where(low)[0]; k=keep(s); s.calculate_fit_weights(); w=common(vc,s,sh,k); n=sh[0]
        raw=lambda i: ite_(low[i],K('0.'),1/S_(i));
        sums(vc,w,n,raw,raw)
        vc.ensure('low signal-to-noise rows carry no weight',np.all(lam((n,),lambda i: imp(low[i],w[i]==0),'b')))
        a,b=vc.int_('a',0),vc.int_('b',0); vc.assume(both(a<n,b<n)); vc.assume(both(no(low[a]),no(low[b])))
        vc.sum_rule('row weights',n,raw,(a,))
        vc.ensure('other rows: inversely proportional to signal-to-noise',w[a]*S_(a)==w[b]*S_(b)); vc.ensure('some weight in them',w[a]>0)
    @E.h('no weighting')
    def h(vc):
        s,sh,low=build(vc,'none'); s.low_snr_row_inds=np.where(low)[0]; k=keep(s); s.calculate_fit_weights(); w,W=s.fitting_weight_profile,s.fitting_weight_matrix; n=sh[0]
        vc.ensure_eq('equal weights',w,lam((n,),lambda i: 1/(n*K('1.'))),True); vc.ensure_eq('constant along wavelength',W,lam(sh,lambda i,j: 1/(n*K('1.'))),True); vc.ensure('sum to one',np.sum(w)==1)
        for kk,v in k.items(): vc.ensure_eq(kk+' kept',s.__dict__[kk],v)
        vc.canary('unit weights',w[0]==1)
    @E.h('optimal weighting')
    def h(vc):
        s,sh,low=build(vc,'optimal'); s.low_snr_row_inds=np.where(low)[0]; k=keep(s); L=Lmfit('vfit'); n=sh[0]
        with patched((gu,'lmfit',L)): s.calculate_fit_weights()
        w=common(vc,s,sh,k)
        (f,p,(xx,yy,ye))=L.calls[0]; vc.ensure('one Gaussian fit',both(len(L.calls)==1,f is gu.utils.gaus_residual))
        vc.ensure_eq('row positions',xx,lam((n,),lambda i: i*K('1.'))); vc.ensure_eq('row light, continuum included',yy,lam((n,),lambda i: abs(total(sh[1],lambda j: s.flux_incl_cont[i,j]*s.mask_sky[i,j])))); 
        vc.ensure_eq('row errors',ye,lam((n,),lambda i: total(sh[1],lambda j: s.flux_err[i,j]*s.mask_sky[i,j])))
        q=L.results[0]; mu,A,sg=q['mu'].value,q['A'].value,q['sigma'].value
        raw=lambda i: ite_(low[i],K('0.'),A*np.exp(-(i-mu)**2/(2*sg**2))/np.sqrt(2*pi*sg)); sums(vc,w,n,raw,lambda i: ite_(low[i],K('0.'),np.exp(-(i-mu)**2/(2*sg**2))/np.sqrt(2*pi*sg)))
        vc.ensure('low signal-to-noise rows carry no weight',np.all(lam((n,),lambda i: imp(low[i],w[i]==0),'b')))
    @E.h('unknown weighting')
    def h(vc):
        s,sh,low=build(vc,'sigma'); vc.ensure('rejected',vc.raises(Exception,lambda: s.calculate_fit_weights()))
    return E.hs
