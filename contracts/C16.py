from dv.dsl import *
from contracts.common import *
META=dict(functions=['emission_lines_model.gaussian_line','emission_lines_model.EmissionLines1DModel.__init__','emission_lines_model.EmissionLines1DModel.make1DProfile','emission_lines_model.EmissionLinesSpectrum1DModel.__init__','emission_lines_model.EmissionLinesSpectrum1DModel.setAttr','emission_lines_model.EmissionLinesSpectrum1DModel.make1DProfile','emission_lines_model.EmissionLinesSpectrum1DModel.residual1DProfile'],
 assumptions=['positive dispersion, redshift above -1, positive rest wavelengths','the spectrum model is checked against the contract of the line-group model (sum of its member Gaussians), which is proved separately','line-list look-ups by contract (C17)'],
 trusted=['scipy.stats.norm.pdf is the unit-area normal density'])
def normal(x,mu,s): return np.exp(-((x-mu)/s)**2/2)/(s*np.sqrt(2*np.pi))
class Params:
    """fit parameters: values by name; numbered names index an unknown vector"""
    def __init__(s,**kw): s.kw=kw
    def __getitem__(s,k):
        if k.__class__ is str and k in s.kw: return NS(value=s.kw[k])
        p=core.text_parts(k)
        if len(p)==1:
            a=p[0].rstrip('0123456789'); p=[a,int(p[0][len(a):])]
        return NS(value=s.kw[p[0]][p[1]])
def harnesses(E):
    em=E.mod('misfit.model.emission_lines_model')
    @E.h('one line')
    def h(vc):
        n=vc.int_('n',1); x=vc.arr('wave',(n,)); mu,v,f=vc.real('mu','pos'),vc.real('disp','pos'),vc.real('flux'); c=(0,)
        x0=lam((n,),lambda i: x[i]); g=em.gaussian_line(x,mu,v,f); s=v/C_KMS*mu
        vc.ensure_eq('Gaussian of area flux, width dispersion over c times its wavelength',g,lam((n,),lambda i: f*normal(x[i],mu,s)),True)
        vc.ensure_eq('wavelengths kept',x,x0,True); vc.canary('zero',g[0]==0)
    @E.h('value at one wavelength')
    def h(vc):
        n,m=vc.int_('n',1),vc.int_('m',1); x,y=vc.arr('wave',(n,)),vc.arr('other',(m,)); i,j=vc.int_('i',0),vc.int_('j',0); vc.assume(both(i<n,j<m)); vc.assume(x[i]==y[j])
        mu,v,f=vc.real('mu','pos'),vc.real('disp','pos'),vc.real('flux')
        vc.ensure('independent of the other wavelengths',em.gaussian_line(x,mu,v,f)[i]==em.gaussian_line(y,mu,v,f)[j])
    def group(vc,given=True,**kw):
        L=vc.int_('lines',1); m=em.EmissionLines1DModel(linenames_arr=vc.arr('names',(L,),'i'),restwave_arr=vc.arr('rest',(L,),sign='pos'),flux_ratio_arr=vc.arr('ratio',(L,)),**kw)
        return m,L
    @E.h('line group')
    def h(vc):
        n=vc.int_('n',0); x=vc.arr('wave',(n,)); z,v,f=vc.real('z','nonneg'),vc.real('disp','pos'),vc.real('flux'); m,L=group(vc); r,q=m.restwave_arr,m.flux_ratio_arr
        want=lam((n,),lambda i: total(L,lambda k: f*q[k]*normal(x[i],r[k]*(1+z),v/C_KMS*(r[k]*(1+z)))))
        m.make1DProfile(x,z,v,f); vc.ensure_eq('sum of the member lines',m.profile,want,True)
        a=m.profile; z2,v2,f2=vc.real('z2','nonneg'),vc.real('disp2','pos'),vc.real('flux2'); m.make1DProfile(x,z2,v2,f2)
        vc.ensure_eq('a later call replaces the profile',m.profile,lam((n,),lambda i: total(L,lambda k: f2*q[k]*normal(x[i],r[k]*(1+z2),v2/C_KMS*(r[k]*(1+z2))))),True)
        vc.ensure_eq('the profile handed out before is kept',a,want,True)
    @E.h('any line shape')
    def h(vc):
        n=vc.int_('n',0); x=vc.arr('wave',(n,)); z,v,f=vc.real('z','nonneg'),vc.real('disp','pos'),vc.real('flux')
        sh=lambda w,mu,s,a: lam((w.shape[0],),lambda i: S(tm.app('lineshape',[lift_s(w[i]).v,lift_s(mu).v,lift_s(s).v,lift_s(a).v]),TRUE,'f'))
        m,L=group(vc,profile_function=sh); r,q=m.restwave_arr,m.flux_ratio_arr; m.make1DProfile(x,z,v,f)
        vc.ensure_eq('sum of the member lines',m.profile,lam((n,),lambda i: total(L,lambda k: sh(x,r[k]*(1+z),v,f*q[k])[i])),True)
    class Group:
        """contract of EmissionLines1DModel: profile at a wavelength depends on that wavelength and the arguments only"""
        def __init__(s,name=None,**kw): s.name=name
        def at(s,w,z,v,f): return S(tm.app('group',[lift_s(s.name).v,lift_s(w).v,lift_s(z).v,lift_s(v).v,lift_s(f).v]),both_ok(lift_s(w),lift_s(f)),'f')
        def make1DProfile(s,w,z,v,f): s.profile=arrays.mapnum(w,lambda a,ok: (lambda q: (q.v,q.ok))(s.at(S(a,ok,'f'),z,v,f)),'f')
    def spectrum(vc):
        G,o=vc.int_('groups',0),vc.int_('order',0); m=em.EmissionLinesSpectrum1DModel(names_arr=vc.arr('group_names',(G,),'i'),cont_order=o)
        F,c=vc.arr('flux',(G,)),vc.arr('cont',(o+1,)); z,v=vc.real('z','nonneg'),vc.real('disp','pos')
        def at(w): return total(G,lambda k: Group(m.names_arr[k]).at(w,z,v,F[k]))+total(o+1,lambda k: c[k]*K('1.e-18')*np.power(w,k))
        return m,Params(z=z,vel_disp=v,cont_coeff=c,flux=F),at
    @E.h('spectrum')
    def h(vc):
        n=vc.int_('n',0); x=vc.arr('wave',(n,),sign='pos'); m,p,at=spectrum(vc)
        with patched((em,'EmissionLines1DModel',Group)):
            r=m.make1DProfile(p,x); vc.ensure_eq('line groups plus polynomial continuum',r,lam((n,),lambda i: at(x[i])),True)
            vc.ensure_eq('fluxes recorded in order',m.flux_arr,p.kw['flux'],True); vc.ensure('parameters recorded',both(m.z==p.kw['z'],m.vel_disp==p.kw['vel_disp']))
            vc.ensure_eq('repeatable',m.make1DProfile(p,x),r,True)
    @E.h('spectrum, every continuum order up to three')
    def h(vc):
        for o in range(4):
            n=vc.int_('n',0); x=vc.arr('wave',(n,),sign='pos'); c=[vc.real('c%d'%k) for k in range(o+1)]; f=[vc.real('f0'),vc.real('f1')]; nm=[vc.int_('g0'),vc.int_('g1')]; z,v=vc.real('z','nonneg'),vc.real('disp','pos')
            m=em.EmissionLinesSpectrum1DModel(names_arr=nm,cont_order=o)
            with patched((em,'EmissionLines1DModel',Group)): r=m.make1DProfile(Params(z=z,vel_disp=v,cont_coeff=c,flux=f),x)
            def want(i):
                t=Group(nm[0]).at(x[i],z,v,f[0])+Group(nm[1]).at(x[i],z,v,f[1])
                for k in range(o+1): t=t+c[k]*K('1.e-18')*x[i]**k
                return t
            vc.ensure_eq('groups plus continuum',r,lam((n,),want),True)
    @E.h('residual')
    def h(vc):
        n=vc.int_('n',0); x=vc.arr('wave',(n,),sign='pos'); d,e,mk=vc.arr('data',(n,),finite=False),vc.arr('err',(n,),finite=False),vc.arr('mask',(n,)); m,p,at=spectrum(vc)
        with patched((em,'EmissionLines1DModel',Group)): r=m.residual1DProfile(p,x,d,e,mk)
        w=np.where(mk==1)[0]
        good=lam((n,),lambda i: (at(x[i])-d[i])/e[i])[w]
        vc.ensure_eq('on the good pixels, in order; zero where not finite',r,np.where(np.isfinite(good),good,K('0.')),True)
        vc.ensure('always finite',np.isfinite(r).all()); vc.canary('all zero',(r==0).all())
    @E.h('only Gaussian shapes')
    def h(vc):
        for s in('voigt','lorentzian',None): vc.ensure('rejected',vc.raises(ValueError,lambda: em.EmissionLinesSpectrum1DModel(shape1D=s)))
    return E.hs
