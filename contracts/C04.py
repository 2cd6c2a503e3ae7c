from dv.dsl import *
META=dict(functions=['kin_classes.IntProfileSersic.int','kin_classes.IntProfileExpZ.int/update_values','kin_classes.IntProfileExpZScale.int/update_values','kin_classes.IntensityProfile.int/update_values','kin_classes.IntensityProfileFiducial.__init__','kin_classes.IntensityProfileSersicExpScale.__init__','kin_functions.I_sersic','kin_functions.sigma_profile','kin_functions.Igal','kin_functions.disp_square'],
 assumptions=['Sersic index, effective radii, q0, core fraction positive'])
def harnesses(E):
    kc=E.mod('misfit.model.kin_classes'); kf=E.mod('misfit.model.kin_functions'); gl=E.mod('misfit.galaxy')
    def galaxy(vc,t=''):
        g=gl.Galaxy(); g.n=vc.real('n'+t,'pos'); g.re_arcsec=vc.real('re'+t,'pos'); g.q0=vc.real('q0'+t,'pos')
        return g
    def sersic(r,n,re): return np.exp(-(2*n-K('0.324'))*((r/re)**(1/n)-1))
    for cls,scale in (('IntensityProfileFiducial',K('1')),('IntensityProfileSersicExpScale',K('1.676'))):
        def mk(cls=cls,scale=scale):
            P=getattr(kc,cls)
            @E.h(cls)
            def h(vc):
                g=galaxy(vc); r=vc.real('r','nonneg'); z=vc.real('z')
                p=P(g)
                for step in (0,1):
                    n,re,q0=g.n,g.re_arcsec,g.q0
                    t=' after a galaxy update' if step else ''
                    z0=q0*re/scale
                    vc.ensure_eq('radial law times vertical exponential'+t,p.int(r,z),sersic(r,n,re)*np.exp(-abs(z)/z0),True)
                    vc.ensure('reference value at the effective radius'+t,p.int(re,0*z)==1)
                    vc.ensure('symmetric about the midplane'+t,p.int(r,-z)==p.int(r,z))
                    vc.ensure('positive'+t,p.int(r,z)>0)
                    vc.ensure('falls by e per scale height'+t,p.int(r,z0)==p.int(r,0*z)*np.exp(K('-1')))
                    vc.ensure('radial and vertical scale factors separate'+t,p.int(r,z)*p.int(re,0*z)==p.int(r,0*z)*p.int(re,z))
                    vc.canary('flat'+t,p.int(r,z)==1)
                    g.n,g.re_arcsec,g.q0=vc.real('n2','pos'),vc.real('re2','pos'),vc.real('q02','pos')
                    if not step: p.update_values(g)
            @E.h(cls+' on grids')
            def h(vc):
                g=galaxy(vc); p=P(g)
                sh=tuple(vc.int_(k,1) for k in('nZ','nY','nX')); r=vc.arr('rr',sh,sign='nonneg'); z=vc.arr('zz',sh)
                vc.ensure_eq('cell by cell',p.int(r,z),sersic(r,g.n,g.re_arcsec)*np.exp(-abs(z)/(g.q0*g.re_arcsec/scale)),True)
                vc.ensure('inputs untouched',both(finite(r),finite(z)))
            @E.h(cls+' objects are independent')
            def h(vc):
                g=galaxy(vc); p=P(g); r=vc.real('r','nonneg'); z=vc.real('z'); v=p.int(r,z)
                g2=galaxy(vc,'b'); p2=P(g2); p2.int(r,z); p2.update_values(galaxy(vc,'c'))
                vc.ensure('another profile never changes this one',p.int(r,z)==v)
        mk()
    @E.h('cored Sersic light')
    def h(vc):
        r,re,n,Ie,c=vc.real('r','nonneg'),vc.real('re','pos'),vc.real('n','pos'),vc.real('Ie'),vc.real('core','pos')
        v=kf.I_sersic(r,re,n,Ie,r_core=c)
        vc.ensure_eq('Sersic law of the cored radius',v,Ie*sersic(r+c*re,n,re),True)
        vc.ensure('reference value at the effective radius (cored)',kf.I_sersic(re-c*re,re,n,Ie,r_core=c)==Ie)
        vc.ensure('linear in its normalisation',kf.I_sersic(r,re,n,2*Ie,r_core=c)==2*v)
        vc.ensure('finite at zero radius',finite(kf.I_sersic(0*r,re,n,Ie,r_core=c)))
        vc.ensure_eq('default core is 1/300',kf.I_sersic(r,re,n,Ie),kf.I_sersic(r,re,n,Ie,r_core=K('1')/300))
        vc.canary('constant',v==Ie)
    @E.h('cored power-law dispersion')
    def h(vc):
        r,re,d,c=vc.real('r','nonneg'),vc.real('re','pos'),vc.real('d'),vc.real('core','pos')
        v=kf.sigma_profile(r,re,d=d,r_core=c)
        vc.ensure_eq('power law of the cored radius, one at the reference radius',v,((r+c*re)/(re+c*re))**d,True)
        vc.ensure('one at the reference radius',kf.sigma_profile(re,re,d=d,r_core=c)==1)
        vc.ensure('finite at zero radius',finite(kf.sigma_profile(0*r,re,d=d,r_core=c)))
        vc.ensure_eq('default slope and core',kf.sigma_profile(r,re),((r+re/300)/(re+re/300))**K('-0.089'))
    @E.h('two-dimensional versions use the elliptical radius')
    def h(vc):
        sh=tuple(vc.int_(k,1) for k in('nY','nX')); x,y=vc.arr('x',sh),vc.arr('y',sh)
        re,n,q,d,c=vc.real('re','pos'),vc.real('n','pos'),vc.real('q','pos'),vc.real('dPA'),vc.real('core','pos')
        a=d*pi/180
        r=np.sqrt(q*(y*np.cos(a)+x*np.sin(a))**2+(x*np.cos(a)-y*np.sin(a))**2/q)
        vc.ensure_eq('light',kf.Igal(x,y,re_arcsec=re,n=n,q=q,delt_PA=d,r_core=c),sersic(r+c*re,n,re),True)
        vc.ensure_eq('squared dispersion',kf.disp_square(x,y,q=q,delt_PA=d,re_mass_arcsec=re,r_core=c),(((r+c*re)/(re+c*re))**K('-0.089'))**2,True)
    return E.hs
