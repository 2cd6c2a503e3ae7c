from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_functions.sigma_aper_dispersion','kin_functions.sigma_aper_dispersion_misalign','kin_functions.sigma_e_dispersion','kin_functions.func_wrapper_sigsq_I','kin_functions.func_wrapper_I','kin_functions.sigsq_I_circ_nosee_integrand','kin_functions.I_circ_nosee_integrand','aper_model.AperModel1DDispBase.setup_model_grid','aper_model.AperModel1DDisp.__init__','aper_model.AperModel1DDisp.setup_calcs','aper_model.AperModel1DDisp.calc_aper_correction','aper_model.AperModel1DDispMisalign.__init__','aper_model.AperModel1DDispMisalign.setup_calcs','aper_model.AperModel1DDispMisalign.calc_aper_correction','aper_model.AperModel1DRot.setup_model_grid','aper_model.AperModel1DRot.trim_sum_aperture','aper_model.AperModel1DRot.calc_aper_correction'],
 assumptions=['callees by contract: disp_square and Igal (C03, C04) are functions of coordinates and their parameters, PSF stamps (C06), smearing (C07), frame transform (C01)'],
 trusted=['scipy.integrate.quad returns the integral of its integrand over the given range','scipy.signal.fftconvolve is linear in its first input'])
FW=lambda: 2*np.sqrt(2*np.log(2.))
def weight(method,nr,ext,dy):
    """extraction weight of aperture row k (rows counted from the first aperture row)"""
    if method=='boxcar': return lambda k: K('1.')
    s=0.5*ext/dy/FW()
    g=lambda k: np.exp(-((k-(nr-1)/2.)/s)**2/2)/(s*np.sqrt(2*np.pi))
    tot=total(nr,g)
    return lambda k: g(k)/tot
def second_moment(M,I,r0,nr,c0,nc,w,cell):
    """extraction-weighted sums over rows r0..r0+nr-1 and columns c0..c0+nc-1"""
    num=total(nr,lambda k: total(nc,lambda j: M[r0+k,c0+j]*w(k)*cell)); den=total(nr,lambda k: total(nc,lambda j: I[r0+k,c0+j]*w(k)*cell))
    return np.sqrt(num/den)
class PSF:
    def __init__(s,F): s.PSF_FWHM=F; s._conv_stamp=None
    def generate_conv_stamp(s,x,y,**k): return opaque('stamp',('kY','kX'),x,y,s.PSF_FWHM)
    def set_conv_stamp(s,k): s._conv_stamp=k
def harnesses(E):
    am=E.mod('misfit.model.aper_model'); kf=E.mod('misfit.model.kin_functions')
    def disp2(x,y,**k): return opaque('disp_square',x.shape,x,y,*[k[q] for q in sorted(k)],sign='nonneg')
    def igal(x,y,**k): return opaque('Igal',x.shape,x,y,*[k[q] for q in sorted(k)],sign='nonneg')
    def conv(a,b,mode='full'):
        assert mode=='same'; return opaque('smear',a.shape,a,b)
    def aper(vc,method,blur=True):
        N=vc.int_('N',1); sh=(4*N+3,4*N+3)
        dx,dy=vc.real('dx','pos'),vc.real('dy','pos')
        a=NS(nPixels=N,x_arr_full=vc.arr('xg',sh),y_arr_full=vc.arr('yg',sh),delt_x=dx,delt_y=dy,x_aper=dx*(2*N+1),padX=N+1,padY=N+1,extraction_method=method,extraction_width=vc.real('ext','pos'),r_core=vc.real('r_core','pos'),galaxy=galaxy(E,vc),instrument=NS(PSF=PSF(vc.real('FWHM','pos') if blur else K('0.'))))
        a.instrument.PSF._conv_stamp=vc.arr('kernel',(vc.int_('kY',1),vc.int_('kX',1)))
        return a,N,dx,dy
    funcs=dict(aligned=(kf.sigma_aper_dispersion if hasattr(kf,'sigma_aper_dispersion') else None),misaligned=kf.sigma_aper_dispersion_misalign)
    for nm,fn in funcs.items():
        def want(a,N,dx,dy,rl,rm,scale=None,mis=nm=='misaligned'):
            x,y=a.x_arr_full,a.y_arr_full; q,pa=(a.galaxy.q,a.galaxy.delt_PA) if mis else (1.,0.)
            s2=disp2(x,y,q=q,delt_PA=pa,re_mass_arcsec=rm,r_core=a.r_core)
            I=igal(x,y,re_arcsec=rl,n=a.galaxy.n,q=q,delt_PA=pa,r_core=a.r_core)
            M=s2*I
            if a.instrument.PSF.PSF_FWHM>0: M,I=conv(M,a.instrument.PSF._conv_stamp,mode='same'),conv(I,a.instrument.PSF._conv_stamp,mode='same')
            n=2*N+1
            return second_moment(M,I,N+1,n,N+1,n,weight(a.extraction_method,n,a.extraction_width,dy),dx*dy)
        for method in('optimal','boxcar'):
            for blur in(True,False):
                @E.h('%s, %s, %s'%(nm,method,'smeared' if blur else 'no smearing'))
                def h(vc,fn=fn,want=want,method=method,blur=blur):
                    with patched((kf,'disp_square',disp2),(kf,'Igal',igal),(kf,'fftconvolve',conv)),interned():
                        a,N,dx,dy=aper(vc,method,blur); rl,rm=vc.real('re_l','pos'),vc.real('re_m','pos'); e0=(a.extraction_width,a.nPixels)
                        s=fn(aperModel1DDisp=a,re_arcsec=rl,re_mass_arcsec=rm)
                        vc.ensure_eq('extraction-weighted second moment over the aperture',s,want(a,N,dx,dy,rl,rm))
                        vc.ensure('pixel size kept',both(a.delt_x==dx,a.delt_y==dy,a.extraction_width==e0[0],a.nPixels==e0[1]))
                        vc.canary('zero',s==0)
        @E.h(nm+', other extraction methods')
        def h(vc,fn=fn):
            with patched((kf,'disp_square',disp2),(kf,'Igal',igal),(kf,'fftconvolve',conv)):
                for m in('Optimal','gaussian',''):
                    a,N,dx,dy=aper(vc,m)
                    vc.ensure('rejected',vc.raises(Exception,lambda: fn(aperModel1DDisp=a,re_arcsec=K('1.'),re_mass_arcsec=K('1.'))))
        @E.h(nm+', brighter light')
        def h(vc,fn=fn):
            c=vc.real('c','pos'); a,N,dx,dy=aper(vc,'optimal'); b=NS(**a.__dict__); rl,rm=vc.real('re_l','pos'),vc.real('re_m','pos')
            # the real fftconvolve contract here: linear in its first input
            with patched((kf,'disp_square',disp2),(kf,'Igal',igal)),interned(): s=fn(aperModel1DDisp=a,re_arcsec=rl,re_mass_arcsec=rm)
            with patched((kf,'disp_square',disp2),(kf,'Igal',lambda x,y,**k: c*igal(x,y,**k))),interned(): s2=fn(aperModel1DDisp=b,re_arcsec=rl,re_mass_arcsec=rm)
            vc.ensure_eq('the same dispersion',s2,s)
    def rot(vc,method='optimal'):
        r=object.__new__(am.AperModel1DRot); am.AperModel1DBase.__init__(r)
        p,m,q,k=vc.int_('padX',0),vc.int_('n_pix_x',1),vc.int_('padY',0),vc.int_('n_pix_y',1); sh=(k+2*q,m+2*p)
        r.__dict__.update(padX=p,n_pix_x=m,padY=q,n_pix_y=k,y_aper=vc.real('ext','pos'),delt_x=vc.real('dx','pos'),delt_y=vc.real('dy','pos'),extraction_method=method,I_conv_wide=vc.arr('Iw',sh),sigsq_I_conv_wide=vc.arr('Mw',sh))
        return r,p,m,q,k
    for method in('optimal','boxcar'):
        @E.h('rotation model, '+method)
        def h(vc,method=method):
            r,p,m,q,k=rot(vc,method)
            r.trim_sum_aperture()
            vc.ensure_eq('extraction-weighted second moment over the aperture',r.sigma_aper,second_moment(r.sigsq_I_conv_wide,r.I_conv_wide,q,k,p,m,weight(method,k,r.y_aper,r.delt_y),r.delt_x*r.delt_y))
            vc.canary('zero',r.sigma_aper==0)
    @E.h('rotation model, brighter light')
    def h(vc):
        c=vc.real('c','pos'); r,p,m,q,k=rot(vc); r.trim_sum_aperture(); s=r.sigma_aper
        r.I_conv_wide=c*r.I_conv_wide; r.sigsq_I_conv_wide=c*r.sigsq_I_conv_wide; r.trim_sum_aperture()
        vc.ensure_eq('the same dispersion',r.sigma_aper,s)
    @E.h('rotation model, other extraction methods')
    def h(vc):
        for mth in('Optimal','gaussian',''):
            r,*_=rot(vc,mth); vc.ensure('rejected',vc.raises(Exception,r.trim_sum_aperture))
    @E.h('unit-sum weight')
    def h(vc):
        k=vc.int_('rows',1); w=weight('optimal',k,vc.real('ext','pos'),vc.real('dy','pos'))
        vc.ensure('the weights add up to one',total(k,w)==1)
        e,d=vc.real('ext','pos'),vc.real('dy','pos'); s=0.5*e/d/FW()
        vc.ensure('half maximum at a quarter of the extraction width',np.exp(-((e/4/d)/s)**2/2)==K('0.5'))
    @E.h('reference dispersion')
    def h(vc):
        gx=vc.real('r','pos'); calls=[]
        def quad(f,a,b,**k):
            calls.append((f(gx),a,b)); return (vc.real('integral%d'%len(calls),'pos'),K('0.'))
        def sp(r,re,d=-0.089,r_core=None): return opaque('sigma_profile',(),r,re,d,r_core)
        def se(r,re,n,Ie,r_core=None): return opaque('I_sersic',(),r,re,n,Ie,r_core,sign='nonneg')
        a=NS(galaxy=galaxy(E,vc),Ie=vc.real('Ie','pos'),d=vc.real('d'),r_core=vc.real('r_core','pos')); rl,rm,ro=vc.real('re_l','pos'),vc.real('re_m','pos'),vc.real('r_out','pos')
        with patched((kf,'integrate',NS(quad=quad)),(kf,'sigma_profile',sp),(kf,'I_sersic',se)):
            s=kf.sigma_e_dispersion(aperModel1DDisp=a,re_arcsec=rl,re_mass_arcsec=rm,r_outer=ro)
            I=se(gx,rl,a.galaxy.n,a.Ie,r_core=a.r_core)*2*np.pi*gx; W=sp(gx,rm,d=a.d,r_core=a.r_core)**2*I
        vc.ensure('two integrals',len(calls)==2)
        vc.ensure('within the reference radius',all_(both(c[1]==0,c[2]==ro) for c in calls))
        i1,i2=[S(tm.var('integral%d'%k,'R','pos'),TRUE,'f') for k in(1,2)]
        first=bool(calls[0][0]==W)
        vc.ensure_eq('integrand of the light-weighted squared dispersion',calls[0 if first else 1][0],W); vc.ensure_eq('integrand of the light',calls[1 if first else 0][0],I)
        vc.ensure_eq('root of their ratio',s,np.sqrt(i1/i2) if first else np.sqrt(i2/i1))
    for cls,ap in (('AperModel1DDisp','sigma_aper_dispersion'),('AperModel1DDispMisalign','sigma_aper_dispersion_misalign')):
        for given in(True,False):
            @E.h('%s set-up, %s'%(cls,'given widths' if given else 'default widths'))
            def h(vc,cls=cls,ap=ap,given=given):
                seen={}
                def sap(aperModel1DDisp=None,re_arcsec=None,re_mass_arcsec=None): seen['ap']=(re_arcsec,re_mass_arcsec); return vc.real('s_ap','pos')
                def sig(aperModel1DDisp=None,re_arcsec=None,re_mass_arcsec=None,r_outer=None): seen['e']=(re_arcsec,re_mass_arcsec,r_outer); return vc.real('s_e','pos')
                g=galaxy(E,vc); ins=instrument(E,vc); ins.PSF=PSF(vc.real('FWHM','nonneg')); n0=vc.int_('N',1)
                kw=dict(galaxy=g,instrument=ins,nPixels=n0,xc=vc.real('xc'),yc=vc.real('yc'))
                if given: kw.update(extraction_width=vc.real('ext','pos'),disp_aper_radius_arcsec=vc.real('R_ap','pos'))
                with patched((kf,ap,sap),(kf,'sigma_e_dispersion',sig)):
                    a=getattr(am,cls)(**kw)
                rc,rmc=g.re_arcsec*np.sqrt(g.q),g.re_mass_arcsec*np.sqrt(g.q_mass); Rr=kw['disp_aper_radius_arcsec'] if given else rc
                vc.ensure('reference radius and sizes',both(seen['ap'][0]==rc,seen['ap'][1]==rmc,seen['e'][0]==rc,seen['e'][1]==rmc,seen['e'][2]==Rr))
                vc.ensure_eq('correction is aperture over reference dispersion',a.disp_aper_ratio,vc.real('s_ap','pos')/vc.real('s_e','pos'))
                small=(g.re_arcsec*np.sqrt(g.q) if cls=='AperModel1DDisp' else g.re_arcsec)<=0.1
                N=a.nPixels; vc.ensure('resolution doubled for small galaxies only',N==ite_(small,2*n0,n0))
                vc.ensure('grid: aperture of 2N+1 pixels padded by N+1',both(a.nX==4*N+3,a.nY==4*N+3,a.padX==N+1,a.padY==N+1,a.x_arr_full.shape[0]==a.nY,a.x_arr_full.shape[1]==a.nX))
                vc.ensure('the aperture is the slit by the extraction width',both(a.delt_x*(2*N+1)==ins.slit_width,a.delt_y*(2*N+1)==a.extraction_width,a.x_aper==ins.slit_width))
                vc.ensure_eq('columns',a.x_arr_full,lam((a.nY,a.nX),lambda i,j: (j-2*N-1)*a.delt_x-a.xc)); vc.ensure_eq('rows',a.y_arr_full,lam((a.nY,a.nX),lambda i,j: (i-2*N-1)*a.delt_y-a.yc))
                if given: vc.ensure('given extraction width kept',a.extraction_width==kw['extraction_width'])
                vc.ensure('stamp set',ins.PSF._conv_stamp is not None)
    @E.h('rotation model correction')
    def h(vc):
        r,p,m,q,k=rot(vc)
        class Kin:
            def vel(s,R,z): return opaque('vel',(),R,z)
            def sigma(s,R,z): return opaque('sig',(),R,z)
        R=vc.real('R_ap','pos'); sa=vc.real('s_ap','pos')
        r.__dict__.update(kinProfile=Kin(),disp_aper_radius_arcsec=R,update_kinProfile=lambda: None,calculate_kin_cube=lambda: None,convolve_kin_arr_PSF=lambda: None,trim_sum_aperture=lambda: r.__dict__.update(sigma_aper=sa))
        r.calc_aper_correction()
        vc.ensure_eq('aperture dispersion over root-sum-square velocity',r.disp_aper_ratio,sa/np.sqrt(Kin().vel(R,0.)**2+Kin().sigma(R,0.)**2))
    return E.hs
def all_(it):
    r=True
    for x in it: r=both(r,x)
    return r
