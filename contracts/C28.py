from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_functions.check_slit_illum','kin_functions.calculate_effective_inst_res_lam_shift','kin_functions.PSF_convolve'],
 assumptions=['fitted width positive, slit width and resolution positive','light grid finite, smeared total not zero (C07)','the slit columns form a contiguous range inside the grid'],
 trusted=['lmfit.minimize: the fitted amplitude, centroid and width are some function of the coordinates and row light handed to lmfit_gaussian, with positive width'])
def harnesses(E):
    kf=E.mod('misfit.model.kin_functions')
    def clip(v,w): return ite_(v>0.5*w,0.5*w,ite_(v<-0.5*w,-0.5*w,v))
    def contract(vc,mu,F,w,d,W,tag=''):
        lo,hi=mu-0.5*F,mu+0.5*F; h=0.5*w
        inside=both(lo>=-h,hi<=h)
        vc.ensure(tag+'a profile inside the slit is unchanged',imp(inside,both(d==mu,W==F)))
        vc.ensure(tag+'position within the slit',both(d>=-h,d<=h))
        vc.ensure(tag+'position is the centroid, held inside the slit',d==clip(mu,w))
        a=ite_(lo<-h,-h,lo); b=ite_(hi>h,h,hi)
        vc.ensure(tag+'width is the overlap with the slit where positive',imp(b>a,W==b-a))
    def slit(vc):
        nX=vc.int_('nX',1); p=vc.int_('first',0); m=vc.int_('ncol',1); vc.assume(p+m<=nX)
        return nX,p,m,p+np.arange(m)
    @E.h('one row')
    def h(vc):
        nX,p,m,wh=slit(vc); x=vc.arr('x',(nX,)); A=vc.real('A'); mu=vc.real('mu'); F=vc.real('F','pos'); w=vc.real('w','pos')
        x0,wh0=x.copy(),wh.copy()
        d,W=kf.check_slit_illum(x,wh,A,mu,F,w)
        contract(vc,mu,F,w,d,W); vc.ensure_eq('coordinates unchanged',x,x0); vc.ensure_eq('columns unchanged',wh,wh0)
        vc.canary('always inside',d==mu)
    def fit(xa,ya,y_err=None): return opaque('fit_A',(),xa,ya),opaque('fit_mu',(),xa,ya),opaque('fit_FWHM',(),xa,ya,sign='pos')
    @E.h('every row')
    def h(vc):
        """check_slit_illum by its contract: an unspecified pair of the fitted values, handed the right arguments"""
        nX,p,m,wh=slit(vc); nY=vc.int_('nY',1); nZ=vc.int_('nZ',1); x=vc.arr('x',(nX,)); y=vc.arr('y',(nY,)); I=vc.arr('I',(nZ,nY,nX),sign='nonneg')
        R=vc.real('R','pos'); sw=vc.real('slit_meas','pos'); w=vc.real('w','pos'); lam0=vc.real('lam0','pos')
        class P: PSF_FWHM=vc.real('FWHM','pos'); _conv_stamp=None
        I0=I.copy()
        def conv(c,psf): return opaque('smear',c.shape,c)
        def check(xarr,wh_,A,mu,F,tot): return opaque('slit_pos',(),xarr,wh_,A,mu,F,tot),opaque('slit_wid',(),xarr,wh_,A,mu,F,tot,sign='pos')
        with patched((kf,'lmfit_gaussian',fit),(kf,'PSF_convolve',conv),(kf,'check_slit_illum',check)):
            v,s=kf.calculate_effective_inst_res_lam_shift(I_wide_3d=I,xarr=x,yarr=y,wh_in_slit_x=wh,R=R,slit_width_R_meas=sw,tot_slit_width=w,lam0=lam0,PSF=P)
            vc.ensure('one entry per row',both(v.shape[0]==nY,s.shape[0]==nY))
            L=conv(np.array([np.sum(I,axis=0)]),P)[0]
            k=vc.int_('row',0); vc.assume(k<nY)
            f=fit(x[wh],L[k,wh])
            d,W=check(x,wh,*f,w)
        vc.ensure_eq('velocity shift: the full slit width is the full-slit resolution element',v[k],C_KMS/(R*sw/w)*(d/w))
        vc.ensure_eq('dispersion of the effective width',s[k],lam0/(R*sw/W)/(2*np.sqrt(2*np.log(2.))))
        vc.ensure_eq('light unchanged',I,I0)
        vc.canary('no shift',v[0]==0)
    return E.hs
