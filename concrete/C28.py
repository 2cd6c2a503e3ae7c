import numpy as np
from misfit.model import kin_functions as kf
from misfit.instrument import Spectrograph
MAXCASES=1500
C=299792.458
def run(t):
    r=t.rng; n=int(r.integers(4,30)); pad=int(r.integers(0,5)); w=float(r.uniform(.2,2)); dx=w/n
    x=(np.arange(n+2*pad)-(n+2*pad-1)/2)*dx; wh=np.arange(pad,n+pad); A=float(r.uniform(.1,5)); mu=float(r.normal(0,.7*w)); F=float(r.uniform(.02,2.5)*w)
    if r.random()<.1: mu=float(r.choice([-.5,.5]))*w
    t.input(mu=mu,FWHM=F,slit=w,n=n,pad=pad)
    d,W=kf.check_slit_illum(x,wh,A,mu,F,w)
    lo,hi=mu-F/2,mu+F/2; h=w/2; a,b=max(lo,-h),min(hi,h)
    t.ok('position within the slit',-h*(1+1e-12)<=d<=h*(1+1e-12),d,[-h,h]); t.eq('position',d,min(max(mu,-h),h),atol=1e-12)
    if b-a>1e-9: t.eq('width is the overlap',W,b-a,rtol=1e-9)
    if t.case%6==0:
        nY,nZ=int(r.integers(3,7)),2; y=(np.arange(nY)-(nY-1)/2)*dx; I=np.exp(-((x[None,None]-r.normal(0,.3*w))**2)/(2*(.3*w)**2))*r.uniform(.5,1,(nZ,nY,1))
        ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=float(r.uniform(2.5,4)*dx)); P=ins.PSF
        xs=x[np.abs(x)<=P.PSF_FWHM]; ys=y[np.abs(y)<=P.PSF_FWHM]
        k2=P.generate_conv_stamp(xs,ys); P.set_conv_stamp(k2[None])
        R=float(r.uniform(1000,5000)); lam0=float(r.uniform(5000,20000)); sm=float(r.uniform(.3,1)); I0=I.copy(); t.input(light=I,R=R,slit_meas=sm)
        v,s=kf.calculate_effective_inst_res_lam_shift(I_wide_3d=I,xarr=x,yarr=y,wh_in_slit_x=wh,R=R,slit_width_R_meas=sm,tot_slit_width=w,lam0=lam0,PSF=P)
        t.same('light unchanged',I,I0); L=kf.PSF_convolve(np.array([I.sum(axis=0)]),P)[0]
        for k in range(nY):
            a_,m_,f_=kf.lmfit_gaussian(x[wh],L[k,wh]); 
            if f_<1e-6: continue
            d,W=kf.check_slit_illum(x,wh,a_,m_,f_,w)
            t.eq('velocity shift',v[k],d*C/(R*sm),rtol=1e-8,atol=1e-9); t.eq('dispersion',s[k],lam0*W/(R*sm)/2.3548200450309493,rtol=1e-8)
