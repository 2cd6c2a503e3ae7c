import numpy as np
from types import SimpleNamespace as NS
from scipy.signal import fftconvolve
from scipy.integrate import quad
from misfit.galaxy import Galaxy
from misfit.instrument import Spectrograph
from misfit.model import aper_model as am, kin_classes as kc, kin_functions as kf
MAXCASES=600
def bare(cls,**kw):
    o=object.__new__(cls); o.__dict__.update(kw); return o
def wts(method,n,ext,dy):
    if method=='boxcar': return np.ones(n)
    s=ext/2/dy/2.3548200450309493; k=np.arange(n)-(n-1)/2.; w=np.exp(-k**2/2/s**2); return w/w.sum()
def moment(M,I,w): return np.sqrt((M*w[:,None]).sum()/(I*w[:,None]).sum())
def sig(r,re,rc,d=-.089): return (((r+rc*re)/re)/((re+rc*re)/re))**d
def ser(r,re,n,rc): return np.exp(-(2*n-.324)*(((r+rc*re)/re)**(1./n)-1))
def run(t):
    r=t.rng
    g=Galaxy(n=float(r.uniform(.5,4)),re_arcsec=float(r.choice([r.uniform(.03,.2),r.uniform(.1,1)])),q=float(r.uniform(.1,1)),q0=.19,re_mass_arcsec=float(r.uniform(.1,1)),q_mass=float(r.uniform(.2,1)),delt_PA=float(r.choice([0.,90.,r.uniform(-90,90)])),z=1.)
    F=float(r.uniform(.05,.9)); ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=F); ins.slit_width=float(r.choice([.7,r.uniform(.3,1.5)])); ins.instrument_resolution=39.
    method=str(r.choice(['optimal','boxcar'])); W=None if r.random()<.4 else float(r.uniform(.2,3)); n=int(r.integers(1,14)); R=None if r.random()<.5 else float(r.uniform(.1,2))
    xc,yc=[float(v) for v in r.choice([0.,.2,-.1],2)]
    kind=int(r.integers(3)); t.input(kind=['aligned','misaligned','rotation'][kind],method=method,extraction_width=W,nPixels=n,R=R,re=g.re_arcsec,q=g.q,delt_PA=g.delt_PA,FWHM=F,slit=ins.slit_width,xc=xc,yc=yc)
    bad=r.random()<.05
    if kind<2:
        cls=[am.AperModel1DDisp,am.AperModel1DDispMisalign][kind]
        kw=dict(galaxy=g,instrument=ins,nPixels=n,extraction_method='Optimal' if bad else method,extraction_width=W,disp_aper_radius_arcsec=R,xc=xc,yc=yc)
        if bad: t.raises('other extraction methods are rejected',lambda: cls(**kw)); return
        o=cls(**kw)
        rl=g.re_arcsec*np.sqrt(g.q); rm=g.re_mass_arcsec*np.sqrt(g.q_mass); q,pa=(1.,0.) if kind==0 else (g.q,np.radians(g.delt_PA))
        small=(rl if kind==0 else g.re_arcsec)<=.1; N=2*n if small else n; t.ok('number of aperture pixels',o.nPixels==N,o.nPixels,N)
        dx=ins.slit_width/(2*N+1); dy=o.extraction_width/(2*N+1)
        if W: t.ok('extraction width kept',o.extraction_width==W)
        k=np.arange(4*N+3)-2*N-1; x,y=np.meshgrid(k*dx-xc,k*dy-yc); yp=np.sin(pa)*x+np.cos(pa)*y; xp=np.cos(pa)*x-np.sin(pa)*y
        rad=np.sqrt(q*yp**2+xp**2/q); I=ser(rad,rl,g.n,1/300.); M=sig(rad,rm,1/300.)**2*I
        st=ins.PSF._conv_stamp; M,I=fftconvolve(M,st,mode='same'),fftconvolve(I,st,mode='same'); s=slice(N+1,3*N+2)
        sa=moment(M[s,s],I[s,s],wts(method,2*N+1,o.extraction_width,dy))
        t.eq('aperture dispersion',(kf.sigma_aper_dispersion if kind==0 else kf.sigma_aper_dispersion_misalign)(aperModel1DDisp=o,re_arcsec=rl,re_mass_arcsec=rm),sa,rtol=1e-6)
        Ro=R if R else rl
        ref=np.sqrt(quad(lambda a: sig(a,rm,1/300.)**2*ser(a,rl,g.n,1/300.)*a,0,Ro)[0]/quad(lambda a: ser(a,rl,g.n,1/300.)*a,0,Ro)[0])
        t.eq('correction',o.disp_aper_ratio,sa/ref,rtol=1e-5)
    else:
        p,m,q,k=[int(v) for v in(r.integers(0,4),r.integers(1,9),r.integers(0,4),r.integers(1,12))]; sh=(k+2*q,m+2*p); W=float(r.uniform(.2,3)); dy=W/k
        I=r.uniform(.01,3,sh); M=I*r.uniform(0,4,sh)
        mk=lambda I,M: bare(am.AperModel1DRot,padX=p,n_pix_x=m,padY=q,n_pix_y=k,y_aper=W,delt_x=.13,delt_y=dy,extraction_method='Optimal' if bad else method,I_conv_wide=I,sigsq_I_conv_wide=M)
        o=mk(I,M); t.input(pad=(p,q),npix=(m,k),I=I,M=M)
        if bad: t.raises('other extraction methods are rejected',o.trim_sum_aperture); return
        o.trim_sum_aperture(); t.eq('aperture dispersion',o.sigma_aper,moment(M[q:q+k,p:p+m],I[q:q+k,p:p+m],wts(method,k,W,dy)))
        b=mk(7.3*I,7.3*M); b.trim_sum_aperture(); t.eq('brighter light, same dispersion',b.sigma_aper,o.sigma_aper)
        kin=kc.KinProfileFiducial(galaxy=g); kin.update_theta(np.array([200.,.3,40.])); s0=o.sigma_aper
        c=bare(am.AperModel1DRot,kinProfile=kin,disp_aper_radius_arcsec=R or .5,update_kinProfile=lambda: None,calculate_kin_cube=lambda: None,convolve_kin_arr_PSF=lambda: None,trim_sum_aperture=lambda: None,sigma_aper=s0)
        c.calc_aper_correction(); v=200*2/np.pi*np.arctan((R or .5)/.3); t.eq('correction',c.disp_aper_ratio,s0/np.hypot(v,40.))
