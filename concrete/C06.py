import numpy as np
from misfit.instrument import Spectrograph,Imager,PSFGaussian,PSFMoffat
MAXCASES=3000
def run(t):
    r=t.rng
    kind=str(r.choice(['Gaussian','Moffat','gaussian ','MOFFAT'])); F=float(r.uniform(.05,2)); b=float(r.uniform(1.05,6)); cls=r.choice([Spectrograph,Imager]); over=bool(r.random()<.4)
    kw=dict(PSF_type=kind,PSF_FWHM=float(r.uniform(.05,2)) if over else F)
    mof='moffat' in kind.lower()
    if mof:
        if r.random()<.3: b=2.5
        else: kw['PSF_beta']=b
    nx,ny=[int(v) for v in r.integers(1,8,2)]; x,y=r.uniform(-2,2,nx),r.uniform(-2,2,ny)
    d=None if r.random()<.5 else float(r.uniform(.1,3)); t.input(kind=kind,FWHM=F,stored=kw['PSF_FWHM'],beta=b if mof else None,x=x,y=y,dither=d)
    P=cls(**kw).PSF; t.ok('kind',type(P) is (PSFMoffat if mof else PSFGaussian))
    a=dict(PSF_FWHM=F) if over else {}
    def shape(x,y):
        r2=(x[None,:]**2+y[:,None]**2)/F**2
        return (1+4*r2*(2**(1/b)-1))**-b if mof else 2**(-4*r2)
    k0=P.generate_conv_stamp(np.zeros(1),np.zeros(1),**a)[0,0]; t.ok('peak positive',k0>0 and np.isfinite(k0))
    x0,y0=x.copy(),y.copy()
    t.eq('rows along the slit, columns across, radial',P.generate_conv_stamp(x,y,**a),k0*shape(x,y),scale=k0); t.same('inputs',x,x0); t.same('inputs',y,y0)
    t.eq('half the peak at half the FWHM',P.generate_conv_stamp(np.array([F/2]),np.zeros(1),**a)[0,0],k0/2)
    P2=cls(**kw).PSF
    if d is not None:
        P.yspace_dither_arc=d; Q=cls(yspace_dither_arc=d,**kw).PSF
        t.eq('negative images, separation given at construction',Q.generate_conv_stamp(x,y,**a),k0*(shape(x,y)-.5*shape(x,y+d)-.5*shape(x,y-d)),scale=k0)
        t.eq('negative images',P.generate_conv_stamp(x,y,**a),k0*(shape(x,y)-.5*shape(x,y+d)-.5*shape(x,y-d)),scale=k0)
        P.yspace_dither_arc=None
        t.eq('negative images removed again',P.generate_conv_stamp(x,y,**a),k0*shape(x,y),scale=k0)
    t.eq('stored FWHM',P.PSF_FWHM,kw['PSF_FWHM'])
    t.eq('other PSF',P2.generate_conv_stamp(x,y,**a),k0*shape(x,y),scale=k0)
