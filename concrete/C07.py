import numpy as np
from types import SimpleNamespace as NS
from misfit.model import kin_functions as kf
MAXCASES=2500
def conv(a,k):
    """exact centred convolution over the last axes, brute force"""
    out=np.zeros(a.shape)
    off=[(n-1)//2 for n in k.shape]
    for idx in np.ndindex(*k.shape):
        sh=[i-o for i,o in zip(idx,off)]
        src=tuple(slice(max(0,-s),a.shape[d]-max(0,s)) for d,s in enumerate(sh)); dst=tuple(slice(max(0,s),a.shape[d]-max(0,-s)) for d,s in enumerate(sh))
        if all(abs(s)<a.shape[d] for d,s in enumerate(sh)): out[dst]+=a[src]*k[idx]
    return out
def run(t):
    r=t.rng
    nW,nY,nX=[int(v) for v in r.integers(1,6,3)]; cube=r.uniform(0,1,(nW,nY,nX)); 
    if r.random()<.3: cube-=.3
    ker=r.uniform(0,1,(1,int(r.integers(1,6)),int(r.integers(1,6)))); F=float(r.choice([0.,.6])); t.input(cube=cube,kernel=ker,FWHM=F)
    P=NS(PSF_FWHM=F,_conv_stamp=ker); c0=cube.copy(); out=kf.PSF_convolve(cube,P); t.same('cube unchanged',cube,c0)
    if F==0: t.same('zero-width PSF',out,c0)
    else:
        raw=conv(c0,ker)
        if abs(raw.sum())>.05*np.abs(raw).sum():
            t.eq('smeared cube',out,raw*(c0.sum()/raw.sum()),rtol=1e-8); t.eq('flux conserved',out.sum(),c0.sum(),rtol=1e-8,scale=np.abs(c0).sum())
    P=NS(PSF_FWHM=F,_conv_stamp=ker[0]); out=kf.PSF_convolve_flat(c0[0],P); t.eq('smeared image',out,c0[0] if F==0 else conv(c0[0],ker[0]),rtol=1e-8)
    n=int(r.integers(1,30)); w0,dw=float(r.uniform(1e3,2e4)),float(r.uniform(.1,5)); wave=w0+dw*np.arange(n); sg=float(r.uniform(.05,4)*dw); mod=r.uniform(0,1,(n,nY)); m0=mod.copy()
    if r.random()<.2: mod[:]=0; mod[n//2]=1; m0=mod.copy()
    t.input(wave=wave,inst_disp=sg,model=mod)
    x0=float(r.choice(wave)); g=kf.gaus_from_fwhm(wave,sg,x0); t.eq('kernel',g,2.**(-4*((wave-x0)/sg)**2),rtol=1e-8,scale=1.)
    out=kf.inst_convol_complete(mod,wave,sg); m=(n-1)//2
    k=np.exp(-((np.arange(2*m+1)-m)*dw)**2/(2*sg**2))[:,None]
    raw=conv(m0,k); t.eq('spectral smearing',out,raw*(m0.sum()/raw.sum()),rtol=1e-7,scale=1.); t.same('model unchanged',mod,m0)
    xx=wave.copy(); bad=r.random(n)<.3; bad[n//2]=False; xx[bad]=r.choice([np.nan,np.inf,-np.inf],int(bad.sum())); t.input(xx=xx)
    k=np.where(np.isfinite(xx),2.**(-4*((np.where(np.isfinite(xx),xx,0)-wave[n//2])/(2.5*sg))**2),0.)[:,None]; raw=conv(m0,k)
    if raw.sum()>1e-3: t.eq('non-finite kernel values contribute nothing',kf.convol_instconstfwhm(m0.copy(),xx,wave[n//2],2.5*sg),raw*(m0.sum()/raw.sum()),rtol=1e-7,scale=1.)
    f,g=[int(v) for v in r.integers(1,5,2)]; a=r.normal(0,1,(nW*f,nY*g,nX)); t.input(shape=a.shape,factors=[f,g])
    a3=r.normal(0,1,(nW,nY*f,nX*g)); t.eq('rebin, last axes',kf.rebin(a3,nW,nY,nX),a3.reshape(nW,nY,f,nX,g).sum(axis=(2,4)),scale=10.)
    t.eq('rebin',kf.rebin(a,nW,nY,nX),a.reshape(nW,f,nY,g,nX).sum(axis=(1,3)),scale=10.)
