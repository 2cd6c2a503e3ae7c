import numpy as np
from misfit import galaxy as gl
MAXCASES=400
def run(t):
    r=t.rng; m=int(r.integers(1,15)); n=int(r.integers(1,12)); mode=str(r.choice(['up-edges','none','optimal'],p=[.5,.2,.3])); t.input(mode=mode,rows=m,cols=n)
    if mode=='optimal': m=max(m,6)
    f=r.normal(0,1,(m,n)); e=r.uniform(.1,2,(m,n)); i=np.arange(m); fc=f*.05+5*np.exp(-(i-r.uniform(.3,.7)*m)**2/(2*(m/6.+.5)**2))[:,None]+.1; sky=(r.random((m,n))<.85).astype(float); sky[:,0]=1
    if mode=='up-edges' and r.random()<.4: e*=10.**r.uniform(-9,3)   # very bright or very faint rows: the total before normalisation can be tiny
    low=np.flatnonzero(r.random(m)<r.choice([0.,.3,1.])); s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(flux=f,flux_err=e,flux_incl_cont=fc,mask_sky=sky,weighting_type=mode,low_snr_row_inds=low)
    k0={k:v.copy() for k,v in s.__dict__.items() if isinstance(v,np.ndarray)}
    W=np.seterr(all='ignore'); s.calculate_fit_weights(); np.seterr(**W)
    w,M=s.fitting_weight_profile,s.fitting_weight_matrix; t.ok('shape',M.shape==(m,n)); t.same('constant along wavelength',M,np.repeat(np.asarray(w)[:,None],n,1)); t.ok('finite, never negative',bool(np.all(np.isfinite(w)) and np.all(w>=0)))
    t.eq('sum',w.sum(),0. if mode!='none' and len(low)==m else 1.,rtol=1e-9)
    for k,v in k0.items(): t.same(k+' kept',s.__dict__[k],v)
    if mode=='none': t.eq('equal',w,np.ones(m)/m,rtol=1e-12)
    else:
        t.same('low rows',w[low],np.zeros(len(low))); hi=np.setdiff1d(i,low)
        if mode=='up-edges':
            snr=abs((f*sky).sum(1))/np.sqrt(((e*sky)**2).sum(1)); x=1/snr; x[low]=0
            if len(hi): t.eq('inverse signal-to-noise',w,x/x.sum(),rtol=1e-9)
        elif len(hi)==m:
            x=abs((fc*sky).sum(1)); t.ok('follows the light profile',np.corrcoef(x,w)[0,1]>.7 if m>3 else True)
