import numpy as np
from types import SimpleNamespace as NS
from misfit.model import emission_lines_model as em
C=299792.458; MAXCASES=600
LINES=dict(Halpha=[(6564.60,1.)],Hbeta=[(4862.71,1.)],OIII=[(5008.24,1.),(4960.295,1/3.)],NII=[(6585.27,1.),(6549.86,1/3.)])
def N(x,mu,s): return np.exp(-((x-mu)/s)**2/2)/(s*np.sqrt(2*np.pi))
def run(t):
    r=t.rng; n=int(r.integers(1,60)); z=float(r.uniform(0,3)); v=float(r.choice([r.uniform(5,600),r.uniform(.5,20)])); o=int(r.integers(0,4))
    gs=[str(g) for g in r.choice(['Halpha','Hbeta','OIII'],int(r.integers(1,4)),replace=False)]
    mods={g:em.EmissionLines1DModel(name=g) for g in gs}; L={g:list(zip(m.restwave_arr,m.flux_ratio_arr)) for g,m in mods.items()}
    c0=L[gs[0]][0][0]*(1+z); x=np.sort(c0+r.choice([3.,40.,400.])*r.uniform(-1,1,n)+r.choice([0.,0.,500.]))
    f=r.uniform(-5,20,len(gs))*1e-17; c=r.normal(0,3,o+1)*10.**(-3*np.arange(o+1))
    P={'z':NS(value=z),'vel_disp':NS(value=v)}; P.update({'flux%d'%i:NS(value=f[i]) for i in range(len(gs))}); P.update({'cont_coeff%d'%i:NS(value=c[i]) for i in range(o+1)})
    t.input(groups=gs,z=z,vel_disp=v,order=o,flux=f,cont=c,wave=x)
    want=sum(f[i]*q*N(x,w*(1+z),v/C*w*(1+z)) for i,g in enumerate(gs) for w,q in L[g])+sum(c[k]*1e-18*x**k for k in range(o+1)); sc=1e-17
    m=em.EmissionLinesSpectrum1DModel(names_arr=gs,cont_order=o); got=m.make1DProfile(P,x); t.eq('spectrum',got,want,rtol=1e-8,scale=np.abs(want).max())
    for i,g in enumerate(gs):
        mods[g].make1DProfile(x,z,v,f[i]); w=sum(f[i]*q*N(x,a*(1+z),v/C*a*(1+z)) for a,q in L[g]); t.eq('line group',mods[g].profile,w,rtol=1e-8,atol=1e-300+1e-9*np.abs(w).max())
    k=int(r.integers(n)); t.eq('value at one wavelength',m.make1DProfile(P,x[k:k+1]),got[k:k+1],rtol=1e-9,atol=1e-300)
    d=r.normal(0,1,n)*1e-17; e=r.uniform(0,1,n)*1e-18; mk=(r.random(n)<.8).astype(float); d[r.random(n)<.1]=np.nan; e[r.random(n)<.1]=0; e[r.random(n)<.1]=np.inf
    t.input(data=d,err=e,mask=mk); res=m.residual1DProfile(P,x,d,e,mk); g=mk==1
    w=(want[g]-d[g])/e[g]; w[~np.isfinite(w)]=0; t.eq('residual on good pixels',res,w,rtol=1e-6,scale=max(1.,np.abs(w).max() if w.size else 1.))
    t.raises('only Gaussian shapes',lambda: em.EmissionLinesSpectrum1DModel(shape1D='voigt'),ValueError)
