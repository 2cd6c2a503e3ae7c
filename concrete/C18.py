import numpy as np, copy
from types import SimpleNamespace as NS
from misfit import galaxy as gl
MAXCASES=1500
def run(t):
    r=t.rng; n=int(r.integers(1,25)); m=int(r.integers(1,6)); z=r.choice([float(r.uniform(0,3)),0.,1.]); z=float(z) if r.random()<.5 else np.float64(z); g=NS(z=z)
    w=np.round(np.sort(r.uniform(1,2,n)),2) if r.random()<.8 else np.round(r.uniform(1,2,n),2)
    two=bool(r.random()<.6); ip=bool(r.random()<.5); sh=(m,n) if two else (n,)
    A=dict(wave=w,flux=r.normal(0,1,sh),flux_err=r.uniform(0,1,sh),spec_mask=(r.random(sh)<.8).astype(float))
    if r.random()<.3: A['flux'][...,int(r.integers(n))]=np.nan
    lo,hi=[float(v) for v in np.sort(r.choice(np.r_[w,.5,1.23,2.5],2))]
    if r.random()<.2: lo,hi=3.,4.
    rest=bool(r.random()<.4); kw=dict(trim_restwave_range=[lo,hi]) if rest else dict(trim_obswave_range=[lo,hi]); ol,oh=(lo*(1+z),hi*(1+z)) if rest else (lo,hi)
    t.input(two_dimensional=two,in_place=ip,z=z,wave=w,range=[lo,hi],rest=rest,rows=m)
    if two:
        s=object.__new__(gl.ObsSpectrum2D); gl.ObsSpectrum.__init__(s,**A); A['spec_weight']=r.uniform(0,1,sh); s.spec_weight=A['spec_weight']
        if r.random()<.5: A['flux_incl_cont']=r.normal(0,1,sh); A['cont_model']=r.normal(0,1,sh); s.flux_incl_cont=A['flux_incl_cont']; s.cont_model=A['cont_model']
    else: s=gl.ObsSpectrum1D(**A)
    s.calculate_restwave(g if r.random()<.5 else NS(z=z+.3)); s.trim_obswave_range=[.1,.2]; s.trim_restwave_range=[.3,.4]; rw=s.restwave.copy(); k0=copy.deepcopy(A)
    T=s.trim_spectrum_wavelength(g,**kw,**(dict(inplace=ip) if two else {})); ip=ip and two
    sel=(k0['wave']>=ol)&(k0['wave']<=oh)
    if rest and np.any(np.isclose(k0['wave'],ol,rtol=1e-12)|np.isclose(k0['wave'],oh,rtol=1e-12)) and z!=0: return
    if sel.any():
        for k in A: t.same('columns '+k,getattr(T,k),k0[k][...,sel])
        t.same('observed wavelengths',T.obswave,k0['wave'][sel]); t.eq('rest wavelengths',T.restwave,k0['wave'][sel]/(1+z))
    else:
        for k in('wave','flux','flux_err','spec_mask','obswave','restwave')+(('spec_weight',) if two else ())+(('flux_incl_cont','cont_model') if 'cont_model' in A else ()):
            v=getattr(T,k); t.ok('nothing selected, nothing left: '+k,v is None or np.size(v)==0)
    t.eq('observed range',T.trim_obswave_range,[ol,oh])
    if two or rest: t.eq('rest range',T.trim_restwave_range,[ol/(1+z),oh/(1+z)])
    t.ok('trimmed object',(T is s)==ip)
    if not ip:
        if sel.any():
            for k in A: getattr(T,k)[...]=-9.
        for k in A: t.same('original unchanged: '+k,getattr(s,k),k0[k])
        t.same('original wavelengths',s.obswave,k0['wave']); t.same('original rest wavelengths',s.restwave,rw); t.ok('original: recorded ranges untouched',(s.trim_obswave_range,s.trim_restwave_range)==([.1,.2],[.3,.4]))
    for k in A: t.same('arrays handed in: '+k,A[k],k0[k])
