import numpy as np, io, contextlib
from types import SimpleNamespace as NS
from misfit import galaxy as gl
MAXCASES=250
def run(t):
    r=t.rng; W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()): sub(t,r) if r.random()<.5 else trim(t,r)
    finally: np.seterr(**W)
def sub(t,r):
    m=int(r.integers(3,9)); n=int(r.integers(30,80)); z=float(r.choice([0.,1.,float(r.uniform(0,3))])); w=np.sort(r.uniform(.6,.7,n))*(1+z); none=bool(r.random()<.35); t.input(rows=m,cols=n,z=z,no_subtraction=none)
    line=np.exp(-((w/(1+z)-.65)/.002)**2/2); slope=r.normal(0,3); f=r.normal(0,.05,(m,n))+line+slope*(w/(1+z)-.65)+r.normal(0,1,(m,1)); e=r.uniform(.04,.2,(m,n))
    bad=r.random((m,n)); f[bad<.02]=np.nan; e[(bad>.02)&(bad<.04)]=np.inf; mk=(r.random((m,n))<.93).astype(float); wt=np.ones((m,n)); wt[r.random((m,n))<.03]=0.
    s=object.__new__(gl.ObsSpectrum2D); gl.ObsSpectrum.__init__(s,wave=w.copy(),flux=f.copy(),flux_err=e.copy(),spec_mask=mk.copy()); s.spec_weight=wt.copy()
    lo,hi=.65-r.uniform(.01,.05),.65+r.uniform(.01,.05)
    if r.random()<.2: lo=.645
    s.__dict__.update(wave_full_range_rest=np.array([lo,hi]),wave_line_range_rest=np.array([.64,.66]),mask_lines_wave_range_rest=np.array([.644,.656]),linenames_arr=['L'],restwave_arr=[.65],band_cutoff=float(r.uniform(1.5,4)),flux_incl_cont=None,cont_model=None)
    f1=np.nansum(f,0); e1=r.uniform(.1,.5,n); m1=(r.random(n)<.97).astype(float); q=gl.ObsSpectrum1D(wave=w.copy(),flux=f1.copy(),flux_err=e1.copy(),spec_mask=m1.copy()); g=gl.Galaxy(z=z); g.spec1D=q; g.debug=False
    s.calculate_restwave(g); q.calculate_restwave(g)
    sel=(w>=lo*(1+z))&(w<=hi*(1+z))
    if np.any(np.isclose(w,lo*(1+z),rtol=1e-12)|np.isclose(w,hi*(1+z),rtol=1e-12)): return
    s.subtract_continuum(g,no_cont_subtraction=none); k=sel.sum()
    for nm in('flux','flux_err','spec_mask','spec_weight','flux_incl_cont','cont_model'): t.ok('window: '+nm,np.shape(getattr(s,nm))==(m,k))
    t.same('wavelengths',s.wave,w[sel]); t.same('observed wavelengths',s.obswave,w[sel]); t.eq('rest wavelengths',s.restwave,w[sel]/(1+z)); t.same('weights',s.spec_weight,wt[:,sel])
    F,C,I,M=s.flux,s.cont_model,s.flux_incl_cont,s.spec_mask; f0,e0,m0=f[:,sel],e[:,sel],mk[:,sel]
    good=(m0==1)&np.isfinite(f0)&np.isfinite(e0)&(wt[:,sel]!=0); t.ok('pixels only switched off',np.all((M==0)|((M==1)&good)))
    if none: t.same('mask',M,good.astype(float))
    on=M==1; t.ok('finite',bool(np.all(np.isfinite(F)))); t.eq('flux plus continuum is the flux before',(F+C)[on],f0[on],rtol=1e-9,atol=1e-12); t.same('flux before',I[on],f0[on]); t.same('errors kept',s.flux_err[on],e0[on])
    if none: t.same('no subtraction',F[on],f0[on]); t.ok('no continuum',np.all(C==0))
    elif k>2:
        x=w[sel]; B=(C[:,-1]-C[:,0])/(x[-1]-x[0]); t.eq('linear',C,C[:,:1]+B[:,None]*(x-x[0])[None],rtol=1e-6,atol=1e-9*(1+abs(C).max()))
        for nm,v in(('wave',w),('flux',f1),('flux_err',e1)): t.same('1D '+nm,getattr(q,nm),v[sel])
        want=expected(f,e,mk,wt,f1,e1,m1,w,z,lo,hi,s); t.ok('continuum: the line fitted to the unmasked columns outside the line, slope from the sky-free 1D spectrum',bool(np.all(abs(C-want[:,sel])<=2e-3*(.02+abs(want).std()))),C[:,:3],want[:,sel][:,:3])
        t.ok('1D mask',q.spec_mask.shape==(k,) and bool(np.all(q.spec_mask<=m1[sel]))); t.same('1D observed',q.obswave,w[sel]); t.eq('1D rest',q.restwave,w[sel]/(1+z))
def line(x,y,e,on,slope=None):
    # weighted least squares of a line (or of its height, slope given) on the points that are on
    wg=np.where(on,1/e,0.); x0=x.mean()
    if slope is not None: return slope,((wg**2*(y-slope*x)).sum()/(wg**2).sum() if on.any() else None)
    A=np.stack([(x-x0)*wg,wg],1); c=np.linalg.lstsq(A,np.where(on,y,0)*wg,rcond=None)[0]; return c[0],c[1]-c[0]*x0
def expected(f,e,mk,wt,f1,e1,m1,w,z,lo,hi,s):
    a,b=s.mask_lines_wave_range_rest*(1+z); n=len(w)
    q=m1*(np.isfinite(f1)&np.isfinite(e1)); on=np.flatnonzero(q==1)
    if len(on):
        if on[0]>0: q[on[0]:on[0]+10]=0
        if on[-1]<n-1: q[max(on[-1]-9,0):on[-1]+1]=0
    M=mk*np.isfinite(f)*np.isfinite(e)*(wt!=0)*(q!=0)[None]
    E=np.where(M==0,0,e); med=np.median(np.sqrt((E**2).sum(0))); q=q*(e1*q<s.band_cutoff*med)
    out=((w>=lo*(1+z))&(w<a),(w<=hi*(1+z))&(w>b)); p=np.concatenate([np.flatnonzero(o) for o in out])
    both=all(o.any() and (q[o]>0).any() for o in out); x=w[p]
    if both: sl,h=line(x,f1[p],e1[p],q[p]>0)
    else: sl,h=line(x,f1[p],e1[p],q[p]>0,0.) if len(p) else (0.,None)
    h=0. if h is None else h; C=np.zeros(f.shape)
    for i in range(len(f)):
        on=M[i,p]>0; hi_=line(x,np.where(on,f[i,p],0.),np.where(on,e[i,p],1.),on,sl)[1] if len(p) else None
        C[i]=sl*w+(h if hi_ is None else hi_)
    return C
def trim(t,r):
    m=int(r.integers(30,70)); n=int(r.integers(4,12)); c=float(r.uniform(.3,.7)*m); if_=bool(r.random()<.7); i=np.arange(m); G=lambda x: np.exp(-(i-x)**2/8.); off=float(r.uniform(10,16)); P=G(c)-(.5*(G(c-off)+G(c+off)) if if_ else 0)
    f=P[:,None]*r.uniform(.5,1.5,n)[None]+r.normal(0,.02,(m,n)); e=np.full((m,n),.02); D=dict(flux=f,flux_err=e)
    for k in('flux_incl_cont','cont_model','spec_weight','mask_low_snr'): D[k]=r.normal(0,1,(m,n))
    for k in('spec_mask','mask_qual'): D[k]=np.ones((m,n))
    D['mask_sky']=np.ones((m,n)); D['mask_sky'][:,0]=0
    s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update({k:v.copy() for k,v in D.items()}); y=float(np.round(c)+r.uniform(-.5,.5)); prof=r.uniform(0,1,m)
    w=np.linspace(1,1.1,n); s.__dict__.update(obswave=w,restwave_arr=[1.05],band='B',ypos=y,wh_sky=np.array([0]),row_snr_cut=2.,low_snr_row_inds=None)
    g=gl.Galaxy(z=0.); g.debug=False; g.dither=if_; g.spec1D=NS(extraction_spatial_profile=prof.copy()); t.input(trim=True,rows=m,cols=n,centre=c,dither=if_,ypos=y)
    s.trim_spectrum_spatial(g,NS(pixscale=.18)); a,b=s.full_l_ind,s.full_r_ind
    t.ok('rows',0<=a<=b<=m-1 and s.n_spatial==b-a and (if_ or (a==0 and b==m-1)))
    for k,v in D.items(): t.same('same rows: '+k,getattr(s,k),v[a:b])
    t.same('profile',g.spec1D.extraction_spatial_profile,prof[a:b]); t.eq('object row',s.m0,s.full_m0-a); t.eq('position',s.ypos,y-a); t.same('limits',np.asarray(s.m_lims),np.array([0,b-a])); t.ok('new low rows',np.all(np.asarray(s.low_snr_row_inds)<b-a))
    if not if_ or 12<c<m-12: t.ok('object found',abs(s.full_m0-c)<2.5)
