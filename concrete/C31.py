import numpy as np, io, contextlib, copy
from types import SimpleNamespace as NS
from misfit import galaxy as gl
from misfit.general import galaxy_utils as gu
MAXCASES=80
LINES=dict(Halpha=(['HA6565'],6564.60,'K'),Hbeta=(['HB4863'],4862.71,'H'),OIII=(['OIII5008','OIII4960'],5008.24,'H'))
RANGE=dict(Halpha=(6555.60,6573.60),Hbeta=(4856.71,4868.71),OIII=(5002.29,5015.24))
CUT=dict(K=2.,H=3.)
ARR=('flux','flux_err','spec_mask','spec_weight','flux_incl_cont','cont_model','mask_qual','mask_sky','mask_low_snr')
def run(t):
    r=t.rng; W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()): (full if r.random()<.75 else attach)(t,r)
    finally: np.seterr(**W)
def attach(t,r):
    n,m=int(r.integers(2,30)),int(r.integers(2,9)); z=None if r.random()<.3 else float(r.choice([0.,2.2])); typ=str(r.choice(['wave','velocity'])); given=bool(r.random()<.5); two=bool(r.random()<.5); t.input(n=n,m=m,z=z,type=typ,mask_given=given,two=two)
    sh=(m,n) if two else (n,); w=np.linspace(2e4,2.1e4,n); mk=(r.random(sh)<.5).astype(float); g=gl.Galaxy(z=z); s=(gl.ObsSpectrum2D if two else gl.ObsSpectrum1D)(wave=w.copy(),flux=r.normal(0,1,sh),flux_err=np.ones(sh),spec_mask=mk.copy() if given else None,spec_type=typ)
    f=s.flux.copy(); (g.set_spectrum_2D if two else g.set_spectrum_1D)(s); t.ok('held by the galaxy',(g.spec2D if two else g.spec1D) is s); t.same('flux kept',s.flux,f); t.same('wavelengths kept',s.wave,w); t.same('mask given, or everything kept',s.spec_mask,mk if given else np.ones(sh))
    if z is not None and typ=='wave': t.ok('rest wavelengths set',hasattr(s,'restwave') and hasattr(s,'obswave')); t.eq('rest wavelengths',s.restwave,w/(1+z),rtol=1e-14); t.same('observed wavelengths',s.obswave,w)
    else: t.ok('no rest wavelengths',not hasattr(s,'restwave'))
def full(t,r):
    grp=str(r.choice(list(LINES))); names,rest,band=LINES[grp]; z=float(r.uniform(1.9,2.4)); m=int(r.integers(36,60)); yc=float(m/2+r.uniform(-3,3)); sg=float(r.uniform(1.5,3)); step=float(r.uniform(1.,2.)); lo,hi=(rest-150)*(1+z),(rest+150)*(1+z); w=np.arange(lo,hi,step)
    if r.random()<.4: w=w+.2*step*np.sin(np.arange(len(w)))
    n=len(w); i=np.arange(m); P=lambda c: np.exp(-(i-c)**2/2/sg**2); off=14.; prof=P(yc)-.5*(P(yc-off)+P(yc+off)); line=np.exp(-(w-rest*(1+z))**2/2/6.**2); no=bool(r.random()<.4)
    flux=prof[:,None]*(8*line+.3)[None]+r.normal(0,.03,(m,n)); err=np.full((m,n),.03); sky=r.random(n)<.04; err[:,sky]=.5; bad=r.random((m,n)); flux[bad<.004]=np.nan
    mk=None if r.random()<.4 else (r.random((m,n))<.98).astype(float); wt=None if r.random()<.4 else np.where(r.random((m,n))<.99,1.,0.); own=bool(r.random()<.4); lam0=float(rest*(1+z)+r.uniform(-2,2)) if r.random()<.3 else None; dpa=float(r.choice([0.,r.uniform(-80,80)])) if r.random()<.5 else None; cut=None if r.random()<.4 else float(r.choice([.5,4.,8.,40.])); part=bool(own and r.random()<.5); kw=dict(weighting_type='none') if r.random()<.3 else {}
    t.input(group=grp,z=z,rows=m,cols=n,centre=yc,no_subtraction=no,mask_given=mk is not None,weight_given=wt is not None,lines_given=own,lam0=lam0,delt_PA=dpa,settings=kw,row_snr_cut=cut,ratios_given=own and not part,seed_step=step)
    s=gl.ObsSpectrum2D(wave=w.copy(),flux=flux.copy(),flux_err=err.copy(),spec_mask=None if mk is None else mk.copy(),spec_weight=None if wt is None else wt.copy(),band=band,ypos=float(round(yc)),slit_PA=float(r.uniform(0,180)),lam0=lam0,no_continuum_subtraction=no)
    if own: s.linenames_arr=list(names); s.restwave_arr=np.array([rest]+[4960.295]*(len(names)-1)); s.flux_ratio_arr=None if part else np.array([1.]+[.33]*(len(names)-1))
    else: s.linegroup_name=grp
    if cut is not None: s.row_snr_cut=cut
    f1=np.nansum(flux*prof[:,None].clip(0),0); q=gl.ObsSpectrum1D(wave=w.copy(),flux=f1,flux_err=np.full(n,.1)); q.extraction_spatial_profile=prof.copy()
    g=gl.Galaxy(z=z,sersicPA=float(r.uniform(-90,90)),delt_PA=dpa); g.generate_model=False; g.debug=False; g.pstamp=NS(img_PA=float(r.uniform(0,90))); ins=NS(pixscale=.18); g.set_spectrum_1D(q); g.set_spectrum_2D(s)
    steps={}; real={}
    def count(k):
        def f(*a,**kk): steps[k]=steps.get(k,0)+1; return real[k](*a,**kk)
        return f
    for k in('subtract_continuum_2D','trim_spectrum_2D_spatial','get_m0_lam0_pos_2D'): real[k]=getattr(gu,k); setattr(gu,k,count(k))
    try:
        s.fit_prep_calcs(g,ins,**kw)
        t.ok('every step once',all(steps.get(k)==1 for k in real))
        sh=s.flux.shape; rng=RANGE[grp]; edge=np.array(rng)*(1+z); sel=(w>=edge[0])&(w<=edge[1]); a,b=s.full_l_ind,s.full_r_ind
        for k in ARR: t.ok('same rows and columns: '+k,np.shape(getattr(s,k))==sh)
        t.ok('rows and columns',sh==(b-a,int(sel.sum()))); t.same('wavelengths in the line range',s.wave,w[sel]); t.eq('rest wavelengths',s.restwave,w[sel]/(1+z),rtol=1e-13); t.same('observed wavelengths',s.obswave,w[sel])
        t.same('mask of the fit: quality mask without the low signal-to-noise rows',s.spec_mask,s.mask_qual*s.mask_low_snr); t.ok('masks are separate arrays',not any(np.shares_memory(getattr(s,x),getattr(s,y)) for x in ARR for y in ARR if x!=y))
        m0=(np.ones((m,n)) if mk is None else mk)[a:b,sel]; fin=np.isfinite(flux[a:b,sel]); w0=(np.ones((m,n)) if wt is None else wt)[a:b,sel]
        t.ok('quality mask: no pixel that was masked, missing or without weight',bool(np.all(s.mask_qual<=m0*fin*(w0!=0)))); 
        if no: t.same('quality mask: every other pixel',s.mask_qual,m0*fin*(w0!=0))
        t.same('weights',s.spec_weight,w0); t.same('flux before',s.flux_incl_cont[s.mask_qual==1],flux[a:b,sel][s.mask_qual==1]); t.ok('sky columns only lose pixels',bool(np.all(s.mask_sky<=s.mask_qual)) and bool(np.all(s.mask_low_snr<=s.mask_qual)))
        t.ok('sky mask: whole columns of the quality mask',bool(np.all(s.mask_sky[:,s.wh_nosky]==s.mask_qual[:,s.wh_nosky])) and bool(np.all(s.mask_sky[:,s.wh_sky]==0)) and sorted(list(s.wh_sky)+list(s.wh_nosky))==list(range(sh[1])))
        sn=np.abs(np.sum(s.flux*s.mask_sky,1)/np.sqrt(np.sum((s.flux_err*s.mask_sky)**2,1))); low=sn<(2. if cut is None else cut)*(1-1e-9); t.ok('rows below the signal-to-noise cut are masked',bool(np.all(s.mask_low_snr[low]==0)))
        t.eq('wavelength spacing',s.dlam,(w[-1]-w[0])/(n-1),rtol=1e-9); q4=(s.wave.max()-s.wave.min())/4; l0=s.restwave_arr[0]*(1+z) if lam0 is None else lam0
        t.eq('expected line wavelength',s.lam0_init if hasattr(s,'lam0_init') else s.lam0,l0,rtol=1e-12); t.ok('line wavelength near the expected one',s.lam0==l0 or abs(s.lam0-l0)<=q4); t.ok('lines of the group',list(s.linenames_arr)==names and abs(s.restwave_arr[0]-rest)<.1 and s.flux_ratio_arr is not None and len(s.flux_ratio_arr)==len(names)); t.ok('sky threshold of the band',s.band_cutoff==CUT[band])
        pa=g.sersicPA-(s.slit_PA-g.pstamp.img_PA); e=(pa+90)%180-90
        if dpa is not None: t.ok('misalignment given is kept',g.delt_PA==dpa)
        else: t.ok('misalignment computed',abs((g.delt_PA-e+90)%180-90)<1e-6)
        t.ok('weights of the trimmed rows',s.fitting_weight_profile.shape==(sh[0],) and s.fitting_weight_matrix.shape==sh); 
        if kw: t.eq('settings used',s.fitting_weight_profile,np.full(sh[0],1./sh[0]),rtol=1e-12)
        t.ok('marked as prepared and held by the galaxy',s.prepared_for_fitting is True and g.spec2D is s)
        old=copy.deepcopy({k:v for k,v in s.__dict__.items()}); n0=dict(steps); g.spec2D='other'; s.fit_prep_calcs(g,ins); t.ok('not prepared again',steps==n0 and g.spec2D is s)
        for k,v in old.items():
            x=getattr(s,k)
            if isinstance(v,np.ndarray) and v.dtype.kind in 'fib': t.same('second preparation keeps '+k,x,v)
            elif isinstance(v,(int,float,str,type(None))): t.ok('second preparation keeps '+k,x==v or x!=x)
    finally:
        for k,v in real.items(): setattr(gu,k,v)
