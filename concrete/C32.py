import numpy as np, io, contextlib
from types import SimpleNamespace as NS
from misfit import galaxy as gl
from misfit.general import galaxy_utils as gu
import lmfit
MAXCASES=250
def run(t):
    r=t.rng; W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()): (position if r.random()<.6 else extent)(t,r)
    finally: np.seterr(**W)
class Fake:
    """an optimiser that answers with the values given, and notes what it was asked"""
    def __init__(s,answer): s.answer=answer; s.calls=[]; s.Parameters=lmfit.Parameters
    def minimize(s,fcn,p,args=(),**k):
        s.calls.append((fcn,p,args)); q=s.answer(len(s.calls)-1,p,args)
        if q is None: raise ValueError('no fit')
        o={k:NS(value=v.value) for k,v in p.items()}
        for k,v in q.items(): o[k]=NS(value=min(max(v,p[k].min),p[k].max))
        return NS(params=o)
def spectrum(r,t):
    m,n=int(r.integers(5,24)),int(r.integers(8,30)); c=float(r.uniform(.2,.8)*m); i=np.arange(m); j=np.arange(n); w=20000+1.6*j; l0=float(w[0]+r.uniform(.3,.7)*(w[-1]-w[0])); sg=float(r.uniform(.8,3))
    f=np.exp(-(i-c)**2/2/sg**2)[:,None]*np.exp(-(w-l0)**2/2/4.**2)[None]*10+r.normal(0,.05,(m,n)); e=r.uniform(.03,.08,(m,n))
    s=gl.ObsSpectrum2D(); sky=r.random(n)<.15; low=np.abs(i-c)>r.uniform(1.5,6)
    if r.random()<.06: low[:]=True
    if r.random()<.06: sky[:]=True
    ms=np.ones((m,n)); ms[:,sky]=0; ml=np.ones((m,n)); ml[low]=0
    s.__dict__.update(wave=w.copy(),flux=f.copy(),flux_err=e.copy(),mask_sky=ms,mask_low_snr=ml,m_lims=np.array([0,m]),ypos=float(c+r.choice([0.,1.9,2.1,4.])*r.choice([-1,1])),m0=int(np.clip(round(c+r.choice([0,0,2,3])*r.choice([-1,1])),0,m-1)),m0_shift_fit=float(r.choice([0.,.9,-1.,1.2,-1.3])),m0_peak_snr=float(r.choice([1.,2.9,3.,10.])),lam0=float(l0+r.choice([0.,1.,30.])*r.choice([-1,1])),low_snr_row_inds=np.where(low)[0],wh_nosky=np.where(~sky)[0],prepared_for_fitting=True)
    s.m0_shift=s.sigma_y_emis_obs=s.sigma_y_emis_int=s.D50=123.
    return s,low,sky,c,l0
def position(t,r):
    s,low,sky,c,l0=spectrum(r,t); m,n=s.flux.shape; real=bool(r.random()<.3); ok=s.mask_sky*s.mask_low_snr; keep={k:np.array(getattr(s,k)) for k in('flux','flux_err','mask_sky','mask_low_snr','wave','m_lims','low_snr_row_inds','wh_nosky')}; y0,m0,sf,snr,L0=s.ypos,s.m0,s.m0_shift_fit,s.m0_peak_snr,s.lam0
    mu=float(y0+r.choice([0.,1.,2.,-1.5,3.]) if r.random()<.5 else m0+r.choice([0.,1.,-2.,2.5])); lm=float(L0+r.choice([0.,1.,-3.,20.])); fail=r.choice(['','','','rows','columns']) if not real else ''
    t.input(rows=m,cols=n,ypos=y0,m0=m0,m0_shift_fit=sf,snr=snr,lam0=L0,low=low.tolist(),sky=sky.tolist(),fitted_row=mu,fitted_wave=lm,fails=str(fail),real_optimiser=real)
    F=Fake(lambda k,p,a: None if (fail=='rows' and len(a[0])==m and len(a[1])==m and a[0][0]==0) or (fail=='columns' and a[0][0]>100) else dict(mu=mu if a[0][0]<100 else lm))
    if real:
        F=NS(calls=[],Parameters=lmfit.Parameters); res=[]
        def mini(fcn,p,args=(),**k): q=lmfit.minimize(fcn,p,args=args,**k); F.calls.append((fcn,p,args)); res.append(q); return q
        F.minimize=mini
    old=gu.lmfit; gu.lmfit=F
    try: s.get_m0_lam0_pos(NS(debug=False,z=1.))
    finally: gu.lmfit=old
    for k,v in keep.items(): t.same(k+' kept',getattr(s,k),v)
    if low.all() or sky.all(): t.ok('nothing to fit: expected values',s.m0_shift==0 and s.lam0==L0); return
    for fcn,p,a in F.calls:
        rows=a[0][0]<100; D=(s.flux*ok).sum(1 if rows else 0); E=np.sqrt(((s.flux_err*ok)**2).sum(1 if rows else 0)); what='rows: ' if rows else 'columns: '
        t.eq(what+'positions',a[0],np.arange(m) if rows else s.wave,rtol=1e-12); t.eq(what+'profile',a[1],D,rtol=1e-9,atol=1e-12); t.eq(what+'errors',a[2],E,rtol=1e-9,atol=1e-12); t.same(what+'unmasked',np.sort(a[3]),np.where(~(low if rows else sky))[0])
        q=(s.wave.max()-s.wave.min())/4; lo,hi=(0.,m-1.) if rows else (s.wave.min()+q,s.wave.max()-q); t.eq(what+'window',[p['mu'].min,p['mu'].max],[lo,hi],rtol=1e-12); t.eq(what+'start',p['mu'].value,min(max(y0 if rows else L0,lo),hi),rtol=1e-12)
        d=fcn({k:NS(value=v) for k,v in(('A',1.),('mu',float(a[0][0])),('sigma',1.))},*a); u=np.asarray(a[3]); t.ok(what+'one residual per unmasked point',len(d)==len(u) and bool(np.all(np.isfinite(d)))); d2=fcn({k:NS(value=v) for k,v in(('A',0.),('mu',float(a[0][0])),('sigma',1.))},*a); t.eq(what+'residual of no line',d2,np.where(E[u]>0,-D[u]/np.where(E[u]>0,E[u],1),0),rtol=1e-9,atol=1e-9)
    if real:
        rv={('r' if c[2][0][0]<100 else 'c'):q.params['mu'].value for c,q in zip(F.calls,res)}; mu,lm=rv.get('r',mu),rv.get('c',lm)
    else: mu=min(max(mu,0.),m-1.); lm=min(max(lm,s.wave.min()+(s.wave.max()-s.wave.min())/4),s.wave.max()-(s.wave.max()-s.wave.min())/4)
    good=abs(y0-mu)<=2 or (abs(m0-mu)<=2 and abs(sf)<=1 and snr>=3)
    if min(abs(abs(y0-mu)-2),abs(abs(m0-mu)-2))>1e-9 or fail=='rows': t.eq('row offset',s.m0_shift,mu-m0 if good and fail!='rows' else 0.,rtol=1e-12,atol=1e-12)
    q=(s.wave.max()-s.wave.min())/4
    if abs(abs(L0-lm)-q)>1e-6 or fail=='columns': t.eq('line wavelength',s.lam0,lm if abs(L0-lm)<=q and fail!='columns' else L0,rtol=1e-12)
    t.ok('rows kept',s.ypos==y0 and s.m0==m0 and s.m0_shift_fit==sf)
def extent(t,r):
    s,low,sky,c,l0=spectrum(r,t); m,n=s.flux.shape; ps=float(r.choice([.1,.18,.3])); F0=float(r.choice([.3,.6,1.,3.])); N=int(r.integers(1,6)); free=np.where(~low)[0]; mode=r.choice(['fake','fake','real','fail']); S2F=2*np.sqrt(2*np.log(2)); mx=(m-1)*ps/S2F; y0=s.ypos
    draws=[float(r.choice([0.,F0/S2F*.5,F0/S2F*1.5,mx*.99,mx*1.2])) for _ in range(2*N+2)]; t.input(rows=m,cols=n,pixscale=ps,FWHM=F0,realisations=N,low=low.tolist(),sky=sky.tolist(),ypos=y0,optimiser=str(mode),widths=draws)
    log=[]
    class O:
        Parameters=lmfit.Parameters
        @staticmethod
        def minimize(fcn,p,args=(),**k):
            if mode=='fail': raise ValueError('no fit')
            if mode=='real': q=lmfit.minimize(fcn,p,args=args,**k)
            else: q=NS(params={**{k:NS(value=v.value) for k,v in p.items()},'sigma':NS(value=min(draws[len(log)%len(draws)],p['sigma'].max))})
            log.append((fcn,p,args,q.params['sigma'].value)); return q
    keep={k:np.array(getattr(s,k)) for k in('flux','flux_err','mask_sky','wave','low_snr_row_inds')}; old=gu.lmfit; gu.lmfit=O
    try: gu.fit_emission_y_profile(s,NS(),NS(pixscale=ps,PSF=NS(PSF_FWHM=F0)),num_MC=N)
    finally: gu.lmfit=old
    for k,v in keep.items(): t.same(k+' kept',getattr(s,k),v)
    names=('sigma_y_emis_obs','sigma_y_emis_int','D50')
    if abs(len(free)*ps/F0-.8)<1e-9: return
    if len(free)*ps/F0<.8 or mode=='fail' or not len(free):
        t.ok('flagged',all(getattr(s,k)==-99 and np.all(np.asarray(getattr(s,k+'_err'))==-99) and np.shape(getattr(s,k+'_err'))==(2,) for k in names)); t.ok('nothing fitted',mode=='fail' or not log); return
    D=(s.flux*s.mask_sky).sum(1); E=np.sqrt(((s.flux_err*s.mask_sky)**2).sum(1)); vals=[]; k=0
    while k<len(log):
        fcn,p,a,v=log[k]; first=k==0; k+=1; t.ok('free width first',not np.isfinite(p['sigma'].max) and p['sigma'].min==0)
        if v>mx: t.ok('refitted where wider than the window',k<len(log)); t.eq('refit within the window',log[k][1]['sigma'].max,mx,rtol=1e-9); t.same('refit of the same data',log[k][2][1],a[1]); v=log[k][3]; k+=1
        t.eq('positions',a[0],np.arange(m)*ps,rtol=1e-12,atol=1e-15); t.eq('errors',a[2],E,rtol=1e-9,atol=1e-12); t.same('unmasked',np.sort(a[3]),free); t.eq('window',[p['mu'].min,p['mu'].max],[0,(m-1)*ps],rtol=1e-9,atol=1e-12)
        t.eq('starts at the expected position',p['mu'].value,min(max(y0*ps,0),(m-1)*ps),rtol=1e-9,atol=1e-12)
        if first: t.eq('profile',a[1],D,rtol=1e-9,atol=1e-12)
        else: t.ok('perturbed by the errors',bool(np.all(np.abs(a[1]-D)[E>0]<8*E[E>0])) and not (np.all(a[1]==D) and bool(np.any(E>0))))
        vals.append(v)
    t.ok('one fit, then one per realisation',len(vals)==N+1); q=lambda v: np.where(v>F0/S2F,np.sqrt(np.maximum(v*v-(F0/S2F)**2,0)),0.)
    v=np.array(vals); C=[v,q(v),q(v)*S2F]
    for nm,x in zip(names,C):
        lo,hi=np.percentile(x[1:],[15.865,84.135]); t.eq(nm,getattr(s,nm),x[0],rtol=1e-7,atol=1e-7); t.eq(nm+' error',getattr(s,nm+'_err'),[x[0]-lo,hi-x[0]],rtol=1e-6,atol=2e-7)
