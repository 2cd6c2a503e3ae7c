import numpy as np, copy
from misfit import galaxy as gl
from misfit.general import galaxy_utils as gu
MAXCASES=1500
def low_rows(f,e,mc,cut):
    snr=[]
    for i in range(len(f)):
        s=sum(float(a)*float(b) for a,b in zip(f[i],mc[i])); v=sum((float(a)*float(b))**2 for a,b in zip(e[i],mc[i])); snr.append(abs(s)/v**.5 if v>0 else (np.inf if s!=0 else np.nan))
    n=len(snr); high=[x>=cut for x in snr]; runs=[]; i=0
    while i<n:
        if high[i]:
            j=i
            while j<n and high[j]: j+=1
            runs.append((i,j)); i=j
        else: i+=1
    if len(runs)>1:
        for a,b in runs:
            if b-a<=2: high[a:b]=[False]*(b-a)
    low=[i for i in range(n) if not high[i]]; hi=[i for i in range(n) if high[i]]
    if low and hi:
        if min(low)<n/2 and min(hi)<min(low): low=sorted(set(low)|set(range(min(low))))
        if max(low)>n/2 and max(hi)>max(low): low=sorted(set(low)|set(range(max(low)+1,n)))
    near=any(abs(x-cut)<1e-9*max(1,cut) for x in snr if np.isfinite(x))
    return low,near
def run(t):
    r=t.rng; k=r.choice(['missing','edges','from1d','nan','sky','low','spec']); m=int(r.integers(1,8)); n=int(r.integers(1,30)); t.input(kind=str(k),rows=m,cols=n); W=np.seterr(all='ignore')
    def dirty(sh,p=.1):
        a=r.normal(0,1,sh); a[r.random(sh)<p]=np.nan; a[r.random(sh)<p]=np.inf; a[r.random(sh)<p]=0.; return a
    if k=='missing':
        sh=(m,n) if r.random()<.6 else (n,); d,e=dirty(sh),dirty(sh) if r.random()<.9 else np.zeros(sh); w=np.round(r.uniform(0,1,sh),1) if r.random()<.6 else None; mk=(r.random(sh)<.8).astype(float) if r.random()<.7 else None; nf=bool(r.random()<.5); old=np.ones(sh) if mk is None else mk.copy()
        q=gu.spec_mask_missing(spec=d,spec_err=e,spec_weight=w,spec_mask=mk,nonfinite_only=nf); want=old.copy()
        want[~np.isfinite(d)|~np.isfinite(e)]=0
        if w is not None: want[w==0]=0
        if not nf and np.any(np.nan_to_num(np.abs(e),posinf=1)>0): want[e==0]=0
        t.same('missing data switched off',q,want)
    elif k=='edges':
        mk=(r.random(n)<.7).astype(float)
        if r.random()<.6: a,b=sorted(r.integers(0,n+1,2)); mk[:a]=0; mk[b:]=0
        num=int(r.integers(0,12)); old=mk.copy(); g=np.flatnonzero(old==1); s=gl.ObsSpectrum1D(flux=np.ones(n),flux_err=np.ones(n),spec_mask=mk)
        if r.random()<.5: s.num_mask_edge=num; s.mask_edges(); q=s.spec_mask
        else: q=gu.mask_edges_1D(spec=np.ones(n),spec_err=np.ones(n),spec_mask=mk,num_edge=num)
        want=old.copy()
        if len(g):
            if g[0]>0: want[g[0]:g[0]+num]=0
            if g[-1]<n-1:
                for i in range(max(0,g[-1]-num+1),g[-1]+1): want[i]=0
        t.same('edges',q,want)
    elif k=='from1d':
        mk=(r.random((m,n))<.8).astype(float); m1=(r.random(n)<.7).astype(float); want=mk*m1[None,:]; t.same('columns',gu.mask_spec2D_from_1D(mask2D=mk,mask1D=m1),want)
    elif k=='nan':
        f=dirty((m,n)); mk=(r.random((m,n))<.6).astype(float); z,am=bool(r.random()<.5),bool(r.random()<.5); want=f.copy()
        want[(mk==0)&(~np.isfinite(f)|am|(z&(f==0)))]=-99.; t.same('filled',gu.spec_nan_masking(flux=f,spec_mask=mk,mask_zero=z,mask_all_masked=am),want)
    else:
        f=r.normal(0,1,(m,n)); e=r.uniform(.1,2,(m,n)); mk=(r.random((m,n))<.9).astype(float); q=None if r.random()<.3 else (r.random((m,n))<.8).astype(float); sk=(r.random((m,n))<.8).astype(float)
        s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(flux=f,flux_err=e,spec_weight=None,spec_mask=mk,mask_qual=None if q is None else q.copy(),band_cutoff=float(r.uniform(.5,2)),band_cutoff_units='timesMedianErr',mask_sky=sk,row_snr_cut=float(r.uniform(0,3)))
        q=mk if q is None else q; mk0,q0,sk0=mk.copy(),q.copy(),sk.copy()
        if k=='sky':
            lev=np.sqrt(((e*q)**2).sum(0)); s.median_flux_error=float(np.median(lev)); hit=lev>=s.band_cutoff*s.median_flux_error
            if r.random()<.25:   # a column exactly at the cutoff: single good row with dyadic errors, so that every level is exact
                e[:]=r.integers(1,9,(m,n))/4.; s.spec_mask=q[:]=0; q[int(r.integers(m))]=1; s.spec_mask=q if s.mask_qual is None else mk; 
                if s.mask_qual is not None: s.mask_qual=q.copy()
                q0,mk0=q.copy(),s.spec_mask.copy(); s.band_cutoff=float(r.integers(1,5)/2.); lev=e[np.flatnonzero(q[:,0])[0]]; s.median_flux_error=float(r.integers(1,9)/4.); hit=lev>=s.band_cutoff*s.median_flux_error; t.input(tie=bool(np.any(lev==s.band_cutoff*s.median_flux_error)))
            elif np.any(abs(lev-s.band_cutoff*s.median_flux_error)<1e-9): return
            s.get_skyline_mask(full=True); want=q.copy(); want[:,hit]=0; t.same('sky columns off',s.mask_sky,want); t.same('sky',np.asarray(s.wh_sky),np.flatnonzero(hit)); t.same('no sky',np.asarray(s.wh_nosky),np.flatnonzero(~hit))
        else:
            if k=='low':
                m=int(r.integers(1,30)); f=r.normal(0,1,(m,6)); c=r.uniform(0,1,m)<r.choice([.2,.5,.8]); f+=6*c[:,None]; e=r.uniform(.5,1.5,(m,6)); s.flux,s.flux_err=f,e; s.mask_qual=q=(r.random((m,6))<.8).astype(float); s.mask_sky=sk=(r.random((m,6))<.85).astype(float); q0,sk0=q.copy(),sk.copy(); s.row_snr_cut=float(r.choice([0.,1.,3.,100.]))
            low,near=low_rows(f,e,sk,s.row_snr_cut)
            if near: return
            s.get_low_snr_mask(); want=q0.copy(); want[low]=0; t.same('low signal-to-noise rows off',s.mask_low_snr,want); t.same('rows',np.asarray(s.low_snr_row_inds).astype(int),np.array(low,int))
            t.same('sky mask kept',s.mask_sky,sk0)
        t.same('quality mask kept',s.mask_qual,q0); t.same('mask kept',s.spec_mask,mk0)
    np.seterr(**W)
