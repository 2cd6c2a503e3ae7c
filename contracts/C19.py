from dv.dsl import *
from contracts.common import *
META=dict(functions=['galaxy_utils.spec_mask_missing','galaxy_utils.mask_skylines_2D','galaxy_utils.wh_skylines_1D','galaxy_utils.get_skyline_mask_2D','galaxy_utils.get_low_snr_mask_2D','galaxy_utils.mask_edges_1D','galaxy_utils.mask_spec2D_from_1D','galaxy_utils.spec_nan_masking','galaxy.ObsSpectrum1D.mask_edges','galaxy.ObsSpectrum2D.get_skyline_mask','galaxy.ObsSpectrum2D.get_low_snr_mask'],
 assumptions=['masks are zero or one','sky columns: finite errors, positive cutoff and median level','edges: non-negative number of pixels'],
 trusted=[],
 coverage=dict(bounded=['concrete, not counted as proved: which rows mask_low_snr_rows_2D selects (up to 30 rows, random signal-to-noise patterns, exact oracle)']))
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy')
    def mask(vc,sh,nm='mask'): return lam(sh,lambda *i: ite_(vc.arr(nm,sh,'b')[i],K('1.'),K('0.')))
    def cp(a): b=a.copy(); return lam(b.shape,lambda *i: b[i])
    def only_off(vc,got,old,off):
        """switched off exactly where off holds, kept elsewhere"""
        vc.ensure_eq('exactly the bad pixels are switched off, all others keep their value',got,lam(old.shape,lambda *i: ite_(off(*i),K('0.'),old[i])),True)
    def shapes(vc): return dict(one=(vc.int_('n',1),),two=(vc.int_('rows',1),vc.int_('cols',1)))
    for dim in('one','two'):
        for wt in(False,True):
            for nf in(False,True):
                for given in(True,False):
                    @E.h('missing data, %s-dimensional%s%s%s'%(dim,', weights' if wt else '',', non-finite only' if nf else '','' if given else ', no mask yet'))
                    def h(vc,dim=dim,wt=wt,nf=nf,given=given):
                        sh=shapes(vc)[dim]; d,e=vc.arr('data'+dim,sh,finite=False),vc.arr('err'+dim,sh,finite=False); w=vc.arr('wt'+dim,sh) if wt else None; m=mask(vc,sh) if given else None; m0=cp(m) if given else np.ones(sh); d0,e0=cp(d),cp(e)
                        r=gu.spec_mask_missing(spec=d,spec_err=e,spec_weight=w,spec_mask=m,nonfinite_only=nf)
                        some=np.any(np.abs(e0)>0)
                        def off(*i):
                            b=either(no(finite(d0[i])),no(finite(e0[i])))
                            if wt: b=either(b,w[i]==0)
                            if not nf: b=either(b,both(some,e0[i]==0))
                            return b
                        only_off(vc,r,m0,off); vc.ensure_eq('data kept',d,d0); vc.ensure_eq('errors kept',e,e0); vc.canary('nothing masked',(r==m0).all())
    @E.h('columns masked from the 1D mask')
    def h(vc):
        sh=shapes(vc)['two']; m=mask(vc,sh); m1=vc.arr('mask1',(sh[1],)); a0,b0=cp(m),cp(m1)
        r=gu.mask_spec2D_from_1D(mask2D=m,mask1D=m1); only_off(vc,r,a0,lambda i,j: b0[j]==0); vc.ensure_eq('1D mask kept',m1,b0); vc.canary('nothing masked',(r==a0).all())
    for allm in(False,True):
        for mz in(False,True):
            @E.h('filling masked pixels%s%s'%(', all masked' if allm else '',', zeros too' if mz else ''))
            def h(vc,allm=allm,mz=mz):
                sh=shapes(vc)['two']; f=vc.arr('data2',sh,finite=False); m=mask(vc,sh); f0,m0=cp(f),cp(m); v=vc.real('fill'); vc.assume(no(v==0))
                r=gu.spec_nan_masking(flux=f,spec_mask=m,fill_value=v,mask_zero=mz,mask_all_masked=allm)
                def want(i,j):
                    hit=m0[i,j]==0
                    if not allm: hit=both(hit,either(no(finite(f0[i,j])),f0[i,j]==0 if mz else mkb(FALSE)))
                    return ite_(hit,v,f0[i,j])
                vc.ensure_eq('only masked pixels filled',r,lam(sh,want)); vc.ensure_eq('mask kept',m,m0,True); vc.ensure('no non-finite masked pixel is left',np.all(lam(sh,lambda i,j: imp(m0[i,j]==0,finite(r[i,j])),'b'))); vc.canary('nothing filled',np.all(lam(sh,lambda i,j: finite(r[i,j]),'b')))
    @E.h('sky columns of a 1D error level')
    def h(vc):
        n=vc.int_('n',0); e=vc.arr('level',(n,),sign='nonneg'); c,md=vc.real('cutoff','pos'),vc.real('median','nonneg')
        no_,sky=gu.wh_skylines_1D(e,cutoff=c,median_err=md,full=True)
        vc.ensure_eq('sky: at or above the cutoff times the median level',sky,np.where(lam((n,),lambda i: e[i]>=c*md,'b'))[0]); vc.ensure_eq('sky-free: the others',no_,np.where(lam((n,),lambda i: e[i]<c*md,'b'))[0])
        vc.ensure('no median: rejected',vc.raises(Exception,lambda: gu.wh_skylines_1D(e,cutoff=c,full=True))); vc.canary('no sky',sky.shape[0]==0)
    def sky(vc,via):
        sh=shapes(vc)['two']; f,e=vc.arr('data2',sh),vc.arr('err2',sh); m=mask(vc,sh); c,md=vc.real('cutoff','pos'),vc.real('median','nonneg'); m0,e0=cp(m),cp(e)
        if via=='function': r=gu.mask_skylines_2D(flux=f,err=e,weight=None,mask=m,band_cutoff=c,band_cutoff_units='timesMedianErr',median_err=md,full=True); q=m
        else:
            s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(flux=f,flux_err=e,spec_weight=None,spec_mask=m,mask_qual=None if via=='spectrum, first call' else mask(vc,sh,'qual'),band_cutoff=c,band_cutoff_units='timesMedianErr',median_flux_error=md)
            if s.mask_qual is not None: m0=cp(s.mask_qual)
            s.get_skyline_mask(full=True); r=(s.mask_sky,s.wh_sky,s.wh_nosky); vc.ensure_eq('spectrum mask kept',s.spec_mask,mask(vc,sh)); q=s.mask_qual
        level=lam((sh[1],),lambda j: np.sqrt(total(sh[0],lambda i: (e0[i,j]*m0[i,j])**2))); hit=lam((sh[1],),lambda j: level[j]>=c*md,'b')
        only_off(vc,r[0],m0,lambda i,j: hit[j]); vc.ensure_eq('sky columns: summed error at or above the cutoff times the median level',r[1],np.where(hit)[0]); vc.ensure_eq('sky-free columns: exactly the others',r[2],np.where(~hit)[0]); vc.ensure_eq('input mask kept',q,m0,True); vc.canary('no sky',r[1].shape[0]==0)
    for via in('function','spectrum, first call','spectrum'):
        @E.h('sky columns, '+via)
        def h(vc,via=via): sky(vc,via)
    @E.h('sky columns, other cutoff units')
    def h(vc):
        sh=shapes(vc)['two']; m=mask(vc,sh)
        vc.ensure('rejected',vc.raises(ValueError,lambda: gu.mask_skylines_2D(flux=m,err=m,mask=m,band_cutoff=K('1.'),band_cutoff_units='sigma',median_err=K('1.'))))
    @E.h('low signal-to-noise rows of a spectrum')
    def h(vc):
        sh=shapes(vc)['two']; seen=[]
        def low(flux=None,err=None,mask=None,mask_calc=None,snr_cut=None,debug=False): seen.append((flux,err,mask,mask_calc,snr_cut)); return 'M','I'
        for first in(True,False):
            m,q=mask(vc,sh),mask(vc,sh,'qual'); s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(flux=vc.arr('data2',sh),flux_err=vc.arr('err2',sh),mask_qual=None if first else q,spec_mask=m,mask_sky=mask(vc,sh,'sky'),row_snr_cut=vc.real('cut','nonneg'))
            with patched((gu,'mask_low_snr_rows_2D',low)): s.get_low_snr_mask()
            f,e,mk,mc,c=seen[-1]; vc.ensure_eq('data',f,s.flux); vc.ensure_eq('errors',e,s.flux_err); vc.ensure_eq('quality mask',mk,m if first else q); vc.ensure_eq('rows judged on sky-free pixels',mc,s.mask_sky); vc.ensure('the spectrum\'s own cut',c==s.row_snr_cut); vc.ensure('results recorded',(s.mask_low_snr,s.low_snr_row_inds)==('M','I'))
            mk[:,:]=K('7.'); vc.ensure_eq('the stored mask is not handed out',s.mask_qual,m if first else q)
    def edges(vc,n,run):
        m=vc.arr('goodbits',(n,),'b'); mm=lam((n,),lambda i: ite_(m[i],K('1.'),K('0.'))); m0=cp(mm); k=vc.int_('num',0); r=run(mm,k)
        good=lam((n,),lambda i: m0[i]==1,'b')
        if not bool(np.any(good)): vc.ensure_eq('nothing good, nothing changed',r,m0); return
        a,b=vc.int_('first',0),vc.int_('last',0); vc.assume(both(a<n,b<n)); vc.assume(both(good[a],good[b])); vc.assume(np.all(lam((n,),lambda i: imp(good[i],both(i>=a,i<=b)),'b')))
        only_off(vc,r,m0,lambda i: either(both(a>0,i>=a,i<a+k),both(b<n-1,i>b-k,i<=b))); vc.canary('nothing masked',(r==m0).all())
    @E.h('spectrum edges')
    def h(vc):
        n=vc.int_('n',1); f=vc.arr('dataone',(n,)); edges(vc,n,lambda m,k: gu.mask_edges_1D(spec=f,spec_err=f,spec_mask=m,num_edge=k))
    @E.h('edges of a spectrum object')
    def h(vc):
        n=vc.int_('n',1); f=vc.arr('dataone',(n,))
        def run(m,k):
            s=gl.ObsSpectrum1D(flux=f,flux_err=f,spec_mask=m); s.num_mask_edge=k; s.mask_edges(); return s.spec_mask
        edges(vc,n,run)
    return E.hs
