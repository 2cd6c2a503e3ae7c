from dv.dsl import *
from contracts.common import *
import contextlib
META=dict(functions=['galaxy_utils.subtract_continuum_2D','galaxy_utils.trim_spectrum_2D_spatial','galaxy_utils.vert_position','galaxy.ObsSpectrum2D.subtract_continuum','galaxy.ObsSpectrum2D.trim_spectrum_spatial','galaxy_utils.spec_mask_missing','galaxy_utils.spec_nan_masking','galaxy_utils.mask_spec2D_from_1D','galaxy_utils.mask_edges_1D','galaxy_utils.wh_skylines_1D','general_utils.linear_fit','galaxy.ObsSpectrum2D.calculate_restwave'],
 assumptions=['masks are zero or one; 1D and 2D spectra share the wavelength array (extracted spectrum)','the wavelength ranges of the line are given (reading them from the files is C17)','spatial trim: the expected row is given (the code requires it), at least 16 rows'],
 trusted=['lmfit.minimize: fitted values are some finite numbers, fixed ones kept'])
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy')
    def mask(vc,sh,nm): return lam(sh,lambda *i: ite_(vc.arr(nm,sh,'b')[i],K('1.'),K('0.')))
    def cp(a): b=a.copy(); return lam(b.shape,lambda *i: b[i])
    def build(vc):
        nY,nW=vc.int_('rows',1),vc.int_('cols',1); sh=(nY,nW); wave=vc.arr('wave',(nW,),sign='pos'); z=vc.real('z','nonneg')
        s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update(wave=wave,obswave=cp(wave),restwave=wave/(1+z),flux=vc.arr('flux',sh,finite=False),flux_err=vc.arr('err',sh,finite=False),spec_weight=vc.arr('weight',sh),spec_mask=mask(vc,sh,'mask'),
            wave_full_range_rest=np.array([vc.real('full_lo'),vc.real('full_hi')]),wave_line_range_rest=np.array([vc.real('line_lo'),vc.real('line_hi')]),mask_lines_wave_range_rest=np.array([vc.real('mlo'),vc.real('mhi')]),linenames_arr=['L'],band_cutoff=vc.real('cutoff','pos'),restwave_arr=[vc.real('rest','pos')],flux_incl_cont=None,cont_model=None,median_flux_error=None)
        s1=object.__new__(gl.ObsSpectrum1D); s1.__dict__.update(wave=cp(wave),obswave=cp(wave),restwave=wave/(1+z),flux=vc.arr('flux1',(nW,)),flux_err=vc.arr('err1',(nW,)),spec_mask=mask(vc,(nW,),'mask1'),num_mask_edge=5)
        g=NS(spec1D=s1,z=z,debug=False,generate_model=False); return s,g,sh
    def at(a,*cs): return S(*frozen(a).num(cs),'f')
    def run(vc,none,real,fits=None):
        s,g,sh=build(vc); old={k:cp(v) for k,v in s.__dict__.items() if isinstance(v,Arr)}; old1={k:cp(v) for k,v in g.spec1D.__dict__.items() if isinstance(v,Arr)}; w=old['wave']
        class Fits(Lmfit):
            def minimize(q,fcn,params,args=(),**kw):
                if fits is None or bool(loops.ACTIVE)!=(fits=='rows'): return q.fit(fcn,params,args,kw)
                x,y,er,mk=args; a,b=[r*(1+g.z) for r in(s.mask_lines_wave_range_rest[0],s.mask_lines_wave_range_rest[1])]
                out=[np.where(lam((sh[1],),lambda j: both(w[j]>=fr[0],w[j]<a),'b'))[0],np.where(lam((sh[1],),lambda j: both(w[j]<=fr[1],w[j]>b),'b'))[0]]
                pts=lambda v: np.append(v[out[0]],v[out[1]])
                vc.ensure('a straight line, weighted by the errors, good points only',fcn is gu.utils.weighted_linear_residual); vc.ensure_eq('continuum points: the full window outside the masked line range',x,pts(w))
                if not loops.ACTIVE:
                    t=g.spec1D; lv=lam((sh[1],),lambda j: abs(t.flux_err[j]*q.mask1[j])); sky=lambda j: lv[j]>=s.band_cutoff*s.median_flux_error
                    m1=lam((sh[1],),lambda j: ite_(sky(j),K('0.'),q.mask1[j]))
                    vc.ensure_eq('slope: from the 1D spectrum',y,pts(old1['flux'])); vc.ensure_eq('slope: its errors',er,pts(old1['flux_err'])); vc.ensure_eq('slope: its good, sky-free columns',mk,pts(m1))
                    some=lambda o: bool(o.shape[0]>0) and bool(m1[o].max()>0); free=some(out[0]) and some(out[1])
                    vc.ensure('slope free exactly when both sides have good columns',bool(params['a'].vary)==free); vc.ensure('no slope otherwise',params['a'].value==0)
                else:
                    i=S(loops.ACTIVE[-1],TRUE,'i'); row=lambda v: lam((sh[1],),lambda j: v[i,j])
                    for nm,got,v in(('data',y,s.flux_incl_cont),('errors',er,s.flux_err),('mask',mk,s.spec_mask)): vc.ensure_eq('each row: its own %s'%nm,got,pts(row(v)))
                    vc.ensure('each row: slope of the 1D spectrum, its own height',both(params['a'].vary is False,params['a'].value==q.results[0].params['a'].value,bool(params['b'].vary)))
                return q.fit(fcn,params,args,kw)
            def fit(q,fcn,params,args,kw):
                r=Lmfit.minimize(q,fcn,params,args=args,**kw)
                if not loops.ACTIVE: q.results=[r]
                return r
        L=Fits('cont'); g.spec1D.__dict__['num_mask_edge']=5
        fr=[r*(1+g.z) for r in(s.wave_full_range_rest[0],s.wave_full_range_rest[1])]
        eb=vc.arr('edgebits',(sh[1],),'b')
        def edges(spec=None,spec_err=None,spec_mask=None,num_edge=10):
            # contract proved under C19: only switches pixels off
            spec_mask[:]=spec_mask*lam((sh[1],),lambda i: ind(eb[i])); L.mask1=cp(spec_mask); vc.ensure('ten columns at either edge',num_edge==10); return spec_mask
        # callees by their contracts, proved under C19
        def missing(spec=None,spec_err=None,spec_weight=None,spec_mask=None,nonfinite_only=False):
            m0=cp(spec_mask); some=mkb(FALSE) if nonfinite_only else np.any(np.abs(spec_err)>0); f0,e0=cp(spec),cp(spec_err)
            def keep(*i):
                b=both(finite(f0[i]),finite(e0[i]),no(both(some,e0[i]==0)))
                return b if spec_weight is None else both(b,no(spec_weight[i]==0))
            spec_mask[...]=lam(spec_mask.shape,lambda *i: ite_(keep(*i),m0[i],K('0.'))); return spec_mask
        def fill(flux=None,spec_mask=None,fill_value=K('-99.'),mask_zero=False,mask_all_masked=False):
            f0,m0=cp(flux),cp(spec_mask)
            hit=lambda *i: both(m0[i]==0,either(no(finite(f0[i])),mkb(TRUE) if mask_all_masked else mkb(FALSE),f0[i]==0 if mask_zero else mkb(FALSE)))
            flux[...]=lam(flux.shape,lambda *i: ite_(hit(*i),fill_value,f0[i])); return flux
        def from1d(mask2D=None,mask1D=None):
            a0,b0=cp(mask2D),cp(mask1D); mask2D[...]=lam(mask2D.shape,lambda i,j: ite_(b0[j]==0,K('0.'),a0[i,j])); return mask2D
        with patched((gu,'lmfit',L)) if real else patched((gu,'lmfit',L),(gu,'mask_edges_1D',edges),(gu,'spec_mask_missing',missing),(gu,'spec_nan_masking',fill),(gu,'mask_spec2D_from_1D',from1d)): s.subtract_continuum(g,no_cont_subtraction=none)
        if fits: return
        wh=np.where(lam((sh[1],),lambda j: both(w[j]>=fr[0],w[j]<=fr[1]),'b'))[0]
        for k in('wave','spec_weight'): vc.ensure_eq('kept columns: '+k,getattr(s,k),old[k][...,wh])
        vc.ensure_eq('observed wavelengths',s.obswave,old['wave'][wh]); vc.ensure_eq('rest wavelengths',s.restwave,old['wave'][wh]/(1+g.z))
        m=old['spec_mask']; kept=lambda i,j: both(m[i,j]==1,finite(old['flux'][i,j]),finite(old['flux_err'][i,j]),no(old['spec_weight'][i,j]==0))
        F,I,C,M=s.flux,s.flux_incl_cont,s.cont_model,s.spec_mask
        for k,v in(('flux',F),('flux with continuum',I),('continuum',C),('mask',M),('error',s.flux_err)): vc.ensure_eq('same window, same rows: shape of '+k,np.where(np.isfinite(v),0,0),s.spec_weight*0)
        wd=s.wave.dims[0]
        rows=F.dims[0]; r=rows.fresh(); c,d,e=wd.fresh(),wd.fresh(),wd.fresh()
        def go():
            ri=S(r,TRUE,'i'); cj=S(c[0],TRUE,'i')
            mm=at(M,r,c)
            vc.ensure('pixels are only switched off',either(mm==0,both(mm==1,kept(ri,cj))))
            if none: vc.ensure('every good pixel is kept',imp(kept(ri,cj),mm==1))
            vc.ensure('flux plus continuum is the flux before',both(finite(at(F,r,c)),at(F,r,c)+at(C,r,c)==at(I,r,c)))
            vc.ensure('flux before: the observed flux at every kept pixel',imp(mm==1,at(I,r,c)==old['flux'][ri,cj]))
            vc.ensure('flux before: the observed flux wherever finite',imp(finite(old['flux'][ri,cj]),at(I,r,c)==old['flux'][ri,cj]))
            vc.ensure('errors of kept pixels',imp(mm==1,at(s.flux_err,r,c)==old['flux_err'][ri,cj]))
            vc.ensure('no non-finite and no zero error hides in masked pixels',imp(mm==0,both(finite(at(s.flux_err,r,c)),no(at(s.flux_err,r,c)==0))))
            x,y=at(C,r,c),at(C,r,d)
            if none:
                vc.ensure('not subtracted: flux unchanged at kept pixels',imp(mm==1,at(F,r,c)==old['flux'][ri,cj])); vc.ensure('not subtracted: no continuum',x==0)
            else: vc.ensure('continuum linear in wavelength along each row',(x-y)*(at(s.wave,e)-at(s.wave,d))==(at(C,r,e)-y)*(at(s.wave,c)-at(s.wave,d)))
            vc.canary('no continuum' if not none else 'masked',x==0 if not none else mm==0)
        CTX.under([rows.rng(r),wd.rng(c),wd.rng(d),wd.rng(e)],go)
        if not none:
            t=g.spec1D
            for k in('wave','flux','flux_err'): vc.ensure_eq('1D spectrum, same window: '+k,getattr(t,k),old1[k][wh])
            vc.ensure_eq('1D observed wavelengths',t.obswave,s.obswave); vc.ensure_eq('1D rest wavelengths',t.restwave,s.restwave); vc.ensure_eq('1D mask only loses pixels',t.spec_mask*(1-old1['spec_mask'][wh]),0*t.wave); vc.ensure_eq('1D mask has the window',0*t.spec_mask,0*t.wave)
        else:
            for k,v in old1.items(): vc.ensure_eq('1D spectrum untouched: '+k,getattr(g.spec1D,k),v)
    for none,real in((True,True),(True,False),(False,False)):
        @E.h('continuum subtraction'+(' switched off' if none else '')+('' if real or not none else ', callees by contract'))
        def h(vc,none=none,real=real): run(vc,none,real)
    for k in('slope','rows'):
        @E.h('continuum fits: '+k)
        def h(vc,k=k): run(vc,False,False,k)
    @E.h('spatial trim')
    def h(vc):
        nY,nW=vc.int_('rows',1),vc.int_('cols',1); sh=(nY,nW); keys=('flux','flux_err','flux_incl_cont','cont_model','spec_weight','spec_mask','mask_qual','mask_sky','mask_low_snr')
        for dither in(True,False):
            for prof in('profile','no profile','no 1D spectrum'):
                if not dither and prof!='profile': continue
                s=object.__new__(gl.ObsSpectrum2D); s.__dict__.update({k:vc.arr('t_'+k,sh) for k in keys}); s.__dict__.update(obswave=vc.arr('wave',(nW,),sign='pos'),restwave_arr=[vc.real('rest','pos')],band='B',ypos=vc.real('ypos','nonneg'),wh_sky='sky',row_snr_cut=vc.real('cut','pos'),low_snr_row_inds='old')
                p=vc.arr('prof',(nY,)); p0=cp(p)
                g=NS(z=vc.real('z','nonneg'),debug=False,dither=dither,spec1D=None if prof=='no 1D spectrum' else NS(extraction_spatial_profile=p if prof=='profile' else None)); ins=NS(pixscale=vc.real('pixscale','pos'))
                old={k:cp(getattr(s,k)) for k in keys}; y0=s.ypos; m0,lo,hi,sf,pk=vc.int_('m0'),vc.int_('m_min'),vc.int_('m_max',0),vc.real('shift'),vc.real('peak')
                vc.assume(both(lo<=m0,m0<=hi,lo<nY)); seen=[]
                def vert(**kw): seen.append(kw); return m0,sf,pk,lo,hi
                def low(flux=None,err=None,mask=None,mask_calc=None,snr_cut=None,debug=False): seen.append((flux,err,mask,mask_calc,snr_cut)); return 'M','newinds'
                with patched((gu,'vert_position',vert),(gu,'mask_low_snr_rows_2D',low)): s.trim_spectrum_spatial(g,ins)
                a=0 if not dither else lo if bool(lo>0) else 0; b=nY-1 if not dither else hi if bool(hi<nY-1) else nY-1; n=b-a if bool(b>a) else 0
                nm=('dithered' if dither else 'not dithered')+', '+prof
                for k in keys: vc.ensure_eq('same rows, %s: %s'%(nm,k),getattr(s,k),old[k][a:b])
                vc.ensure('row count, '+nm,s.n_spatial==n)
                if prof=='profile': vc.ensure_eq('extraction profile, same rows, '+nm,g.spec1D.extraction_spatial_profile,p0[a:b])
                vc.ensure('object row shifts by the rows removed below, '+nm,s.m0==m0-a); vc.ensure('position shifts by the rows removed below, '+nm,s.ypos==y0-a)
                vc.ensure('bounds recorded, '+nm,both(s.full_m0==m0,s.full_l_ind==a,s.full_r_ind==b,s.m0_shift_fit==sf,s.m0_peak_snr==pk,s.m_lims[0]==0,s.m_lims[1]==n))
                kw=seen[0]; vc.ensure_eq('position fitted to the sky-free flux, '+nm,kw['flux'],old['flux']*old['mask_sky']); vc.ensure_eq('and errors, '+nm,kw['err'],old['flux_err']*old['mask_sky']); vc.ensure('at the stated position, '+nm,both(kw['ypos']==y0,kw['obswave_val']==s.restwave_arr[0]*(1+g.z),kw['dither'] is dither,kw['spatial_pixscale']==ins.pixscale,not kw.get('refit',False)))
                f,e,mk,mc,cut=seen[1]; vc.ensure_eq('low rows found again on the trimmed rows, '+nm,f,s.flux); vc.ensure_eq('their errors, '+nm,e,s.flux_err); vc.ensure_eq('their sky mask, '+nm,mc,s.mask_sky); vc.ensure('new row numbers kept, '+nm,s.low_snr_row_inds=='newinds' and len(seen)==2)
        vc.canary('nothing trimmed',s.n_spatial==nY)
    def vert(vc,dither,known,refit):
        nY,nW=vc.int_('rows',16),vc.int_('cols',1); sh=(nY,nW); L=Lmfit('vfit'); f,e=vc.arr('vf',sh),vc.arr('ve',sh,sign='pos'); ypos=vc.real('ypos','nonneg') if known else None
        if known: vc.assume(ypos<=nY-1)
        with patched((gu,'lmfit',L)): m0,sf,pk,lo,hi=gu.vert_position(flux=f,err=e,obswave=vc.arr('wave',(nW,),sign='pos'),obswave_val=vc.real('wv','pos'),ypos=ypos,spatial_pixscale=vc.real('pixscale','pos'),dither=dither,refit=refit)
        vc.ensure('whole rows',both(m0==np.round(m0),lo==np.round(lo),hi==np.round(hi))); vc.ensure('the object row lies in the kept rows',both(lo<=m0,m0<=hi)); vc.ensure('some row is kept',both(hi>=0,lo<nY)); vc.ensure('the fitted shift is less than a row',either(refit,abs(sf)<=1/K('2.'))); vc.canary('first row',m0==0)
    for dither in(True,False):
        @E.h('vertical position, '+('dithered' if dither else 'not dithered'))
        def h(vc,dither=dither): vert(vc,dither,True,False)
    return E.hs
