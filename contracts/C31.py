"""Preparing an observed spectrum for the fit.  Every step is represented by its contract: a precondition on the state of the
spectrum (asserted at the call) and its effect on it (C17, C18, C19, C21, C22, C02 and C32 prove them); the postconditions are
about the state in which the preparation leaves the spectrum and the galaxy."""
from dv.dsl import *
from contracts.common import *
META=dict(functions=['galaxy.ObsSpectrum2D.fit_prep_calcs','galaxy.ObsSpectrum2D.initialize_derived_variables','galaxy.ObsSpectrum2D.initialize_lineset','galaxy.ObsSpectrum2D.initialize_skylevels','galaxy.ObsSpectrum2D._ensure_mask_weight','galaxy.ObsSpectrum2D.get_skyline_mask','galaxy.ObsSpectrum2D.get_low_snr_mask','galaxy.ObsSpectrum2D.subtract_continuum','galaxy.ObsSpectrum2D.trim_spectrum_wavelength','galaxy.ObsSpectrum2D.trim_spectrum_spatial','galaxy.ObsSpectrum2D.calculate_fit_weights','galaxy.ObsSpectrum2D.get_m0_lam0_pos','galaxy.Galaxy.calculate_slit_object_delta_PA','galaxy.Galaxy.set_spectrum_1D','galaxy.Galaxy.set_spectrum_2D','galaxy.GalaxyBasic.set_spectrum_2D','galaxy.ObsSpectrum.load_basic_defaults','galaxy.ObsSpectrum1D.load_basic_defaults','galaxy.ObsSpectrum2DBasic.load_basic_defaults','galaxy.ObsSpectrum.calculate_restwave','galaxy.Spectrum.setAttr','fit2D.FitEmissionLines2D.__init__ (whether the spectrum is prepared)'],
 assumptions=['spectrum with any number of rows and columns, at least two wavelengths; masks zero or one; no quality mask given beforehand','the file tables by contract (C17)'],
 trusted=['copies made by numpy arrays are copies'])
CUBE=('flux','flux_err','spec_mask','spec_weight','flux_incl_cont','cont_model'); MASKS=('mask_qual','mask_sky','mask_low_snr')
def harnesses(E):
    gu=E.mod('misfit.general.galaxy_utils'); gl=E.mod('misfit.galaxy'); io=E.mod('misfit.general.io'); f2=E.mod('misfit.fit.fit2D')
    def cp(a): b=a.copy(); return lam(b.shape,lambda *i: b[i])
    def mask(vc,nm,sh): b=vc.arr(nm,sh,'b'); return lam(sh,lambda *i: ite_(b[i],K('1.'),K('0.')))
    class Steps:
        """contracts of the callees"""
        def __init__(s,vc,nY,nW,no_cont): s.vc=vc; s.nY=nY; s.nW=nW; s.no=no_cont; s.n={}; s.c0,s.c1,s.r0,s.r1=vc.int_('col_lo',0),vc.int_('col_hi',0),vc.int_('row_lo',0),vc.int_('row_hi',0); vc.assume(both(s.c0<s.c1,s.c1<=nW,s.r0<s.r1,s.r1<=nY)); s.seen={}
        def count(s,k): s.n[k]=s.n.get(k,0)+1
        def pre(s,what,sp,sh,keys):
            for k in keys:
                v=getattr(sp,k,None); s.vc.ensure('%s: %s is there'%(what,k),isinstance(v,Arr))
                if isinstance(v,Arr): s.vc.ensure('%s: %s has the rows and columns of the spectrum'%(what,k),len(v.shape)==len(sh) and both(*[a==b for a,b in zip(v.shape,sh)]))
        def items(s): return [(gu,n,getattr(s,n)) for n in('subtract_continuum_2D','trim_spectrum_2D_wavelength','get_skyline_mask_2D','get_low_snr_mask_2D','trim_spectrum_2D_spatial','calculate_2D_fit_weights','calculate_slit_offset_angles','get_m0_lam0_pos_2D')]
        def subtract_continuum_2D(s,sp,g,fill_value=None,no_cont_subtraction=False):
            s.count('continuum'); vc=s.vc; sh=(s.nY,s.nW); s.pre('continuum',sp,sh,CUBE[:4]); vc.ensure('continuum: lines known',bool(sp.linenames_arr)); vc.ensure('continuum: subtracted unless switched off',no_cont_subtraction is s.no); vc.ensure('continuum: galaxy passed on',g is s.g); vc.ensure('continuum: sky levels known',sp.band_cutoff is not None)
            s.given={k:cp(getattr(sp,k)) for k in('flux','flux_err','spec_mask','spec_weight','wave')}
            for k in('flux','flux_err','flux_incl_cont','cont_model'): setattr(sp,k,vc.arr('sub_'+k,sh).copy())
            m=vc.arr('quality',sh,'b'); old=s.given['spec_mask']; sp.spec_mask=lam(sh,lambda *i: ite_(m[i],old[i],K('0.'))); s.q=cp(sp.spec_mask); return sp
        def trim_spectrum_2D_wavelength(s,sp,g,trim_restwave_range=None,trim_obswave_range=None,param_restwave_filename=None,linename=None,inplace=True):
            s.count('window'); vc=s.vc; sh=(s.nY,s.nW); s.pre('window',sp,sh,CUBE); vc.ensure('window: of the first line',linename==s.lines[0] and trim_restwave_range is s.range and param_restwave_filename is s.rangefile and trim_obswave_range is None and g is s.g); vc.ensure('window: of the spectrum itself',inplace is True)
            for k in CUBE: setattr(sp,k,getattr(sp,k)[:,s.c0:s.c1].copy())
            sp.wave=sp.wave[s.c0:s.c1].copy(); sp.calculate_restwave(g); s.cols=s.c1-s.c0; return sp
        def get_skyline_mask_2D(s,sp,full=True):
            s.count('sky'); vc=s.vc; sh=(s.nY,s.cols); s.pre('sky lines',sp,sh,CUBE+('mask_qual',)); vc.ensure('sky lines: threshold known',sp.band_cutoff is not None and sp.band_cutoff_units is not None); vc.ensure('sky lines: cutoff rows for the full range',full is True)
            b=vc.arr('skycol',(s.cols,),'b'); q=cp(sp.mask_qual); s.sky=lam(sh,lambda i,j: ite_(b[j],K('0.'),q[i,j])); return s.sky.copy(),np.where(b)[0],np.where(~b)[0]
        def get_low_snr_mask_2D(s,sp,snr_cut=None,debug=False):
            s.count('low'); vc=s.vc; sh=(s.nY,s.cols); s.pre('low rows',sp,sh,CUBE+('mask_qual','mask_sky')); vc.ensure('low rows: the cut of the spectrum',snr_cut==s.cut)
            b=vc.arr('lowrow',(s.nY,),'b'); q=cp(sp.mask_qual); s.low=lam(sh,lambda i,j: ite_(b[i],K('0.'),q[i,j])); s.lowinds=np.where(b)[0]; return s.low.copy(),s.lowinds
        def trim_spectrum_2D_spatial(s,sp,g,ins):
            s.count('rows'); vc=s.vc; sh=(s.nY,s.cols); s.pre('rows',sp,sh,CUBE+MASKS); vc.ensure('rows: expected row, sky columns and lines known',sp.ypos is not None and sp.wh_sky is not None and sp.restwave_arr is not None and g is s.g and ins is s.ins)
            for k in CUBE+MASKS: setattr(sp,k,getattr(sp,k)[s.r0:s.r1].copy())
            sp.n_spatial=s.r1-s.r0; sp.m_lims=np.array([0,s.r1-s.r0]); sp.m0=vc.int_('m0'); sp.m0_shift_fit=vc.real('shift'); sp.m0_peak_snr=vc.real('peak'); sp.ypos=sp.ypos-s.r0; sp.low_snr_row_inds=np.where(vc.arr('lowrow2',(s.r1-s.r0,),'b'))[0]; return sp,g
        def calculate_2D_fit_weights(s,sp):
            s.count('weights'); vc=s.vc; n=s.r1-s.r0; s.pre('weights',sp,(n,s.cols),CUBE+MASKS); w=vc.arr('wprof',(n,)); sp.fitting_weight_profile=w; sp.fitting_weight_matrix=lam((n,s.cols),lambda i,j: w[i]); return sp
        def calculate_slit_offset_angles(s,g): s.count('angle'); s.vc.ensure('misalignment: of this galaxy',g is s.g); g.delt_PA=s.vc.real('angle'); g.delt_PA_abs=abs(g.delt_PA); return g
        def get_m0_lam0_pos_2D(s,sp,g):
            s.count('position'); vc=s.vc; n=s.r1-s.r0; s.pre('position',sp,(n,s.cols),CUBE+MASKS); vc.ensure('position: starting values known',all(getattr(sp,k,None) is not None for k in('m0','m0_shift_fit','m_lims','ypos','wh_nosky','lam0','low_snr_row_inds'))); s.seen['lam0']=sp.lam0
            sp.m0_shift=vc.real('m0_shift'); sp.lam0_init=sp.lam0; sp.lam0=vc.real('lam0fit','pos'); return sp
    def build(vc,mask_,weight,lam0,lines,dpa,typ='wave',**kw):
        nY,nW=vc.int_('rows',1),vc.int_('cols',2); sh=(nY,nW); z=vc.real('z','nonneg')
        g=gl.Galaxy(); g.z=z; g.delt_PA=vc.real('dpa') if dpa else None
        s=gl.ObsSpectrum2D(wave=vc.arr('wave',(nW,),sign='pos').copy(),flux=vc.arr('flux',sh).copy(),flux_err=vc.arr('err',sh).copy(),spec_mask=mask(vc,'mask',sh) if mask_ else None,spec_weight=vc.arr('weight',sh).copy() if weight else None,ypos=vc.real('ypos'),spec_type=typ,band='K')
        if lines: s.linenames_arr=['A','B']; s.restwave_arr=np.array([vc.real('restA','pos'),vc.real('restB','pos')]); s.flux_ratio_arr=np.array([1.,2.]); s.band_cutoff=vc.real('cutoff','pos')
        else: s.linegroup_name='G'
        if lam0: s.lam0=vc.real('lam0','pos')
        s.row_snr_cut=vc.real('rowcut','pos'); s.wave_line_range_rest_param_filename='rangefile'; s.wave_line_range_rest=[1.,2.]
        s.__dict__.update(kw); ins=NS(pixscale=vc.real('pixscale','pos')); g.debug=False
        T=Steps(vc,nY,nW,False); T.g,T.ins,T.cut,T.range,T.rangefile,T.lines=g,ins,s.row_snr_cut,s.wave_line_range_rest,'rangefile',['A','B']
        return s,g,ins,T
    def files(vc): return [(io,'read_line_names',lambda fn,name=None: ['A','B'] if name=='G' and fn.endswith('line_names_cat.dat') else 1/0),(io,'read_restwave',lambda fn,linename=None: vc.real('rest'+linename,'pos') if fn.endswith('line_wavelengths_ratios.dat') else 1/0),(io,'read_line_ratio',lambda fn,linename=None: vc.real('ratio'+linename,'pos') if fn.endswith('line_wavelengths_ratios.dat') else 1/0),(io,'read_skyline_band_cutoff',lambda fn,band=None: (vc.real('cutoff','pos'),'timesMedianErr') if band=='K' and fn.endswith('band_sky_cutoff_mosfire.dat') else 1/0)]
    def post(vc,s,g,T,w0,lam0):
        vc.ensure('every step once',all(T.n.get(k)==1 for k in('continuum','window','sky','low','rows','weights','position'))); q=T.q[T.r0:T.r1,T.c0:T.c1]; lo=T.low[T.r0:T.r1]
        vc.ensure_eq('mask of the fit: quality mask without the low signal-to-noise rows',s.spec_mask,q*lo); vc.ensure_eq('quality mask kept apart',s.mask_qual,q); vc.ensure_eq('sky mask',s.mask_sky,T.sky[T.r0:T.r1]); vc.ensure_eq('row mask',s.mask_low_snr,lo)
        for k in('flux','flux_err','flux_incl_cont','cont_model'): vc.ensure_eq('prepared '+k,getattr(s,k),vc.arr('sub_'+k,(T.nY,T.nW))[T.r0:T.r1,T.c0:T.c1])
        vc.ensure_eq('rest wavelengths',s.restwave,w0[T.c0:T.c1]/(1+g.z)); vc.ensure_eq('wavelengths',s.wave,w0[T.c0:T.c1]); vc.ensure_eq('observed wavelengths',s.obswave,s.wave)
        vc.sum_lemma('steps of a wavelength array add up',T.nW-1,lambda i: w0[i+1]-w0[i],lambda i: w0[i]-w0[0])
        vc.ensure('wavelength spacing: the mean one',s.dlam==(w0[T.nW-1]-w0[0])/(T.nW-1)); vc.ensure('line wavelength starts at the given one, or at the redshifted first line',T.seen['lam0']==lam0); vc.ensure('fitted line wavelength and row offset kept',both(s.lam0==vc.real('lam0fit','pos'),s.m0_shift==vc.real('m0_shift')))
        vc.ensure('marked as prepared',s.prepared_for_fitting is True); vc.ensure('the galaxy holds the prepared spectrum',g.spec2D is s)
        for a in('spec_mask','mask_qual','mask_sky','mask_low_snr'):
            for b in('spec_mask','mask_qual','mask_sky','mask_low_snr'): vc.ensure('masks are separate arrays',a==b or getattr(s,a).buf is not getattr(s,b).buf)
    import itertools
    for mask_,weight,lam0,lines,dpa in((True,True,False,True,False),(False,True,False,True,True),(True,False,True,True,True),(False,False,True,False,False),(True,True,False,False,True)):
        nm=', '.join(['mask %s'%('given' if mask_ else 'missing'),'weight %s'%('given' if weight else 'missing')]+(['line wavelength given'] if lam0 else [])+([] if lines else ['lines by group'])+(['misalignment given'] if dpa else []))
        @E.h('preparation: '+nm)
        def h(vc,mask_=mask_,weight=weight,lam0=lam0,lines=lines,dpa=dpa):
            s,g,ins,T=build(vc,mask_,weight,lam0,lines,dpa); w0=cp(s.wave); sh=(T.nY,T.nW); F,Er=cp(s.flux),cp(s.flux_err); M=cp(s.spec_mask) if mask_ else np.ones(sh); W=cp(s.spec_weight) if weight else np.ones(sh); L0=s.lam0 if lam0 else vc.real('restA','pos')*(1+g.z)
            with patched(*(T.items()+files(vc))):
                s.fit_prep_calcs(g,ins)
                for k,v in(('flux',F),('flux_err',Er),('spec_mask',M),('spec_weight',W),('wave',w0)): vc.ensure_eq('continuum subtracted from the spectrum given, with full weight and mask where none: '+k,T.given[k],v)
                vc.ensure_eq('prepared weight',s.spec_weight,W[T.r0:T.r1,T.c0:T.c1])
                post(vc,s,g,T,w0,L0)
                if not lines:
                    vc.ensure('lines of the group',s.linenames_arr==['A','B']); vc.ensure('their wavelengths',both(s.restwave_arr[0]==vc.real('restA','pos'),s.restwave_arr[1]==vc.real('restB','pos'))); vc.ensure('their ratios',both(s.flux_ratio_arr[0]==vc.real('ratioA','pos'),s.flux_ratio_arr[1]==vc.real('ratioB','pos'))); vc.ensure('sky threshold of the band',s.band_cutoff==vc.real('cutoff','pos') and s.band_cutoff_units=='timesMedianErr')
                vc.ensure('misalignment given is kept, else computed once',T.n.get('angle',0)==(0 if dpa else 1) and g.delt_PA==(vc.real('dpa') if dpa else vc.real('angle')))
                # again: nothing is prepared a second time
                n0=dict(T.n); keep={k:cp(v) for k,v in s.__dict__.items() if isinstance(v,Arr) and v.kind in 'fib' and k not in('wh_sky','wh_nosky','low_snr_row_inds')}; sc={k:v for k,v in s.__dict__.items() if not isinstance(v,Arr)}; g2=NS(z=g.z+1,delt_PA=None,debug=False)
                s.fit_prep_calcs(g2,ins); vc.ensure('a prepared spectrum is not prepared again',T.n==n0 and g2.spec2D is s and g2.delt_PA is None)
                for k,v in keep.items(): vc.ensure_eq('second preparation keeps '+k,getattr(s,k),v)
                for k,v in sc.items(): vc.ensure('second preparation keeps '+k,getattr(s,k) is v)
                s.fit_prep_calcs(g2,ins,weighting_type='none',unknown=3); vc.ensure('settings are taken on',s.weighting_type=='none' and not hasattr(s,'unknown'))
            vc.canary('nothing masked',(s.spec_mask==1).all())
    @E.h('preparation with settings')
    def h(vc):
        s,g,ins,T=build(vc,True,True,True,True,True); T.no=True; w0=cp(s.wave); T.cut=vc.real('othercut','pos'); L0=vc.real('otherlam0','pos')
        with patched(*(T.items()+files(vc))): s.fit_prep_calcs(g,ins,no_continuum_subtraction=True,row_snr_cut=T.cut,lam0=L0,nonsense=1)
        post(vc,s,g,T,w0,L0); vc.ensure('only known settings',not hasattr(s,'nonsense'))
    # ---- attaching spectra to a galaxy
    for dims in(1,2):
        for zknown in(True,False):
            for mask_ in(True,False):
                for typ in('wave','velocity'):
                    @E.h('%dD spectrum set, %s, %s, %s'%(dims,'redshift known' if zknown else 'no redshift','mask given' if mask_ else 'no mask',typ))
                    def h(vc,dims=dims,zknown=zknown,mask_=mask_,typ=typ):
                        n,m=vc.int_('n',1),vc.int_('m',1); sh=(m,n) if dims==2 else (n,); mk=mask(vc,'mask',sh)
                        for cls in((gl.ObsSpectrum1D,gl.ObsSpectrum) if dims==1 else (gl.ObsSpectrum2D,gl.ObsSpectrum2DBasic)):
                            g=gl.Galaxy(); g.z=vc.real('z','nonneg') if zknown else None; s=cls(wave=vc.arr('wave',(n,),sign='pos'),flux=vc.arr('flux',sh),flux_err=vc.arr('err',sh),spec_mask=mk if mask_ else None,spec_type=typ); g.__dict__['spec%dD'%(3-dims)]='other'
                            (g.set_spectrum_1D if dims==1 else g.set_spectrum_2D)(s)
                            vc.ensure('held by the galaxy',getattr(g,'spec%dD'%dims) is s and getattr(g,'spec%dD'%(3-dims))=='other')
                            w=vc.arr('wave',(n,),sign='pos'); vc.ensure_eq('wavelengths kept',s.wave,w); vc.ensure_eq('flux kept',s.flux,vc.arr('flux',sh)); vc.ensure_eq('errors kept',s.flux_err,vc.arr('err',sh))
                            if zknown and typ=='wave': vc.ensure_eq('observed wavelengths',s.obswave,w); vc.ensure_eq('rest wavelengths',s.restwave,w/(1+g.z))
                            else: vc.ensure('no rest wavelengths without redshift or wavelengths',not hasattr(s,'restwave'))
                            vc.ensure_eq('mask given, or everything kept',s.spec_mask,mk if mask_ else np.ones(sh))
    for skip in(True,False):
        @E.h('a fit %s'%('of a prepared spectrum' if skip else 'prepares its spectrum'))
        def h(vc,skip=skip):
            log=[]; s=gl.ObsSpectrum2D(); s.__dict__.update(linegroup_name='G',linenames_arr=['a','b'],restwave_arr=np.array([vc.real('w'),1.]),flux_ratio_arr=np.array([1.,vc.real('f')])); s.fit_prep_calcs=lambda *a,**k: log.append(a)
            g=gl.Galaxy(); g.n,g.re_arcsec,g.q0,g.q,g.z,g.delt_PA=vc.real('n','pos'),vc.real('re','pos'),vc.real('q0','pos'),vc.real('q','pos'),vc.real('z','nonneg'),vc.real('dpa'); g.set_spectrum_2D(s); i=NS(pixscale=vc.real('pixscale','pos'))
            f=f2.FitEmissionLines2D(galaxy=g,instrument=i,skip_fit_prep_calcs=skip)
            vc.ensure('prepared once for this galaxy and instrument, unless told it is done',log==([] if skip else [(g,i)])); vc.ensure('the fit holds what it was given',f.galaxy is g and f.instrument is i and g.spec2D is s); vc.canary('nothing',vc.real('n','pos')==1)
    return E.hs
