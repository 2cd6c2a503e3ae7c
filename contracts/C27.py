from dv.dsl import *
from contracts.common import *
from contracts.common import files as pickled
META=dict(functions=['fit1D.FitEmissionLines1D.__init__','fit1D.FitEmissionLines1D.setAttr','fit1D.FitEmissionLines1D.setup_spectrum','fit1D.FitEmissionLines1D.make_params','fit1D.FitEmissionLines1D.fit','fit1D.FitEmissionLines1D.calculate_inst_corr_vel_disp','fit1D.FitEmissionLines1D.save_mc_sim_matrix','fit1D.FitEmissionLines1D.load_mc_sim_matrix'],
 assumptions=['spectrum, errors and mask of the trimmed spectrum finite, any length; Monte Carlo count and table length any positive number; one or two line groups, continuum order 0 to 2 (each set-up on its own)','the spectrum and residual model by their own contracts (C16), trimming and edge masking by theirs (C12)','without the diagnostic plot (the plotted fit is exercised on sampled spectra)'],
 trusted=['lmfit.minimize: fitted values are some finite numbers within the bounds given','numpy.percentile(column,q) is some function of the column and q','pickle returns the table that was written'])
def same_shape(a,b): return len(a.shape)==len(b.shape) and both(*[x==y for x,y in zip(a.shape,b.shape)])
def draws(t): return {a for (m,c) in t.p for a,e in m if a.kind=="app" and a.name.startswith("randn")}
def harnesses(E):
    f1=E.mod('misfit.fit.fit1D'); io=E.mod('misfit.general.io')
    P=lambda a,q: np.percentile(a,K(q))
    def files(F): return pickled(F,f1)
    def corrected(v,r): return ite_(v*v>r*r,np.sqrt(ite_(v*v>r*r,v*v-r*r,0)),K('0.'))
    def fitter(vc,**kw):
        f=object.__new__(f1.FitEmissionLines1D); d=dict(galaxy=NS(),instrument=NS(instrument_resolution=vc.real('resolution','nonneg')),names_arr=['A'],vel_disp=vc.real('vel_disp'))
        d.update(kw); f.__dict__.update(d); return f
    def corr_post(vc,f,v,r,col):
        vc.ensure('corrected dispersion: quadrature difference, or zero',f.vel_disp_inst_corr==corrected(v,r)); vc.ensure('corrected dispersion is real',finite(f.vel_disp_inst_corr)); vc.ensure('corrected dispersion not negative',f.vel_disp_inst_corr>=0)
        vc.ensure('zero where the measured does not exceed the instrumental',imp(abs(v)<=r,f.vel_disp_inst_corr==0)); vc.ensure('positive where it does',imp(abs(v)>r,f.vel_disp_inst_corr>0))
        if col is None: vc.ensure('no errors asked for',both(f.vel_disp_inst_corr_err[0]==0,f.vel_disp_inst_corr_err[1]==0)); return
        C=lam(col.shape,lambda i: corrected(col[i],r)); e=f.vel_disp_inst_corr_err
        vc.ensure('lower error',e[0]==corrected(v,r)-P(C,'15.865')); vc.ensure('upper error',e[1]==P(C,'84.135')-corrected(v,r)); vc.ensure('one pair of errors',e.shape==(2,))
    for errs in(True,False):
        @E.h('correction%s'%(', Monte Carlo table' if errs else ''))
        def h(vc,errs=errs):
            f=fitter(vc); M=vc.int_('realisations',1); m=vc.int_('columns',2); T=vc.arr('table',(M,m)); F=Files(); F.d['e']=T.copy(); v,r=f.vel_disp,f.instrument.instrument_resolution
            with files(F): f.calculate_inst_corr_vel_disp(noErrors=not errs,err_filename='e' if errs else None)
            corr_post(vc,f,v,r,T[:,1] if errs else None); vc.ensure('measured dispersion kept',f.vel_disp==v and f.instrument.instrument_resolution==r); vc.canary('no correction',f.vel_disp_inst_corr==v)
            if errs: vc.ensure_eq('table file kept',F.d['e'],T)
    @E.h('no resolution, no correction')
    def h(vc):
        f=fitter(vc,instrument=NS(instrument_resolution=None)); f.calculate_inst_corr_vel_disp(); vc.ensure('nothing reported',not hasattr(f,'vel_disp_inst_corr'))
    @E.h('errors need a file')
    def h(vc):
        f=fitter(vc); vc.ensure('rejected',vc.raises(ValueError,lambda: f.calculate_inst_corr_vel_disp()))
    @E.h('negative resolution rejected')
    def h(vc):
        f=fitter(vc,instrument=NS(instrument_resolution=-vc.real('r','pos'))); vc.ensure('rejected',vc.raises(ValueError,lambda: f.fit(noErrors=True,noPlot=True)))
    # ---- the fit
    class Model:
        def __init__(s,**kw): s.kw=kw; Model.last=s
        def residual1DProfile(s,*a): raise Exception('only lmfit evaluates it')
        def make1DProfile(s,p,w): return opaque('profile',(w.shape[0],),*[p[k].value for k in sorted(p)],w)
    def setup(vc,names,order,cont=True,**kw):
        n=vc.int_('npix',1); sp=NS(obswave=vc.arr('wave',(n,),sign='pos'),flux=vc.arr('flux',(n,)),flux_err=vc.arr('err',(n,)),spec_mask=vc.arr('mask',(n,)))
        g=NS(z=vc.real('z0','nonneg'),spec1D_trim=sp,field='F',ID=3,maskname=None)
        return fitter(vc,galaxy=g,z=vc.real('z'),names_arr=list(names),flux_arr=[vc.real('flux%d_0'%k) for k in range(len(names))],cont_coeff=[vc.real('c%d_0'%k) for k in range(order+1)] if cont else None,cont_order=order,shape1D='gaussian',del_obs_lam=vc.real('dlam','pos'),num_MC=vc.int_('num_MC',1),restwave_arr=[np.array([vc.real('rest%d_%d'%(k,j),'pos') for j in range(k+1)]) for k in range(len(names))],**kw)
    def start_ok(vc,f,params,z,sd,fl,cc,bd,what):
        keys=['z','vel_disp']+['flux%d'%k for k in range(len(fl))]+['cont_coeff%d'%k for k in range(len(cc))]
        vc.ensure(what+': parameters',sorted(params)==sorted(keys))
        for k,v in zip(keys,[z,sd]+list(fl)+list(cc)): vc.ensure(what+': start of '+k,params[k].value==v); vc.ensure(what+': free '+k,params[k].vary is not False)
        d=f.del_obs_lam/f.restwave_arr[0][0]
        vc.ensure(what+': redshift range',both(params['z'].min==f.galaxy.z-d,params['z'].max==f.galaxy.z+d))
        for k in keys[1:]:
            lo=bd.get('vel_disp' if k=='vel_disp' else 'flux' if k[0]=='f' else 'c',False)
            vc.ensure(what+': bound of '+k,(params[k].min is not None and params[k].min==0.) if lo else params[k].min is None); vc.ensure(what+': no upper bound of '+k,params[k].max is None)
    def fit_post(vc,f,L,names,order,s0,n0):
        r0=L.results[0]; a,b=r0['vel_disp'].value<0,r0['flux0'].value<0; nf=len(names)
        main=[c for c in range(len(L.calls)) if not n0 or c<n0]; acc=L.results[len(main)-1]; c0=L.calls[0]
        start_ok(vc,f,c0[1],*s0,dict(),'first fit')
        for fcn,p,args in [L.calls[c] for c in main]:
            s=f.galaxy.spec1D_trim; vc.ensure('residual of the model of these lines',fcn==Model.last.residual1DProfile and Model.last.kw['names_arr']==names and Model.last.kw['cont_order']==order)
            vc.ensure('fitted to the trimmed spectrum',len(args)==4); [vc.ensure_eq('fitted to the trimmed spectrum',x,y) for x,y in zip(args,(s.obswave,s.flux,s.flux_err,s.spec_mask))]
        vc.ensure('one fit where dispersion and flux are not negative',imp(no(either(a,b)),len(main)==1)); vc.ensure('a bounded refit otherwise',imp(either(a,b),len(main)==2))
        if len(main)==2:
            p=L.calls[1][1]; start_ok(vc,f,p,*s0,dict(vel_disp=p['vel_disp'].min is not None,flux=p['flux0'].min is not None),'refit')
            vc.ensure('refit: bounds on what was negative',both(same(a,p['vel_disp'].min is not None),same(b,p['flux0'].min is not None)))
        R=lambda k: acc[k].value
        vc.ensure('redshift of the accepted result',f.z==R('z')); vc.ensure('dispersion of the accepted result',f.vel_disp==R('vel_disp')); vc.ensure('accepted result kept',f.lmfit_result.params is acc)
        vc.ensure('one flux per group, one coefficient per order',f.flux_arr.shape==(nf,) and f.cont_coeff.shape==(order+1,))
        for k in range(nf): vc.ensure('flux of the accepted result',f.flux_arr[k]==R('flux%d'%k))
        for k in range(order+1): vc.ensure('continuum of the accepted result',f.cont_coeff[k]==R('cont_coeff%d'%k))
        vc.ensure_eq('model of the accepted result',f.final_model,Model.last.make1DProfile(acc,f.galaxy.spec1D_trim.obswave))
        return acc
    def starts(f,order): return f.z,f.vel_disp,list(f.flux_arr),list(f.cont_coeff) if f.cont_coeff is not None else [K('0.')]*(order+1)
    for names,order,cont in((('A',),1,True),(('A','B'),1,True),(('A',),0,True),(('A','B'),2,False)):
        @E.h('fit, %s, order %d%s'%('+'.join(names),order,'' if cont else ', default continuum'))
        def h(vc,names=names,order=order,cont=cont):
            f=setup(vc,names,order,cont); s0=starts(f,order); L=Lmfit()
            with patched((f1,'lmfit',L),(f1,'EmissionLinesSpectrum1DModel',Model)): f.fit(noErrors=True,noPlot=True)
            fit_post(vc,f,L,list(names),order,s0,None)
            vc.ensure('no errors asked for',both(*[e==0 for x in(f.z_err,f.vel_disp_err) for e in(x[0],x[1])])); vc.ensure('no errors asked for: shapes',f.flux_arr_err.shape==(len(names),2) and f.cont_coeff_err.shape==(order+1,2)); vc.ensure_eq('no errors asked for',f.flux_arr_err,0*f.flux_arr_err,finite=False); vc.ensure_eq('no errors asked for',f.cont_coeff_err,0*f.cont_coeff_err,finite=False)
            vc.canary('accepted at once',len(L.results)==2)
        @E.h('fit, Monte Carlo and correction, %s, order %d%s'%('+'.join(names),order,'' if cont else ', default continuum'))
        def h(vc,names=names,order=order,cont=cont):
            f=setup(vc,names,order,cont); s0=starts(f,order); L=Lmfit(); F=Files(); r=f.instrument.instrument_resolution; sp=f.galaxy.spec1D_trim; keep=[x.copy() for x in(sp.obswave,sp.flux,sp.flux_err,sp.spec_mask)]
            nf=len(names); keys=['z','vel_disp']+['flux%d'%k for k in range(nf)]+['cont_coeff%d'%k for k in range(order+1)]
            with files(F),patched((f1,'lmfit',L),(f1,'EmissionLinesSpectrum1DModel',Model)):
                f.fit(noPlot=True,err_filename='e'); mc=[c for c in range(len(L.calls)) if L.calls[c][2][1] is not sp.flux]; f.calculate_inst_corr_vel_disp(err_filename='e')
            vc.ensure('realisations are fitted',len(mc)>0); acc=fit_post(vc,f,L,list(names),order,s0,mc[0]); T=F.d['e']
            vc.ensure('one row per realisation, one column per parameter',both(T.shape[0]==f.num_MC,T.shape[1]==len(keys)))
            # each realisation: the trimmed spectrum plus error times a unit normal draw, fitted from the accepted values
            fcn,p,args=L.calls[mc[-1]]
            start_ok(vc,f,p,acc['z'].value,acc['vel_disp'].value,[acc['flux%d'%k].value for k in range(nf)],[acc['cont_coeff%d'%k].value for k in range(order+1)],dict(),'realisation')
            for q in(0,2,3): vc.ensure_eq('realisation: same wavelengths, errors, mask',args[q],(sp.obswave,0,sp.flux_err,sp.spec_mask)[q])
            vc.ensure('realisation: one value per pixel',same_shape(args[1],sp.flux))
            j=vc.int_('pixel',0); vc.assume(j<sp.flux.shape[0]); ii=tm.the_atom(L.results[mc[-1]]['z'].value.v).args[0]; g=draws(args[1][j].v)
            vc.ensure('realisation: the measured flux and one unit normal draw per pixel',len(g)==1)
            for d in g:
                vc.ensure('realisation: flux plus error times the draw',args[1][j]==sp.flux[j]+sp.flux_err[j]*S(tm.atom_t(d),TRUE,'f'))
                vc.ensure('realisation: a draw of its own for every pixel',any(x is j.v or x==j.v for x in d.args)); vc.ensure('realisation: draws of its own for every realisation',any(x is ii or x==ii for x in d.args))
            for x,y in zip((sp.obswave,sp.flux,sp.flux_err,sp.spec_mask),keep): vc.ensure_eq('spectrum kept',x,y)
            i=vc.int_('realisation',0); vc.assume(i<f.num_MC)
            for k,nm in enumerate(keys):
                at=tm.the_atom(L.results[mc[-1]][nm].value.v); vc.ensure('table: fitted %s of the realisation'%nm,len(at.args)==1); vc.ensure('table: fitted %s of the realisation'%nm,T[i,k]==S(tm.app_raw(at.name,(i.v,),'R'),TRUE,'f'))
            for k,nm in enumerate(keys):
                e=f.z_err if k==0 else f.vel_disp_err if k==1 else f.flux_arr_err[k-2] if k<2+nf else f.cont_coeff_err[k-2-nf]
                vc.ensure('lower error of '+nm,e[0]==acc[nm].value-P(T[:,k],'15.865')); vc.ensure('upper error of '+nm,e[1]==P(T[:,k],'84.135')-acc[nm].value)
            corr_post(vc,f,acc['vel_disp'].value,r,T[:,1])
    @E.h('saved table')
    def h(vc):
        f=fitter(vc); F=Files(); M,m=vc.int_('realisations',1),vc.int_('columns',2); T=vc.arr('table',(M,m)); 
        with files(F):
            f.save_mc_sim_matrix(T,line='A',err_filename='e'); vc.ensure_eq('read back as written',f.load_mc_sim_matrix(line='A',err_filename='e'),T)
            vc.ensure('a file is needed',vc.raises(ValueError,lambda: f.save_mc_sim_matrix(T)) and vc.raises(ValueError,lambda: f.load_mc_sim_matrix()))
    @E.h('earlier table reused')
    def h(vc):
        f=setup(vc,('A',),1); L=Lmfit(); F=Files(); T=vc.arr('table',(vc.int_('realisations',1),5)); F.d['e']=T.copy()
        with files(F),patched((f1,'lmfit',L),(f1,'EmissionLinesSpectrum1DModel',Model)): f.fit(noPlot=True,err_filename='e',reload_errors=True)
        vc.ensure('lower error',f.vel_disp_err[0]==f.vel_disp-P(T[:,1],'15.865')); vc.ensure('upper error',f.vel_disp_err[1]==P(T[:,1],'84.135')-f.vel_disp); vc.ensure_eq('table kept',F.d['e'],T)
    # ---- set-up
    for names,lists in((['A'],[['A1']]),(['A'],[['A1','A2']]),(['A','B'],[['A1'],['B1','B2']])):
        @E.h('set-up, groups of %s lines'%'+'.join(str(len(x)) for x in lists))
        def h(vc,names=names,lists=lists):
            log=[]; m=[0]
            trimmed=NS(mask_edges=lambda: m.__setitem__(0,m[0]+1))
            class G: z=vc.real('z0','nonneg'); spec1D=NS(trim_spectrum_wavelength=lambda *a,**k: (log.append((a,k)),trimmed)[1])
            tab=dict(zip(names,lists)); ins=NS(instrument_resolution=1.)
            with patched((io,'read_line_names',lambda fn,name=None: list(tab[name])),(io,'read_restwave',lambda fn,linename=None: vc.real('rest_'+linename,'pos'))):
                f=f1.FitEmissionLines1D(galaxy=G,instrument=ins,names_arr=names,flux_arr=[1.]*len(names),vel_disp=vc.real('vel_disp'),trim_restwave_range=[1.,2.])
            vc.ensure('lines of each group',f.linenames_arr==lists); vc.ensure('one list of wavelengths per group',len(f.restwave_arr)==len(lists))
            for k,l in enumerate(lists):
                vc.ensure('one wavelength per line',len(f.restwave_arr[k])==len(l))
                for j,x in enumerate(l): vc.ensure('wavelength of that line',f.restwave_arr[k][j]==vc.real('rest_'+x,'pos'))
            vc.ensure('trimmed once, for the first group',len(log)==1 and log[0][1]['linename']==names[0] and log[0][1]['trim_restwave_range']==[1.,2.] and log[0][0]==(G,)); vc.ensure('edges masked',m[0]==1 and G.spec1D_trim is trimmed); vc.ensure('start at the galaxy redshift',f.z==G.z)
            vc.ensure('galaxy, instrument and start kept',f.galaxy is G and f.instrument is ins and f.vel_disp==vc.real('vel_disp'))
    return E.hs
