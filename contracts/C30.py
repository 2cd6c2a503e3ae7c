"""Saving and reloading fits.  Pickling is a trusted contract (what is loaded equals what was dumped, and shares nothing with it); what is proved is
what the code puts into the files, what it takes back out, and that the live fit is neither changed nor shared."""
import copy as cpy
from dv.dsl import *
from contracts.common import *
from contracts.C25 import snap,equal,wreck
META=dict(functions=['fit2D.FitEmissionLines2D.fit','fit2D.FitEmissionLines2D.reload_results','fit2D.FitEmissionLines2D.analyze_results','fit2D.FitEmissionLines2D.set_bestfit','fit2D.FitEmissionLines2D.save_bestfit_model','fit2D.FitEmissionLines2D.make_pruned_fitEmis2D_result_class','fit2D.FitEmissionLines2D.reload_sampler','fit2D.FitEmissionLines2D.reload_bestfit_model','fit2D.FitEmissionLines2D.make_model','fit2D.FitEmissionLines2D.plot_results','fit2D.FitEmissionLines2D.setAttr','fit_io.loadpickle','fit_io.dumppickle','fit_io.make_emcee_sampler_dict','kin_model.KinModel2D.copy','fit_core.FitEmissionLines2DResults.__init__'],
 assumptions=['chains and data arrays of any size; the sampling itself is C33, the analysis of the chain C23'],
 trusted=['pickle: an object read from a file equals the one last written to it and shares nothing with it','copy.deepcopy copies everything reachable','plots change nothing in the fit'])
KEYS=('galaxy','instrument','instrument_img','linegroup_name','linenames_arr','restwave_arr','flux_ratio_arr','kinProfile','intensityProfile','kinModelOptions','thetaPrior','thetaSettings','mcmcOptions','theta_linked_posteriors','mcmc_results')
def harnesses(E):
    f2=E.mod('misfit.fit.fit2D'); fc=E.mod('misfit.fit.fit_core'); fio=f2.fit_io; gl=E.mod('misfit.galaxy'); im=E.mod('misfit.instrument'); kc=E.mod('misfit.model.kin_classes'); km=E.mod('misfit.model.kin_model')
    def settings(vc,i):
        return kc.Theta2DSettingsFiducial(theta=vc.arr('theta%d'%i,(5,)).copy(),theta_vary=np.array([True,True,True,False,False]),theta_bounds=[[vc.real('lo%d%d'%(i,k)),vc.real('hi%d%d'%(i,k))] for k in range(5)])
    def fit(vc,i,img=False,pstamp=True,hdr=True,**mc):
        g=gl.Galaxy(z=vc.real('z%d'%i,'nonneg'),n=vc.real('n%d'%i,'pos'),q=vc.real('q%d'%i,'pos'),re_arcsec=vc.real('re%d'%i,'pos'),delt_PA=vc.real('pa%d'%i)); sh=(vc.int_('nY%d'%i,1),vc.int_('nW%d'%i,1)); sp=gl.ObsSpectrum2D()
        sp.__dict__.update(linegroup_name='G',linenames_arr=['a','b'],restwave_arr=np.array([vc.real('w%d'%i),1.]),flux_ratio_arr=np.array([1.,vc.real('f%d'%i)]),wave=vc.arr('wave%d'%i,(sh[1],)),flux=vc.arr('flux%d'%i,sh),flux_err=vc.arr('err%d'%i,sh),spec_mask=vc.arr('mask%d'%i,sh),prepared_for_fitting=True,fitting_weight_matrix=vc.arr('fw%d'%i,sh),lam0=vc.real('lam0%d'%i))
        if hdr: sp.spec_hdr={'CARD':i}
        g.set_spectrum_2D(sp)
        if pstamp: g.pstamp=gl.Pstamp(img_PA=vc.real('ipa%d'%i))
        elif 'pstamp' in g.__dict__: del g.pstamp
        ins=im.Spectrograph(PSF_type='Gaussian',PSF_FWHM=vc.real('fwhm%d'%i,'pos'),slit_length=vc.real('sl%d'%i,'pos'),pixscale=vc.real('pix%d'%i,'pos'),instrument_resolution=vc.real('res%d'%i,'pos'),slit_width=vc.real('sw%d'%i,'pos'))
        f=f2.FitEmissionLines2D(galaxy=g,instrument=ins,instrument_img=im.Imager(PSF_type='Moffat',PSF_FWHM=vc.real('ifwhm%d'%i,'pos'),pixscale=vc.real('ip%d'%i,'pos')) if img else None,linegroup_name='G%d'%i,kinModelOptions=km.KinModel2DOptions(nSubpixels=vc.int_('sub%d'%i,1)),thetaSettings=settings(vc,i),mcmcOptions=fc.MCMC2DOptions(nSteps=vc.int_('steps%d'%i,1),**mc),skip_fit_prep_calcs=True)
        f.theta_linked_posteriors=[0,1]; m=f.mcmc_results
        m.bestfit_theta=vc.arr('best%d'%i,(5,)); m.err_theta_1sig=vc.arr('e1%d'%i,(3,2)); m.err_theta_2sig=vc.arr('e2%d'%i,(3,2)); m.bestfit_theta_fitting=vc.arr('bfit%d'%i,(3,)); m.v_2_2=vc.real('v22%d'%i); m.V_samples=vc.arr('vs%d'%i,(vc.int_('ns%d'%i,1),)); m.percent_oppsign=vc.real('opp%d'%i)
        f.thetaPrior=kc.ThetaPriorFlat(theta=vc.arr('tp%d'%i,(5,)),theta_vary=[True,True,True,False,False],theta_bounds=[[vc.real('plo%d%d'%(i,k)),vc.real('phi%d%d'%(i,k))] for k in range(5)])
        return f
    def without(o):
        """a deep copy without what is left out of result files"""
        d={k:cpy.deepcopy(o.__dict__[k]) for k in KEYS}
        d['galaxy'].__dict__.pop('pstamp',None); d['galaxy'].spec2D.__dict__.pop('spec_hdr',None); return d
    def content(vc,what,r,d):
        for k in KEYS:
            vc.ensure('%s: %s present'%(what,k),k in r.__dict__)
            if k in r.__dict__: equal(vc,'%s: %s'%(what,k),srt(snap(r.__dict__[k])),srt(snap(d[k])))
    def srt(t):
        if isinstance(t,tuple) and len(t)>1 and t[0] in('object','dict'): return t[:-1]+(sorted(((k,srt(v)) for k,v in t[-1]),key=lambda x: str(x[0])),)
        if isinstance(t,tuple) and t and t[0]=='list': return ('list',[srt(v) for v in t[1]])
        return t
    for img in(False,True):
        for pstamp,hdr in((True,True),(False,True),(True,False),(False,False)):
            @E.h('results saved%s%s%s'%(', imager' if img else '','' if pstamp else ', no postage stamp','' if hdr else ', no header'))
            def h(vc,img=img,pstamp=pstamp,hdr=hdr):
                f=fit(vc,1,img,pstamp,hdr,filename_bestfit_model='b'); s=snap(f); want=without(f); r=f.make_pruned_fitEmis2D_result_class(); content(vc,'result',r,want); equal(vc,'the fit untouched by making its result',snap(f),s)
                vc.ensure('result without image or header',not hasattr(r.galaxy,'pstamp') and not hasattr(r.galaxy.spec2D,'spec_hdr'))
                undo=[]; wreck(r,set(),undo); equal(vc,'the fit untouched by changes to its result',snap(f),s)
                for u in reversed(undo): u()
                F=Files()
                with files(F,f2,fio):
                    f.save_bestfit_model(); vc.ensure('written to the file named, once',F.writes==['b'] and list(F.d)==['b']); content(vc,'file',F.d['b'],want); equal(vc,'the fit untouched by saving',snap(f),s)
                    # another fit, whatever it held
                    g=fit(vc,2,not img,True,True,filename_bestfit_model='b'); g.kinModel='model'; g.sampler_dict='chain'; g.reload_bestfit_model(); content(vc,'reloaded',g,want); vc.ensure('only results replaced',g.kinModel=='model' and g.sampler_dict=='chain' and g.usetex==f.usetex)
                    equal(vc,'file kept by reloading',('list',[srt(snap(F.d['b'].__dict__[k])) for k in KEYS]),('list',[srt(snap(want[k])) for k in KEYS]))
                    g.mcmcOptions.filename_bestfit_model='c'; g.save_bestfit_model(); want['mcmcOptions'].filename_bestfit_model='c'; content(vc,'saved again after reloading',F.d['c'],want); content(vc,'earlier file',F.d['b'],dict(want,mcmcOptions=f.mcmcOptions))
                vc.canary('zero',vc.real('z1','nonneg')==0)
    @E.h('no file named')
    def h(vc):
        f=fit(vc,1); s=snap(f); F=Files()
        with files(F,f2,fio): f.save_bestfit_model(); f.reload_bestfit_model(); f.reload_sampler()
        vc.ensure('nothing written or read',not F.writes and not F.reads and not F.d); equal(vc,'the fit untouched',snap(f),s); vc.canary('zero',vc.real('z1','nonneg')==0)
    @E.h('a name without a file')
    def h(vc):
        f=fit(vc,1,filename_bestfit_model='b',filename_sampler='s'); s=snap(f); F=Files()
        with files(F,f2,fio): vc.ensure('reported',vc.raises(IOError,lambda: f.reload_bestfit_model()) and vc.raises(IOError,lambda: f.reload_sampler()))
        equal(vc,'the fit untouched',snap(f),s); vc.canary('zero',vc.real('z1','nonneg')==0)
    def chain(vc,i):
        nw,ns=vc.int_('walkers%d'%i,1),vc.int_('steps_%d'%i,1); n=nw*ns
        return dict(fitEmis2D=NS(kinModel=NS(theta=vc.arr('kt%d'%i,(5,)))),chain=vc.arr('chain%d'%i,(nw,ns,3)),lnprobability=vc.arr('lp%d'%i,(nw,ns)),flatchain=vc.arr('flat%d'%i,(n,3)),flatlnprobability=vc.arr('flp%d'%i,(n,)),nIter=ns,nParam=3,nCPU=1,nWalkers=nw,acceptance_fraction=vc.arr('af%d'%i,(nw,)),acor_time=vc.arr('act%d'%i,(3,)))
    def analyser(log):
        def an(self):
            """contract: the summaries are a function of the chain (C23)"""
            d=self.sampler_dict; log.append('analyse'); m=self.mcmc_results; c=d['flatchain']; m.bestfit_theta_fitting=np.array([opaque('best%d'%k,(),c,d['flatlnprobability']) for k in range(3)]); m.V_samples=c[:,0]*2
        return an
    def mk(log):
        def mm(self,galaxy=None,instrument=None,theta_fitting=None):
            """contract: the model belongs to the galaxy, instrument and parameters it is made from (C08, C09)"""
            log.append('model'); self.update_parameters(theta_fitting); self.update_profiles(); self.aperModel=NS(galaxy=galaxy,instrument=instrument,sigma_floor_value=0.,kinProfile=self.kinProfile); self.model=opaque('model2d',(4,),*[self.theta[k] for k in range(5)],galaxy.z,instrument.instrument_resolution)
        return mm
    @E.h('chain written and read')
    def h(vc):
        F=Files(); d=chain(vc,1); s=snap(d)
        with files(F,f2,fio):
            fio.dumppickle(d,filename='s'); equal(vc,'chain kept by writing',snap(d),s); vc.ensure('one file',F.writes==['s']); e=fio.loadpickle('s'); equal(vc,'chain read',snap(e),s)
            f=fit(vc,1,filename_sampler='s'); s0=snap({k:v for k,v in f.__dict__.items() if k!='sampler_dict'}); f.sampler_dict=chain(vc,2); f.reload_sampler(); equal(vc,'chain reloaded',snap(f.sampler_dict),s); equal(vc,'nothing else changed',snap({k:v for k,v in f.__dict__.items() if k!='sampler_dict'}),s0)
        vc.canary('one walker',d['chain'].shape[0]==1)
    @E.h('best-fit model is kept')
    def h(vc):
        log=[]; f=fit(vc,1); g0,i0=snap(f.galaxy),snap(f.instrument)
        with patched((km.KinModel2D,'make_model',mk(log))):
            f.setup_model(); th=vc.arr('t',(3,)); old=f.kinModel.theta.copy(); f.set_bestfit(th); b=f.kinModel.bestfit
            want=[th[0],th[1],th[2],old[3],old[4]]
            for k in range(5): vc.ensure('best-fit parameters, fixed ones as set',both(b.theta[k]==want[k],f.kinModel.theta[k]==want[k]))
            vc.ensure_eq('best-fit model belongs to the best-fit parameters',b.model,f.kinModel.model); equal(vc,'made for this galaxy',snap(b.aperModel.galaxy),g0); equal(vc,'made for this instrument',snap(b.aperModel.instrument),i0); s=snap(b)
            vc.ensure('the copy is separate from the live model',b is not f.kinModel and b.theta is not f.kinModel.theta); t2=vc.arr('t2',(3,)); f.make_model(t2); equal(vc,'best fit kept when the live model moves on',snap(f.kinModel.bestfit),s)
            undo=[]; bf=f.kinModel.__dict__.pop('bestfit'); wreck(f.kinModel,set(),undo); equal(vc,'best fit kept under any change of the live model',snap(bf),s)
            for u in reversed(undo): u()
            f.kinModel.bestfit=bf; f.set_bestfit(t2); vc.ensure('a later best fit replaces it',f.kinModel.bestfit.theta[0]==t2[0])
        vc.canary('zero',b.theta[0]==0)
    for have in(True,False):
        @E.h('analysis %s'%('of the chain at hand' if have else 'of a reloaded chain'))
        def h(vc,have=have):
            log=[]; F=Files(); d=chain(vc,1); f=fit(vc,1,filename_sampler='s')
            with files(F,f2,fio),patched((km.KinModel2D,'make_model',mk(log)),(f2.FitEmissionLines2D,'get_chain_results',analyser(log))):
                f.setup_model(); fio.dumppickle(chain(vc,2) if have else d,filename='s'); f.sampler_dict=d if have else None; dd=snap(d); f.mcmc_results.bestfit_theta_fitting=vc.arr('stale',(3,)); f.analyze_results()
                vc.ensure('file read only without a chain at hand',F.reads==([] if have else ['s'])); equal(vc,'chain kept',snap(f.sampler_dict),dd); best=[opaque('best%d'%k,(),d['flatchain'],d['flatlnprobability']) for k in range(3)]
                for k in range(3): vc.ensure('summary is that of the chain',f.mcmc_results.bestfit_theta_fitting[k]==best[k]); vc.ensure('best-fit model at the summary values',f.kinModel.bestfit.theta[k]==best[k])
                # the same analysis in another process
                h2=fit(vc,1,filename_sampler='s2'); fio.dumppickle(d,filename='s2'); h2.setup_model(); h2.analyze_results(); equal(vc,'reloaded chain, same summaries',snap(h2.mcmc_results),snap(f.mcmc_results)); vc.ensure_eq('reloaded chain, same best-fit model',h2.kinModel.bestfit.model,f.kinModel.bestfit.model)
            vc.canary('zero',best[0]==0)
    for kw in(dict(),dict(resave_bestfit=True),dict(doPlot=True),dict(resave_bestfit=True,doPlot=True)):
        for km0 in(True,False):
            @E.h('results reloaded%s%s'%(', '.join(['']+sorted(kw)),'' if km0 else ', no model yet'))
            def h(vc,kw=kw,km0=km0):
                log=[]; F=Files(); d=chain(vc,1); f=fit(vc,1,filename_sampler='s',filename_bestfit_model='b')
                with files(F,f2,fio),patched((km.KinModel2D,'make_model',mk(log)),(f2.FitEmissionLines2D,'get_chain_results',analyser(log)),(f2.FitEmissionLines2D,'plot_results',lambda self: log.append('plot'))):
                    fio.dumppickle(d,filename='s'); F.writes[:]=[]
                    if km0: f.setup_model()
                    k0=f.kinModel; new=fc.MCMC2DOptions(filename_sampler='s',filename_bestfit_model='b2'); f.reload_results(mcmcOptions=new,not_an_attribute=1,**kw)
                    vc.ensure('settings used',f.mcmcOptions is new and not hasattr(f,'not_an_attribute')); vc.ensure('model at hand is kept',f.kinModel is k0 if km0 else f.kinModel is not None); equal(vc,'chain',snap(f.sampler_dict),snap(d))
                    best=[opaque('best%d'%k,(),d['flatchain'],d['flatlnprobability']) for k in range(3)]
                    for k in range(3): vc.ensure('summary is that of the chain',both(f.mcmc_results.bestfit_theta_fitting[k]==best[k],f.kinModel.bestfit.theta[k]==best[k]))
                    vc.ensure('saved only if asked, under the new name',F.writes==(['b2'] if kw.get('resave_bestfit') else [])); vc.ensure('plots only if asked, after the analysis',log.count('plot')==(1 if kw.get('doPlot') else 0) and (not kw.get('doPlot') or log[-1]=='plot'))
                    if kw.get('resave_bestfit'): content(vc,'file',F.d['b2'],without(f))
                vc.canary('zero',best[0]==0)
    for named in(True,False):
        @E.h('fit, from settings to saved result%s'%('' if named else ', no file named'))
        def h(vc,named=named):
            log=[]; F=Files(); d=chain(vc,1); f=fit(vc,1,filename_bestfit_model='b' if named else None); stale=chain(vc,2); f.sampler_dict=stale; new=settings(vc,3); before={}
            def run(self): log.append('run'); before['n']=len(log); vc.ensure('model set up from the settings before sampling',self.kinModel is not None and self.kinModel.theta is not None and self.thetaSettings is new); vc.ensure_eq('initial parameters',self.kinModel.theta,new.theta); self.sampler_dict=d
            with files(F,f2,fio),patched((km.KinModel2D,'make_model',mk(log)),(f2.FitEmissionLines2D,'run_mcmc',run),(f2.FitEmissionLines2D,'get_chain_results',analyser(log)),(f2.FitEmissionLines2D,'plot_param_corner',lambda self: log.append('corner')),(f2.FitEmissionLines2D,'plot_bestfit_model',lambda self: log.append('plot'))):
                f.fit(thetaSettings=new)
            seq=[x for x in log if x!='model']; vc.ensure('sampled, analysed, then plotted',seq[:2]==['run','analyse'] and sorted(seq[2:])==['corner','plot'])
            best=[opaque('best%d'%k,(),d['flatchain'],d['flatlnprobability']) for k in range(3)]; vc.ensure('the chain of this run is analysed',f.sampler_dict is d)
            for k in range(3): vc.ensure('summary of this run',both(f.mcmc_results.bestfit_theta_fitting[k]==best[k],f.kinModel.bestfit.theta[k]==best[k]))
            vc.ensure('saved if a file is named',F.writes==(['b'] if named else []))
            if named: content(vc,'file holds the analysed result',F.d['b'],without(f))
            vc.canary('zero',best[0]==0)
    @E.h('fit refuses a negative resolution')
    def h(vc):
        log=[]; f=fit(vc,1); f.instrument.instrument_resolution=-vc.real('bad','pos')
        with patched((f2.FitEmissionLines2D,'run_mcmc',lambda self: log.append('run'))): vc.ensure('refused before sampling',vc.raises(ValueError,lambda: f.fit()) and not log)
        vc.canary('zero',vc.real('z1','nonneg')==0)
    @E.h('table of a chain')
    def h(vc):
        """everything the analysis needs goes into the table, and the sampler's own fit stays as it was"""
        nw,ns,b=vc.int_('walkers',1),vc.int_('steps',1),vc.int_('burn',0); vc.assume(b<ns); n=3
        for act in('plain','none'):
            f=fit(vc,1); ap=NS(galaxy=f.galaxy,instrument=f.instrument,intensityProfile=f.intensityProfile,kinProfile=f.kinProfile); w=fc.FitEmissionLines2DBasic(); w.__dict__.update(kinModel=NS(aperModel=ap,theta=vc.arr('th',(5,))))
            def act_plain(**k): return vc.arr('act',(n,))
            def act_none(*a,**k): raise RuntimeError()
            smp=NS(ndim=n,chain=vc.arr('ch',(nw,ns,n)),lnprobability=vc.arr('lnp',(nw,ns)),acceptance_fraction=vc.arr('acc',(nw,)),get_autocorr_time=dict(plain=act_plain,none=act_none)[act],nwalkers=nw,pool=NS(_processes=2),iteration=ns,log_prob_fn=NS(args=(w,)))
            s,sw=snap(f),snap(w); d=fio.make_emcee_sampler_dict(smp,fitEmis2D=f,nBurn=b); equal(vc,'the fit untouched',snap(f),s); equal(vc,'the fit of the sampler untouched',snap(w),sw)
            r=d['fitEmis2D']
            for k in('galaxy','instrument','intensityProfile','kinProfile'): equal(vc,'model inputs kept: '+k,srt(snap(r.__dict__[k])),srt(snap(ap.__dict__[k])))
            for k in('mcmcOptions','kinModelOptions','thetaSettings'): equal(vc,'settings kept: '+k,srt(snap(r.__dict__[k])),srt(snap(f.__dict__[k])))
            vc.ensure('large model left out',not hasattr(r.kinModel,'aperModel')); vc.ensure_eq('parameters kept',r.kinModel.theta,w.kinModel.theta); undo=[]; wreck(r,set(),undo); equal(vc,'the fit untouched by changes to the table',snap(f),s)
            for u in reversed(undo): u()
            vc.ensure('sizes',both(d['nParam']==n,d['nWalkers']==nw,d['nIter']==ns)); vc.ensure_eq('acceptance',d['acceptance_fraction'],smp.acceptance_fraction)
            if act=='none': vc.ensure('no autocorrelation time: not a number',no(finite(d['acor_time'])))
            else: vc.ensure_eq('autocorrelation time',d['acor_time'],vc.arr('act',(n,)))
        vc.canary('one step',ns==1)
    return E.hs
