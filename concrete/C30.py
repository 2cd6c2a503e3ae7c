import numpy as np, copy, io, contextlib, os, pickle, shutil, tempfile, subprocess, sys
from types import SimpleNamespace as NS
from misfit import galaxy as gl, instrument as im
from misfit.model import kin_classes as kc, kin_model as km
from misfit.fit import fit_core as fc, fit2D as f2, fit_io as fio
from C25 import setting, walk
MAXCASES=40
KEYS=('galaxy','instrument','instrument_img','linegroup_name','linenames_arr','restwave_arr','flux_ratio_arr','kinProfile','intensityProfile','kinModelOptions','thetaPrior','thetaSettings','mcmcOptions','theta_linked_posteriors','mcmc_results')
def flat(o,path='',out=None,seen=None):
    """every value reachable, by path"""
    out={} if out is None else out; seen={} if seen is None else seen
    if isinstance(o,np.ndarray): out[path]=o.copy()
    elif isinstance(o,(list,tuple)):
        out[path+'#']=len(o)
        for k,v in enumerate(o): flat(v,path+'.%d'%k,out,seen)
    elif isinstance(o,dict) or hasattr(o,'__dict__') and type(o).__module__.startswith(('misfit','types')) and not isinstance(o,type(flat)) and not isinstance(o,type):
        if id(o) in seen: return out
        seen[id(o)]=o; d=o if isinstance(o,dict) else o.__dict__; out[path+'#']=sorted(map(str,d))
        for k in sorted(d,key=str): flat(d[k],path+'.'+str(k),out,seen)
    else: out[path]=o
    return out
def alike(t,nm,a,b):
    t.ok(nm+': same entries',sorted(a)==sorted(b),sorted(set(a)^set(b))[:6],[])
    for k in a:
        x,y=a[k],b[k]
        if isinstance(x,np.ndarray): t.ok(nm+': same arrays',isinstance(y,np.ndarray) and x.dtype==y.dtype and x.shape==y.shape,k)
        if isinstance(x,np.ndarray) and x.dtype.kind in'fib': t.same(nm+': '+k,y,x)
        elif isinstance(x,(int,float,str,bool,type(None))): t.ok(nm+': '+k,x==y or x!=x and y!=y,y,x)
def without(f):
    d={k:copy.deepcopy(f.__dict__[k]) for k in KEYS}; d['galaxy'].__dict__.pop('pstamp',None); d['galaxy'].spec2D.__dict__.pop('spec_hdr',None); return flat(d)
def held(o): return flat({k:o.__dict__[k] for k in KEYS if k in o.__dict__})
def build(r,d=None):
    g,ins,th=setting(r,'wave',int(r.integers(3,6))); g.re_mass_arcsec=float(r.uniform(.2,.6)); s=g.spec2D; s.prepared_for_fitting=True
    if r.random()<.5: s.spec_hdr={'NAXIS':int(r.integers(1,9))}
    if r.random()<.5: g.pstamp=gl.Pstamp(img_PA=float(r.uniform(0,90)))
    elif r.random()<.3: g.__dict__.pop('pstamp',None)
    img=im.Imager(PSF_type='Moffat',PSF_FWHM=.2,PSF_beta=2.5,pixscale=.06) if r.random()<.5 else None; vary=np.array([True,True,True,bool(r.random()<.5),False]); n=int(vary.sum())
    ts=kc.Theta2DSettingsFiducial(theta=th.copy(),theta_vary=vary,theta_bounds=[[-500.,500.],[1e-3,2.],[1.,200.],[-3.,3.],[0.,5.]]); ts.theta_linked_posteriors=[[0,1]] if r.random()<.4 else None
    o=fc.MCMC2DOptions(nSteps=int(r.integers(3,9)),nWalkers=int(r.integers(4,9)),nBurn=int(r.integers(0,3)),nCPUs=1)
    if d:
        for k in('sampler','bestfit_model'):
            if r.random()<.85: setattr(o,'filename_'+k,os.path.join(d,k+'.pickle'))
    f=f2.FitEmissionLines2D(galaxy=g,instrument=ins,instrument_img=img,kinModelOptions=km.KinModel2DOptions(nSubpixels=2,adaptive_upsample_wave=False),thetaSettings=ts,mcmcOptions=o,skip_fit_prep_calcs=True); f.linegroup_name='HA'
    m=f.mcmc_results; m.bestfit_theta=th+r.normal(0,.01,5); m.err_theta_1sig=r.random((n,2)); m.err_theta_2sig=None if r.random()<.2 else r.random((n,2)); m.percent_oppsign=float(r.random()); m.bestfit_theta_fitting=(th+r.normal(0,.01,5))[vary]; m.extra_samples=r.normal(0,1,7)
    return f,th,vary
def chain(r,th,vary,nw=8,ns=40):
    n=int(vary.sum()); c=th[vary]+r.normal(0,1,(nw,ns,n))*np.array([10.,.05,5.,.2,.01])[vary]; p=-.5*np.sum(((c-th[vary])/np.array([10.,.05,5.,.2,.01])[vary])**2,2)
    return dict(fitEmis2D=None,chain=c,lnprobability=p,flatchain=c.reshape(-1,n),flatlnprobability=p.reshape(-1),nIter=ns,nParam=n,nCPU=1,nWalkers=nw,acceptance_fraction=np.full(nw,.4),acor_time=np.full(n,3.))
def run(t):
    W=np.seterr(all='ignore'); d=tempfile.mkdtemp(prefix='c30_')
    try:
        with contextlib.redirect_stdout(io.StringIO()): [save,save,analyse,table,whole][int(t.rng.integers(0,5))](t,t.rng,d)
    finally: np.seterr(**W); shutil.rmtree(d,ignore_errors=True)
def save(t,r,d):
    f,th,vary=build(r,d); t.input(theta=th,vary=vary,imager=f.instrument_img is not None,pstamp='pstamp' in f.galaxy.__dict__,header='spec_hdr' in f.galaxy.spec2D.__dict__,named=f.mcmcOptions.filename_bestfit_model is not None); want=without(f); s=flat(f)
    c=f.make_pruned_fitEmis2D_result_class(); alike(t,'result',want,held(c)); alike(t,'the fit untouched',s,flat(f)); A,B=walk(c),walk(f); t.ok('nothing shared with the live fit',not[A[i][0] for i in A if i in B],[A[i][0] for i in A if i in B][:4])
    if f.mcmcOptions.filename_bestfit_model and r.random()<.5: pickle.dump('stale',open(f.mcmcOptions.filename_bestfit_model,'wb'))
    f.save_bestfit_model(); alike(t,'the fit untouched by saving',s,flat(f)); name=f.mcmcOptions.filename_bestfit_model; t.ok('file only if named',(name is not None and os.path.exists(name)) if name else os.listdir(d)==[])
    if not name: f.reload_bestfit_model(); alike(t,'the fit untouched',s,flat(f)); return
    g,th2,v2=build(r); g.mcmcOptions.filename_bestfit_model=name; g.kinModel='m'; g.sampler_dict='c'; g.reload_bestfit_model(); alike(t,'reloaded',want,held(g)); t.ok('only results replaced',g.kinModel=='m' and g.sampler_dict=='c')
    n2=os.path.join(d,'again.pickle'); g.mcmcOptions.filename_bestfit_model=n2; g.save_bestfit_model(); e,_,_=build(r); e.mcmcOptions.filename_bestfit_model=n2; e.reload_bestfit_model(); e.mcmcOptions.filename_bestfit_model=name; alike(t,'saved and reloaded again',want,held(e))
    if t.case%8==0:
        q=subprocess.run([sys.executable,'-c','import sys,pickle;sys.path[:0]=%r;import C30;o=pickle.load(open(%r,"rb"));pickle.dump(C30.held(o),open(%r,"wb"))'%([p for p in sys.path if p],name,os.path.join(d,'flat'))],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,cwd=d)
        t.ok('another process can read the result',q.returncode==0,q.stderr[-300:]); alike(t,'reloaded in another process',want,pickle.load(open(os.path.join(d,'flat'),'rb')))
def analyse(t,r,d):
    f,th,vary=build(r,d); f.mcmcOptions.filename_sampler=os.path.join(d,'s.pickle'); c=chain(r,th,vary); have=bool(r.random()<.5); t.input(theta=th,vary=vary,chain_at_hand=have); s=flat(c); c0=copy.deepcopy(c); fio.dumppickle({},filename=f.mcmcOptions.filename_sampler); fio.dumppickle(c,filename=f.mcmcOptions.filename_sampler); alike(t,'chain read back',s,flat(fio.loadpickle(f.mcmcOptions.filename_sampler)))
    f.setup_model(); g=f.copy(); f.sampler_dict=c
    if have: fio.dumppickle(chain(r,th,vary),filename=f.mcmcOptions.filename_sampler)
    np.random.seed(3); f.analyze_results(); t.same('chain at hand is the one analysed',f.sampler_dict['chain'],c0['chain']); t.same('probabilities kept',f.sampler_dict['lnprobability'],c0['lnprobability']); t.same('samples kept',f.sampler_dict['flatchain'][:,:int(vary.sum())],c0['flatchain']); fio.dumppickle(c0,filename=f.mcmcOptions.filename_sampler)
    np.random.seed(3); re=bool(r.random()<.5); k0=g.kinModel; g.mcmcOptions.filename_bestfit_model=n2=os.path.join(d,'re.pickle'); g.reload_results(resave_bestfit=re); t.ok('saved again only if asked',os.path.exists(n2)==re); t.ok('model at hand is kept',g.kinModel is k0); t.same('reloaded chain',g.sampler_dict['chain'],c0['chain']); a,b=flat(f.mcmc_results),flat(g.mcmc_results); alike(t,'same summaries from the reloaded chain',a,b)
    k=f.kinModel; b=k.bestfit; t.eq('best-fit model has the best-fit parameters',b.theta[vary],f.mcmc_results.bestfit_theta_fitting); t.same('fixed parameters',b.theta[~vary],th[~vary]); t.same('same best-fit model from the reloaded chain',g.kinModel.bestfit.model,b.model); sb=flat(NS(model=b.model,theta=b.theta))
    f.make_model(theta_fitting=f.mcmc_results.bestfit_theta_fitting*1.1); t.ok('the live model moved',not np.array_equal(k.theta,b.theta)); alike(t,'best fit kept when the live model moves on',sb,flat(NS(model=k.bestfit.model,theta=k.bestfit.theta)))
def table(t,r,d):
    f,th,vary=build(r,d); f.setup_model(); w=fc.make_pruned_fitEmis2D_class(f); c=chain(r,th,vary); nb=int(r.integers(0,30)); n=int(vary.sum()); bad=bool(r.random()<.4); t.input(theta=th,vary=vary,burn=nb,no_autocorrelation_time=bad)
    def act(*a,**k):
        if bad: raise RuntimeError('chain too short')
        return np.full(n,2.5)
    s=NS(ndim=n,nwalkers=8,chain=c['chain'],lnprobability=c['lnprobability'],acceptance_fraction=r.random(8),get_autocorr_time=act,pool=None,iteration=40,log_prob_fn=NS(args=(w,))); sw,sf=flat(w),flat(f); q=fio.make_emcee_sampler_dict(s,fitEmis2D=f,nBurn=nb); alike(t,'the fit of the sampler untouched',sw,flat(w)); alike(t,'the fit untouched',sf,flat(f))
    t.same('chain after burn-in',q['chain'],c['chain'][:,nb:]); t.same('probabilities after burn-in',q['lnprobability'],c['lnprobability'][:,nb:]); t.same('flat chain',q['flatchain'],c['chain'][:,nb:].reshape(-1,n)); t.same('flat probabilities',q['flatlnprobability'],c['lnprobability'][:,nb:].ravel()); t.ok('sizes',(q['nParam'],q['nWalkers'],q['nIter'])==(n,8,40)); t.same('acceptance',q['acceptance_fraction'],s.acceptance_fraction)
    if bad: t.ok('no autocorrelation time',q['acor_time']!=q['acor_time'])
    else: t.same('autocorrelation time',q['acor_time'],np.full(n,2.5))
    o=q['fitEmis2D']
    for k in('mcmcOptions','kinModelOptions','thetaSettings'): alike(t,'settings kept: '+k,flat(f.__dict__[k]),flat(o.__dict__[k]))
    for k in('galaxy','instrument','intensityProfile','kinProfile'): alike(t,'model inputs kept: '+k,flat(w.kinModel.aperModel.__dict__[k]),flat(o.__dict__[k]))
    t.ok('large model left out',not hasattr(o.kinModel,'aperModel')); A,B=walk(o),walk([f,w]); t.ok('nothing shared with the live fit',not[A[i][0] for i in A if i in B],[A[i][0] for i in A if i in B][:4]); fio.dumppickle(q,filename=os.path.join(d,'q')); alike(t,'table read back',flat(q),flat(fio.loadpickle(os.path.join(d,'q'))))
def whole(t,r,d):
    f,th,vary=build(r,d); c=chain(r,th,vary); neg=bool(r.random()<.2); log=[]; t.input(theta=th,vary=vary,negative_resolution=neg,named=f.mcmcOptions.filename_bestfit_model is not None); f.sampler_dict=chain(r,th,vary)
    ts=kc.Theta2DSettingsFiducial(theta=th*1.01,theta_vary=vary.copy(),theta_bounds=[[-400.,400.],[1e-3,2.],[1.,200.],[-3.,3.],[0.,5.]])
    if neg: f.instrument.instrument_resolution=-5.
    def mc(x,**k): log.append(('run',x.kinModel.theta.copy(),x.thetaSettings is ts)); x.sampler_dict=c; return x
    real=fc.run_mcmc,f2.misfit_plot.plot_param_corner,f2.misfit_plot.plot_bestfit_model
    fc.run_mcmc=mc; f2.misfit_plot.plot_param_corner=lambda *a,**k: log.append(('corner',)); f2.misfit_plot.plot_bestfit_model=lambda *a,**k: log.append(('plot',))
    try:
        if neg: t.raises('a negative resolution is refused',lambda: f.fit(thetaSettings=ts),ValueError); t.ok('before sampling',not log); return
        f.fit(thetaSettings=ts)
    finally: fc.run_mcmc,f2.misfit_plot.plot_param_corner,f2.misfit_plot.plot_bestfit_model=real
    t.ok('sampled, then plotted',log[0][0]=='run' and sorted(x[0] for x in log[1:])==['corner','plot']); t.ok('settings given are used',log[0][2]); t.same('starts from the values given',log[0][1],th*1.01); t.ok('the chain of this run',f.sampler_dict is c); t.eq('best fit is the summary of this run',f.kinModel.bestfit.theta[vary],f.mcmc_results.bestfit_theta_fitting)
    name=f.mcmcOptions.filename_bestfit_model; t.ok('saved if a file is named',name is None or os.path.exists(name))
    if name: alike(t,'file holds the analysed result',without(f),held(pickle.load(open(name,'rb'))))
