import numpy as np, io, contextlib, os, shutil, tempfile, copy
from types import SimpleNamespace as NS
from misfit.fit import fit_core as fc, fit_io as fio
from C30 import build, flat, alike
MAXCASES=60
class Fake:
    """stands in for the module emcee: chains of known positions, known acceptance and autocorrelation"""
    __version__='3.1.6'
    def __init__(s,af,act,fail): s.af=af; s.act=act; s.fail=fail; s.samplers=[]; s.store={}; s.log=[]; s.moves=NS(StretchMove=lambda **k: ('stretch',k)); s.backends=NS(HDFBackend=s.backend)
    def backend(s,filename,name='mcmc',**k): return s.store.setdefault((filename,name),NS(key=(filename,name),was=['old'],reset=lambda a,b: s.log.append(('reset',(filename,name),a,b))))
    def EnsembleSampler(s,nw,nd,f,**k): x=FakeSampler(s,nw,nd,f,k); s.samplers.append(x); return x
class FakeSampler:
    def __init__(s,m,nw,nd,f,k): s.m=m; s.nwalkers=nw; s.ndim=nd; s.f=f; s.k=k; s.args=None; del s.args; s.pool=k.get('pool'); s.log_prob_fn=NS(args=tuple(k['args'])); s.pos=[]; s.starts=[]; s.id=len(m.samplers)
    def run_mcmc(s,p,k=1,**kw):
        for _ in range(k): s.m.log.append(('step',s.id)); s.starts.append(np.array(p)); p=np.array(p)+1.; s.pos.append(p)
        return p.copy()
    @property
    def chain(s): return np.stack(s.pos,1)
    @property
    def lnprobability(s): return -s.chain.sum(2)
    @property
    def iteration(s): return len(s.pos)
    @property
    def acceptance_fraction(s): return np.full(s.nwalkers,s.m.af[len(s.pos)])
    def get_autocorr_time(s,**k):
        if s.m.fail and s.id: raise RuntimeError('short')
        return np.array([s.m.act[len(s.pos)]]*(s.ndim-1)+[s.m.act[len(s.pos)]*.5])
def run(t):
    W=np.seterr(all='ignore'); d=tempfile.mkdtemp(prefix='c33_')
    try:
        with contextlib.redirect_stdout(io.StringIO()): one(t,t.rng,d)
    finally: np.seterr(**W); shutil.rmtree(d,ignore_errors=True)
def one(t,r,d):
    f,th,vary=build(r); o=f.mcmcOptions; nd=int(vary.sum()); o.nSteps=int(r.choice([1,5,49,50,51,70,120])); o.nBurn=int(r.choice([0,1,4,7])); o.nWalkers=int(r.integers(4,9)); o.nCPUs=1; o.NoThread=bool(r.random()<.3); o.overwrite=bool(r.random()<.7); o.runAllSteps=bool(r.random()<.2); o.filename_sampler_h5=os.path.join(d,'h5'); o.nEff=float(r.choice([1.,5.,10.])); o.scale_param_a=float(r.uniform(1.5,4)); o.minAF,o.maxAF=.2,.5; o.filename_log=os.path.join(d,'log') if r.random()<.3 else None
    for k in('minAF','maxAF','nEff'):
        if r.random()<.08: setattr(o,k,None)
    save=bool(r.random()<.6); o.filename_sampler=os.path.join(d,'s') if save else None; tr=bool(r.random()<.4); o.filename_plot_trace='t' if tr else None; o.filename_plot_trace_burnin='tb' if tr else None
    if o.NoThread and r.random()<.5: o.nCPUs=4
    N=o.nSteps+o.nBurn+3; lo=int(r.integers(0,80)); af=np.where(np.arange(N)<lo,r.choice([.1,.35,.7]),r.choice([.2,.35,.35,.35,.5,.7])); act=np.where(np.arange(N)<int(r.integers(0,80)),200.,r.choice([1.,5.,6.,10.,30.])); fail=bool(r.random()<.15); given=bool(r.random()<.2)
    t.input(options={k:v for k,v in o.__dict__.items()},vary=vary,acceptance=af,autocorrelation=act,no_autocorrelation_time=fail,working_copy_given=given)
    f.setup_model(); m=Fake(af,act,fail); real=fc.emcee,fc.misfit_plot; plots=[]; fc.emcee=m; fc.misfit_plot=NS(plot_trace=lambda q,x,fileout=None,**k: plots.append((fileout,q['chain'].copy()))); mine=fc.make_pruned_fitEmis2D_class(f) if given else None; s0=flat({k:v for k,v in f.__dict__.items() if k!='sampler_dict'}); P=[]; ini=fc.init_walker_pos
    def start(*a,**k): P.append(ini(*a,**k)); return P[-1]
    fc.init_walker_pos=start; no=o.NoThread; f.sampler_dict='stale'
    try: g=fc._run_mcmc_emcee_3(f,fitEmis2D_fit=mine)
    finally: fc.emcee,fc.misfit_plot=real; fc.init_walker_pos=ini
    if no: s0['.mcmcOptions.nCPUs']=1
    t.ok('returns the fit',g is f); alike(t,'nothing else of the fit changed',s0,flat({k:v for k,v in f.__dict__.items() if k!='sampler_dict'}))
    b,p=m.samplers[0],m.samplers[-1]; t.ok('burn-in and production are different chains',len(m.samplers)==2 and b.k['backend'].key!=p.k['backend'].key and b.k['backend'].key[0]==o.filename_sampler_h5==p.k['backend'].key[0])
    resets=sorted(x[1:] for x in m.log if x[0]=='reset'); t.ok('chains emptied exactly when overwriting',resets==(sorted((x.k['backend'].key,o.nWalkers,nd) for x in(b,p)) if o.overwrite else []),resets)
    for x in(b,p): t.ok('walkers, parameters, probability and stretch of the settings',(x.nwalkers,x.ndim)==(o.nWalkers,nd) and x.f is fc.lnprob and x.k['moves'][1].get('a')==o.scale_param_a and x.k.get('pool') is None); a=x.k['args'][0]; t.ok('working copy, not the live fit',len(x.k['args'])==1 and (a is mine if given else a is not f and not hasattr(a,'mcmcOptions')))
    steps=[x[1] for x in m.log if x[0]=='step']; t.ok('exactly the burn-in steps asked for, first',steps==[0]*o.nBurn+[1]*(len(steps)-o.nBurn)); walk=[np.array(P[0])]
    for q,(x,k) in enumerate([(b,k) for k in range(len(b.pos))]+[(p,k) for k in range(len(p.pos))]): t.same('each step starts where the last one ended',x.starts[k],walk[-1]); walk.append(x.pos[k])
    n=len(p.pos); want=o.nSteps
    if None not in(o.minAF,o.maxAF,o.nEff) and not o.runAllSteps and not fail:
        for ii in range(o.nSteps):
            if o.minAF<af[ii+1]<o.maxAF and ii>act[ii+1]*o.nEff and ii>=49: want=ii+1; break
    t.ok('number of production steps',n==want,n,want); q=f.sampler_dict; t.same('table holds the production chain',q['chain'],p.chain); t.ok('table says so',q['nIter']==n and q['nWalkers']==o.nWalkers and q['nParam']==nd)
    t.ok('saved if a file is named',os.path.exists(os.path.join(d,'s'))==save)
    if save: t.same('file holds the table',fio.loadpickle(os.path.join(d,'s'))['chain'],p.chain)
    w=(['tb'] if o.nBurn>0 else [])+['t'] if tr else []; t.ok('traces as asked',[x[0] for x in plots]==w)
    for x in plots: t.same('trace of the right chain',x[1],(b if x[0]=='tb' else p).chain)
