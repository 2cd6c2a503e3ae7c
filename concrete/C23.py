import numpy as np, io, contextlib
from types import SimpleNamespace as NS
from scipy.stats import gaussian_kde
from misfit.fit import fit_core as fc, fit_io as fio
from misfit.model import kin_classes as kc
MAXCASES=60
NM=['V_a','r_t','sigma0','m0_shift','lam0']
def run(t):
    W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()): sampler(t,t.rng) if t.rng.random()<.2 else chain(t,t.rng)
    finally: np.seterr(**W)
def chain(t,r):
    vary=list(r.random(5)<.6)
    if not any(vary): vary[0]=True
    vary=[bool(x) for x in vary]; free=[k for k in range(5) if vary[k]]; n=len(free); nw,ns=int(r.integers(4,8)),int(r.integers(10,25))
    cen=np.array([r.choice([-1,1])*r.uniform(.2,200.),r.uniform(.3,2),r.uniform(20,80),r.normal(),.6564]); wid=np.array([r.uniform(1,100),.05,r.uniform(3,40),.2,1e-4])
    th=cen+0.; abs_=bool(r.random()<.5); tex=bool(r.random()<.5); re=float(r.uniform(.2,1.5)); linked=None
    if n>=2 and r.random()<.5:
        o=[int(x) for x in r.permutation(n+4)]; k=int(r.integers(2,min(4,n)+1)); linked=[sorted(int(x) for x in r.permutation(n)[:k])]
        if r.random()<.2: linked=['all']
        elif r.random()<.3:
            rest=[x for x in range(n) if x not in linked[0]]
            if rest: linked.append(rest)
    twice=bool(r.random()<.3); t.input(vary=vary,linked=linked,absolute=abs_,twice=twice,walkers=nw,steps=ns)
    ch=np.stack([cen[k]+wid[k]*r.standard_normal((nw,ns)) for k in free],-1)
    if 1 in free: ch[:,:,free.index(1)]=abs(ch[:,:,free.index(1)])+.01
    fl=ch.reshape((-1,n)).copy(); kp=kc.KinProfileFiducial()
    f=NS(kinModelOptions=NS(absvalsigma=abs_),kinModel=NS(theta=th.copy(),theta_vary=list(vary),theta_names=np.array(NM),theta_names_nice=np.array(['$%s$'%x for x in NM]),n_free_param=n,kinProfile=kp),kinProfile=kp,galaxy=NS(re_mass_arcsec=re),usetex=tex,sampler_dict=dict(flatchain=fl.copy(),chain=ch.copy()),mcmc_results=fc.MCMCResults(),theta_linked_posteriors=linked)
    fc.get_chain_results(f)
    if twice: fc.get_chain_results(f)
    E=fl.copy(); EC=ch.copy()
    if abs_ and 2 in free: E[:,free.index(2)]=abs(E[:,free.index(2)]); EC[:,:,free.index(2)]=abs(EC[:,:,free.index(2)])
    P=[E[:,free.index(k)] if k in free else np.full(len(fl),th[k]) for k in range(5)]
    for rr in(re,2.2/1.676*re): E=np.column_stack([E,2/np.pi*P[0]*np.arctan(rr/P[1])])
    E=np.column_stack([E,P[2],P[2]]); q=f.sampler_dict['flatchain']
    t.eq('chain with derived columns',q,E,rtol=1e-9,atol=1e-12); t.same('walker chain',f.sampler_dict['chain'],EC); t.same('parameter values kept',f.kinModel.theta,th); m=f.mcmc_results
    t.ok('names',[str(x) for x in m.theta_names]==[NM[k] for k in free]+['V_RE','V_22','sigma_RE','sigma_22'] and len(m.theta_names_nice)==n+4)
    b=np.asarray(m.bestfit_theta); t.ok('one best value per column',b.shape==(n+4,))
    for nm,e,lo,hi in(('one',m.err_theta_1sig,15.865,84.135),('two',m.err_theta_2sig,2.275,97.725)):
        a,z=np.percentile(E,[lo,hi],axis=0); t.eq(nm+' sigma errors',e,np.column_stack([b-a,z-b]),rtol=1e-8,atol=1e-12,scale=np.maximum(abs(np.column_stack([a,z])),1e-12))
    t.eq('opposite sign',m.percent_oppsign,[100.*np.mean(np.sign(b[i])*E[:,i]<0) for i in range(n+4)],rtol=1e-9,atol=1e-12)
    t.same('sampled best values',m.bestfit_theta_fitting,b[:n])
    g=[] if linked is None else [list(range(n)) if isinstance(x,str) else x for x in linked]
    for i in range(n+4):
        if any(i in x for x in g): continue
        s=E[:,i]
        if s.max()-s.min()<1e-12: continue
        k=gaussian_kde(s); step=(s.max()-s.min())*.02; t.ok('best value is a peak of its posterior',k(b[i])[0]>=max(k(b[i]-step)[0],k(b[i]+step)[0])*(1-1e-6))
    for x in g:
        s=E[:,x]
        if np.any(s.max(0)-s.min(0)<1e-12): continue
        k=gaussian_kde(s.T); c=k(b[x])[0]; sd=s.std(0)
        for j in range(len(x)):
            for sg in(-1,1):
                d=b[x].copy(); d[j]+=sg*.3*sd[j]; t.ok('linked best values are a joint peak',c>=k(d)[0]*(1-1e-6))
def sampler(t,r):
    n=int(r.integers(1,5)); nw,ns=int(r.integers(1,6)),int(r.integers(2,12)); b=int(r.integers(0,ns)); new=bool(r.random()<.5); t.input(ndim=n,walkers=nw,steps=ns,burn=b,emcee3=new)
    ch,lp=r.normal(0,1,(nw,ns,n)),r.normal(0,1,(nw,ns)); ap=NS(galaxy='g',instrument='i',intensityProfile='p',kinProfile='k')
    class F:
        def copy(s): return NS(kinModel=NS(aperModel=ap))
    s=NS(ndim=n,chain=ch.copy(),lnprobability=lp.copy(),acceptance_fraction=r.random(nw),get_autocorr_time=lambda **k: 1.,nwalkers=nw,pool=NS(_processes=2),iteration=ns)
    if new: s.log_prob_fn=NS(args=(F(),))
    else: s.args=(F(),)
    d=fio.make_emcee_sampler_dict(s,fitEmis2D=NS(mcmcOptions='m',kinModelOptions='o',thetaSettings='t'),nBurn=b)
    t.same('chain after burn-in',d['chain'],ch[:,b:]); t.same('flat chain',d['flatchain'],np.concatenate([ch[w,b:] for w in range(nw)])); t.same('flat probabilities',d['flatlnprobability'],np.concatenate([lp[w,b:] for w in range(nw)])); t.same('probabilities',d['lnprobability'],lp[:,b:])
