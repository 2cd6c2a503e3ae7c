from dv.dsl import *
from contracts.common import *
import itertools
META=dict(functions=['fit_core.get_chain_results','fit_core.add_v_re_22','fit_core.get_param_posterior_bestfits','general_utils.get_bestfit_values_linked','general_utils.find_peak_gaussian_KDE','general_utils.find_peak_gaussian_KDE_multiD','kin_classes.KinProfile.update_theta','kin_classes.KinProfile.vel','kin_classes.KinProfile.sigma','fit_io.make_emcee_sampler_dict'],
 assumptions=['every sampled column of the chain has some spread, and so has every derived column unless all its samples are the same number (a kernel density estimate needs it)','five parameters (velocity, turnover radius, dispersion, offset, redshift), every free/fixed pattern with at least one free; positive turnover radii'],
 trusted=['numpy.histogram: any histogram; scipy.stats.gaussian_kde: some density of the data given; scipy.optimize.fmin: some values, one per start value (that they maximise the density is checked on sampled chains only)','numpy.percentile(column,q) is some function of the column and q'])
NM=['V_a','r_t','sigma0','m0_shift','lam0']
def harnesses(E):
    fc=E.mod('misfit.fit.fit_core'); kc=E.mod('misfit.model.kin_classes'); gn=E.mod('misfit.general.general_utils'); fio=E.mod('misfit.fit.fit_io')
    def build(vc,vary,abs_=False,linked=None,tex=False):
        N,nw,ns=vc.int_('samples',1),vc.int_('walkers',1),vc.int_('steps',1); free=[k for k in range(5) if vary[k]]; n=len(free)
        cols=[vc.arr('chain_'+NM[k],(N,),sign='pos' if k==1 else None) for k in free]; fixed=[vc.real('fixed_'+NM[k],'pos' if k==1 else None) for k in range(5)]
        kp=kc.KinProfileFiducial()
        km=NS(theta=np.array(fixed),theta_vary=list(vary),theta_names=np.array(NM),theta_names_nice=np.array(['$%s$'%x for x in NM]),n_free_param=n,kinProfile=kp)
        f=NS(kinModelOptions=NS(absvalsigma=abs_),kinModel=km,kinProfile=kp,galaxy=NS(re_mass_arcsec=vc.real('re_mass','pos')),usetex=tex,sampler_dict=dict(flatchain=np.array(cols).T.copy(),chain=vc.arr('walkchain',(nw,ns,n))),mcmc_results=fc.MCMCResults(),theta_linked_posteriors=linked)
        return f,N,free,cols,fixed,(nw,ns,n)
    def pattern(vary): return 'free '+','.join(NM[k] for k in range(5) if vary[k])
    def derived(vc,vary,abs_,tex,twice):
        f,N,free,cols,fixed,cs=build(vc,vary,abs_,tex=tex); n=len(free); ch0=f.sampler_dict['chain'].copy(); th0=f.kinModel.theta.copy(); R=f.galaxy.re_mass_arcsec
        fc.add_v_re_22(f)
        if twice: fc.add_v_re_22(f)
        q=f.sampler_dict['flatchain']; si=free.index(2) if 2 in free else None
        vc.ensure('sampled columns plus four',q.shape[1]==n+4 and len(q.shape)==2); vc.ensure('one row per sample',q.shape[0]==N)
        for j,k in enumerate(free): vc.ensure_eq('sampled column kept'+(' up to the documented absolute value' if abs_ else ''),q[:,j],abs(cols[j]) if abs_ and k==2 else cols[j],True)
        P=[cols[free.index(k)] if k in free else fixed[k]*np.ones((N,)) for k in range(5)]
        if abs_ and 2 in free: P[2]=abs(P[2])
        v=lambda r: 2/pi*P[0]*np.arctan(r/P[1])
        vc.ensure_eq('rotation velocity at the mass effective radius',q[:,n],v(R),True); vc.ensure_eq('rotation velocity at 2.2 scale lengths',q[:,n+1],v(K('2.2')/K('1.676')*R),True)
        vc.ensure_eq('dispersion at the mass effective radius',q[:,n+2],P[2],True); vc.ensure_eq('dispersion at 2.2 scale lengths',q[:,n+3],P[2],True)
        ch=f.sampler_dict['chain']
        for j,k in enumerate(free): vc.ensure_eq('walker chain kept'+(' up to the documented absolute value' if abs_ else ''),ch[:,:,j],abs(ch0[:,:,j]) if abs_ and k==2 else ch0[:,:,j])
        vc.ensure_eq('parameter values kept',f.kinModel.theta,th0)
        a,b=f.mcmc_results.theta_names,f.mcmc_results.theta_names_nice
        vc.ensure('names line up with columns',[str(x) for x in a]==[NM[k] for k in free]+['V_RE','V_22','sigma_RE','sigma_22'] and len(b)==n+4 and [str(x) for x in b[:n]]==['$%s$'%NM[k] for k in free])
        vc.ensure('nice names',(b[n],b[n+1],b[n+2],b[n+3])==(('$V(R_E)$','$V_{2.2}$',r'$\sigma(R_E)$',r'$\sigma_{2.2}$') if tex else ('VRE','V22','sigmaRE','sigma22')))
        vc.canary('no rotation',np.all(q[:,n]==0) if 0 in free else q[0,n]==0)
    for vary in itertools.product((True,False),repeat=5):
        if not any(vary): continue
        for abs_ in(False,True):
            @E.h('derived columns, %s%s'%(pattern(vary),', absolute dispersion' if abs_ else ''))
            def h(vc,vary=vary,abs_=abs_): derived(vc,vary,abs_,not abs_,False)
        if vary[3]==vary[4]==True:
            @E.h('derived columns, analysed twice, %s'%pattern(vary))
            def h(vc,vary=vary): derived(vc,vary,vary[0],False,True)
    def summary(vc,vary,linked,full=False,anyhist=(),flat=()):
        f,N,free,cols,fixed,cs=build(vc,vary,linked=linked); n=len(free)
        flat_=[]
        if not full:
            ex=[vc.real('constant%d'%i)*np.ones((N,)) if i in flat else vc.arr('derived%d'%i,(N,)) for i in range(4)]; flat_=[ex[i] for i in flat]; cols=cols+ex; f.sampler_dict['flatchain']=np.array(cols).T.copy()
        groups=[] if linked is None else [list(range(n)) if isinstance(g,str) else list(g) for g in linked]
        const=lambda c: any(c is z for z in flat_)
        for c in cols:
            if not const(c): vc.assume(no(c.max()-c.min()==0))
        isflat=[n+i for i in flat]; state=dict(data=None,n=0); calls=[]; best=[]; single=[]
        def kde(data):
            # density estimate of the data given: some function of them
            state['data']=data; state['n']+=1; i=state['n']
            def dens(x): return vc.real('density%d'%i)
            return dens
        def fmin(obj,x0,disp=False):
            # peak search: some values, one per start value (an array, even for one)
            vc.ensure('searches for the maximum of the density',np.all(obj(x0)==-vc.real('density%d'%state['n']))); d=state['data']
            if len(np.shape(d))==1:
                C=f.sampler_dict['flatchain']; j=vc.int_('any_row',0); vc.assume(j<N)
                i=[q for q in range(n+4) if q not in single and C[j,q].v is d[j].v][:1]; vc.ensure('density of the samples of one parameter, once each',len(i)==1)
                if not i: return np.array([vc.real('peak_unknown')])
                i=i[0]; single.append(i); vc.ensure_eq('density of the samples of that parameter',d,C[:,i])
                if not best: best.append(np.array([cols[q][0] if q in isflat else vc.real('peak%d'%q) for q in range(n+4)]))
                return np.array([vc.real('peak%d'%i)])
            inds=groups[min(len(calls),len(groups)-1)]; calls.append(inds)
            vc.ensure('joint density of the linked parameters',np.shape(d)[0]==len(inds) and np.shape(x0)==(len(inds),))
            for q,i in enumerate(inds): vc.ensure_eq('joint density of the linked parameters',d[q],f.sampler_dict['flatchain'][:,i])
            r=np.array([vc.real('joint%d_%d'%(len(calls),i)) for i in inds]); best.append(best[-1].copy())
            for q,i in enumerate(inds): best[-1][i]=r[q]
            return r
        nh=[0]
        def hist(a,bins=10,**k):
            # any histogram for the columns listed; for the others one whose peak is at the median (the guess only seeds the peak search)
            nh[0]+=1
            if nh[0]-1 in anyhist: return np.array([K('1.')]),np.array([vc.real('hx%d'%q) for q in range(2)])
            return np.array([1]),np.array([np.percentile(a,50.)]*2)
        derive=fc.add_v_re_22
        def derive_(f):
            g=derive(f)
            for i in range(n+4): c=f.sampler_dict['flatchain'][:,i]; vc.assume(no(c.max()-c.min()==0))
            return g
        with patched((fc,'add_v_re_22',derive_),(gn,'gaussian_kde',kde),(gn,'fmin',fmin),(fc.np,'histogram',hist)): fc.get_chain_results(f) if full else fc.get_param_posterior_bestfits(f)
        if full:
            q=f.sampler_dict['flatchain']; cols=[q[:,i] for i in range(n+4)]
        r=f.mcmc_results
        vc.ensure('a joint peak for every linked group',len(calls)>=len(groups))
        # quoted best value of a linked group: the joint peak last found for it
        B=[best[-1][i] for i in range(n+4)]
        for i in range(n+4):
            w='' if linked is None else ', linked' if any(i in g for g in groups) else ', not linked'
            if not any(i in g for g in groups): vc.ensure('best value: peak of its posterior'+w,r.bestfit_theta[i]==best[0][i])
            else: vc.ensure('best value: joint peak'+w,r.bestfit_theta[i]==B[i])
            b=r.bestfit_theta[i]; p=lambda x: np.percentile(cols[i],K(x))
            for nm,e,lo,hi in(('one',r.err_theta_1sig,'15.865','84.135'),('two',r.err_theta_2sig,'2.275','97.725')):
                vc.ensure(nm+' sigma below'+w,e[i,0]==b-p(lo)); vc.ensure(nm+' sigma above'+w,e[i,1]==p(hi)-b)
            neg,pos=total(N,lambda t: ind(cols[i][t]<0)),total(N,lambda t: ind(cols[i][t]>0)); k=ite_(b>0,neg,ite_(b<0,pos,K('0.'))); vc.ensure('percentage of samples of opposite sign'+w,r.percent_oppsign[i]==100*k/N)
        vc.ensure('shapes',r.err_theta_1sig.shape==(n+4,2) and r.err_theta_2sig.shape==(n+4,2) and r.bestfit_theta.shape==(n+4,) and r.percent_oppsign.shape==(n+4,))
        vc.ensure_eq('best values of the sampled parameters',r.bestfit_theta_fitting,r.bestfit_theta[:n])
        if not full:
            for i in range(n+4): vc.ensure_eq('chain kept',f.sampler_dict['flatchain'][:,i],cols[i])
        vc.canary('no spread',r.err_theta_1sig[0,0]==0)
    T=True; F_=False
    for vary,linked in(((T,T,T,T,T),None),((T,T,T,F_,F_),None),((T,F_,F_,F_,F_),None),((T,T,T,F_,F_),[[0,1]]),((T,T,T,F_,F_),[[0,1,2]]),((T,T,T,T,T),[[0,1],[2,3]]),((T,T,T,T,T),[[4],[0,1],[2]]),((T,T,T,F_,F_),['all']),((T,T,T,F_,F_),[[0,3],[2,5]])):
        @E.h('summary, %s, linked %s'%(pattern(vary),linked))
        def h(vc,vary=vary,linked=linked): summary(vc,vary,linked)
    for c in range(9):
        @E.h('summary, any histogram of column %d'%c)
        def h(vc,c=c): summary(vc,(T,)*5,None,False,(c,))
    for fl in((2,3),(0,1),(0,1,2,3)):
        @E.h('summary, no spread in derived columns %s'%(fl,))
        def h(vc,fl=fl): summary(vc,(T,T,T,F_,F_),[[0,1]] if fl==(2,3) else None,flat=fl)
    @E.h('whole analysis')
    def h(vc): summary(vc,(T,T,T,F_,F_),[[0,1]],True)
    @E.h('chain taken from the sampler')
    def h(vc):
        nw,ns,b=vc.int_('walkers',1),vc.int_('steps',1),vc.int_('burn',0); vc.assume(b<ns); n=3
        ch=vc.arr('walkchain',(nw,ns,n)); lp=vc.arr('lnp',(nw,ns)); ap=NS(galaxy='g',instrument='i',intensityProfile='p',kinProfile='k')
        class F:
            def copy(s): return NS(kinModel=NS(aperModel=ap),galaxy=None,instrument=None,intensityProfile=None,kinProfile=None,mcmcOptions=None,kinModelOptions=None,thetaSettings=None)
        for new in(True,False):
            smp=NS(ndim=n,chain=ch,lnprobability=lp,acceptance_fraction=vc.arr('acc',(nw,)),get_autocorr_time=lambda **k: 'act',nwalkers=nw,pool=NS(_processes=2),iteration=ns)
            if new: smp.log_prob_fn=NS(args=(F(),))
            else: smp.args=(F(),)
            d=fio.make_emcee_sampler_dict(smp,fitEmis2D=NS(mcmcOptions='m',kinModelOptions='o',thetaSettings='t'),nBurn=b); m=ns-b
            vc.ensure_eq('walkers kept after burn-in',d['chain'],lam((nw,m,n),lambda w,t,k: ch[w,b+t,k])); vc.ensure_eq('probabilities kept after burn-in',d['lnprobability'],lam((nw,m),lambda w,t: lp[w,b+t]))
            fl,fp=d['flatchain'],d['flatlnprobability']
            vc.ensure('one row per kept sample',both(fl.shape[0]==nw*m,fl.shape[1]==n)); q=vc.int_('q',0); vc.assume(q<nw*m); w=q//m; t=q-m*w     # row q holds walker floor(q/m), kept step q-m*floor(q/m)
            for k in range(n): vc.ensure('samples in walker order, parameter by parameter',fl[q,k]==ch[w,b+t,k])
            vc.ensure('probabilities in the same order',fp[q]==lp[w,b+t])
            f=d['fitEmis2D']; vc.ensure('settings of the fit kept with the chain',(f.galaxy,f.instrument,f.intensityProfile,f.kinProfile,f.mcmcOptions,f.kinModelOptions,f.thetaSettings)==('g','i','p','k','m','o','t'))
            vc.ensure('sizes',d['nParam']==n); vc.canary('one sample',fl.shape[0]==1)
    return E.hs
