"""The sampling run.  emcee is a contract: a sampler asked for k steps from positions p takes k steps from p and returns the positions reached
(a function of the sampler and the number of steps in its chain); its autocorrelation time and acceptance fractions are any numbers.  The two loops over
steps are proved with the invariant "after i iterations this sampler has taken i more steps, one after the other", for any number of steps."""
import dis, contextlib
from dv.dsl import *
from contracts.common import *
from dv import loops, core
from dv.core import S,CTX,Unsupported
META=dict(functions=['fit_core._run_mcmc_emcee_3','fit_core._run_mcmc_emcee_221','fit_core.init_walker_pos (contract, C24)'],
 assumptions=['number of processes given; any number of walkers, burn-in steps and steps (at least one step); acceptance fractions and autocorrelation times are numbers, or no autocorrelation time is available (RuntimeError)','emcee 2 branch: with a process pool; emcee 3: the estimate after burn-in does not raise (quiet=True)'],
 trusted=['emcee: run_mcmc(p,k) takes k steps from p; reset empties the chain; a backend is identified by file and name, and is empty after reset','plots, log messages and the clock have no effect on the run'])
class World:
    def __init__(w,vc,nw,nd,old,noacor=None): w.vc=vc; w.nw=nw; w.nd=nd; w.old=old; w.samplers=[]; w.rec=None; w.where=None; w.prob=None; w.state=None; w.pools=[]; w.backends={}; w.log=[]; w.moves_a=None; w.ghost={}; w.noacor=noacor
    def __call__(w): pass                      # ghost state: not part of the program's heap
    # ---- module emcee
    def StretchMove(w,**k): w.moves_a=k.get('a'); return ('stretch',)
    def HDFBackend(w,filename,name='mcmc',**k):
        b=w.backends.setdefault((filename,name),Backend(w,(filename,name))); return b
    def EnsembleSampler(w,nwalkers,ndim,log_prob_fn,*a,**k):
        s=Sampler(w,len(w.samplers),nwalkers,ndim,log_prob_fn,k); w.samplers.append(s); w.log.append(('sampler',s)); return s
    def Pool(w,n,*a,**k): p=PoolC(w,n); w.pools.append(p); w.ghost[p]='open'; return p
class Backend:
    def __init__(s,w,key): s.w=w; s.key=key; w.ghost[s]=None
    def reset(s,nw,nd): s.w.vc.ensure('storage made for the walkers and parameters of the fit',both(nw==s.w.nw,nd==s.w.nd)); s.w.ghost[s]='empty'
    def __call__(s): pass
class PoolC:
    def __init__(s,w,n): s.w=w; s.n=n
    def close(s): s.w.ghost[s]='closed'
    def join(s): pass
    def __call__(s): pass
class Sampler:
    def __init__(s,w,id,nw,nd,f,k):
        s.w=w; s.id=id; s.nw=nw; s.nd=nd; s.f=f; s.kw=k; s.pool=k.get('pool'); w.ghost[s]=[S(tm.ZERO,tm.TRUE,'i'),0]       # steps in the chain, number of resets
        if w.old: s.pool=PoolC(w,k.get('threads')); w.pools.append(s.pool); w.ghost[s.pool]='open'
        s.args=k.get('args'); s.backend=k.get('backend')
        s.acceptance_fraction=opaque('accept',(nw,),id)
    def __call__(s): pass
    def at(s,what,shape): n,e=s.w.ghost[s]; return opaque(what,shape,s.id,e,n)
    def run_mcmc(s,p,k=1,lnprob0=None,rstate0=None,**kw):
        w=s.w; vc=w.vc
        if w.rec is not None: w.rec.append(s); return (w.SP,w.SL,w.SR) if w.old else w.SP
        vc.ensure_eq('each step starts where the last one ended',np.array(p),w.where); vc.ensure('probabilities handed on are those of the positions',lnprob0 is None or lnprob0 is w.prob); vc.ensure('random state handed on is the last one',rstate0 is None or rstate0 is w.state)
        w.ghost[s]=[w.ghost[s][0]+k,w.ghost[s][1]]; w.log.append(('steps',s)); s.land(); return (w.where,w.prob,w.state) if w.old else w.where
    def land(s): w=s.w; w.where=s.at('walkers',(s.nw,s.nd)); w.prob=('prob',); w.state=('state',); s.acceptance_fraction=s.at('accept',(s.nw,))
    def reset(s): s.w.log.append(('reset',s)); s.w.ghost[s]=[S(tm.ZERO,tm.TRUE,'i'),s.w.ghost[s][1]+1]
    def get_autocorr_time(s,*a,**k):
        if s.w.rec is None and s.w.noacor is not None and (s.w.old or s.id>0) and bool(s.w.noacor): raise RuntimeError('chain too short')
        return s.at('acor',(s.nd,))
class Steps:
    """invariant of a loop that advances a sampler"""
    leaves=True
    def __init__(c,vc,w): c.vc=vc; c.w=w
    def dry(c,body,x,cells):
        w=c.w; w.SP,w.SL,w.SR=Mark(),Mark(),Mark(); w.rec=[]; g=dict((k,list(v) if isinstance(v,list) else v) for k,v in w.ghost.items()); keep=(w.where,w.prob,w.state,list(w.log))
        st={i.argval for i in dis.get_instructions(body) if i.opname.startswith('STORE')}; carried=[k for k in cells if k in st]
        try: res=loops.explore([],lambda: body(x),list(cells.values()))
        except (Unsupported,AttributeError,TypeError,UnboundLocalError): res=[]
        hit=w.rec; w.rec=None; w.ghost.clear(); w.ghost.update(g); w.where,w.prob,w.state,w.log=keep
        return hit,res,carried
    def applies(c,it,n,cells):
        if not any(isinstance(loops.get_cell(x),Sampler) for x in cells.values()): return False
        return True
    def init(c,cells):
        i0=S(tm.ZERO,tm.TRUE,'i'); hit,res,carried=c.dry(c.body,loops.seq_at(c.it,tm.ZERO),cells)
        if not hit or any(h is not hit[0] for h in hit): raise Unsupported('a loop that does not advance one sampler')
        c.s=hit[0]; c.n0,c.e0=c.w.ghost[c.s]; c.role={}; c.count={}; c.temp=[]
        stay=[r for r in res if not(r[1] is loops.BRK or isinstance(r[1],loops.Ret))]
        for k in carried:
            cell=cells[k]; v0=loops.get_cell(cell); vals=[[y for cc,y in st if cc is cell][0] for _,_,(e,st,l) in stay]
            hitr=[r for r,m in(('where',c.w.SP),('prob',c.w.SL),('state',c.w.SR)) if any(y is m for y in vals)]
            if hitr:
                if not all(y is vals[0] for y in vals): raise Unsupported('%s is not always the position reached'%k)
                c.role[k]=hitr[0]
            elif all(y is v0 for y in vals): continue
            elif isinstance(v0,(int,S)) and not isinstance(v0,bool) and loops.read_first(c.body,k): c.count[k]=v0
            elif not loops.read_first(c.body,k): c.temp.append(k)
            else: raise Unsupported('%s carries state the invariant does not describe'%k)
    def havoc(c,cells,i):
        w=c.w
        if bool(i==0): return
        w.ghost[c.s]=[c.n0+i,c.e0]; c.s.land(); w.log.append(('steps',c.s))
        for k,r in c.role.items(): cells[k].cell_contents=getattr(w,r)
        for k,v in c.count.items(): cells[k].cell_contents=v+i
        for k in c.temp: cells[k].cell_contents=loops.Poison(k)
    def preserved(c,cells,i1):
        vc=c.vc; w=c.w; vc.ensure('one step per iteration',both(w.ghost[c.s][0]==c.n0+i1,w.ghost[c.s][1]==c.e0))
        for k,r in c.role.items():
            x=cells[k].cell_contents
            if r=='where': vc.ensure_eq('the position reached is carried on',x,w.where)
            else: vc.ensure('what the sampler returned is carried on',x is getattr(w,r))
        for k,v in c.count.items(): vc.ensure('counter',cells[k].cell_contents==v+i1)
class Mark:
    def copy(s): return s
    def __call__(s): pass
class Log:
    def write(s,x): pass
    def flush(s): pass
    def __call__(s): pass
def harnesses(E):
    fc=E.mod('misfit.fit.fit_core'); ut=fc.utils; fio=fc.fit_io
    def world(vc,old,acor): return World(vc,vc.int_('walkers',1),3,old,{'yes':None,'no':True}.get(acor) if acor!='maybe' else vc.bool_('too short'))
    def case(old,burn,early,acor,**opt):
        nm='emcee %d%s%s%s%s'%(2 if old else 3,'' if burn=='some' else ', no burn-in','' if early else ', early end %s'%opt.get('off'),{'maybe':'','no':', no autocorrelation time','yes':''}[acor],''.join(', '+k for k,v in sorted(opt.items()) if v is True))
        @E.h(nm)
        def h(vc):
            w=world(vc,old,acor); nb=vc.int_('burn',1) if burn=='some' else 0; ns=vc.int_('steps',1); cpus=vc.int_('cpus',2) if opt.get('pool') or opt.get('nothread') or old else 1
            o=fc.MCMC2DOptions(nWalkers=w.nw,nBurn=nb,nSteps=ns,nCPUs=cpus,NoThread=bool(opt.get('nothread')),scale_param_a=vc.real('a','pos'),nEff=vc.real('nEff','pos'),minAF=vc.real('minAF'),maxAF=vc.real('maxAF'),runAllSteps=opt.get('off')=='runAllSteps',overwrite=not opt.get('resume'),filename_sampler_h5='h5',filename_sampler='s' if opt.get('save') else None,filename_plot_trace='t' if opt.get('traces') else None,filename_plot_trace_burnin='tb' if opt.get('traces') else None)
            if opt.get('off') in('minAF','maxAF','nEff'): setattr(o,opt['off'],None)
            km=NS(theta_names=['a','b','c','d'],theta_vary=[True,False,True,True],n_free_param=3,kinModelOptions=NS(nSubpixels=2)); f=NS(mcmcOptions=o,kinModel=km,instrument=NS(PSF=NS(PSF_type='Gaussian',yspace_dither_arc=None)),usetex=False,sampler_dict='old',thetaSettings=object()); keep=dict(f.__dict__); ok_=dict(o.__dict__)
            pruned=NS(pruned=True); P0=vc.arr('start',(w.nw,3)); w.where=P0; made=[]; plots=[]; F=Files()
            def prune(x): vc.ensure('the working copy is of this fit',x is f); return pruned
            def init(x,ndim=None,nwalkers=200): vc.ensure('walkers start inside the bounds of this fit (C24)',x is f and ndim==3 and bool(nwalkers==w.nw)); return P0
            def table(s,fitEmis2D=None,nBurn=0): d=dict(sampler=s,n=w.ghost[s][0],resets=w.ghost[s][1],fit=fitEmis2D,burn=nBurn); made.append(d); return d
            @contextlib.contextmanager
            def log(name): yield Log()
            given=opt.get('given'); mine=NS(mine=True)
            run=fc._run_mcmc_emcee_221 if old else fc._run_mcmc_emcee_3; em=NS(EnsembleSampler=w.EnsembleSampler,moves=NS(StretchMove=w.StretchMove),backends=NS(HDFBackend=w.HDFBackend),__version__='2' if old else '3')
            with patched((fc,'emcee',em),(fc,'Pool',w.Pool),(fc,'make_pruned_fitEmis2D_class',prune),(fc,'init_walker_pos',init),(fio,'make_emcee_sampler_dict',table),(fio,'dumppickle',lambda d,filename=None: F.d.__setitem__(filename,d)),(ut,'file_or_stdout',log),(fc,'misfit_plot',NS(plot_trace=lambda d,x,fileout=None,**k: plots.append((d,fileout)))),(fc,'print',lambda *a,**k: None)):
                with loops.annotated(Steps(vc,w)): r=run(f,fitEmis2D_fit=mine) if given else run(f)
            vc.ensure('the fit handed in is the one returned',r is f)
            prod=w.samplers[-1]; first=w.samplers[0]
            for s in w.samplers:
                vc.ensure('walkers, free parameters and probability of the fit',both(s.nw==w.nw,s.nd==3) if s.f is fc.lnprob else False); vc.ensure('probability evaluated on the working copy, not the live fit',tuple(s.args)==((mine,) if given else (pruned,)))
                if old: vc.ensure('stretch scale of the settings',s.kw.get('a')==o.scale_param_a)
            if not old: vc.ensure('stretch scale of the settings',w.moves_a is not None and w.moves_a==o.scale_param_a and all(s.kw.get('moves')==('stretch',) for s in w.samplers))
            # the chain of the table
            d=f.sampler_dict; vc.ensure('table made from the production chain, nothing cut',isinstance(d,dict) and d['sampler'] is prod and d['fit'] is f and d['burn']==0)
            n=w.ghost[prod][0]; vc.ensure('table made when sampling has ended',both(d['n']==n,d['resets']==w.ghost[prod][1])); vc.ensure('at least one step, never more than asked for',both(n>=1,n<=ns))
            burnt=[x for x in w.log if x[0]=='steps' and x[1] is first]
            if old:
                vc.ensure('burn-in chain dropped',w.ghost[prod][1]==(1 if burn=='some' else 0) and len(w.samplers)==1)
            else:
                vc.ensure('burn-in and production are different chains',prod is not first and len(w.samplers)==2 and prod.backend is not None and prod.backend is not first.backend and prod.backend.key[0]=='h5'); vc.ensure('exactly the burn-in steps asked for',w.ghost[first][0]==nb)
                order=[x[1] for x in w.log if x[0]=='steps']; vc.ensure('burn-in first',order==sorted(order,key=lambda s: s.id))
                if not opt.get('resume'): vc.ensure('chains start empty',w.ghost[prod.backend]=='empty' and w.ghost[first.backend]=='empty')
                else: vc.ensure('earlier chains kept',w.ghost[prod.backend] is None and w.ghost[first.backend] is None)
            af=prod.acceptance_fraction; act=prod.at('acor',(3,)); conv=both(o.minAF<np.mean(af),np.mean(af)<o.maxAF,(n-1)>np.max(act)*o.nEff,n-1>=49) if early else None
            if acor=='maybe' and early: vc.ensure('ends early only when converged',imp(n<ns,both(conv,no(w.noacor))))
            elif acor=='no' or not early: vc.ensure('runs all steps',n==ns)
            else: vc.ensure('ends early only when converged',imp(n<ns,conv))
            if opt.get('save'): vc.ensure('table saved under the name given',list(F.d)==['s'] and F.d['s'] is d)
            else: vc.ensure('nothing saved',not F.d)
            tr=[x for x in plots if x[1]=='t']; tb=[x for x in plots if x[1]=='tb']
            if opt.get('traces'): vc.ensure('trace of the production chain',len(tr)==1 and tr[0][0] is d); vc.ensure('trace of the burn-in',len(tb)==(1 if burn=='some' else 0) and all(x[0]['sampler'] is first and x[0]['burn']==0 for x in tb)); 
            else: vc.ensure('no plots',not plots)
            if opt.get('traces') and tb: vc.ensure('burn-in trace shows the whole burn-in',both(tb[0][0]['n']==nb,tb[0][0]['resets']==0))
            np_=1 if opt.get('nothread') else cpus
            vc.ensure('processes as set',f.mcmcOptions.nCPUs==np_)
            if not old: vc.ensure('process pool only for more than one process, shared by both chains',(len(w.pools)==1 and bool(w.pools[0].n==cpus) and all(s.pool is w.pools[0] for s in w.samplers)) if opt.get('pool') and not opt.get('nothread') else not w.pools and all(s.pool is None for s in w.samplers))
            vc.ensure('pools closed',all(w.ghost[p]=='closed' for p in w.pools)); vc.ensure('nothing else of the fit changed',sorted(f.__dict__)==sorted(keep) and all(f.__dict__[k] is keep[k] for k in keep if k!='sampler_dict') and all(o.__dict__[k] is v for k,v in ok_.items() if k!='nCPUs'))
            vc.canary('one step',n==1)
            if early and acor!='no': vc.canary('always all steps',n==ns)
        @E.h(nm+': keeps going while not converged') if early and acor=='yes' else (lambda g: g)
        def h(vc):
            # the step after which the run ends is the first one that meets the criteria: an iteration that does not end the loop did not meet them
            w=world(vc,old,acor); w.where=vc.arr('start',(w.nw,3)); ns=vc.int_('steps',1); seen=[]
            o=fc.MCMC2DOptions(nWalkers=w.nw,nBurn=0,nSteps=ns,nCPUs=2 if old else 1,scale_param_a=2.,nEff=vc.real('nEff','pos'),minAF=vc.real('minAF'),maxAF=vc.real('maxAF'),filename_sampler_h5='h5'); f=NS(mcmcOptions=o,kinModel=NS(theta_names=['a'],theta_vary=[True],n_free_param=3,kinModelOptions=NS(nSubpixels=2)),instrument=NS(PSF=NS(PSF_type='Gaussian',yspace_dither_arc=None)),usetex=False,sampler_dict=None)
            class Watch(Steps):
                def preserved(c,cells,i1):
                    s=c.s; af=s.acceptance_fraction; act=s.at('acor',(3,)); vc.ensure('a converged chain is not continued',no(both(o.minAF<np.mean(af),np.mean(af)<o.maxAF,i1-1>np.max(act)*o.nEff,i1-1>=49))); seen.append(1); Steps.preserved(c,cells,i1)
            @contextlib.contextmanager
            def log(name): yield Log()
            P0=w.where; em=NS(EnsembleSampler=w.EnsembleSampler,moves=NS(StretchMove=w.StretchMove),backends=NS(HDFBackend=w.HDFBackend))
            with patched((fc,'emcee',em),(fc,'Pool',w.Pool),(fc,'make_pruned_fitEmis2D_class',lambda x: NS()),(fc,'init_walker_pos',lambda x,ndim=None,nwalkers=200: P0),(fio,'make_emcee_sampler_dict',lambda s,**k: {}),(ut,'file_or_stdout',log),(fc,'print',lambda *a,**k: None)):
                with loops.annotated(Watch(vc,w)): (fc._run_mcmc_emcee_221 if old else fc._run_mcmc_emcee_3)(f)
            vc.canary('one step',w.ghost[w.samplers[-1]][0]==1)
    for old in(False,True):
        case(old,'some',True,'yes',save=True); case(old,'none',True,'maybe',traces=True); case(old,'some',True,'maybe',save=True,traces=True); case(old,'some',True,'no')
        for off in('minAF','maxAF','nEff','runAllSteps'): case(old,'some',False,'yes',off=off)
        case(old,'some',True,'yes',given=True)
    case(False,'some',True,'yes',pool=True); case(False,'some',True,'yes',pool=True,nothread=True); case(False,'some',True,'yes',resume=True); case(False,'none',True,'no',pool=True)
    return E.hs
