import numpy as np, io as _io, contextlib, tempfile, os, pickle, shutil
from types import SimpleNamespace as NS
from misfit.fit.fit1D import FitEmissionLines1D
from misfit.galaxy import Galaxy, ObsSpectrum1D
MAXCASES=60
def run(t):
    r=t.rng; W=np.seterr(all='ignore'); d=tempfile.mkdtemp(prefix='c27_')
    try:
        with contextlib.redirect_stdout(_io.StringIO()): pick(r)(t,r,d)
    finally: np.seterr(**W); shutil.rmtree(d)
def pick(r):
    x=r.random(); return table if x<.4 else recorded if x<.75 else spectrum
def corr(v,R): v=np.abs(np.asarray(v,float)); return np.where(v>R,np.sqrt(np.where(v>R,v,R)**2-R**2),0.)
def check(t,f,R,T):
    t.eq('corrected dispersion',f.vel_disp_inst_corr,float(corr(f.vel_disp,R)),rtol=1e-12); c=corr(T,R)
    if T is None: return
    p=np.percentile(c,[15.865,84.135]); t.eq('quoted errors',f.vel_disp_inst_corr_err,[f.vel_disp_inst_corr-p[0],p[1]-f.vel_disp_inst_corr],rtol=1e-9,atol=1e-9*(1+c.max()))
def table(t,r,d):
    """any Monte Carlo table"""
    M=int(r.integers(1,40)); R=float(r.choice([0.,30.,80.,float(r.uniform(0,120))])); v=float(r.choice([R,-R,R*(1+1e-3),0.,float(r.uniform(-150,150))])); T=r.normal(80,40,(M,5)); T[:,1]=r.choice([0.,R,-R,70.,200.],M)*r.choice([1.,-1.,1.01,.99],M)+r.choice([0.,1.],M)*r.normal(0,5,M)
    t.input(R=R,v=v,T=T.tolist())
    f=object.__new__(FitEmissionLines1D); f.__dict__.update(galaxy=NS(),instrument=NS(instrument_resolution=R),names_arr=['Halpha'],vel_disp=v); e=os.path.join(d,'e'); f.save_mc_sim_matrix(T,err_filename=e)
    t.same('read back as written',f.load_mc_sim_matrix(err_filename=e),T); f.calculate_inst_corr_vel_disp(err_filename=e); check(t,f,R,T[:,1]); t.same('table kept',pickle.load(open(e,'rb')),T)
    f.calculate_inst_corr_vel_disp(noErrors=True); t.same('no errors asked for',f.vel_disp_inst_corr_err,[0,0])
def spectrum(t,r,d):
    """a whole fit"""
    z=float(r.uniform(1.2,1.6)); names=[['Halpha'],['Halpha','NII'],['OIII'],['OIII','Hbeta']][int(r.integers(0,4))]; lo,hi=(6480.,6650.) if 'Halpha' in names else (4800.,5080.)
    w=np.arange((lo-30)*(1+z),(hi+30)*(1+z),2.5); sd=float(r.uniform(40,140)); o=int(r.integers(0,3)); R=float(r.choice([0.,35.,300.])); seed=int(r.integers(0,10**6)); sign=float(r.choice([1.,1.,-1.])); plot=bool(r.random()<.12); M=int(r.integers(2,5))
    rest=dict(Halpha=[6564.6],NII=[6585.3],OIII=[5008.2,4960.3],Hbeta=[4862.7]); fl=np.full(len(w),1e-18)
    for n in names:
        for k,x in enumerate(rest[n]): s=sd/299792.458*x*(1+z); fl+=sign*1e-16/(3 if k else 1)/s/np.sqrt(2*np.pi)*np.exp(-.5*((w-x*(1+z))/s)**2)
    er=np.full(len(w),2e-19); g=np.random.RandomState(seed); fl=fl+er*g.randn(len(w)); t.input(z=z,names=names,sd=sd,order=o,R=R,seed=seed,sign=sign,plot=plot,M=M)
    s=ObsSpectrum1D(wave=w,flux=fl,flux_err=er); s.obswave=w; G=Galaxy(z=z,ID=1,field='f'); G.spec1D=s; s.load_basic_defaults(G)
    f=FitEmissionLines1D(galaxy=G,instrument=NS(instrument_resolution=R),names_arr=names,flux_arr=[sign*1e-16]*len(names),vel_disp=70.,num_MC=M,trim_restwave_range=[lo,hi],cont_order=o)
    e=os.path.join(d,'e'); keep=s.flux.copy(); np.random.seed(seed); f.fit(err_filename=e,noPlot=not plot,plot_filename=os.path.join(d,'p.png')); T=pickle.load(open(e,'rb')); P=f.lmfit_result.params
    t.same('reported values are those of the accepted result',[f.z,f.vel_disp]+list(f.flux_arr)+list(f.cont_coeff),[P['z'].value,P['vel_disp'].value]+[P['flux%d'%k].value for k in range(len(names))]+[P['cont_coeff%d'%k].value for k in range(o+1)])
    t.ok('table shape',T.shape==(M,2+len(names)+o+1)); t.same('spectrum kept',s.flux,keep); t.ok('a first result with a negative dispersion or flux is not the accepted one',(f.vel_disp>=0 or P['flux0'].min==0) and (f.flux_arr[0]>=0 or P['vel_disp'].min==0))
    L=np.percentile(T,[15.865,84.135],axis=0)
    t.eq('errors of the fit',np.concatenate([[f.z_err,f.vel_disp_err],f.flux_arr_err,f.cont_coeff_err]),np.array([[v-L[0,k],L[1,k]-v] for k,v in enumerate([f.z,f.vel_disp]+list(f.flux_arr)+list(f.cont_coeff))]),rtol=1e-9,atol=1e-12*abs(T).max())
    # the realisations: same draws, fitted again
    f.calculate_inst_corr_vel_disp(err_filename=e); check(t,f,R,T[:,1])
def recorded(t,r,d):
    """the fit with a stand-in for the optimiser: it records what it is asked and returns any values within the bounds"""
    import misfit.fit.fit1D as f1, copy
    names=[['Halpha'],['OIII'],['NII','Halpha'],['Hbeta','OIII']][int(r.integers(0,4))]; o=int(r.integers(0,3)); M=int(r.integers(2,6)); z=float(r.uniform(1.,2.)); nf=len(names); neg=[bool(x) for x in r.random(2)<.5]; t.input(names=names,order=o,M=M,z=z,first_result_negative=neg)
    lo,hi=(6480.,6650.) if nf and names[-1]=='Halpha' else (4800.,5080.); w=np.arange((lo-60)*(1+z),(hi+60)*(1+z),3.); s=ObsSpectrum1D(wave=w,flux=r.normal(0,1,len(w)),flux_err=r.uniform(.5,2,len(w))); s.obswave=w
    G=Galaxy(z=z,ID=1,field='f'); G.spec1D=s; s.load_basic_defaults(G)
    calls=[]; out=[]
    def minimize(fcn,params,args=(),**k):
        calls.append((fcn,copy.deepcopy(params),[np.array(a,copy=True) for a in args])); p=copy.deepcopy(params); n=len(calls)
        for k,x in p.items():
            if not x.vary: continue
            v=float(r.uniform(x.min,x.max)) if k=='z' else float(r.uniform(10,99))
            if n==1 and k=='vel_disp' and neg[0] or n==1 and k=='flux0' and neg[1]: v=-v
            if n>2 and x.min==-np.inf and r.random()<.3: v=-v
            x.set(value=v)
        out.append({k:x.value for k,x in p.items()}); return NS(params=p,message='',success=True,nfev=1,ndata=1,nfree=1,chisqr=1.,redchi=1.,residual=np.zeros(1),method='leastsq',errorbars=False,covar=None,ier=1,aborted=False)
    class L: pass
    st=L(); st.__dict__.update({k:getattr(f1.lmfit,k) for k in('Parameters','Parameter') if hasattr(f1.lmfit,k)}); st.minimize=minimize; st.fit_report=lambda *a,**k: ''; st.report_fit=lambda *a,**k: None; real=f1.lmfit; f1.lmfit=st
    try:
        f=FitEmissionLines1D(galaxy=G,instrument=NS(instrument_resolution=30.),names_arr=names,flux_arr=list(r.uniform(1,5,nf)),vel_disp=float(r.uniform(50,90)),num_MC=M,trim_restwave_range=[lo,hi],cont_order=o)
        f.cont_coeff=list(r.uniform(1,5,o+1)) if r.random()<.6 else None; s0=[f.z,f.vel_disp]+list(f.flux_arr)+([0.]*(o+1) if f.cont_coeff is None else list(f.cont_coeff)); p=f.galaxy.spec1D_trim; e=os.path.join(d,'e'); t.same('starts at the galaxy redshift',f.z,z)
        E=s.trim_spectrum_wavelength(G,trim_restwave_range=[lo,hi],linename=names[0]); E.mask_edges(); t.same('trimmed around the first group',p.obswave,E.obswave); t.same('edges masked',p.spec_mask,E.spec_mask)
        keep=[np.array(a,copy=True) for a in(p.obswave,p.flux,p.flux_err,p.spec_mask)]; f.fit(err_filename=e,noPlot=True)
    finally: f1.lmfit=real
    T=pickle.load(open(e,'rb')); keys=['z','vel_disp']+['flux%d'%k for k in range(nf)]+['cont_coeff%d'%k for k in range(o+1)]; main=2 if any(neg) else 1; t.ok('one first fit, a refit where dispersion or flux is negative, one fit per realisation',len(calls)==main+M,len(calls),main+M)
    if len(calls)!=main+M: return
    rep=lambda: [f.z,f.vel_disp]+list(f.flux_arr)+list(f.cont_coeff); acc=f.lmfit_result.params; t.same('reported values are those of the accepted result',rep(),[acc[k].value for k in keys])
    dz=f.del_obs_lam/f.restwave_arr[0][0]; D=[]
    for n,(fcn,q,a) in enumerate(calls):
        mc=n>=main; nm='realisation' if mc else 'refit' if n else 'first fit'; want=rep() if mc else s0
        t.ok(nm+': parameters',sorted(q)==sorted(keys)); t.eq(nm+': start',[q[k].value for k in keys],[max(v,0.) if q[k].min==0 else v for k,v in zip(keys,want)],rtol=1e-12); t.ok(nm+': all free',all(q[k].vary for k in keys))
        t.eq(nm+': redshift range',[q['z'].min,q['z'].max],[z-dz,z+dz],rtol=1e-12)
        for k in keys[1:]:
            b=not mc and n>0 and (k=='vel_disp' and neg[0] or k[0]=='f' and neg[1])
            t.ok(nm+': lower bound of '+k,q[k].min==(0. if b else -np.inf),q[k].min,b); t.ok(nm+': no upper bound of '+k,q[k].max==np.inf)
        for x,y,l in((0,0,'wavelengths'),(2,2,'errors'),(3,3,'mask')): t.same(nm+': '+l,a[x],keep[y])
        if mc: D.append((a[1]-keep[1])/keep[2])
        else: t.same(nm+': fluxes',a[1],keep[1])
    D=np.array(D); N=D.size; t.ok('realisations: centred unit normal draws',abs(D.mean())<7/np.sqrt(N) and abs(D.std()-1)<7/np.sqrt(N),[float(D.mean()),float(D.std())],[0,1]); t.ok('realisations: a draw of its own for every pixel and realisation',len(np.unique(np.round(D,7)))>.9*N)
    t.same('spectrum kept',p.flux,keep[1]); t.ok('table shape',T.shape==(M,len(keys))); t.same('model of the accepted result',f.final_model,calls[0][0].__self__.make1DProfile(acc,p.obswave))
    t.eq('errors of the fit',np.concatenate([[f.z_err,f.vel_disp_err],f.flux_arr_err,f.cont_coeff_err]),np.array([[v-l,u-v] for v,l,u in zip(rep(),*np.percentile(T,[15.865,84.135],axis=0))]),rtol=1e-9,atol=1e-9*abs(T).max())
    for n in range(M): t.same('table: the values fitted to that realisation',T[n],[out[main+n][k] for k in keys])
