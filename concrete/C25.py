import numpy as np, copy, io, contextlib, types, inspect
from types import SimpleNamespace as NS
from misfit import galaxy as gl, instrument as im
from misfit.model import aper_model as am, kin_classes as kc, kin_model as km
from misfit.fit import fit_core as fc, fit2D as f2
from misfit.mock import generate_basic as mk
MAXCASES=45
CODE=(types.FunctionType,types.BuiltinFunctionType,type,types.ModuleType)
def kids(o):
    if isinstance(o,types.MethodType): return [('self',o.__self__)]
    if isinstance(o,dict): return list(o.items())
    if isinstance(o,(list,tuple)): return list(enumerate(o))
    if isinstance(o,CODE) or isinstance(o,np.ndarray): return []
    if type(o).__module__.startswith(('misfit','types')) and hasattr(o,'__dict__'):
        return list(o.__dict__.items())+[(k,v) for c in type(o).__mro__ for k,v in c.__dict__.items() if not k.startswith('__') and isinstance(v,(np.ndarray,list,dict,set))]
    return []
def walk(o,path='',seen=None):
    seen={} if seen is None else seen
    if id(o) in seen: return seen
    hold=isinstance(o,(np.ndarray,list,dict,set)) or (type(o).__module__.startswith(('misfit','types')) and hasattr(o,'__dict__') and not isinstance(o,CODE+(types.MethodType,)))
    if hold: seen[id(o)]=(path,o)
    if hold or isinstance(o,(tuple,types.MethodType)):
        for k,v in kids(o): walk(v,path+'.'+str(k),seen)
    return seen
def apart(t,nm,a,b):
    A,B=walk(a),walk(b)
    both=[A[i][0] for i in A if i in B]; t.ok(nm+': nothing shared',not both,both[:5],[])
    X=[v for v in A.values() if isinstance(v[1],np.ndarray) and v[1].size]; Y=[v for v in B.values() if isinstance(v[1],np.ndarray) and v[1].size]
    m=[(p,q) for p,x in X for q,y in Y if np.shares_memory(x,y)]; t.ok(nm+': no array memory shared',not m,m[:3],[])
def simple(r):
    g=gl.Galaxy(n=1.,re_arcsec=.4,q=.5,q0=.2,z=2.)
    ins=dict(PSF_type='Gaussian' if r.random()<.5 else 'Moffat',PSF_FWHM=.5,pixscale=.2,slit_width=.7,slit_length=3.)
    c=[(kc,n,{}) for n in('VelArctanProfile','DispConstProfile','KinProfileFiducial','Theta2DSettingsFiducial','Theta2DSettings','ThetaPriorFlat','KinProfile')]+[(km,'KinModel2DOptions',{}),(fc,'FitEmissionLines2DBasic',{}),(fc,'MCMC2DOptions',{}),(fc,'MCMCResults',{})]+[(gl,n,{}) for n in('GalaxyBasic','Galaxy','Spectrum','ObsSpectrum','ObsSpectrum1D','ObsSpectrum2DBasic','ObsSpectrum2D','Pstamp')]+[(im,n,ins) for n in('Instrument','Spectrograph','Imager')]+[(kc,n,'g') for n in('IntensityProfileFiducial','IntensityProfileSersicExpScale','IntProfileSersic','IntProfileExpZ','IntProfileExpZScale')]+[(fc,'FitEmissionLines2DResults','r')]
    m,n,kw=c[int(r.integers(0,len(c)))]
    if kw=='g': return n,lambda: getattr(m,n)(copy.deepcopy(g))
    if kw=='r': return n,lambda: getattr(m,n)(galaxy=copy.deepcopy(g),instrument=im.Spectrograph(**ins))
    return n,lambda: getattr(m,n)(**kw)
def setting(r,st,nY):
    nW=9; z=float(r.uniform(.5,2.5)); lam=6564.6*(1+z); wave=(lam if st=='wave' else 0.)+2.17*(30 if st=='velocity' else 1)*(np.arange(nW)-(nW-1)/2)
    sp=gl.ObsSpectrum2D(); sp.__dict__.update(flux=r.normal(0,1,(nY,nW)),flux_err=np.ones((nY,nW)),wave=wave,linenames_arr=['HA'],restwave_arr=np.array([6564.6]),flux_ratio_arr=np.array([1.]),m0=float(r.uniform(0,nY-1)),shape=[nY,nW],spec_type=st,wh_nosky=np.arange(nW),lam0=lam,fitting_weight_matrix=np.ones((nY,nW)),linegroup_name='HA')
    g=gl.Galaxy(n=1.,re_arcsec=float(r.uniform(.2,.6)),q=float(r.uniform(.3,1)),q0=.19,delt_PA=float(r.uniform(-80,80)),z=z,generate_model=False); g.set_spectrum_2D(sp)
    ins=im.Spectrograph(PSF_type='Gaussian',PSF_FWHM=float(r.uniform(.2,.6)),pixscale=.18,slit_width=float(r.choice([.35,.7])),slit_length=.18*nY,instrument_resolution=35.); ins.slit_mask=None
    th=np.array([float(r.uniform(50,250)),float(r.uniform(.1,.6)),float(r.uniform(20,60)),float(r.uniform(-1,1)),z])
    return g,ins,th
def run(t):
    W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()): [basic,models,fits,mocks][int(t.rng.integers(0,4))](t,t.rng)
    finally: np.seterr(**W)
def basic(t,r):
    for _ in range(6):
        n,f=simple(r); t.input(kind=n); a,b=f(),f(); apart(t,n,a,b)
        if hasattr(a,'copy'): c=a.copy(); apart(t,n+' and its copy',a,c)
    g,i,th=setting(r,'wave',4); m=km.KinModel2D(g)
    for n,o in(('galaxy',g),('spectrum',g.spec2D),('instrument',i),('2D model',m)):
        t.input(kind='copy of '+n)
        if hasattr(o,'copy'): c=o.copy(); apart(t,n+' and its copy',o,c); t.ok('copy: same attributes',sorted(c.__dict__)==sorted(o.__dict__),sorted(c.__dict__),sorted(o.__dict__))
def models(t,r):
    nY=int(r.integers(3,6)); st=str(r.choice(['wave','velocity'])); own=bool(r.random()<.5); opt=dict(nSubpixels=2,adaptive_upsample_wave=False)
    P=[setting(r,st,nY) for _ in range(2)]; t.input(spec_type=st,own_settings=own,galaxies=[[p[0].re_arcsec,p[0].q,p[0].delt_PA,p[0].z] for p in P],theta=[p[2].tolist() for p in P])
    vary=np.array([True,True,True,bool(r.random()<.5),False]) if own else np.array([True,True,True,False,False])
    def mk_(k):
        kw=dict(spec_type=st,no_scale=True)
        if own: kw.update(thetaSettings=kc.Theta2DSettingsFiducial(theta=P[k][2].copy(),theta_vary=vary.copy()))
        if r.random()<.5: kw.update(kinModelOptions=km.KinModel2DOptions(**opt))
        m=km.KinModel2D(P[k][0],**kw); return m,kw.get('thetaSettings')
    f=[P[k][2][vary] for k in(0,1)]
    go=lambda m,k,s=1.: m.make_model(galaxy=P[k][0],instrument=P[k][1],theta_fitting=f[k]*s)
    (a,sa),(b,sb)=mk_(0),mk_(1); apart(t,'models',a,b)
    go(b,1); v=b.model.copy(); th=b.theta.copy(); go(a,0); go(a,0,1.1); t.same('the other model image',b.model,v); t.same('the other parameters',b.theta,th)
    b.update_model(theta_fitting=f[1]); t.eq('evaluated again after the other',b.model,v,rtol=1e-10); x=a.model.copy(); b.update_model(theta_fitting=f[1]*1.2); t.same('first model image',a.model,x); a.update_model(theta_fitting=f[0]*1.1); t.eq('first evaluated again',a.model,x,rtol=1e-10); apart(t,'models after evaluation',a,b)
    for s,k in((sa,0),(sb,1)):
        if s is not None: t.same('settings keep their values',s.theta,P[k][2]); t.same('settings keep their flags',s.theta_vary,vary)
def fits(t,r):
    nY=4; P=[setting(r,'wave',nY) for _ in range(2)]; own=[x for x in('kinProfile','kinModelOptions','mcmcOptions','mcmc_results') if r.random()<.4]; model=bool(r.random()<.6); lib=bool(r.random()<.4); t.input(own=own,model=model,lines_from_library=lib)
    M=dict(kinProfile=kc.KinProfileFiducial,kinModelOptions=km.KinModel2DOptions,mcmcOptions=fc.MCMC2DOptions,mcmc_results=fc.MCMCResults); F=[]; S=[]
    for g,i,th in P:
        s=kc.Theta2DSettingsFiducial(theta=th.copy(),theta_vary=np.array([True]*3+[False]*2),theta_bounds=[[-1e4,1e4]]*5); S.append(s)
        kw=dict(linegroup_name='Halpha')
        if lib: g.spec2D.linenames_arr=g.spec2D.restwave_arr=g.spec2D.flux_ratio_arr=None
        F.append(f2.FitEmissionLines2D(galaxy=g,instrument=i,thetaSettings=s,skip_fit_prep_calcs=True,**kw,**{k:M[k]() for k in own}))
    apart(t,'fits',*F)
    if model and not lib:
        for f in F: f.setup_model()
        apart(t,'fits with models',*F); v=F[1].kinModel.model.copy(); F[0].update_model(theta_fitting=P[0][2][:3]*1.1); t.same('the other fit keeps its model',F[1].kinModel.model,v)
        w=fc.make_pruned_fitEmis2D_class(F[0]); apart(t,'a fit and its working copy',F[0],w)
        for s,p in zip(S,P): t.same('settings keep their values',s.theta,p[2])
        l=fc.lnprob(P[1][2][:3]*1.05,F[1]) if hasattr(F[1].galaxy.spec2D,'fitting_weight_matrix') else None
        for s,p in zip(S,P): t.same('settings keep their values',s.theta,p[2])
def mocks(t,r):
    def one():
        z=float(r.uniform(.5,2.5)); st='velocity' if r.random()<.5 else 'wave'
        return dict(z=z,ID=1,Va=float(r.uniform(50,250)),rt=float(r.uniform(.1,.6)),sigma0=float(r.uniform(20,60)),yshift=float(r.uniform(-1,1)),n=1.,re_arcsec=float(r.uniform(.2,.6)),q=float(r.uniform(.3,1)),delt_PA=float(r.uniform(-80,80)),wave=(6564.6*(1+z)+2.17*(np.arange(9)-4)) if st=='wave' else 60.*(np.arange(9)-4),instrument_name='x',pixscale=.18,instrument_resolution=35.,slit_width=.7,slit_length=1.,nymin=3,PSF_FWHM=.4,PSF_type='Gaussian',band='K',line_primary='HA_6565',linegroup_name='Halpha',spec_type=st)
    a,b=one(),one(); t.input(first=a,second=b); A,B=mk.generate_mock_basis(**a),mk.generate_mock_basis(**b); apart(t,'mock observations',[x for x in A],[x for x in B])
    v=mk.generate_mock_slit_obs(**b); u=v.copy(); w=mk.generate_mock_slit_obs(**a); t.same('image of the first mock kept',v,u); t.eq('the same mock again',mk.generate_mock_slit_obs(**b),u,rtol=1e-10); B[0].make_model(galaxy=B[1],instrument=B[2],theta_fitting=[]); x=B[0].model.copy(); A[0].make_model(galaxy=A[1],instrument=A[2],theta_fitting=[]); t.same('image kept',B[0].model,x); t.eq('basis and slit observation agree',x,u,rtol=1e-10)
