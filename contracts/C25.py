"""Frame (separation) contracts. After the real constructors have run on symbolic values, everything reachable from one
instance is changed in place (arrays through every view, lists, dicts, attributes of the package's objects, class attributes);
everything reachable from the other must be as it was.  The values are symbolic, so this holds for every choice of them."""
import types
from dv.dsl import *
from contracts.common import *
META=dict(functions=['kin_model.KinModel2D.__init__','kin_model.KinModel2D.setAttr','kin_model.KinModel2D.update_parameters','kin_model.KinModel2D.update_profiles','fit2D.FitEmissionLines2D.__init__','fit2D.FitEmissionLines2D.setup','fit2D.FitEmissionLines2D.setup_model','fit_core.make_pruned_fitEmis2D_class','mock.generate_basic.generate_mock_basis','kin_classes: every constructor','fit_core: every options and results class','galaxy and instrument: every constructor','aper_model.AperModel2D.__init__ (set-up)'],
 assumptions=['no object is passed to both constructors'],
 trusted=['copy.deepcopy copies everything reachable'])
def mutable(o):
    if isinstance(o,(Arr,list,dict,set)): return True
    return hasattr(o,'__dict__') and not isinstance(o,(type,types.FunctionType,types.ModuleType,types.BuiltinFunctionType,types.MethodType)) and type(o).__module__.startswith(('misfit','dv_','types')) or isinstance(o,NS)
def attrs(o):
    d=dict(o.__dict__)
    return d
def classvals(o):
    for c in type(o).__mro__:
        for k,v in c.__dict__.items():
            if not k.startswith('__') and isinstance(v,(Arr,list,dict,set)): yield k,v
def snap(o,seen=None):
    """structure of everything reachable, arrays by value"""
    seen={} if seen is None else seen
    if isinstance(o,(types.FunctionType,types.BuiltinFunctionType,type,types.ModuleType)): return ('code',id(o))
    if isinstance(o,types.MethodType): return ('method',getattr(o,'__name__',''),snap(o.__self__,seen))
    if isinstance(o,S) or isinstance(o,SB): return ('scalar',o)
    if isinstance(o,Arr): return ('array',o.copy(),o.kind)
    if isinstance(o,(list,tuple,dict,set)) or mutable(o):
        if id(o) in seen: return ('again',seen[id(o)])
        seen[id(o)]=len(seen); keep.append(o)
        if isinstance(o,dict): return ('dict',[(k,snap(v,seen)) for k,v in o.items()])
        if isinstance(o,(list,tuple)): return ('list',[snap(v,seen) for v in o])
        if isinstance(o,set): return ('set',sorted(map(repr,o)))
        return ('object',type(o).__name__,[(k,snap(v,seen)) for k,v in attrs(o).items()]+[(k,snap(v,seen)) for k,v in classvals(o)])
    return ('value',o)
keep=[]
def equal(vc,name,a,b,path=''):
    if a[0]!=b[0]: vc.ensure(name,False); return
    k=a[0]
    if k=='scalar': vc.ensure(name,either(a[1]==b[1],both(no(finite(a[1])),no(finite(b[1])))) if isinstance(a[1],S) else a[1].b is b[1].b)
    elif k=='array':
        if len(a[1].shape)!=len(b[1].shape) or a[2]!=b[2]: vc.ensure(name,False)
        elif a[2] in('f','i','b'): vc.ensure_eq(name,a[1],b[1])
    elif k in('dict','object','list'):
        if k=='object' and a[1]!=b[1] or len(a[-1])!=len(b[-1]): vc.ensure(name,False); return
        for x,y in zip(a[-1],b[-1]):
            if k!='list':
                if x[0]!=y[0]: vc.ensure(name,False); return
                x,y=x[1],y[1]
            equal(vc,name,x,y,path)
    elif k=='method': vc.ensure(name,a[1]==b[1]); equal(vc,name,a[2],b[2])
    elif k=='value': vc.ensure(name,a[1] is b[1] or type(a[1])==type(b[1]) and (a[1]==b[1] or a[1]!=a[1]))
    else: vc.ensure(name,a==b)
def wreck(o,skip,undo,seen=None):
    """change everything reachable from o in place"""
    seen=set() if seen is None else seen
    if id(o) in seen or id(o) in skip: return
    if isinstance(o,types.MethodType): return wreck(o.__self__,skip,undo,seen)
    if isinstance(o,tuple):
        for v in o: wreck(v,skip,undo,seen)
        return
    if not mutable(o): return
    seen.add(id(o)); keep.append(o)
    if isinstance(o,Arr):
        old=o.copy(); undo.append(lambda: o.__setitem__(Ellipsis,old))
        o[...]=(~old if o.kind=='b' else old+1) if o.kind in 'fib' else old
    elif isinstance(o,dict):
        for v in list(o.values()): wreck(v,skip,undo,seen)
        c=dict(o); undo.append(lambda: (o.clear(),o.update(c))); o.clear(); o['changed']=1
    elif isinstance(o,list):
        for v in list(o): wreck(v,skip,undo,seen)
        c=list(o); undo.append(lambda: o.__setitem__(slice(None),c)); o[:]=['changed']
    elif isinstance(o,set): c=set(o); undo.append(lambda: (o.clear(),o.update(c))); o.clear(); o.add('changed')
    else:
        for k,v in list(classvals(o)): wreck(v,skip,undo,seen)
        d=o.__dict__; c=dict(d)
        for v in list(d.values()): wreck(v,skip,undo,seen)
        undo.append(lambda: (d.clear(),d.update(c)))
        for k in list(d): d[k]='changed'
def separate(vc,what,make,given=()):
    """make(i) builds instance i; objects in given(i) were passed in and are not shared between the two"""
    a,b=make(1),make(2); s=snap(b); undo=[]; wreck(a,set(),undo)
    equal(vc,what+': untouched by changes to the other',snap(b),s)
    c=make(2); equal(vc,what+': a new one is untouched by changes to an earlier one',snap(c),s)
    for f in reversed(undo): f()
    return a,b
def harnesses(E):
    kc=E.mod('misfit.model.kin_classes'); km=E.mod('misfit.model.kin_model'); fc=E.mod('misfit.fit.fit_core'); f2=E.mod('misfit.fit.fit2D'); gl=E.mod('misfit.galaxy'); im=E.mod('misfit.instrument'); mk=E.mod('misfit.mock.generate_basic'); am=E.mod('misfit.model.aper_model'); io=E.mod('misfit.general.io'); em=E.mod('misfit.model.emission_lines_model')
    def gal(vc,i):
        g=gl.Galaxy(); g.n=vc.real('n%d'%i,'pos'); g.re_arcsec=vc.real('re%d'%i,'pos'); g.q0=vc.real('q0_%d'%i,'pos'); g.q=vc.real('q%d'%i,'pos'); g.z=vc.real('z%d'%i,'nonneg'); g.delt_PA=vc.real('dpa%d'%i)
        return g
    def inst(vc,i,moffat=False): return im.Spectrograph(PSF_type='Moffat' if moffat else 'Gaussian',PSF_FWHM=vc.real('fwhm%d'%i,'pos'),pixscale=vc.real('scale%d'%i,'pos'),slit_width=vc.real('width%d'%i,'pos'),slit_length=vc.real('length%d'%i,'pos'),instrument_resolution=vc.real('res%d'%i,'pos'))
    simple={
     'light profile':lambda vc,i: kc.IntensityProfileFiducial(gal(vc,i)),'light profile with exponential scale':lambda vc,i: kc.IntensityProfileSersicExpScale(gal(vc,i)),
     'instrument':lambda vc,i: inst(vc,i),'instrument with Moffat seeing':lambda vc,i: inst(vc,i,True),
     'fit results':lambda vc,i: fc.FitEmissionLines2DResults(galaxy=gal(vc,i),instrument=inst(vc,i)),
     'light profile component':lambda vc,i: (kc.IntProfileSersic(gal(vc,i)),kc.IntProfileExpZ(gal(vc,i)),kc.IntProfileExpZScale(gal(vc,i))),
     'prior':lambda vc,i: kc.ThetaPriorFlat(theta=vc.arr('th%d'%i,(5,)),theta_vary=[True]*5,theta_bounds=[[vc.real('lo%d'%i),vc.real('hi%d'%i)]]*5),
     'emission lines':lambda vc,i: em.EmissionLines('n',['a','b'],np.array([vc.real('w%d'%i),1.]),np.array([1.,vc.real('f%d'%i)]))}
    for m,names in((kc,('VelProfile','DispProfile','VelArctanProfile','DispConstProfile','KinProfile','KinProfileFiducial','Theta2DSettings','Theta2DSettingsFiducial','ThetaPriorFlat')),(km,('KinModel2DOptions',)),(fc,('FitEmissionLines2DBasic','MCMC2DOptions','MCMCResults')),(gl,('GalaxyBasic','Galaxy','Spectrum','ObsSpectrum','ObsSpectrum1D','ObsSpectrum2DBasic','ObsSpectrum2D','Pstamp')),(im,('PSFBase','PSFGaussian','PSFMoffat','Instrument','Spectrograph','Imager')),(am,('AperModel1DBase','AperModel1DDispBase'))):
        for n in names: simple[n]=lambda vc,i,m=m,n=n: getattr(m,n)(**(dict(PSF_type='Gaussian') if n in('Instrument','Spectrograph','Imager') else {}))
    for nm in simple:
        @E.h('two separate: '+nm)
        def h(vc,nm=nm):
            x=vc.real('any'); separate(vc,nm,lambda i: simple[nm](vc,i)); vc.canary('nothing',x==0)
    def copied(vc,nm,o):
        if isinstance(o,tuple):
            for i,x in enumerate(o): copied(vc,nm,x)
            return
        vc.ensure(nm+': any copy method is a method',not hasattr(o,'copy') or callable(o.copy))
        if not hasattr(o,'copy'): return
        s=snap(o); c=o.copy(); equal(vc,nm+': untouched by being copied',snap(o),s); vc.ensure(nm+': the copy is of the same class',type(c) is type(o)); equal(vc,nm+': the copy has the same contents',snap(c),s)
        undo=[]; wreck(c,set(),undo); equal(vc,nm+': untouched by changes to its copy',snap(o),s)
        for f in reversed(undo): f()
    for nm in simple:
        @E.h('copy: '+nm)
        def h(vc,nm=nm): vc.real('any'); copied(vc,nm,simple[nm](vc,1)); vc.canary('nothing',vc.real('any2')==0)
    @E.h('copy: galaxy')
    def h(vc):
        g=gal(vc,1); p=gl.ObsSpectrum2D(); p.__dict__.update(flux=vc.arr('flux',(vc.int_('nY',1),vc.int_('nW',1))),wave=vc.arr('wave',(vc.int_('nL',1),)),linenames_arr=['a']); g.set_spectrum_2D(p)
        copied(vc,'galaxy',g); copied(vc,'spectrum',p); vc.canary('nothing',p.flux[0,0]==0)
    @E.h('copy: spectrum 1D')
    def h(vc):
        p=gl.ObsSpectrum1D(); p.__dict__.update(flux=vc.arr('flux',(vc.int_('nY',1),)),linenames_arr=['a']); copied(vc,'spectrum',p); vc.canary('nothing',p.flux[0]==0)
    @E.h('copy: 2D model')
    def h(vc): copied(vc,'2D model',model(vc,1,('settings','kinematics','light','options'))); vc.canary('nothing',vc.real('n1','pos')==1)
    @E.h('copy: fit')
    def h(vc): copied(vc,'fit',fit(vc,1,('settings','sampling'))); vc.canary('nothing',vc.real('n1','pos')==1)
    # profiles: evaluating or updating one
    @E.h('kinematic profile updated')
    def h(vc):
        a,b=kc.KinProfileFiducial(),kc.KinProfileFiducial(); t1,t2=[vc.arr('theta%d'%i,(5,)) for i in(1,2)]; r=vc.real('r','nonneg'); vc.assume(both(t1[1]>0,t2[1]>0))
        b.update_theta(t2.copy()); v,d=b.vel(r,0.),b.sigma(r,0.); a.update_theta(t1); a.vel(r,0.); a.sigma(r,0.); t1[0]=t1[0]+1
        vc.ensure('velocity of the other',b.vel(r,0.)==v); vc.ensure('dispersion of the other',b.sigma(r,0.)==d); vc.ensure_eq('parameters of the other',b.theta,t2); vc.canary('no rotation',v==0)
    @E.h('light profile updated')
    def h(vc):
        a,b=kc.IntensityProfileFiducial(gal(vc,1)),kc.IntensityProfileFiducial(gal(vc,2)); r,z=vc.real('r','pos'),vc.real('h'); v=b.int(r,z); a.update_values(gal(vc,3)); a.int(r,z); vc.ensure('light of the other',b.int(r,z)==v); vc.canary('dark',v==0)
    # 2D models
    def settings(vc,i,free=(True,True,True,False,False)): return kc.Theta2DSettingsFiducial(theta=vc.arr('theta%d'%i,(5,)).copy(),theta_vary=np.array(list(free)),theta_bounds=[[vc.real('lo%d_%d'%(i,k)),vc.real('hi%d_%d'%(i,k))] for k in range(5)])
    def model(vc,i,own,vary=None):
        kw={}
        if 'settings' in own: kw['thetaSettings']=settings(vc,i) if vary is None else settings(vc,i,vary)
        if 'kinematics' in own: kw['kinProfile']=kc.KinProfileFiducial()
        if 'light' in own: kw['intensityProfile']=kc.IntensityProfileFiducial(gal(vc,i))
        if 'options' in own: kw['kinModelOptions']=km.KinModel2DOptions(nSubpixels=vc.int_('sub%d'%i,1))
        return km.KinModel2D(gal(vc,i),**kw)
    import itertools
    OWN=('settings','kinematics','light','options')
    for n in range(5):
        for own in itertools.combinations(OWN,n):
            @E.h('2D models, own: '+(', '.join(own) or 'none'))
            def h(vc,own=own):
                separate(vc,'2D model',lambda i: model(vc,i,own)); vc.canary('nothing',vc.real('n1','pos')==1)
            @E.h('2D model evaluated, own: '+(', '.join(own) or 'none'))
            def h(vc,own=own):
                b=model(vc,2,own); th=vc.arr('fit2',(3,)); vc.assume(th[1]>0); b.update_parameters(th); b.update_profiles(); r,z=vc.real('r','pos'),vc.real('h'); ev=lambda: (b.kinProfile.vel(r,0.),b.kinProfile.sigma(r,0.),b.intensityProfile.int(r,z)); v=ev(); s=snap(b)
                a=model(vc,1,own); f=vc.arr('fit1',(3,)); vc.assume(f[1]>0); f0=f.copy(); a.update_parameters(f); a.update_profiles(); a.intensityProfile.update_values(gal(vc,3)); a.kinProfile.vel(r,0.)
                for x,y,nm in zip(ev(),v,('velocity','dispersion','light')): vc.ensure('the other keeps its '+nm,x==y)
                equal(vc,'the other model untouched',snap(b),s); vc.ensure_eq('vector passed in kept',f,f0); vc.canary('no rotation',v[0]==0)
    for vary in itertools.product((True,False),repeat=5):
        @E.h('settings passed in, free '+''.join('x' if v else '-' for v in vary))
        def h(vc,vary=vary):
            s=settings(vc,1,vary); t0=s.theta.copy(); b0=snap([s.theta_vary,s.theta_bounds,s.theta_names]); n=sum(1 for v in vary if v); img=vc.arr('img',(vc.int_('nY',1),vc.int_('nW',1)))
            m=km.KinModel2D(gal(vc,1),thetaSettings=s,no_scale=True); g=Grid(img)
            fit=vc.arr('fit',(n,)); m.update_parameters(fit); m.update_profiles(); vc.ensure_eq('after parameters are set',s.theta,t0)
            m.aperModel=g; m.make_model(galaxy=NS(spec2D=None),instrument=None,theta_fitting=fit+1); vc.ensure_eq('after a model is made',s.theta,t0); m.update_model(theta_fitting=fit+2); vc.ensure_eq('after a model is updated',s.theta,t0)
            equal(vc,'flags, bounds and names',snap([s.theta_vary,s.theta_bounds,s.theta_names]),b0)
            q=km.KinModel2D(gal(vc,2),thetaSettings=s); vc.ensure_eq('a second model starts from the values given',q.theta,t0); vc.ensure_eq('initial vector of the second model',q.theta_init,t0); vc.canary('zero',s.theta[0]==0)
    # fits
    def fit(vc,i,own,lib=False):
        g=gal(vc,i); s=gl.ObsSpectrum2D(); s.__dict__.update(linegroup_name='G')
        if not lib: s.__dict__.update(linenames_arr=['a','b'],restwave_arr=np.array([vc.real('w%d'%i),1.]),flux_ratio_arr=np.array([1.,vc.real('f%d'%i)]))
        g.set_spectrum_2D(s); kw={}
        if 'kinematics' in own: kw['kinProfile']=kc.KinProfileFiducial()
        if 'light' in own: kw['intensityProfile']=kc.IntensityProfileFiducial(gal(vc,i))
        if 'options' in own: kw['kinModelOptions']=km.KinModel2DOptions(nSubpixels=vc.int_('sub%d'%i,1))
        if 'sampling' in own: kw['mcmcOptions']=fc.MCMC2DOptions(nSteps=vc.int_('steps%d'%i,1)); kw['mcmc_results']=fc.MCMCResults()
        if 'settings' in own: kw['thetaSettings']=settings(vc,i)
        kw['skip_fit_prep_calcs']=True
        if lib: kw['linegroup_name']='G'
        return f2.FitEmissionLines2D(galaxy=g,instrument=inst(vc,i),**kw)
    for own in [()]+[(x,) for x in('kinematics','light','options','sampling','settings')]+[('kinematics','light','options','sampling','settings')]:
        @E.h('fits, own: '+(', '.join(own) or 'none'))
        def h(vc,own=own): separate(vc,'fit',lambda i: fit(vc,i,own)); vc.canary('nothing',vc.real('n1','pos')==1)
    class Tab(dict): pass
    @E.h('fits, lines from the library')
    def h(vc):
        class Cell:
            def split(s,c): return ['a','b']
        def read(fn,*a,**k): return Tab(name=np.array([1,0]),lineset=[Cell(),Cell()],linename=np.array([1,1]),restwave=np.array([vc.real('w'),1.]),strength=np.array([vc.real('f'),1.]))
        with patched((io,'read_line_names',lambda fn,name=None: ['a','b']),(io,'read_restwave',lambda fn,linename=None: vc.real('rest_'+linename)),(io,'read_line_ratio',lambda fn,linename=None: vc.real('ratio_'+linename))):
            a,b=separate(vc,'fit',lambda i: fit(vc,i,(),True))
        vc.canary('nothing',vc.real('n1','pos')==1)
    def noaper(vc):
        def mm(self,galaxy=None,instrument=None,theta_fitting=None):
            self.update_parameters(theta_fitting); self.update_profiles(); self.aperModel=NS(sigma_floor_value=0.,kinProfile=self.kinProfile)
        return patched((km.KinModel2D,'make_model',mm))
    @E.h('fits with their models set up')
    def h(vc):
        def make(i):
            f=fit(vc,i,('settings',)); f.setup_model(); return f
        with noaper(vc): separate(vc,'fit',make)
        vc.canary('nothing',vc.real('n1','pos')==1)
    @E.h('settings passed to a fit')
    def h(vc):
        s=settings(vc,1); t0=snap(s)
        with noaper(vc):
            f=fit(vc,1,()); f.thetaSettings=s; f.setup_model(); x=vc.arr('fit',(3,)); f.kinModel.update_parameters(x); f.kinModel.update_profiles(); equal(vc,'settings kept',snap(s),t0)
            g=fit(vc,2,()); g.thetaSettings=s; g.setup_model(); equal(vc,'settings kept',snap(s),t0); vc.ensure_eq('second fit starts from the values given',g.kinModel.theta,s.theta)
            g.kinModel.update_parameters(x+1); vc.ensure('first fit keeps its parameters',np.all(f.kinModel.theta[:3]==x)); equal(vc,'prior of the first fit',snap(f.thetaPrior.theta_bounds),snap(s.theta_bounds))
        vc.canary('zero',s.theta[0]==0)
    @E.h('working copy of a fit')
    def h(vc):
        def mm(self,galaxy=None,instrument=None,theta_fitting=None):
            self.update_parameters(theta_fitting); self.update_profiles(); self.aperModel=NS(sigma_floor_value=0.,kinProfile=self.kinProfile,galaxy=galaxy,instrument=instrument)
        with patched((km.KinModel2D,'make_model',mm)):
            f=fit(vc,1,('settings',)); p=f.galaxy.spec2D; p.__dict__.update(lam0=vc.real('lam0'),m0=vc.real('m0'),wh_nosky=vc.arr('nosky',(vc.int_('nn',1),),'i'),wave=vc.arr('wave',(vc.int_('nw',1),)),fitting_weight_matrix=vc.arr('wt',(vc.int_('nr',1),)))
            for k in gl.ObsSpectrum2DBasic().__dict__: p.__dict__.setdefault(k,None)
            for k in gl.GalaxyBasic().__dict__: f.galaxy.__dict__.setdefault(k,None)
            f.setup_model(); s=snap(f); w=fc.make_pruned_fitEmis2D_class(f); equal(vc,'the fit untouched by making a working copy',snap(f),s)
            vc.ensure_eq('same parameters',w.kinModel.theta,f.kinModel.theta); undo=[]; wreck(w,set(),undo); equal(vc,'the fit untouched by changes to its working copy',snap(f),s)
        for u in reversed(undo): u()
        vc.canary('zero',vc.real('lam0')==0)
    def mock(vc,i,**kw):
        return mk.generate_mock_basis(z=vc.real('z%d'%i,'nonneg'),ID=i,Va=vc.real('Va%d'%i),rt=vc.real('rt%d'%i,'pos'),sigma0=vc.real('s%d'%i,'pos'),yshift=vc.real('y%d'%i),n=vc.real('n%d'%i,'pos'),re_arcsec=vc.real('re%d'%i,'pos'),q=vc.real('q%d'%i,'pos'),delt_PA=vc.real('pa%d'%i),wave=vc.arr('wave%d'%i,(vc.int_('nw%d'%i,1),)),instrument_name='x',pixscale=vc.real('scale%d'%i,'pos'),instrument_resolution=vc.real('res%d'%i,'pos'),slit_width=vc.real('width%d'%i,'pos'),slit_length=vc.real('length%d'%i,'pos'),PSF_FWHM=vc.real('fwhm%d'%i,'pos'),PSF_type='Gaussian',band='K',line_primary='Halpha',linegroup_name='Halpha',spec_type='velocity',**kw)
    @E.h('mock observations')
    def h(vc): separate(vc,'mock observation',lambda i: mock(vc,i)); vc.canary('nothing',vc.real('n1','pos')==1)
    @E.h('mock observation evaluated')
    def h(vc):
        m2,g2,i2=mock(vc,2); r,z=vc.real('r','pos'),vc.real('h'); ev=lambda: (m2.kinProfile.vel(r,0.),m2.kinProfile.sigma(r,0.),m2.intensityProfile.int(r,z)); v=ev(); s=snap([m2,g2,i2]); m1,g1,i1=mock(vc,1); m1.update_parameters([]); m1.update_profiles()
        for x,y,nm in zip(ev(),v,('velocity','dispersion','light')): vc.ensure('the earlier one keeps its '+nm,x==y)
        equal(vc,'the earlier mock untouched',snap([m2,g2,i2]),s); vc.canary('no rotation',v[0]==0)
    return E.hs
class Grid:
    def __init__(s,img): s.model=img; s.spectra_cube=img; s.galaxy=None
    def update_model(s,**k): pass
