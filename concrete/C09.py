import numpy as np, copy
from misfit.model import aper_model as am, kin_classes as kc
from misfit.galaxy import Galaxy
from types import SimpleNamespace as NS
from misfit.instrument import Spectrograph
MAXCASES=400
def run(t):
    r=t.rng
    nY=int(r.integers(3,7)); nW=int(r.integers(7,13)); z=float(r.uniform(.5,2.5)); lam=6564.6*(1+z); dw=2.17
    st=str(r.choice(['wave','wave','velocity'])); shift=st=='wave' and bool(r.random()<.3)
    wave=(lam if st=='wave' else 0.)+dw*(30 if st=='velocity' else 1)*(np.arange(nW)-(nW-1)/2)
    n=int(r.integers(1,3)); rest=np.array([6564.6,6585.3])[:n]; fr=np.array([1.,.3])[:n]
    sp=NS(); sp.__dict__.update(flux=r.normal(0,1,(nY,nW)),flux_err=np.ones((nY,nW)),wave=wave,restwave_arr=rest,flux_ratio_arr=fr,m0=float(r.uniform(0,nY-1)))
    g=Galaxy(); g.n=1.; g.re_arcsec=float(r.uniform(.2,.6)); g.q=float(r.uniform(.3,1)); g.q0=.19; g.delt_PA=float(r.uniform(-80,80)); g.z=z; g.spec2D=sp; g.generate_model=False
    ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=float(r.uniform(.2,.6))); ins.pixscale=.18; ins.slit_width=float(r.choice([.18*nY,.35,.7])); ins.instrument_resolution=float(r.choice([0.,35.])) if not shift else 35.; ins.slit_mask=None
    kw=dict(nSubpixels=int(r.integers(1,4)),pad_factor=.5,spec_type=st,adaptive_upsample_wave=bool(r.random()<.6),sigma_floor=bool(r.random()<.7),absvalsigma=bool(r.random()<.3),do_position_wave_shift=shift)
    if not shift: kw['do_inst_res_conv_effective']=st=='wave' and ins.instrument_resolution>0 and bool(r.random()<.1)
    if shift or kw.get('do_inst_res_conv_effective'): ins.slit_width=.7; kw['nSubpixels']=max(2,kw['nSubpixels'])
    def th(): return np.array([float(r.uniform(50,250)),float(r.uniform(.1,.6)),float(r.choice([3.,12.,60.,-20.])),float(r.uniform(-1,1)),z+float(r.normal(0,1e-3))])
    def prof(): return kc.KinProfileFiducial()
    Lt=kc.IntensityProfileFiducial if r.random()<.5 else kc.IntensityProfileSersicExpScale
    def light(): return Lt(g)
    seq=[th() for _ in range(int(r.integers(2,6)))]
    seq[1:]=[np.concatenate([s[:3],seq[0][3:]]) if r.random()<.4 else s for s in seq[1:]]
    if r.random()<.3: seq.append(seq[0].copy())
    for k in range(1,len(seq)):       # small steps, and steps of one parameter
        if r.random()<.4:
            d=np.zeros(5); i=int(r.integers(5)); d[i]=float(r.choice([1.,-1.]))*(10.**float(r.uniform(-7,-4)) if i==4 else 10.**float(r.uniform(-4,-1))); seq[k]=seq[k-1]+d
    t.input(options=kw,theta_history=[s.tolist() for s in seq],nY=nY,nW=nW,slit_width=ins.slit_width,pixscale=.18,re=g.re_arcsec,q=g.q,delt_PA=g.delt_PA,m0=sp.m0,FWHM=ins.PSF.PSF_FWHM)
    s0=copy.deepcopy(sp.__dict__)
    mk=lambda th: am.AperModel2D(galaxy=g,instrument=ins,kinProfile=prof(),intensityProfile=light(),theta=th.copy(),**kw)
    A=mk(seq[0])
    for k,s in enumerate(seq):
        p=s.copy()
        if k: A.update_model(theta=p)
        t.same('parameter vector unchanged',p,s)
        B=mk(s)
        t.ok('shape of the data',A.model.shape==(nY,nW),A.model.shape,(nY,nW))
        t.eq('model equals a fresh model (step %d)'%k,A.model,B.model,rtol=1e-10)
        t.ok('wavelength grid restored',np.array_equal(A.wave_arr,wave) and A.nWave==nW)
        for q in s0:
            v=sp.__dict__[q]; t.ok('observed %s unchanged'%q,np.array_equal(v,s0[q]) if isinstance(s0[q],np.ndarray) else (v is s0[q] or v==s0[q]))
    # through the kinematic model: the options set are the options used, and the evaluation order does not matter
    from misfit.model.kin_model import KinModel2D, KinModel2DOptions
    o=KinModel2DOptions(**{k:v for k,v in dict(kw,adaptive_upsample_factor=int(r.integers(2,5))).items() if k!='spec_type'}); o.pad_factor=float(r.choice([.5,1.]))
    th=kc.Theta2DSettingsFiducial(); va=[True]*5; th.theta=np.array(seq[0]).copy(); th.theta_vary=va
    def full(): return KinModel2D(g,thetaSettings=copy.deepcopy(th),kinProfile=prof(),intensityProfile=light(),kinModelOptions=copy.deepcopy(o),spec_type=st,no_scale=True)
    M=full(); M.make_model(galaxy=g,instrument=ins,theta_fitting=seq[0].copy())
    for s in seq[1:]+seq[:1]:
        (M.update_model if r.random()<.5 else lambda theta_fitting: M.make_model(galaxy=g,instrument=ins,theta_fitting=theta_fitting))(theta_fitting=s.copy())
        B=am.AperModel2D(galaxy=g,instrument=ins,kinProfile=prof(),intensityProfile=light(),theta=s.copy(),**dict(kw,pad_factor=o.pad_factor,adaptive_upsample_factor=o.adaptive_upsample_factor))
        t.eq('kinematic model equals the model built with its options',M.model,B.model,rtol=1e-10)
