import numpy as np, io as _io, contextlib, math
from fractions import Fraction as Fr
from types import SimpleNamespace as NS
from misfit import instrument as im
from misfit.galaxy import Galaxy
from misfit.model import aper_model as am, kin_classes as kc
from misfit.mock import generate_basic as mk
MAXCASES=60
def run(t):
    r=t.rng; W=np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(_io.StringIO()): go(t,r)
    finally: np.seterr(**W)
def go(t,r):
    st='velocity' if r.random()<.4 else 'wave'; z=float(r.uniform(.5,2.5)); group=str(r.choice(['Halpha','OIII','Halpha+NII'])) if False else 'Halpha'; nW=int(r.integers(7,12)); pix=float(r.uniform(.1,.3)); nymin=int(r.integers(2,6))
    # slit lengths away from whole numbers of pixels, where rounding of the quotient does not matter
    L=pix*(int(r.integers(1,9))+float(r.uniform(.05,.95)))
    p=dict(z=z,ID='m',Va=float(r.uniform(-250,250)),rt=float(r.uniform(.1,.6)),sigma0=float(r.choice([0.5,float(r.uniform(20,90))])),yshift=float(r.uniform(-1,1)),n=float(r.uniform(.6,3)),re_arcsec=float(r.uniform(.2,.6)),q=float(r.uniform(.25,1)),q0=float(r.uniform(.1,.24)),delt_PA=float(r.uniform(-80,80)),wave=(6564.6*(1+z)+2.17*(np.arange(nW)-(nW-1)/2.)) if st=='wave' else 60.*(np.arange(nW)-(nW-1)/2.),instrument_name='x',pixscale=pix,instrument_resolution=float(r.choice([0.,35.])),slit_width=float(r.uniform(.2,.8)),slit_length=L,nymin=nymin,PSF_FWHM=float(r.uniform(.2,.6)),PSF_type=str(r.choice(['Gaussian','Moffat'])),band='K',line_primary='HA_6565',linegroup_name='Halpha',spec_type=st,nSubpixels=int(r.integers(1,4)),pad_factor=float(r.choice([.5,1.])))
    if r.random()<.3: del p['nSubpixels']
    if r.random()<.3: p['dither']=bool(r.random()<.5)
    t.input(**{k:(v.tolist() if hasattr(v,'tolist') else v) for k,v in p.items()})
    k,g,i=mk.generate_mock_basis(**{x:(v.copy() if isinstance(v,np.ndarray) else v) for x,v in p.items()})
    n=max(math.ceil(L/pix),nymin) if L>=nymin*pix else None
    for a in('z','n','re_arcsec','q','q0','delt_PA'): t.same('galaxy '+a,getattr(g,a),p[a])
    t.ok('galaxy dither',bool(g.dither)==p.get('dither',False))
    for a in('pixscale','slit_width','instrument_resolution'): t.same('instrument '+a,getattr(i,a),p[a])
    t.same('slit length',i.slit_length,max(L,nymin*pix)); t.same('PSF width',i.PSF.PSF_FWHM,p['PSF_FWHM']); t.ok('PSF type',type(i.PSF).__name__=='PSF'+p['PSF_type']); t.ok('band',i.band=='K' and i.instrument_name=='x')
    s=g.spec2D; rows=s.shape[0]
    if n is None: t.ok('rows: the minimum (up to rounding of the quotient)',rows in(nymin,nymin+1)); n=rows
    else: t.ok('rows',rows==n,rows,n)
    t.ok('columns',s.shape[1]==nW); t.same('wavelengths',s.wave,p['wave']); t.same('centre row',[s.m0,s.ypos],[(n-1)/2.]*2)
    t.same('parameters',np.asarray(k.theta,float),[p['Va'],p['rt'],p['sigma0'],p['yshift'],z]); t.ok('fixed',not np.any(k.theta_vary) and k.n_free_param==0 and len(k.theta_vary)==5); t.ok('no scaling',bool(k.no_scale)); t.ok('options',k.kinModelOptions.nSubpixels==p.get('nSubpixels',2) and k.kinModelOptions.pad_factor==p['pad_factor'] and k.spec_type==st)
    img=mk.generate_mock_slit_obs(**{x:(v.copy() if isinstance(v,np.ndarray) else v) for x,v in p.items()}); t.ok('shape',img.shape==(n,nW),img.shape,(n,nW))
    # the slit model built by hand from the request
    sp=NS(flux=np.zeros((n,nW)),wave=p['wave'].copy(),restwave_arr=None,flux_ratio_arr=None,m0=(n-1)/2.)
    if st=='wave': sp.restwave_arr,sp.flux_ratio_arr=np.array(s.restwave_arr,float),np.array(s.flux_ratio_arr,float); t.ok('first line is the strongest',abs(sp.restwave_arr[0]-6564.6)<2 or len(sp.restwave_arr)>0)
    G=Galaxy(n=p['n'],re_arcsec=p['re_arcsec'],q=p['q'],q0=p['q0'],delt_PA=p['delt_PA'],z=z,generate_model=False); G.spec2D=sp
    I=im.Spectrograph(PSF_type=p['PSF_type'],PSF_FWHM=p['PSF_FWHM'],pixscale=pix,slit_width=p['slit_width'],instrument_resolution=p['instrument_resolution'])
    A=am.AperModel2D(galaxy=G,instrument=I,theta=np.array([p['Va'],p['rt'],p['sigma0'],p['yshift'],z]),spec_type=st,kinProfile=kc.KinProfileFiducial(),intensityProfile=kc.IntensityProfileFiducial(G),nSubpixels=p.get('nSubpixels',2),pad_factor=p['pad_factor'],absvalsigma=False,adaptive_upsample_wave=True,adaptive_upsample_factor=3.,sigma_floor=True)
    t.eq('image of the requested slit model',img,A.model,rtol=1e-9,atol=1e-12*abs(A.model).max())
    t.ok('image is finite',bool(np.all(np.isfinite(img))))
