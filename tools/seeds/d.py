SEEDS=[]
def S(id,prop,edits,needs,what,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
DEMO32='''
import numpy as np
from types import SimpleNamespace as NS
from misfit.general import galaxy_utils as gu
s=NS(flux=np.ones((5,8)),flux_err=np.ones((5,8)),mask_sky=np.ones((5,8)),mask_low_snr=np.array([[0.],[1.],[1.],[1.],[0.]])*np.ones((5,8)),low_snr_row_inds=np.array([0,4]),wave=100.+np.arange(8.),wh_nosky=np.arange(8),m_lims=np.array([0,5]),m0_shift_fit=0.,m0_peak_snr=9.,ypos=2.,m0=2,lam0=103.5)
%s'''
GA='misfit/general/galaxy_utils.py'; AM='misfit/model/aper_model.py'; FC='misfit/fit/fit_core.py'; GL='misfit/galaxy.py'; MO='misfit/mock/generate_basic.py'; KC='misfit/model/kin_classes.py'
S('optimal-profile-even-rows','C14',[(AM,"yy_prof = np.array(range(self.I_conv.shape[0])) - (self.I_conv.shape[0]-1.)/2.","yy_prof = np.array(range(self.I_conv.shape[0])) - self.I_conv.shape[0]//2")],'an optimal extraction over an even number of rows','the extraction profile is half a row off centre',"""
import numpy as np
from misfit.model.aper_model import AperModel1DRot
for n in(5,6):
    a=object.__new__(AperModel1DRot); r=np.random.default_rng(1); I=np.ones((n,3)); s=np.outer(np.arange(n)**2.,np.ones(3))
    a.__dict__.update(padX=0,padY=0,n_pix_x=3,n_pix_y=n,I_conv_wide=I,sigsq_I_conv_wide=s,extraction_method='optimal',y_aper=1.,delt_y=1./n,delt_x=1.)
    a.trim_sum_aperture()
    g=a.G_y[:,0]; assert np.allclose(g,g[::-1]),g
""")
S('mock-centre-row-fraction','C26',[(MO,"spec2D.m0 = np.ceil(instrument.slit_length/instrument.pixscale)/2. - 0.5","spec2D.m0 = (instrument.slit_length/instrument.pixscale)/2. - 0.5")],'a slit whose length is no whole number of pixels','the object sits off the centre row of the mock',"""
import numpy as np
from misfit.mock.generate_basic import generate_mock_basis
k,g,i=generate_mock_basis(z=2.,ID=1,Va=100.,rt=.3,sigma0=50.,yshift=0.,n=1.,re_arcsec=.5,q=.6,delt_PA=0.,wave=19000.+2*np.arange(20),instrument_name='M',pixscale=.18,instrument_resolution=35.,slit_width=.7,slit_length=3.3,PSF_FWHM=.6,PSF_type='Gaussian',band='K',linegroup_name='Halpha')
assert g.spec2D.m0==g.spec2D.shape[0]/2.-.5,(g.spec2D.m0,g.spec2D.shape)
""")
S('quality-mask-aliased','C31',[(GL,"""    def get_skyline_mask(self, full=True):
        if self.mask_qual is None:
            self.mask_qual = self.spec_mask.copy()""","""    def get_skyline_mask(self, full=True):
        if self.mask_qual is None:
            self.mask_qual = self.spec_mask""")],'a spectrum with low rows, prepared without a quality mask of its own','the quality mask also loses the low rows',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit import galaxy as gl
u=gl.galaxy_utils
u.get_skyline_mask_2D=lambda s,full=True:(s.spec_mask.copy(),[],[])
u.get_low_snr_mask_2D=lambda s,snr_cut=None,debug=False:(np.array([[0.],[1.]]),np.array([0]))
s=object.__new__(gl.ObsSpectrum2D)
f=lambda *a,**k: None
s.__dict__.update(prepared_for_fitting=False,flux=np.ones((2,1)),flux_err=np.ones((2,1)),spec_mask=np.ones((2,1)),spec_weight=np.ones((2,1)),mask_qual=None,row_snr_cut=2.,no_continuum_subtraction=True,wave_line_range_rest=None,wave_line_range_rest_param_filename=None,linenames_arr=['x'])
for n in('initialize_lineset','initialize_skylevels','initialize_derived_variables','subtract_continuum','trim_spectrum_wavelength','trim_spectrum_spatial','calculate_fit_weights','get_m0_lam0_pos'): setattr(s,n,f)
s.fit_prep_calcs(NS(debug=False,delt_PA=0.),None)
assert s.mask_qual.sum()==2 and s.spec_mask.sum()==1,s.mask_qual
""")
S('line-errors-low-rows','C32',[(GA,"""    err = spec2D.flux_err*spec2D.mask_sky*spec2D.mask_low_snr

    # Set up position""",None)],'','','') if False else None
S('burn-in-single-step','C33',[(FC,"""        if fitEmis2D.mcmcOptions.nBurn > 0:
            f_log.write('Burn-in: \\n')
            f_log.write('Start: {} \\n'.format(datetime.datetime.now()))

            start = time.time()

            # ++++++++++++++++++++
            # RUN BURN-IN""",None)],'','','') if False else None
S('aperture-rms-kept','C15',[(AM,"        self.V_RMS_aper = np.sqrt(V_aper**2 + sigma_at_aper**2)","        if getattr(self, 'V_RMS_aper', None) is None:\n            self.V_RMS_aper = np.sqrt(V_aper**2 + sigma_at_aper**2)")],'an aperture model evaluated again with other parameters','the rms velocity at the aperture radius is that of the first evaluation',"""
import numpy as np
from misfit.model.aper_model import AperModel1DRot
from misfit.model.kin_classes import KinProfileFiducial
a=object.__new__(AperModel1DRot); a.kinProfile=KinProfileFiducial(); a.disp_aper_radius_arcsec=.5; a.sigma_aper=60.
f=lambda *x,**k: None
a.calculate_kin_cube=f; a.convolve_kin_arr_PSF=f; a.trim_sum_aperture=f
for v in(200.,100.):
    a.theta=[2.,v,.3]; a.calc_aper_correction()
    V=a.kinProfile.vel(.5,0.); s=a.kinProfile.sigma(.5,0.)
    assert abs(a.V_RMS_aper-np.sqrt(V**2+s**2))<1e-9,(a.V_RMS_aper,V,s)
""")
S('default-vary-shared','C25',[(KC,"    def __init__(self, usetex=True, **kwargs):\n        super(Theta2DSettingsFiducial, self).__init__(**kwargs)","    def __init__(self, usetex=True, free=np.array([True, True, True, False, False]), **kwargs):\n        super(Theta2DSettingsFiducial, self).__init__(**kwargs)"),(KC,"        self.theta_vary = np.array([True, True, True, False, False])\n        self.theta_names = ['V_a'","        self.theta_vary = free\n        self.theta_names = ['V_a'")],'two settings objects, one of which changes its free parameters in place','the other settings change too',"""
from misfit.model.kin_classes import Theta2DSettingsFiducial
a=Theta2DSettingsFiducial(); b=Theta2DSettingsFiducial(); a.theta_vary[3]=True
assert list(b.theta_vary)==[True,True,True,False,False]
""")
S('slit-columns-square','C05',[(AM,"""        if self.y_aper == self.instrument.slit_width:
            if self.n_pix_x != self.n_pix_y:
                self.n_pix_x = self.n_pix_y""","""        if np.abs(self.y_aper - self.instrument.slit_width) < self.delt_y:
            if self.n_pix_x != self.n_pix_y:
                self.n_pix_x = self.n_pix_y""")],'','','') if False else None
S('line-errors-low-rows','C32',[(GA,"    err = spec2D.flux_err*spec2D.mask_sky*spec2D.mask_low_snr","    err = spec2D.flux_err*spec2D.mask_sky")],'a spectrum with masked low rows','the wavelength profile has the errors of rows that are not in it',DEMO32%'''
class P(dict):
    def add(self,n,**k): self[n]=NS(**k)
def fit(fcn,params,args=()):
    seen.append(args); return NS(params=params)
gu.lmfit=NS(Parameters=P,minimize=fit); seen=[]
gu.get_m0_lam0_pos_2D(s,NS(debug=False,z=0.))
assert np.allclose(seen[1][2],np.sqrt(3.)),seen[1][2]
''')
S('second-chance-from-ypos','C32',[(GA,"""                    (np.abs(spec2D.m0_shift_fit) <= 1.) & (spec2D.m0_peak_snr >= 3.):
                    # It was high enough S/N, and should use the fit value.
                    m0_shift = result.params['mu'].value - spec2D.m0""","""                    (np.abs(spec2D.m0_shift_fit) <= 1.) & (spec2D.m0_peak_snr >= 3.):
                    # It was high enough S/N, and should use the fit value.
                    m0_shift = result.params['mu'].value - spec2D.ypos""")],'a fitted row far from the expected one but close to the object row','the shift is counted from the expected row',DEMO32%'''
class P(dict):
    def add(self,n,**k): self[n]=NS(**k)
def fit(fcn,params,args=()):
    p=P(params); p['mu']=NS(value=3.5 if args[0][0]==0 else params['mu'].value); return NS(params=p)
gu.lmfit=NS(Parameters=P,minimize=fit); s.ypos=.5; s.m0=3
gu.get_m0_lam0_pos_2D(s,NS(debug=False,z=0.))
assert abs(s.m0_shift-.5)<1e-12,s.m0_shift
''')
S('sampling-from-scratch','C33',[(FC,"""        for ii in range(fitEmis2D.mcmcOptions.nSteps):
            # --------------------------------
            # Only do one step at a time.
            pos = sampler.run_mcmc(pos, 1)""","""        for ii in range(fitEmis2D.mcmcOptions.nSteps):
            # --------------------------------
            # Only do one step at a time.
            if (ii == 0) and (fitEmis2D.mcmcOptions.nBurn > 1):
                pos = np.array(initial_pos)
            pos = sampler.run_mcmc(pos, 1)""")],'a burn-in of at least two steps','the chain starts from the first random positions, not from the end of the burn-in','''
import numpy as np, os, tempfile
from types import SimpleNamespace as NS
from misfit.fit import fit_core as fc
runs=[]
class Smp:
    def __init__(self,*a,**k): self.n=0; self.acceptance_fraction=np.array([.3]); runs.append(self); self.starts=[]
    def run_mcmc(self,pos,n): self.starts.append(np.array(pos)); self.n+=1; return np.array(pos)+1.
    def get_autocorr_time(self,**k): return np.array([1.])
class Back:
    def __init__(self,*a,**k): pass
    def reset(self,*a): pass
fc.emcee=NS(moves=NS(StretchMove=lambda a=2.: None),backends=NS(HDFBackend=Back),EnsembleSampler=Smp)
fc.fit_io.make_emcee_sampler_dict=lambda *a,**k: {}
fc.init_walker_pos=lambda *a,**k: [np.zeros(1)]
d=tempfile.mkdtemp()
o=NS(nCPUs=1,NoThread=False,scale_param_a=2.,filename_sampler_h5=None,overwrite=True,nWalkers=1,nBurn=3,nSteps=2,filename_log=os.path.join(d,'log'),filename_plot_trace_burnin=None,filename_plot_trace=None,filename_sampler=None,minAF=None,maxAF=None,nEff=None,runAllSteps=True)
f=NS(mcmcOptions=o,kinModel=NS(n_free_param=1,theta_names=['a'],theta_vary=[True],kinModelOptions=NS(nSubpixels=1)),instrument=NS(PSF=NS(PSF_type='g',yspace_dither_arc=None)))
import io as _io, contextlib
with contextlib.redirect_stdout(_io.StringIO()): fc._run_mcmc_emcee_3(f,fitEmis2D_fit=1)
os.remove(o.filename_log); os.rmdir(d)
assert [float(x[0,0]) for x in runs[1].starts]==[3.,4.],runs[1].starts
''')
SEEDS=[s for s in SEEDS if s['edits'][0][2] is not None]
