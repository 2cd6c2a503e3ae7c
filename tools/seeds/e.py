SEEDS=[]
def S(id,prop,edits,needs,what,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
IO='misfit/general/io.py'; KF='misfit/model/kin_functions.py'; KM='misfit/model/kin_model.py'; FI='misfit/fit/fit_io.py'; F1='misfit/fit/fit1D.py'; GL='misfit/galaxy.py'; MO='misfit/mock/generate_basic.py'; KC='misfit/model/kin_classes.py'
S('band-units-first-row','C17',[(IO,"    return data['sn_cutoff'][wh], data['units'][wh]","    return data['sn_cutoff'][wh], data['units'][0]")],'a table whose bands have different noise units','the cutoff of one band comes with the units of another',"""
import tempfile,os
from misfit.general import io
d=tempfile.mkdtemp(); f=os.path.join(d,'t'); open(f,'w').write('# band sn_cutoff units\\nJ 1.5 cgs\\nK 2.5 counts\\n')
r=io.read_skyline_band_cutoff(f,band='K'); os.remove(f); os.rmdir(d)
assert float(r[0])==2.5 and str(r[1])=='counts',r
""")
S('shift-kept-inside-by-width','C28',[(KF,"            delx_y = -0.5*tot_slit_width #+ 0.5*FWHM_arcsec","            delx_y = -0.5*tot_slit_width + 0.5*FWHM_arcsec")],'light centred beyond the lower slit edge and wide enough to reach into the slit','the position shift stops short of the lower edge but not of the upper one',"""
import numpy as np
from misfit.model import kin_functions as kf
x=np.linspace(-2,2,401); w=np.where(abs(x)<=.5)[0]
a=kf.check_slit_illum(x,w,1.,.6,.6,1.); b=kf.check_slit_illum(x,w,1.,-.6,.6,1.)
assert np.allclose(a[0],-b[0]) and np.allclose(a[1],b[1]),(a,b)
""")
S('init-vector-aliased','C10',[(KM,"                self.theta_init = self.theta.copy()","                self.theta_init = self.theta")],'a model whose parameters are updated after it was created','the initial parameter vector follows the current one',"""
import numpy as np
from misfit.galaxy import Galaxy
from misfit.model.kin_model import KinModel2D
from misfit.model.kin_classes import Theta2DSettingsFiducial
g=Galaxy(n=1.,re_arcsec=.4,q=.5,q0=.2,z=2.); t=np.array([100.,.3,50.,0.,2.])
k=KinModel2D(g,thetaSettings=Theta2DSettingsFiducial(theta=t.copy(),theta_vary=np.array([True,True,True,False,False])))
i=np.array(k.theta_init,copy=True); k.update_parameters(np.array([1.,2.,3.]))
assert np.array_equal(k.theta_init,i),(k.theta_init,i)
""")
S('saved-fit-is-the-live-one','C30',[(FI,"        fitEmis2D_fit = sampler.log_prob_fn.args[0].copy()","        fitEmis2D_fit = sampler.log_prob_fn.args[0]")],'a fit used again after its sampler was packed for saving','packing the results strips the live working copy of its aperture model',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.fit import fit_io
from misfit.fit.fit2D import FitEmissionLines2D
import copy
f=object.__new__(FitEmissionLines2D); f.__dict__.update(kinModel=NS(aperModel=NS(galaxy=1,instrument=2,intensityProfile=3,kinProfile=4)),mcmcOptions=5,kinModelOptions=6,thetaSettings=7)
f.__class__=type('W',(),dict(copy=lambda s: copy.deepcopy(s)))
class Sampler:
    ndim=1; nwalkers=2; iteration=3; chain=np.zeros((2,3,1)); lnprobability=np.zeros((2,3)); acceptance_fraction=np.ones(2); log_prob_fn=NS(args=[f])
    def get_autocorr_time(s,**k): return np.ones(1)
fit_io.make_emcee_sampler_dict(Sampler(),fitEmis2D=NS(mcmcOptions=5,kinModelOptions=6,thetaSettings=7))
assert hasattr(f.kinModel,'aperModel')
""")
S('mc-one-draw','C27',[(F1,"                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals","                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals[0]")],'a fit with Monte Carlo errors','every pixel of a realisation is moved by the same draw',"""
import numpy as np, os, tempfile, io, contextlib, shutil
from types import SimpleNamespace as NS
from misfit.fit.fit1D import FitEmissionLines1D
from misfit.galaxy import Galaxy, ObsSpectrum1D
import misfit.fit.fit1D as f1
z=1.5; w=np.arange(6420*2.5,6710*2.5,3.); s=ObsSpectrum1D(wave=w,flux=np.ones(len(w)),flux_err=np.ones(len(w))); s.obswave=w
g=Galaxy(z=z,ID=1,field='f'); g.spec1D=s; s.load_basic_defaults(g); calls=[]
real=f1.lmfit.minimize
def m(fcn,p,args=(),**k): calls.append([np.array(a,copy=True) for a in args]); return real(fcn,p,args=args,**k)
f1.lmfit.minimize=m; d=tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        f=FitEmissionLines1D(galaxy=g,instrument=NS(instrument_resolution=30.),names_arr=['Halpha'],flux_arr=[1.],vel_disp=70.,num_MC=2,trim_restwave_range=[6480.,6650.]); f.fit(err_filename=os.path.join(d,'e'),noPlot=True)
finally: shutil.rmtree(d)
x=calls[-1][1]-1.
assert x.std()>.3,x[:5]
""")
S('galaxy-copy-shares-spectrum','C25',[(GL,"    def copy(self):\n        return copy.deepcopy(self)\n\n    def set_spectrum_2D","    def copy(self):\n        new = copy.copy(self)\n        new.__dict__ = copy.copy(self.__dict__)\n        return new\n\n    def set_spectrum_2D")],'a galaxy with a spectrum, copied and then changed','the copy shares its spectrum with the original',"""
import numpy as np
from misfit.galaxy import Galaxy, ObsSpectrum2D
g=Galaxy(n=1.,re_arcsec=.4,q=.5,q0=.2,z=2.); s=ObsSpectrum2D(); s.flux=np.ones((2,3)); g.set_spectrum_2D(s)
c=g.copy(); c.spec2D.flux[:]=5.
assert np.all(g.spec2D.flux==1.)
""")
