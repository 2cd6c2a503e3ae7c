SEEDS=[]
def S(id,prop,edits,needs,what,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
KF='misfit/model/kin_functions.py'; GU='misfit/general/general_utils.py'; KC='misfit/model/kin_classes.py'; AM='misfit/model/aper_model.py'
S('moffat-swapped-axes','C06',[('misfit/instrument.py',"""    xarr_flat = np.repeat(x, len(y)).reshape((len(x),len(y))).T
    yarr_flat = np.repeat(y, len(x)).reshape((len(y),len(x)))


    conv_stamp = (beta-1)""","""    xarr_flat = np.repeat(x, len(y)).reshape((len(x),len(y))).T
    yarr_flat = np.repeat(y, len(x)).reshape((len(x),len(y))).T if len(x) == len(y) else np.repeat(y, len(x)).reshape((len(y),len(x)))


    conv_stamp = (beta-1)""")],
 'a Moffat PSF on a square stamp (as many pixels along as across the slit)','the PSF then varies only along x: both coordinate grids follow the columns',"""
import numpy as np
from misfit.instrument import Spectrograph
P=Spectrograph(PSF_type='Moffat',PSF_FWHM=.6,PSF_beta=2.5).PSF
x=np.array([-.2,0.,.2]); k=P.generate_conv_stamp(x,np.array([-.5,0.,.5]))
assert abs(k[0,1]/k[1,1]-(1+.25/(.6/(2*np.sqrt(2**.4-1)))**2)**-2.5)<1e-9
""")
S('psf-override-ignored-gauss','C06',[('misfit/instrument.py',"""        if PSF_FWHM is None:
            PSF_FWHM = self.PSF_FWHM

        return PSF_stamp_gauss""","""        if (PSF_FWHM is None) or (self.PSF_FWHM is not None):
            PSF_FWHM = self.PSF_FWHM

        return PSF_stamp_gauss""")],
 'a Gaussian PSF with a stored FWHM evaluated with a different explicit FWHM','the explicitly passed FWHM is ignored',"""
import numpy as np
from misfit.instrument import Spectrograph
P=Spectrograph(PSF_type='Gaussian',PSF_FWHM=.6).PSF
k=P.generate_conv_stamp(np.array([.5]),np.array([0.]),PSF_FWHM=1.)
assert abs(k[0,0]-.5)<1e-9
""")
S('subpixel-row-offset','C05',[(AM,"""self.m0_fit = self.galaxy.spec2D.m0 + self.theta[-2]""","""self.m0_fit = self.galaxy.spec2D.m0 + np.round(self.theta[-2], 1)""")],
 'a 2D model with an object offset that is not a multiple of a tenth of a pixel','rows are centred on a rounded object row',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.galaxy import Galaxy
from misfit.instrument import Spectrograph
from misfit.model import aper_model as am, kin_classes as kc
g=Galaxy(n=1.,re_arcsec=.4,q=.6,q0=.19,delt_PA=20.,z=1.,re_mass_arcsec=.4,q_mass=.6)
ins=Spectrograph(PSF_type='Gaussian',PSF_FWHM=.6); ins.pixscale=.18; ins.slit_width=.7
g.spec2D=NS(restwave_arr=np.array([6564.]),wave=np.array([13000.,13010.,13020.]),m0=3.,shape=None,flux=np.zeros((7,3)))
o=object.__new__(am.AperModel2D)
o.__dict__.update(galaxy=g,instrument=ins,nSubpixels=2,pad_factor=.5,xc=0.,yc=0.,intensityProfile=kc.IntensityProfileFiducial(g),theta=np.array([100.,.3,50.,.13,1.]),spec_type='wave')
o.setup_model_grid()
rows=o.y_arr[o.padY:o.nY-o.padY].reshape(7,2).mean(axis=1)
assert np.allclose(rows,(np.arange(7)-3.13)*.18,atol=1e-9),rows
""")
S('sini-edge-branch','C01',[(KF,"""    if q < q0:""","""    if q <= 0.5*q0:""")],'an axis ratio between half the intrinsic one and the intrinsic one','sin i exceeds one there instead of being edge-on',"""
from misfit.model.kin_functions import sin_i
assert sin_i(.15,q0=.19)==1.
""")
