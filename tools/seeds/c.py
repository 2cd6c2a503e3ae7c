SEEDS=[]
def S(id,prop,edits,needs,what,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
GU='misfit/general/general_utils.py'; GA='misfit/general/galaxy_utils.py'; AM='misfit/model/aper_model.py'; FC='misfit/fit/fit_core.py'; F2='misfit/fit/fit2D.py'; GL='misfit/galaxy.py'; IO='misfit/general/io.py'; FIO='misfit/fit/fit_io.py'
S('last-isolated-index','C20',[(GU,"""            arr.append(wh_arr[i])
            wh_arrs.append(arr)

    return wh_arrs""","""            arr.append(wh_arr[i])
            if len(arr) > 1 or len(wh_arrs) == 0:
                wh_arrs.append(arr)

    return wh_arrs""")],'an isolated last index after at least one earlier run','the last isolated index belongs to no run',"""
from misfit.general.general_utils import wh_continuous
assert [list(a) for a in wh_continuous([1,2,5])]==[[1,2],[5]]
assert [list(a) for a in wh_continuous([5])]==[[5]]
""")
S('small-shift-stale-grid','C09',[(AM,"(self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit)","(np.abs(self.galaxy.spec2D.m0 + self.theta[-2] - self.m0_fit) > 1.e-2)")],'two evaluations whose object rows differ by less than a hundredth of a pixel','the second model is that of the first row',"""
from misfit.model.aper_model import AperModel2D
import numpy as np
from types import SimpleNamespace as NS
class M(AperModel2D):
    def __init__(self): self.n=0
    def setup_calcs(self): self.n+=1; self.m0_fit=self.galaxy.spec2D.m0+self.theta[-2]
    def do_model_calcs(self): pass
m=M(); m.galaxy=NS(spec2D=NS(m0=5.)); m.z=1.; m.theta=np.array([0.,1.]); m.m0_fit=5.
m.update_model(theta=np.array([.004,1.]))
assert m.m0_fit==5.004,m.m0_fit
""")
S('linked-two-sigma','C23',[(FC,"""            mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
                                                mcmc_limits_2sig[1]-mcmc_peak]).T
            fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig""","""            if i == 0:
                mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
                                                    mcmc_limits_2sig[1]-mcmc_peak]).T
            fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig""")],'two groups of linked posteriors','the two-sigma errors of the second group are taken from the unlinked peak',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.fit import fit_core as fc
r=np.random.default_rng(2)
def peak(flat,inds,init): return np.array([7.+i for i in inds])
fc.utils.find_peak_gaussian_KDE_multiD=peak
fc.utils.find_peak_gaussian_KDE=lambda f,i: np.array(i)
c=r.normal(0,1,(400,8))
f=NS(sampler_dict=dict(flatchain=c),mcmc_results=NS(),theta_linked_posteriors=[[0,1],[2,3]],kinModel=NS(n_free_param=4))
fc.get_param_posterior_bestfits(f)
b=f.mcmc_results.bestfit_theta; lim=np.percentile(c,[2.275,97.725],axis=0)
assert np.allclose(f.mcmc_results.err_theta_2sig,np.array([b-lim[0],lim[1]-b]).T)
assert list(b[:4])==[7.,8.,9.,10.]
""")
S('fixed-first-parameter','C23',[(FC,"""                theta_chain = np.array([np.repeat(fitEmis2D.kinModel.theta[i], len_chain)])

    """,None)],'','','') if False else None
S('trim-negative-lower-row','C22',[(GA,"""    spec2D.ypos = spec2D.ypos - l_ind""","""    spec2D.ypos = spec2D.ypos - m_min if galaxy.dither else spec2D.ypos""")],'a dithered spectrum whose fitted negative images reach below the first row','the object position is moved by rows that do not exist',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.general import galaxy_utils as gu
def pos(**k): return 4,0.,1.,-2,9
gu.vert_position=pos; gu.mask_low_snr_rows_2D=lambda **k:(k['mask'],np.array([],int))
a=lambda: np.ones((12,6))
s=NS(flux=a(),flux_err=a(),flux_incl_cont=a(),cont_model=a(),spec_weight=a(),spec_mask=a(),mask_qual=a(),mask_sky=a(),mask_low_snr=a(),obswave=np.arange(6.)+1,restwave_arr=[1.],band='H',ypos=4.5,wh_sky=[],row_snr_cut=2.,low_snr_row_inds=None)
s,g=gu.trim_spectrum_2D_spatial(s,NS(z=0.,debug=False,dither=True,spec1D=None),NS(pixscale=.18))
assert s.ypos==4.5 and s.m0==4 and s.flux.shape[0]==9,(s.ypos,s.m0)
""")
S('restwave-kept-if-same-length','C18',[(GL,"""        self.restwave = self.wave/(1.+galaxy.z)


class ObsSpectrum1D""","""        if (getattr(self, 'restwave', None) is None) or (len(self.restwave) != len(self.wave)):
            self.restwave = self.wave/(1.+galaxy.z)


class ObsSpectrum1D""")],'a spectrum whose rest wavelengths were set at another redshift, and a range that keeps every pixel','the rest wavelengths stay those of the earlier redshift',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.galaxy import ObsSpectrum1D
s=ObsSpectrum1D(wave=np.array([1.,2.]),flux=np.ones(2),flux_err=np.ones(2),spec_mask=np.ones(2))
s.calculate_restwave(NS(z=0.)); t=s.trim_spectrum_wavelength(NS(z=1.),trim_obswave_range=[0.,9.])
assert list(t.restwave)==[.5,1.]
""")
S('zero-error-with-flux','C19',[(GA,"        wh_missing = np.where(spec_err == 0.)","        wh_missing = np.where((spec_err == 0.) & (spec <= 0.))")],'a pixel with zero error and positive flux','the pixel without an error counts as good',"""
import numpy as np
from misfit.general.galaxy_utils import spec_mask_missing
m=spec_mask_missing(spec=np.array([1.,1.,0.]),spec_err=np.array([1.,0.,0.]),spec_mask=np.ones(3))
assert list(m)==[1.,0.,0.],m
""")
S('median-row-bound','C19',[(GA,"                while ii > maxind:","                while ii > max(maxind, len(high_snr_inds)):") if False else (GA,"            if len(wh) > 2:\n                high_snr_inds_new.extend(wh)","            if len(wh) > 2 or wh[-1] == nrows-1:\n                high_snr_inds_new.extend(wh)")],'two short runs of significant rows, one at the top edge of a short spectrum','the isolated row at the edge counts as significant',"""
import numpy as np
from misfit.general.galaxy_utils import mask_low_snr_rows_2D
f=np.zeros((3,4)); f[0]=9.; f[2]=9.
m,i=mask_low_snr_rows_2D(flux=f,err=np.ones((3,4)),mask=np.ones((3,4)),mask_calc=np.ones((3,4)),snr_cut=2.)
assert list(i)==[0,1,2],i
""")
S('weight-last-low-row','C21',[(GA,"""        weights_nonnorm = 1./snr_arr""","""        weights_nonnorm = 1./np.maximum(snr_arr, 1.)""")],'edge-weighted rows with a signal to noise ratio below one that are not low rows','rows of low significance get the weight of a ratio of one',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.general.galaxy_utils import calculate_2D_fit_weights
s=NS(weighting_type='up-edges',flux=np.array([[1.],[.5],[4.]]),flux_err=np.ones((3,1)),mask_sky=np.ones((3,1)),low_snr_row_inds=np.array([],int))
w=calculate_2D_fit_weights(s).fitting_weight_profile
assert np.allclose(w,np.array([1,2,.25])/3.25),w
""")
S('walker-shared-offset','C24',[(GU,"            param_lower.append(min(fitEmis2D.thetaPrior.theta_bounds[j]))","            param_lower.append(fitEmis2D.thetaPrior.theta_bounds[j][0])")],'prior bounds given in descending order','walkers start beyond the upper bound',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.fit.fit_core import init_walker_pos
f=NS(kinModel=NS(theta_names=['a'],theta_vary=[True]),thetaPrior=NS(theta_bounds=[[5.,-5.]]))
p=np.array(init_walker_pos(f,ndim=1,nwalkers=50))
assert (abs(p)<=5).all()
""")
S('table-prefix-match','C17',[(IO,"""    wh = np.where(data['linename'] == linename)[0]
    if len(wh) == 0:
        raise ValueError("Problem with param file: {}".format(param_filename) )
    else:
        wh = wh[0]

    # Get rest wave""",None)],'','','') if False else None
S('reanalysis-reloads-nothing','C30',[(F2,"""                self.__dict__[k] = fitEmis2DResults.__dict__[k]""","""                if self.__dict__.get(k, None) is None or k in ('galaxy', 'instrument', 'kinModel', 'mcmc_results'):
                    self.__dict__[k] = fitEmis2DResults.__dict__[k]""")],'reloading a saved best fit into a fit that already has other settings','attributes of the live fit are kept instead of those saved',"""
import numpy as np, os, tempfile
from types import SimpleNamespace as NS
import pickle
from misfit.fit.fit2D import FitEmissionLines2D
a=NS(galaxy=0,instrument=0,instrument_img=0,kinModel=0,mcmc_results=0,kinProfile=0,intensityProfile=0,thetaSettings=0,kinModelOptions=0,mcmcOptions=0)
d=tempfile.mkdtemp(); fn=os.path.join(d,'x.pickle')
for i,k in enumerate(sorted(a.__dict__)): a.__dict__[k]='saved %d'%i
with open(fn,'wb') as h: pickle.dump(a,h)
f=object.__new__(FitEmissionLines2D); f.mcmcOptions=NS(filename_bestfit_model=fn)
for k in a.__dict__:
    if k!='mcmcOptions': f.__dict__[k]='old'
f.reload_bestfit_model(); os.remove(fn); os.rmdir(d)
for k in a.__dict__: assert f.__dict__[k]==a.__dict__[k],k
""")
S('burnin-flat-offset','C23',[(FIO,"    probs = sampler.lnprobability[:, nBurn:].reshape((-1))","    probs = sampler.lnprobability.reshape((-1))[nBurn*len(sampler.lnprobability):]")],'a chain saved with a burn-in phase cut off','the flat probabilities are those of other samples','''
import numpy as np
from types import SimpleNamespace as NS
from misfit.fit import fit_io
class K(NS):
    def copy(self): return K(**self.__dict__)
ch=np.arange(24.).reshape(2,4,3); lp=np.arange(8.).reshape(2,4)
am=NS(galaxy=1,instrument=2,intensityProfile=3,kinProfile=4)
fe=K(kinModel=NS(aperModel=am),mcmcOptions=1,kinModelOptions=2,thetaSettings=3)
s=NS(ndim=3,chain=ch,lnprobability=lp,args=[fe],nwalkers=2,iteration=4,acceptance_fraction=[.1],get_autocorr_time=lambda **k: 1.)
d=fit_io.make_emcee_sampler_dict(s,fitEmis2D=fe,nBurn=1)
assert list(d['flatlnprobability'])==[1,2,3,5,6,7],d['flatlnprobability']
''')
SEEDS=[s for s in SEEDS if s['demo'] and s['edits'][0][2] is not None]
