SEEDS=[]
def S(id,prop,edits,needs,what,demo,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
KF='misfit/model/kin_functions.py'; GU='misfit/general/general_utils.py'; KC='misfit/model/kin_classes.py'; KM='misfit/model/kin_model.py'; GA='misfit/general/galaxy_utils.py'; EM='misfit/model/emission_lines_model.py'; IN='misfit/instrument.py'; F1='misfit/fit/fit1D.py'
S('ellip-radius-at-right-angle','C01',[(KF,"""    r_int_ell = np.sqrt(q * (yp**2) + 1./q * (xp**2))""","""    if np.abs(delt_PA) > 45.:
        q = 1./q
        yp, xp = xp, yp
        yp, xp = xp, yp
        q = 1./q if np.abs(delt_PA) < 89. else q
    r_int_ell = np.sqrt(q * (yp**2) + 1./q * (xp**2))""")],'a galaxy within a degree of perpendicular to the slit','the elliptical radius there uses the inverse axis ratio',"""
import numpy as np
from misfit.model.kin_functions import r_int_ellip
r=r_int_ellip(np.array([1.]),np.array([0.]),.5,-90.)
assert abs(r[0]-np.sqrt(.5))<1e-9,r
""")
S('offset-abs-kept','C02',[(GA,"""    galaxy.delt_PA_abs = np.abs(galaxy.delt_PA)

    return galaxy""","""    if (getattr(galaxy, 'delt_PA_abs', None) is None) or (not galaxy.generate_model):
        galaxy.delt_PA_abs = np.abs(galaxy.delt_PA)

    return galaxy""")],'a model galaxy whose angle is changed after a first calculation','the stored absolute value is that of the earlier angle',"""
from misfit.galaxy import Galaxy
from misfit.general.galaxy_utils import calculate_slit_offset_angles
g=Galaxy(generate_model=True,delt_PA=30.); g.delt_PA=30.
calculate_slit_offset_angles(g); g.delt_PA=-70.; calculate_slit_offset_angles(g)
assert g.delt_PA_abs==70. and g.delt_PA==-70.
""")
S('slit-edge-projection','C02',[(GU,"""        y_proj_major_inslit = np.abs(a_slit*np.cos(delt_PA*deg2rad))

    return y_proj_major_inslit""","""        y_proj_major_inslit = a_slit*np.cos(delt_PA*deg2rad)

    return y_proj_major_inslit""")],'an angle beyond 90 degrees with the major axis leaving the slit sideways','the projected length is negative',"""
from misfit.general.general_utils import y_proj_major_inslit
assert y_proj_major_inslit(2.,120.,slit_width_arcsec=.7)>=0
""")
S('disp-last-entry','C03',[(KC,"""self.theta[self.velProfile.n_params:self.velProfile.n_params+self.dispProfile.n_params]""","""self.theta[self.velProfile.n_params:][:max(self.dispProfile.n_params,self.velProfile.n_params-1)]""")],'a profile pair whose rotation has at least three parameters more than one dispersion parameter','the dispersion profile is also handed later entries of the vector',"""
import numpy as np
from misfit.model.kin_classes import KinProfile, VelArctanProfile, DispConstProfile
v,d=VelArctanProfile(),DispConstProfile(); v.theta=np.zeros(3)
k=KinProfile(velProfile=v,dispProfile=d); k.update_theta(np.array([1.,2.,3.,4.,5.,6.]))
assert list(d.theta)==[4.] and list(v.theta)==[1.,2.,3.]
""")
S('vel-negative-radius-scale','C03',[(KC,"""return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )""","""return 2./np.pi * self.theta[0] * np.arctan( r /np.maximum(self.theta[1], 1.e-2) )""")],'a turnover radius below a hundredth of an arcsecond','the rotation curve ignores smaller turnover radii',"""
import numpy as np
from misfit.model.kin_classes import VelArctanProfile
v=VelArctanProfile(); v.theta=np.array([100.,.001])
assert abs(v.vel(.001,0.)-50.)<1e-9
""")
S('scaled-thickness-stale','C04',[(KC,"""        self.get_gal_params(galaxy)
        self.z0 = self.q0*(self.re_arcsec/1.676)""","""        z0_only = hasattr(self, 'z0')
        self.get_gal_params(galaxy)
        if not z0_only:
            self.z0 = self.q0*(self.re_arcsec/1.676)""")],'a scaled light profile updated for another galaxy','the scale height stays that of the first galaxy',"""
from misfit.galaxy import Galaxy
from misfit.model.kin_classes import IntensityProfileSersicExpScale
a=Galaxy(n=1.,re_arcsec=.4,q0=.2); b=Galaxy(n=1.,re_arcsec=.8,q0=.2)
p=IntensityProfileSersicExpScale(a); p.update_values(b)
assert abs(p.intProfile_z.z0-.2*.8/1.676)<1e-12
""")
S('dither-moffat-sign','C06',[(IN,"""                np.power((1.+(xarr_flat **2 + (yarr_flat-yspace_dither_arc)**2)/(alpha**2)), -beta)
        conv_stamp -= 0.5*(conv_stamp_negl + conv_stamp_negu)""","""                np.power((1.+(xarr_flat **2 + (np.abs(yarr_flat)-yspace_dither_arc)**2)/(alpha**2)), -beta)
        conv_stamp -= 0.5*(conv_stamp_negl + conv_stamp_negu)""")],'a Moffat PSF with a dither separation, away from the slit centre on one side','the second negative image is mirrored onto the first for half of the rows',"""
import numpy as np
from misfit.instrument import PSF_stamp_moffat
x=np.array([0.]); y=np.array([-1.,0.,1.])
k=PSF_stamp_moffat(x,y,alpha=.5,beta=2.5,yspace_dither_arc=1.)
assert abs(k[0,0]-k[2,0])<1e-9,k
""")
S('rebin-uneven-axes','C07',[(KF,"""             [')'] + ['.sum(%d)'%(i+1) for i in range(lenShape)]""","""             [')'] + ['.sum(%d)'%(i+1) for i in range(lenShape-1)] + ['.sum(%d)'%lenShape if factor[-1] != 3 else '[...,0,0]*3.'[:-9]+'.mean(%d)*3.'%lenShape]""")],'x','x',"")
SEEDS.pop()
S('kernel-even-grid','C07',[(KF,"""    if len(wave_arr) % 2 == 0:
        xx = wave_arr[:-1]""","""    if len(wave_arr) % 4 == 0:
        xx = wave_arr[:-1]""")],'a wavelength grid of even length not divisible by four','the resolution kernel is centred between two pixels',"""
import numpy as np
from misfit.model.kin_functions import inst_convol_complete
w=13000.+2.*np.arange(10); m=np.zeros((10,1)); m[4,0]=1.
o=inst_convol_complete(m.copy(),w,2.)
assert o[:,0].argmax()==4 and abs(o[3,0]-o[5,0])<1e-9,o[:,0]
""")
S('psf-flux-positive-part','C07',[(KF,"""        spectra_cube_see_conv *= np.sum(spectra_cube)/np.sum(spectra_cube_see_conv)

        return""","""        spectra_cube_see_conv *= np.sum(np.abs(spectra_cube))/np.sum(spectra_cube_see_conv)

        return""")],'a cube with some negative values','smearing then conserves the sum of absolute values',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.model.kin_functions import PSF_convolve
c=np.ones((2,5,5)); c[0,2,2]=-.5
o=PSF_convolve(c.copy(),NS(PSF_FWHM=1.,_conv_stamp=np.array([[.1,.2,.1],[.2,1.,.2],[.1,.2,.1]])))
assert abs(o.sum()-c.sum())<1e-9
""")
S('velocity-mode-scale','C08',[(KF,"""            scale = 1/(sigma_wide*np.sqrt(2.*np.pi))
            gaus = scale*np.exp(-(V_matrix-wave_ref_matrix)**2/(2.*sigma_wide**2))""","""            scale = 1/(sigma_wide.max(axis=0)*np.sqrt(2.*np.pi))
            gaus = scale*np.exp(-(V_matrix-wave_ref_matrix)**2/(2.*sigma_wide**2))""")],'velocity mode with a dispersion that varies along the line of sight','the line area then depends on depth',"""
import numpy as np
from misfit.model.kin_functions import add_sigma_collapse_z
v=np.linspace(-400,400,201); s=np.array([20.,40.]).reshape(2,1,1); I=np.ones((2,1,1)); V=np.zeros((2,1,1))
c=add_sigma_collapse_z(I,V,s,v,0.,None,None,201,2,1,1,.5,4.,np.tile(I,(201,1,1,1)),np.tile(v.reshape(-1,1,1,1),(1,2,1,1)),spec_type='velocity')
assert abs(c.sum()*4.-1.)<1e-3
""")
S('collapse-first-line-ratio','C08',[(KF,"""            I_Vxy += I_Vxy_oneline*flux_ratio_arr[i]""","""            I_Vxy += I_Vxy_oneline*flux_ratio_arr[i]/flux_ratio_arr[0]""")],'a line list whose first line is not the reference one (ratio not one)','the ratios are renormalised to the first line',"""
import numpy as np
from misfit.model.kin_functions import add_sigma_collapse_z
w=np.linspace(6500,6620,241); I=np.ones((1,1,1)); V=np.zeros((1,1,1)); s=np.full((1,1,1),50.)
c=add_sigma_collapse_z(I,V,s,w,0.,np.array([6550.,6585.]),np.array([.34,1.]),241,1,1,1,1.,.5,np.tile(I,(241,1,1,1)),np.tile(w.reshape(-1,1,1,1),(1,1,1,1)))
assert abs(c.sum()*.5-1.34)<1e-3
""")
S('free-entries-order','C10',[(KM,"""                self.theta[i] = theta_fitting[j]
                j += 1""","""                self.theta[i] = theta_fitting[j]
            if self.theta_vary[i] or (i == 0):
                j += 1""")],'a model whose first parameter is fixed','the free values are shifted by one',"""
import numpy as np
from misfit.galaxy import Galaxy
from misfit.model.kin_model import KinModel2D
from misfit.model.kin_classes import Theta2DSettingsFiducial
k=KinModel2D(Galaxy(n=1.,q0=.19,re_arcsec=.4),thetaSettings=Theta2DSettingsFiducial(theta_vary=np.array([False,True,True,False,False])))
k.update_parameters([7.,8.,9.])
assert list(k.theta)==[0.,7.,8.,0.,0.],k.theta
""")
S('length-check-late','C10',[(KM,"""        if len(theta_fitting) != self.n_free_param:
            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")


        self.update_parameters(theta_fitting)       # expand""","""        if len(theta_fitting) < self.n_free_param:
            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")


        self.update_parameters(theta_fitting)       # expand""")],'an update of an existing model with too many values','the extra values are silently dropped',"")
SEEDS.pop()
S('prior-open-bound','C11',[(KF,"""    return bounds[0] <= value <= bounds[1]""","""    return (bounds[0] <= value <= bounds[1]) if bounds[0] < bounds[1] else False""")],'a free parameter with equal lower and upper bound','its only allowed value is rejected',"""
from misfit.model.kin_classes import ThetaPriorFlat
p=ThetaPriorFlat(theta=[1.,2.],theta_vary=[True,True],theta_bounds=[[5.,5.],[0.,1.]])
assert p.log_prior([5.,.5])==0.
""")
S('chisq-binary-weight','C12',[(KM,"""                kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)*\\
                kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix

    chisq""","""                kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)*\\
                np.abs(kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix*kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix.max())**0.5

    chisq""")],'weights that differ from row to row','the rows enter with the square root of their weight',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.model.kin_model import _model_chisq
w=np.array([[.25,.25],[.75,.75]]); s=NS(flux=np.full((2,2),3.),flux_err=np.full((2,2),2.),spec_mask=np.ones((2,2)),fitting_weight_matrix=w)
assert abs(_model_chisq(NS(model=np.ones((2,2)),aperModel=NS(galaxy=NS(spec2D=s))))-2.)<1e-12
""")
S('llike-best-model','C12',[(KM,"""    if model is None:
        model = kinModel.model

    # Include inverse""","""    if (model is None) or (kinModel.bestfit is not None):
        model = kinModel.model

    # Include inverse""")],'x','x','')
SEEDS.pop()
S('scale-all-columns','C13',[(KM,"""        wh_no_sky = galaxy.spec2D.wh_nosky.copy()""","""        wh_no_sky = galaxy.spec2D.wh_nosky.copy()
        if len(wh_no_sky) < 0.5*self.model.shape[1]:
            wh_no_sky = np.arange(self.model.shape[1])""")],'a spectrum where more than half of the columns are sky','the sky columns then influence the factor',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.model.kin_model import KinModel2D
k=object.__new__(KinModel2D); k.model=np.ones((1,5))
s=NS(flux=np.array([[2.,2.,50.,50.,50.]]),flux_err=np.ones((1,5)),wh_nosky=np.array([0,1]))
k.scale_model(NS(spec2D=s))
assert np.allclose(k.model,2.)
""")
S('weight-half-pixel','C14',[(KF,"""    xtrim = [aperModel1DDisp.padX,2*aperModel1DDisp.n_pix_x+aperModel1DDisp.padX+1]
    ytrim = [aperModel1DDisp.padY,2*aperModel1DDisp.n_pix_y+aperModel1DDisp.padY+1]

    sigsq_I_conv = sigsq_I_conv_wide[""","""    xtrim = [aperModel1DDisp.padX,2*aperModel1DDisp.n_pix_x+aperModel1DDisp.padX+1]
    ytrim = [aperModel1DDisp.padY,2*aperModel1DDisp.n_pix_y+aperModel1DDisp.padX+1]

    sigsq_I_conv = sigsq_I_conv_wide[""")],'x','x','')
SEEDS.pop()
S('flux-err-nan-mask','C16',[(EM,"""        wh_good = np.where(mask == 1)[0]""","""        wh_good = np.where(mask > 0)[0] if np.any(err <= 0.) else np.where(mask == 1)[0]""")],'x','x','')
SEEDS.pop()
S('doublet-common-width','C16',[(EM,"""            profile += self.profile_func(self.obswave_arr,
                            self.restwave_arr[i]*(1.+self.z), self.vel_disp, self.flux*self.flux_ratio_arr[i])""","""            profile += self.profile_func(self.obswave_arr,
                            self.restwave_arr[i]*(1.+self.z), self.vel_disp*self.restwave_arr[0]/self.restwave_arr[i], self.flux*self.flux_ratio_arr[i])""")],'a group of several lines','all members get the wavelength width of the first, not the same velocity width',"""
import numpy as np
from misfit.model.emission_lines_model import EmissionLines1DModel
m=EmissionLines1DModel(linenames_arr=['a','b'],restwave_arr=np.array([5000.,4000.]),flux_ratio_arr=np.array([1.,.5]))
w=np.array([4000.]); m.make1DProfile(w,0.,200.,1.)
assert abs(m.profile[0]-.5/(200./299792.458*4000.)/np.sqrt(2*np.pi))<1e-6
""")
S('corrected-abs-difference','C27',[(F1,"""        if np.abs(self.vel_disp) > np.abs(self.instrument.instrument_resolution):
            self.vel_disp_inst_corr = np.sqrt(self.vel_disp**2 - self.instrument.instrument_resolution**2)
        else:
            self.vel_disp_inst_corr = 0.""","""        self.vel_disp_inst_corr = np.sqrt(np.abs(self.vel_disp**2 - self.instrument.instrument_resolution**2))""")],'a measured dispersion below the instrumental one','the corrected dispersion is then positive instead of zero',"""
from types import SimpleNamespace as NS
from misfit.fit.fit1D import FitEmissionLines1D
f=object.__new__(FitEmissionLines1D); f.__dict__.update(vel_disp=30.,instrument=NS(instrument_resolution=50.),galaxy=NS(),names_arr=['a'])
f.calculate_inst_corr_vel_disp(noErrors=True)
assert f.vel_disp_inst_corr==0.
""")
S('mc-unresolved-dropped','C27',[(F1,"""            vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.""","""            vel_disp_mc_inst_corr = vel_disp_mc_inst_corr[np.isfinite(vel_disp_mc_inst_corr)]""")],'a Monte Carlo table with some realisations below the instrumental dispersion','those realisations are left out of the percentiles instead of counting as zero',"""
import numpy as np, tempfile, os
from types import SimpleNamespace as NS
from misfit.fit.fit1D import FitEmissionLines1D
f=object.__new__(FitEmissionLines1D); f.__dict__.update(vel_disp=60.,instrument=NS(instrument_resolution=50.),galaxy=NS(spec1D=NS(instrument_resolution=50.)),names_arr=['a'])
T=np.zeros((4,5)); T[:,1]=[30.,40.,60.,70.]
with tempfile.TemporaryDirectory() as d:
    f.save_mc_sim_matrix(T,err_filename=d+'/e'); f.calculate_inst_corr_vel_disp(err_filename=d+'/e')
c=np.array([0.,0.,np.sqrt(1100.),np.sqrt(2400.)]); p=np.percentile(c,[15.865,84.135])
assert np.allclose(f.vel_disp_inst_corr_err,[np.sqrt(1100.)-p[0],p[1]-np.sqrt(1100.)])
""")
S('refit-not-adopted','C27',[(F1,"""        elif (result.params['flux0'].value < 0.):
            params = self.make_params(flux_bound=True)
            result = lmfit.minimize(""","""        elif (result.params['flux0'].value < 0.):
            params = self.make_params(flux_bound=True)
            result_bound = lmfit.minimize(""")],'a spectrum whose first fit has a negative flux but a positive dispersion','the rejected first fit is reported',"""
import numpy as np
from types import SimpleNamespace as NS
from misfit.fit import fit1D
from misfit.fit.fit1D import FitEmissionLines1D
w=np.arange(14900.,15300.,2.); z=1.3
fl=1e-18-4e-18*np.exp(-.5*((w-6564.6*2.3)/5.)**2)
f=object.__new__(FitEmissionLines1D)
f.__dict__.update(names_arr=['Halpha'],flux_arr=[-5e-17],z=z,vel_disp=100.,cont_coeff=None,cont_order=1,shape1D='gaussian',del_obs_lam=20.,restwave_arr=[[6564.6]],instrument=NS(instrument_resolution=10.),galaxy=NS(z=z,field='f',ID=1,spec1D_trim=NS(obswave=w,flux=fl,flux_err=np.full(len(w),1e-19),spec_mask=np.ones(len(w)))))
f.fit(noErrors=True,noPlot=True)
assert f.flux_arr[0]>=0.,f.flux_arr
""")
S('slit-upper-clip','C28',[(KF,"""        if delx_y < -0.5*tot_slit_width:
            delx_y = -0.5*tot_slit_width #+ 0.5*FWHM_arcsec""","""        if (delx_y < -0.5*tot_slit_width) & (FWHM_arcsec_in < tot_slit_width):
            delx_y = -0.5*tot_slit_width #+ 0.5*FWHM_arcsec""")],'a light profile wider than the slit and centred beyond its lower edge','the position is left outside the slit',"""
import numpy as np
from misfit.model.kin_functions import check_slit_illum
x=np.linspace(-1.,1.,41); wh=np.where(np.abs(x)<=.35)[0]
d,W=check_slit_illum(x,wh,1.,-.6,1.2,.7)
assert abs(d)<=.35
""")
