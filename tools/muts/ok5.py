# behaviour-preserving edits of aper_model, emission_lines_model, fit_core, galaxy, mock, fit1D
A='model/aper_model.py'; EL='model/emission_lines_model.py'; FC='fit/fit_core.py'; G='galaxy.py'; MK='mock/generate_basic.py'; F1='fit/fit1D.py'
W="""        self.extraction_width = 4.*y_proj_conv.copy()
"""
KP="""        if self.theta[0] is not None:
            theta_kinprof = np.array([self.theta[1], self.theta[2], None])
        else:
            theta_kinprof = np.array([self.theta[1], self.theta[2], 0.])

        # Get V(RE), then calc sigma_0: self.theta[1]/self.theta[0]

        self.kinProfile.update_theta(theta_kinprof)

        if self.theta[0] is not None:
            if self.theta[0] != 0.:
                V_aper = self.kinProfile.vel(self.disp_aper_radius_arcsec, 0.)
                theta_kinprof = np.array([self.theta[1], self.theta[2], V_aper/self.theta[0]])
                self.kinProfile.update_theta(theta_kinprof)
            else:
                # v/sig = 0 == eg velocity = 0.
                theta_kinprof = np.array([0., self.theta[2], self.theta[1]])
                self.kinProfile.update_theta(theta_kinprof)
"""
M3="""        self.x_arr_full = np.tile(self.x_arr, (self.nZ, self.nY,1))
        self.y_arr_full = np.tile(np.array([self.y_arr]).T, (self.nZ, 1,self.nX))
        self.z_arr_full = np.repeat(self.z_arr,
                            self.nY*self.nX).reshape((self.nZ,self.nY,self.nX))
"""
CP="""        cos_phi = self.yint/self.r

        # Mask the cos_phi where r == 0:
        cos_phi[self.r == 0.] = 0.
"""
CP2="""        cos_phi = self.yint/self.r
        # Mask the cos_phi where r == 0:
        cos_phi[self.r == 0.] = 0.
"""
SH="""            for i in range(self.nY):
                V_wide[:,i,:] += self.delta_position_velspace[i]

        # start"""
OPT="""            g_y = norm.pdf(yy_prof, 0., prof_sigma)
            self.g_y = g_y/np.sum(g_y)  # normalize

            self.G_y = np.tile(np.array([self.g_y]).transpose(), (1, self.I_conv.shape[1]))
"""
SUM="""        self.sigmasq_aper = np.sum(self.sigsq_I_conv*self.G_y*self.delt_x*self.delt_y)/\\
                                np.sum(self.I_conv*self.G_y*self.delt_x*self.delt_y)
"""
TR="""        self.spectra_cube_conv = \\
            self.spectra_cube_conv[:,trimy[0]:trimy[1],trimx[0]:trimx[1]]

        # collapse over x, ie along slit direction:
        self.model_out = np.sum(self.spectra_cube_conv,axis=2)*self.delt_x
"""
IR="""        else:
            if self.spec_type == 'wave':
                self.inst_disp_wave = (self.instrument.instrument_resolution/c_kms)*self.lam0_primary
            else:
                self.inst_disp_wave = self.instrument.instrument_resolution
            if self.inst_disp_wave > 0.:
                self.model_out = kfuncs.inst_convol_complete(self.model_out,
                                self.wave_arr, self.inst_disp_wave)
"""
YA="""        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
                ((self.n_pix_y_whole-0.5)*self.nSubpixels + self.padY-0.5)*self.delt_y,
                num=self.nY)
"""
TC="""        if self.theta is None""" 
CC="""        cont_coeff = np.array([])
        for i in range(self.cont_order+1):
            cont_coeff = np.append(cont_coeff, params['cont_coeff'+str(i)].value*1.e-18)
        #
        flux_arr = np.array([])
        for i in range(len(self.names_arr)):
            flux_arr = np.append(flux_arr, params['flux'+str(i)].value)
"""
PL="""        for i in range(len(self.names_arr)):
            lineModel = EmissionLines1DModel(name=self.names_arr[i])
            lineModel.make1DProfile(obswave_arr, z, vel_disp, self.flux_arr[i])
            profile += lineModel.profile

        # Now add the continuum:
        #cont_profile = np.zeros(len(obswave_arr))
        for i in range(self.cont_order+1):
            profile += cont_coeff[i]*np.power(obswave_arr,i)
"""
L1="""        for i in range(len(self.linenames_arr)):
            profile += self.profile_func(self.obswave_arr,
                            self.restwave_arr[i]*(1.+self.z), self.vel_disp, self.flux*self.flux_ratio_arr[i])
"""
LL="""            wave_arr = []
            line_ratio_arr = []
            for linename in self.linenames_arr:
                wave_arr.append(io.read_restwave(wave_file, linename=linename))
                line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
"""
RES="""        wh_good = np.where(mask == 1)[0]

        model = self.make1DProfile(params, obswave_arr[wh_good])
        resid = (model-data[wh_good])/err[wh_good]
"""
GL="""    sig = vel_sig / c_kms * mu

    # Gaussian with total flux `flux`. Don't normalize by the sampled maximum:
    #   that depends on where the line falls relative to the pixels.
    gaus = flux*norm.pdf(x, mu, sig)
    return gaus"""
IFT="""    j = 0
    theta_fitting_init = np.array([])
    for i in range(len(theta)):
        if theta_vary[i]:
            theta_fitting_init = np.append(theta_fitting_init, theta[i])

    return theta_fitting_init
"""
LP="""    if not np.isfinite(ln_prior):
        return -np.inf

    ln_like = lnlike(theta_fitting, fitEmis2D)
    ln_prob = ln_prior + ln_like

    if not np.isfinite(ln_prob):
        # Make sure the non-finite ln_prob is -Inf, for emcee handling
        ln_prob = -np.inf

    return ln_prob
"""
WK="""    pos = [np.random.random_sample(ndim)*param_range + param_lower for i in range(nwalkers)]

    return pos
"""
CH="""    i_free = 0
    len_chain = fitEmis2D.sampler_dict['flatchain'].shape[0]
    for i in range(len(fitEmis2D.kinModel.theta)):
        if fitEmis2D.kinModel.theta_vary[i]:
            if i > 0:
                theta_chain = np.append(theta_chain,
                                np.array([fitEmis2D.sampler_dict['flatchain'].T[i_free]]), axis=0)
            else:
                theta_chain = np.array([fitEmis2D.sampler_dict['flatchain'].T[i_free]])
            i_free += 1
        else:
            if i > 0:
                theta_chain = np.append(theta_chain,
                            np.array([np.repeat(fitEmis2D.kinModel.theta[i], len_chain)]), axis=0)
            else:
                theta_chain = np.array([np.repeat(fitEmis2D.kinModel.theta[i], len_chain)])
"""
FI="""            j = 0
            free_inds = []
            for i in range(len(fitEmis2D.kinModel.theta)):
                if fitEmis2D.kinModel.theta_vary[i]:
                    free_inds.append(j)
                    j += 1
                else:
                    free_inds.append(None)
            ind = free_inds[ind_all]
"""
FL="""    flatchain = np.append(fitEmis2D.sampler_dict['flatchain'].T[:i_free],V_re_arr, axis=0).T
    flatchain = np.append(flatchain.T,V_22_arr, axis=0).T


    # Also add stuff about sigma: # Sample at R_E, and at z=0.
    sigma_re_arr = np.array([fitEmis2D.kinProfile.sigma(fitEmis2D.galaxy.re_mass_arcsec, 0.)])
    sigma_22_arr = np.array([fitEmis2D.kinProfile.sigma(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)])

    flatchain = np.append(flatchain.T, sigma_re_arr, axis=0).T
    flatchain = np.append(flatchain.T, sigma_22_arr, axis=0).T
"""
UN="""    mcmc_uncertainties_1sig = np.array(list(map(lambda v: (v[0]-v[1], v[2]-v[0]),
                        list(zip(*mcmc_stack)))))
"""
OP="""    percent_oppsign = np.array([])
    for i in range(len(fitEmis2D.mcmc_results.bestfit_theta)):
        perct_opp = len(np.where(opp_flatchain[:,i] < 0.)[0])/float(len(opp_flatchain[:,i])) * 100.
        percent_oppsign = np.append(percent_oppsign, perct_opp)
"""
PK="""        yb, xb = np.histogram(samples[:,i], bins=50)
        wh_pk = np.where(yb == yb.max())[0][0]
        mcmc_peak_hist[i] = np.average([xb[wh_pk], xb[wh_pk+1]])
"""
MM="""        if np.abs(self.vel_disp) > np.abs(self.instrument.instrument_resolution):
            self.vel_disp_inst_corr = np.sqrt(self.vel_disp**2 - self.instrument.instrument_resolution**2)
        else:
            self.vel_disp_inst_corr = 0.
"""
MV="""            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)

            # Make non-finite cases: these are where inst res > vel disp
            vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
"""
ME="""            vel_disp_inst_corr_err = np.zeros(2)
            vel_disp_inst_corr_err[0] = self.vel_disp_inst_corr - limits[0]
            vel_disp_inst_corr_err[1] = limits[1] - self.vel_disp_inst_corr
"""
M=[
('ok-kinprof-once','C15',[(A,KP,"""        vsig, V_tmp, r_t = self.theta
        if vsig is None:
            theta_kinprof = np.array([V_tmp, r_t, 0.])
        elif vsig == 0.:
            # v/sig = 0 == eg velocity = 0.
            theta_kinprof = np.array([0., r_t, V_tmp])
        else:
            # Get V(RE), then calc sigma_0: V(RE)/vsig
            self.kinProfile.update_theta(np.array([V_tmp, r_t, None]))
            V_aper = self.kinProfile.vel(self.disp_aper_radius_arcsec, 0.)
            theta_kinprof = np.array([V_tmp, r_t, V_aper/vsig])

        self.kinProfile.update_theta(theta_kinprof)
""")]),
('ok-aper-max','C05',[(A,"""            if y_proj_conv < re_arcsec_conv*q_conv:
                y_proj_conv = re_arcsec_conv*q_conv

            self.extraction_width = 4.*y_proj_conv.copy()


        self.x_aper""","""            self.extraction_width = 4.*np.maximum(y_proj_conv, re_arcsec_conv*q_conv)


        self.x_aper""")]),
('ok-aper-cosphi','C15,C14',[(A,CP,"""        cos_phi = np.where(self.r == 0., 0., self.yint/self.r)
"""),(A,SUM,"""        cell = self.delt_x*self.delt_y
        self.sigmasq_aper = np.sum(self.sigsq_I_conv*self.G_y*cell)/np.sum(self.I_conv*self.G_y*cell)
""")]),
('ok-aper-cosphi2','C09',[(A,CP2,"""        cos_phi = np.zeros(self.r.shape)
        off_axis = self.r != 0.
        cos_phi[off_axis] = self.yint[off_axis]/self.r[off_axis]
""")]),
('ok-aper-opt','C14,C15',[(A,OPT,"""            g_y = norm.pdf(yy_prof, loc=0., scale=prof_sigma)
            self.g_y = g_y/g_y.sum()  # normalize

            self.G_y = self.g_y[:,np.newaxis]*np.ones(self.I_conv.shape)
"""),(A,SUM,"""        self.sigmasq_aper = np.sum(self.sigsq_I_conv*self.G_y)/np.sum(self.I_conv*self.G_y)
""")]),
('ok-grid-mesh','C05',[(A,"        self.x_arr_full = np.tile(self.x_arr, (self.nY,1))\n        self.y_arr_full = np.tile(np.array([self.y_arr]).T, (1,self.nX))\n","        self.x_arr_full, self.y_arr_full = np.meshgrid(self.x_arr, self.y_arr)\n")]),
('ok-grid-arange','C05',[(A,YA,"""        self.y_arr = (np.arange(self.nY) - self.padY - 0.5*(self.nSubpixels-1))*self.delt_y
""")]),
('ok-grid-centre','C05,C26',[(A,"        self.z = self.theta[-1]\n\n        # Offset m0_fit","        m0_shift, self.z = self.theta[-2:]\n\n        # Offset m0_fit"),(A,"        self.m0_fit = self.galaxy.spec2D.m0 + self.theta[-2]\n        # Get","        self.m0_fit = self.galaxy.spec2D.m0 + m0_shift\n        # Get"),(A,"        self.y_arr -= ( self.m0_fit*self.nSubpixels )*self.delt_y","        self.y_arr = self.y_arr - self.m0_fit*self.instrument.pixscale")]),
('ok-trim-collapse','C09',[(A,TR,"""        rows = slice(self.padY, self.n_pix_y+self.padY)
        cols = slice(self.padX, self.n_pix_x+self.padX)
        self.spectra_cube_conv = self.spectra_cube_conv[:,rows,cols]

        # collapse over x, ie along slit direction:
        self.model_out = self.spectra_cube_conv.sum(axis=2)*self.delt_x
""")]),
('ok-instres','C09',[(A,IR,"""        else:
            self.inst_disp_wave = self.instrument.instrument_resolution
            if self.spec_type == 'wave':
                self.inst_disp_wave = self.inst_disp_wave/c_kms*self.lam0_primary
            if self.inst_disp_wave > 0.:
                self.model_out = kfuncs.inst_convol_complete(self.model_out,
                                self.wave_arr, self.inst_disp_wave)
""")]),
('ok-shift-vec','C09',[(A,SH,"""            V_wide += np.reshape(self.delta_position_velspace, (1, self.nY, 1))

        # start""")]),
('ok-real-wave','C09',[(A,"""        self.wave_arr = self.wave_arr_real.copy()
        self.nWave = self.nWave_real
        self.delt_wave = self.delt_wave_real
        self.I_matrix = self.I_matrix_real.copy()
        self.wave_ref_matrix = self.wave_ref_matrix_real.copy()""","""        for key in ['wave_arr', 'I_matrix', 'wave_ref_matrix']:
            setattr(self, key, getattr(self, key+'_real').copy())
        self.nWave, self.delt_wave = self.nWave_real, self.delt_wave_real""")]),
('ok-1d-lists','C16',[(EL,CC,"""        cont_coeff = np.array([params['cont_coeff'+str(i)].value*1.e-18 for i in range(self.cont_order+1)])
        flux_arr = np.array([params['flux'+str(i)].value for i in range(len(self.names_arr))])
"""),(EL,PL,"""        for name, flux in zip(self.names_arr, flux_arr):
            lineModel = EmissionLines1DModel(name=name)
            lineModel.make1DProfile(obswave_arr, z, vel_disp, flux)
            profile += lineModel.profile

        # Now add the continuum:
        for i, coeff in enumerate(cont_coeff):
            profile += coeff*obswave_arr**i
""")]),
('ok-1d-horner','C16',[(EL,PL,"""        for i in range(len(self.names_arr)):
            lineModel = EmissionLines1DModel(name=self.names_arr[i])
            lineModel.make1DProfile(obswave_arr, z, vel_disp, self.flux_arr[i])
            profile += lineModel.profile

        # Now add the continuum:
        cont = np.zeros(len(obswave_arr))
        for coeff in cont_coeff[::-1]:
            cont = cont*obswave_arr + coeff
        profile += cont
""")]),
('ok-1d-zip','C16,C17',[(EL,L1,"""        for restwave, ratio in zip(self.restwave_arr, self.flux_ratio_arr):
            profile = profile + self.profile_func(self.obswave_arr, restwave*(1.+self.z),
                            self.vel_disp, self.flux*ratio)
"""),(EL,LL,"""            wave_arr = [io.read_restwave(wave_file, linename=linename) for linename in self.linenames_arr]
            line_ratio_arr = [io.read_line_ratio(wave_file, linename=linename) for linename in self.linenames_arr]
""")]),
('ok-1d-resid','C16',[(EL,RES,"""        good = (mask == 1)

        model = self.make1DProfile(params, obswave_arr[good])
        resid = (model-data[good])/err[good]
""")]),
('ok-1d-gauss','C16',[(EL,GL,"""    sig = mu*(vel_sig/c_kms)
    return flux*np.exp(-0.5*((x-mu)/sig)**2)/(np.sqrt(2.*np.pi)*sig)""")]),
('ok-1d-gauss2','C16',[(EL,GL,"""    sig = mu*vel_sig/c_kms
    return flux*norm(loc=mu, scale=sig).pdf(x)""")]),
('ok-free-comp','C10',[(FC,IFT,"""    return np.array([theta[i] for i in range(len(theta)) if theta_vary[i]])
""")]),
('ok-free-zip','C10',[(FC,IFT,"""    theta_fitting_init = []
    for value, vary in zip(theta, theta_vary):
        if vary:
            theta_fitting_init.append(value)

    return np.array(theta_fitting_init)
""")]),
('ok-lnprob','C11',[(FC,LP,"""    if np.isfinite(ln_prior):
        ln_prob = ln_prior + lnlike(theta_fitting, fitEmis2D)
        if np.isfinite(ln_prob):
            return ln_prob

    # Make sure the non-finite ln_prob is -Inf, for emcee handling
    return -np.inf
""")]),
('ok-walkers','C24',[(FC,WK,"""    pos = []
    for i in range(nwalkers):
        pos.append(param_lower + param_range*np.random.random_sample(ndim))

    return pos
""")]),
('ok-walkers2','C24',[(FC,WK,"""    pos = [param_lower + np.random.rand(ndim)*param_range for i in range(nwalkers)]

    return pos
""")]),
('ok-chain-list','C23',[(FC,CH,"""    i_free = 0
    flatchain_in = fitEmis2D.sampler_dict['flatchain']
    len_chain = flatchain_in.shape[0]
    theta_chain = []
    for i in range(len(fitEmis2D.kinModel.theta)):
        if fitEmis2D.kinModel.theta_vary[i]:
            theta_chain.append(flatchain_in[:,i_free])
            i_free += 1
        else:
            theta_chain.append(np.repeat(fitEmis2D.kinModel.theta[i], len_chain))
    theta_chain = np.array(theta_chain)
""")]),
('ok-chain-free','C23',[(FC,FI,"""            ind = None
            if fitEmis2D.kinModel.theta_vary[ind_all]:
                ind = int(sum(1 for i in range(ind_all) if fitEmis2D.kinModel.theta_vary[i]))
""")]),
('ok-chain-stack','C23',[(FC,FL,"""    # Also add stuff about sigma: # Sample at R_E, and at z=0.
    sigma_re_arr = np.array([fitEmis2D.kinProfile.sigma(fitEmis2D.galaxy.re_mass_arcsec, 0.)])
    sigma_22_arr = np.array([fitEmis2D.kinProfile.sigma(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)])

    flatchain = np.concatenate((fitEmis2D.sampler_dict['flatchain'].T[:i_free], V_re_arr, V_22_arr,
                                sigma_re_arr, sigma_22_arr), axis=0).T
""")]),
('ok-uncert','C23',[(FC,UN,"""    mcmc_uncertainties_1sig = np.array([mcmc_peak_KDE - mcmc_limits[0], mcmc_limits[1] - mcmc_peak_KDE]).T
"""),(FC,PK,"""        yb, xb = np.histogram(samples[:,i], bins=50)
        wh_pk = np.argmax(yb)
        mcmc_peak_hist[i] = 0.5*(xb[wh_pk] + xb[wh_pk+1])
""")]),
('ok-oppsign','C23',[(FC,OP,"""    n_samp = float(opp_flatchain.shape[0])
    percent_oppsign = np.array([np.sum(opp_flatchain[:,i] < 0.)/n_samp*100.
                            for i in range(len(fitEmis2D.mcmc_results.bestfit_theta))])
""")]),
('ok-oppsign2','C23',[(FC,OP,"""    percent_oppsign = np.mean(opp_flatchain < 0., axis=0)*100.
""")]),
('ok-corr','C27',[(F1,MM,"""        resolution = self.instrument.instrument_resolution
        diff_sq = self.vel_disp**2 - resolution**2
        self.vel_disp_inst_corr = np.sqrt(diff_sq) if diff_sq > 0. else 0.
"""),(F1,ME,"""            vel_disp_inst_corr_err = np.array([self.vel_disp_inst_corr - limits[0],
                                               limits[1] - self.vel_disp_inst_corr])
""")]),
('ok-corr-mc','C27',[(F1,MV,"""            diff_sq = vel_disp_mc**2 - self.instrument.instrument_resolution**2
            vel_disp_mc_inst_corr = np.sqrt(np.maximum(diff_sq, 0.))
""")]),
('ok-corr-mc2','C27',[(F1,MV,"""            diff_sq = vel_disp_mc**2 - self.instrument.instrument_resolution**2
            vel_disp_mc_inst_corr = np.zeros(len(vel_disp_mc))
            resolved = diff_sq > 0.
            vel_disp_mc_inst_corr[resolved] = np.sqrt(diff_sq[resolved])
""")]),
('ok-corr-mc3','C27',[(F1,MV,"""            vel_disp_mc_inst_corr = np.sqrt(np.clip(vel_disp_mc**2 - self.instrument.instrument_resolution**2, 0., None))
""")]),
('ok-mock-min','C26',[(MK,"    if slit_length < nymin*pixscale:\n        slit_length = nymin*pixscale\n","    slit_length = max(slit_length, nymin*pixscale)\n"),(MK,"    spec2D.shape = [ int(np.ceil(instrument.slit_length/instrument.pixscale)), nwave]","    n_rows = int(np.ceil(instrument.slit_length/instrument.pixscale))\n    spec2D.shape = [n_rows, nwave]"),(MK,"    spec2D.m0 = np.ceil(instrument.slit_length/instrument.pixscale)/2. - 0.5","    spec2D.m0 = 0.5*(n_rows-1)")]),
('ok-mock-bounds','C26',[(MK,"    theta_vary = np.array([False, False, False, False, False])\n    theta_bounds = np.array([None, None, None, None, None])","    theta_vary = np.array([False]*len(theta_init))\n    theta_bounds = np.array([None]*len(theta_init))")]),
('ok-mock-orelse','C26',[(MK,"    kinModel, galaxy, instrument = generate_mock_basis(**kwargs)\n    kinModel.make_model(galaxy=galaxy, instrument=instrument,\n                 theta_fitting=[])\n    model_img = kinModel.model\n\n    return model_img","    kinModel, galaxy, instrument = generate_mock_basis(**kwargs)\n    kinModel.make_model(theta_fitting=[], galaxy=galaxy, instrument=instrument)\n\n    return kinModel.model")]),
('ok-setattr','C25,C18',[(G,"        self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if key in self.__dict__]))","        for key in kwargs:\n            if key in self.__dict__:\n                setattr(self, key, kwargs[key])",)]),
('ok-restwave','C18,C22',[(G,"        self.obswave = self.wave\n        self.restwave = self.wave/(1.+galaxy.z)","        self.obswave = self.wave\n        self.restwave = self.obswave/(1.+galaxy.z)")]),
('ok-masks-copy','C19,C22',[(G,"        if self.mask_qual is None:\n            self.mask_qual = self.spec_mask.copy()\n        self.mask_sky","        if self.mask_qual is None:\n            self.mask_qual = np.array(self.spec_mask)\n        self.mask_sky")]),
]
