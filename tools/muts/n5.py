KF='model/kin_functions.py'; AM='model/aper_model.py'; KM='model/kin_model.py'
M=[
# C08
('a-anysigma','C08',[(KF,"        for i in range(len(restwave_arr)):\n            lam0 = restwave_arr[i] * (1.+z)","        lam0 = restwave_arr[0] * (1.+z)\n        for i in range(len(restwave_arr)):\n            lam0 = lam0 * restwave_arr[i]/restwave_arr[max(i-1, 0)] if i < 2 else restwave_arr[i]*(1.+z)*restwave_arr[0]/restwave_arr[0]")]) if False else
('a-zerosigline','C08',[(KF,"            if np.abs(sigma_wide).max() > 0.:\n                sigma_lam_arr","            if sigma_wide.max() > 0.:\n                sigma_lam_arr")]),
('a-collapse-firstz','C08',[(KF,"I_Vxy[wh_closest,j,k] += I*delt_z","I_Vxy[wh_closest,j,k] += I*delt_z if I > 0. else 0.")]),
('a-vel-sumratio','C08',[(KF,"        I_Vxy += I_Vxy_oneline\n","        I_Vxy += I_Vxy_oneline*np.sum(flux_ratio_arr)/np.max(flux_ratio_arr)/len(flux_ratio_arr)\n")]),
('a-siglam-rest','C08',[(KF,"sigma_lam_arr = (sigma_wide/c_kms)*lam0","sigma_lam_arr = (sigma_wide/c_kms)*(restwave_arr[0]*(1.+z))")]),
('a-argmin-edge','C08',[(KF,"                    I_Vxy[wh_closest,j,k] += I*delt_z","                    if wh_closest < nWave - 1: I_Vxy[wh_closest,j,k] += I*delt_z")]),
# C28
('a-illum-whhalf','C28',[(KF,"xarr[wh_in_slit_x[argmax]] - xarr[wh_in_slit_x[wh_half[0]]]","xarr[wh_in_slit_x[argmax]] - xarr[wh_half[0]]")]),
('a-illum-delx','C28',[(KF,"        if delx_y > 0.5*tot_slit_width:","        if x_u > 0.5*tot_slit_width:")]),
('a-illum-width','C28',[(KF,"        FWHM_arcsec = x_u - x_l\n","        FWHM_arcsec = min(x_u - x_l, FWHM_arcsec_in)\n")]),
('a-illum-swap','C28',[(KF,"        if x_u < -0.5*tot_slit_width:\n            x_u = -0.5","        if x_u < -0.5*tot_slit_width:\n            x_u = 0.5")]),
# C07
('a-conv-trimnorm','C07',[(KF,"        spectra_cube_see_conv *= np.sum(spectra_cube)/np.sum(spectra_cube_see_conv)","        spectra_cube_see_conv *= np.sum(spectra_cube[0])/np.sum(spectra_cube_see_conv[0])")]),
('a-inst-even','C07',[(KF,"    if len(wave_arr) % 2 == 0:\n        xx = wave_arr[:-1]\n    else:\n        xx = wave_arr\n","    xx = wave_arr\n")]),
('a-inst-axis','C07',[(KF,"    model_out *= fluxtot/np.sum(model_out)","    model_out *= fluxtot/np.sum(np.abs(model_out))")]),
('a-rebin-mean','C07',[(KF,"['.sum(%d)'%(i+1) for i in range(lenShape)]","['.sum(%d)'%(i+1) if i < 2 else '.mean(%d)'%(i+1) for i in range(lenShape)]")]),
('a-flat-norm','C07',[(KF,"        pstamp_conv = fftconvolve(pstamp, conv_stamp, mode='same')","        pstamp_conv = fftconvolve(pstamp, conv_stamp/np.abs(conv_stamp).sum(), mode='same')")]),
('a-fwhm0','C07',[(KF,"    if PSF.PSF_FWHM > 0.:\n        kern3D","    if PSF.PSF_FWHM > 0. and spectra_cube.shape[0] > 1:\n        kern3D")]),
# C14
('a-sige-d','C14',[(KF,"aperModel1DDisp.Ie, d=aperModel1DDisp.d, r_core=aperModel1DDisp.r_core, re_mass","aperModel1DDisp.Ie, r_core=aperModel1DDisp.r_core, re_mass")]),
('a-sige-rcore','C14',[(KF,"aperModel1DDisp.galaxy.n, aperModel1DDisp.Ie,\n            r_core=aperModel1DDisp.r_core)","aperModel1DDisp.galaxy.n, aperModel1DDisp.Ie)")]),
('a-sigprof','C14',[(KF,"sigma_cnst = 1./np.power(((re+r_core_val)/re), d)","sigma_cnst = 1./np.power(1.+r_core_val, d)")]),
('a-rellip','C14',[(KF,"    r_int_ell = np.sqrt(q * (yp**2) + 1./q * (xp**2))","    r_int_ell = np.sqrt((yp**2) + 1./q**2 * (xp**2))")]),
('a-bn','C14',[(KF,"    return Ie*np.exp(-b_n*( (np.power( ((r + r_core_val)/re), (1./float(n)) )) - 1.) )","    return Ie*np.exp(-b_n*( (np.power( ((r + r_core_val)/re), (1./float(int(n) if n > 1 else n)) )) - 1.) )")]),
('a-aper-unmass','C14',[(KF,"                    q=1., delt_PA=0., re_mass_arcsec=re_mass_arcsec,","                    q=1., delt_PA=0., re_mass_arcsec=re_arcsec,")]),
('a-mis-npixx','C14',[(KF,"    aperModel1DDisp.padX = aperModel1DDisp.n_pix_x+1\n    aperModel1DDisp.nX = 2*(aperModel1DDisp.n_pix_x + aperModel1DDisp.padX) + 1\n\n    aperModel1DDisp.n_pix_y = aperModel1DDisp.nPixels\n","    aperModel1DDisp.padX = aperModel1DDisp.n_pix_x\n    aperModel1DDisp.nX = 2*(aperModel1DDisp.n_pix_x + aperModel1DDisp.padX) + 1\n\n    aperModel1DDisp.n_pix_y = aperModel1DDisp.nPixels\n",1)]),
('a-mis-optimal','C14',[(KF,"    if aperModel1DDisp.extraction_method == 'optimal':\n        prof_sigma = (0.5*aperModel1DDisp.extraction_width/aperModel1DDisp.delt_y)/","    if aperModel1DDisp.extraction_method == 'optimal':\n        prof_sigma = (0.5*aperModel1DDisp.extraction_width/aperModel1DDisp.delt_x)/",1)]),
('a-disp-remass','C14',[(AM,"re_mass_arcsec=self.galaxy.re_mass_arcsec_circ)\n\n        self.sigma_e","re_mass_arcsec=self.galaxy.re_arcsec_circ)\n\n        self.sigma_e",1)]),
('a-disp-router','C14',[(AM,"r_outer = self.disp_aper_radius_arcsec)","r_outer = self.galaxy.re_arcsec_circ)",1)]),
('a-disp-qmass','C14',[(AM,"self.galaxy.re_mass_arcsec_circ = self.galaxy.re_mass_arcsec* np.sqrt(self.galaxy.q_mass)","self.galaxy.re_mass_arcsec_circ = self.galaxy.re_mass_arcsec* np.sqrt(self.galaxy.q)",1)]),
('a-disp-small','C05',[(AM,"        if re_arcsec <= 0.1:\n            self.nPixels *= 2\n","        if re_arcsec < 0.1:\n            self.nPixels *= 2\n")]),
('a-disp-small2','C05',[(AM,"        self.delt_x = 0.5*self.x_aper/(self.nPixels+0.5)","        self.delt_x = 0.5*self.x_aper/(min(self.nPixels,100)+0.5)")]),
('a-disp-yproj','C05',[(AM,"            if y_proj_conv < re_arcsec_conv*q_conv:\n                y_proj_conv = re_arcsec_conv*q_conv\n            \n","") if False else (AM,"            q_conv = minor_conv_arcsec/re_arcsec_conv","            q_conv = q",1)]),
('a-disp-xc','C05',[(AM,"        self.y_arr = self.y_arr - self.yc\n\n        self.x_arr_full = np.tile(self.x_arr, (self.nY,1))","        self.y_arr = self.y_arr + self.yc\n\n        self.x_arr_full = np.tile(self.x_arr, (self.nY,1))")]),
# C05 2D grid
('a-2d-square','C05',[(AM,"        if self.y_aper == self.instrument.slit_width:\n            if self.n_pix_x != self.n_pix_y:","        if self.n_pix_y_whole == self.instrument.slit_width:\n            if self.n_pix_x != self.n_pix_y:")]),
('a-2d-deltx','C05',[(AM,"                self.n_pix_x = self.n_pix_y\n        self.delt_x = self.instrument.slit_width/self.n_pix_x","                self.n_pix_x = self.n_pix_y\n        self.delt_x = min(self.instrument.slit_width/self.n_pix_x, self.delt_y)\n        self.delt_x = self.delt_x if self.nSubpixels > 1 else self.delt_y")]),
('a-2d-m0','C05',[(AM,"        self.m0_fit = self.galaxy.spec2D.m0 + self.theta[-2]\n","        self.m0_fit = np.clip(self.galaxy.spec2D.m0 + self.theta[-2], 0, self.n_pix_y_whole)\n")]),
('a-2d-xc','C05',[(AM,"        self.x_arr = self.x_arr - self.xc\n\n","        pass\n\n",1)]) if False else
('a-2d-dwave','C05',[(AM,"self.delt_wave = np.average(self.wave_arr[1:]-self.wave_arr[:-1])","self.delt_wave = np.average(self.wave_arr[1:-1]-self.wave_arr[:-2])")]),
('a-2d-pad','C05',[(AM,"self.padX = int(np.round(((self.instrument.PSF.PSF_FWHM*self.pad_factor)/self.delt_x) ))\n\n        # Padding","self.padX = self.padY\n\n        # Padding")]) if False else ('a-2d-pad','C05',[(AM,"        self.nX = self.n_pix_x + 2*self.padX\n        self.nY = self.n_pix_y + 2*self.padY\n        self.nZ","        self.padX = self.padY\n        self.nX = self.n_pix_x + 2*self.padX\n        self.nY = self.n_pix_y + 2*self.padY\n        self.nZ",1)]),
# C09
('a-upd-m0','C09',[(AM,"if (self.theta[-1] != self.z) or (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):","if (self.theta[-1] != self.z) or (np.abs(self.galaxy.spec2D.m0 + self.theta[-2] - self.m0_fit) > 1.e-2):")]),
('a-upd-inst','C09',[(AM,"            self.delta_position_velspace = None\n            self.inst_disp_wave = None\n            self.setup_calcs()","            self.setup_calcs()")]),
('a-upd-wavereset','C09',[(AM,"        self.delt_wave = self.delt_wave_real\n        self.I_matrix","        self.I_matrix")]),
('a-upd-nwave','C09',[(AM,"        self.nWave = self.nWave_real\n        self.delt_wave","        self.delt_wave")]),
('a-upd-refm','C09',[(AM,"        self.wave_ref_matrix = self.wave_ref_matrix_real.copy()\n","        pass\n",1)]) if False else
('a-upd-upcheck','C09',[(AM,"        if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :","        if (self.kinProfile.dispProfile.theta < self.sigma_upsample_value) :")]),
('a-upd-delt','C09',[(AM,"nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)","nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real + self.delt_wave)")]),
('a-absval','C09',[(AM,"            self.kinProfile.dispProfile.theta = np.abs(self.kinProfile.dispProfile.theta)","            self.kinProfile.dispProfile.theta = np.abs(self.kinProfile.dispProfile.theta)\n            self.theta[2] = np.abs(self.theta[2])")]),
('a-floor-sign','C09',[(AM,"            if np.abs(self.kinProfile.dispProfile.theta) < self.sigma_floor_value:","            if self.kinProfile.dispProfile.theta < self.sigma_floor_value:")]),
('a-shift-inplace','C09',[(AM,"self.delta_position_velspace, self.inst_disp_wave = \\\n                        kfuncs","self.delta_position_velspace, self.inst_disp_wave = \\\n                        kfuncs") if False else (AM,"        if self.do_position_wave_shift:\n            if self.spec_type == 'velocity':","        if self.do_inst_res_conv_effective:\n            if self.spec_type == 'velocity':")]),
('a-cosphi','C09',[(AM,"        I_wide = self.I_wide\n        # Angle","        I_wide = self.I_wide\n        # Angle") if False else (AM,"self.model = self.model_out.T","self.model = self.model_out.T if self.rebin_output else self.model")]),
('a-noscale','C09',[(KM,"        self.aperModel.update_model(theta=self.theta)\n\n","        self.aperModel.update_model(theta=self.theta)\n\n") if False else (KM,"    def update_profiles(self):\n        self.kinProfile.update_theta(self.theta)","    def update_profiles(self):\n        self.kinProfile.update_theta(self.theta_init if self.aperModel is None else self.theta)")]),
('a-kc-padf','C09',[(KM,"pad_factor=self.kinModelOptions.pad_factor,","pad_factor=self.kinModelOptions.nSubpixels*0.25,",1)]),
('a-kc-upf','C09',[(KM,"adaptive_upsample_factor=self.kinModelOptions.adaptive_upsample_factor,\n","",1)]),
('a-trimx','C09',[(AM,"        trimx = [self.padX,self.n_pix_x+self.padX]\n        trimy = [self.padY,self.n_pix_y+self.padY]\n\n        self.spectra","        trimx = [self.padY,self.n_pix_x+self.padY]\n        trimy = [self.padY,self.n_pix_y+self.padY]\n\n        self.spectra")]),
# C13
('a-scale-neg','C13',[(KM,"        ratio_arr = num_arr/den_arr\n","        ratio_arr = np.abs(num_arr/den_arr)\n")]),
('a-scale-nan','C13',[(KM,"        num_arr[~np.isfinite(num_arr)] = 0.\n","        num_arr[np.isnan(num_arr)] = 0.\n")]),
('a-scale-99','C13',[(KM,"        num_arr[np.abs(den_arr) == 0.] = 0.\n","")]),
('a-scale-nosky','C13',[(KM,"wh_no_sky = galaxy.spec2D.wh_nosky.copy()","wh_no_sky = np.arange(galaxy.spec2D.wh_nosky.min(), galaxy.spec2D.wh_nosky.max()+1)")]),
# C12
('a-llike-weightlog','C12',[(KM,"            np.log10(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )","            kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix*np.log10(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )")]),
('a-redchi-ref','C12',[(KM,"        chisq_ref_allones = self.aperModel.galaxy.spec2D.fitting_weight_matrix.sum()","        chisq_ref_allones = (self.aperModel.galaxy.spec2D.fitting_weight_matrix*self.aperModel.galaxy.spec2D.spec_mask).sum()")]),
('a-chi-model','C12',[(KM,"def _model_chisq_no_weight(kinModel, model=None):","def _model_chisq_no_weight(kinModel, model=None):\n    model = None")]),
# C15
('a-rot-sig0','C15',[(AM,"theta_kinprof = np.array([0., self.theta[2], self.theta[1]])","theta_kinprof = np.array([0., self.theta[2], self.theta[1]])\n                self.theta = list(theta_kinprof)")]),
('a-rot-radius','C15',[(AM,"                V_aper = self.kinProfile.vel(self.disp_aper_radius_arcsec, 0.)\n","                V_aper = self.kinProfile.vel(self.galaxy.re_arcsec, 0.)\n",1)]),
('a-rot-rms','C15',[(AM,"self.V_RMS_aper = np.sqrt(V_aper**2 + sigma_at_aper**2)","self.V_RMS_aper = np.sqrt((V_aper*self.sini)**2 + sigma_at_aper**2)")]),
('a-rot-sini','C15',[(AM,"V_wide = self.kinProfile.vel(self.r, self.zint)*cos_phi*self.sini\n        sigma","V_wide = self.kinProfile.vel(self.r, self.zint)*cos_phi\n        sigma")]),
('a-rot-cosphi','C15',[(AM,"        sigsq_I_wide = self.RMS_sq_wide*self.I_wide","        sigsq_I_wide = self.RMS_sq_wide*np.abs(self.I_wide)")]),
('a-rot-gy','C14',[(AM,"prof_sigma = (0.5*self.y_aper/self.delt_y)/(2.*np.sqrt(2.*np.log(2.)))","prof_sigma = (0.5*self.y_aper/self.delt_x)/(2.*np.sqrt(2.*np.log(2.)))")]),
('a-rot-trim','C14',[(AM,"        trimy = [self.padY,self.n_pix_y+self.padY]\n\n        self.I_conv","        trimy = [self.padX,self.n_pix_y+self.padX]\n\n        self.I_conv")]),
('a-rot-bt','C15',[(AM,"            theta_kinprof = np.array([self.theta[1], self.theta[2], 0.])","            theta_kinprof = np.array([self.theta[1], self.theta[2], None])")]),
# C10
('a-upd-order','C10',[(KM,"        for i in range(len(self.theta)):\n            if self.theta_vary[i]:","        for i in range(len(theta_fitting)):\n            if self.theta_vary[i]:")]),
('a-nfree','C10',[(KM,"        wh_free = np.where(self.theta_vary)[0]\n        self.n_free_param = len(wh_free)\n","        if not hasattr(self, 'n_free_param'):\n            self.n_free_param = len(np.where(self.theta_vary)[0])\n")]),
('a-lencheck','C10',[(KM,"        if len(theta_fitting) != self.n_free_param:","        if len(theta_fitting) < self.n_free_param:",1)]),
('a-thetainit','C10',[(KM,"                self.theta_init = self.theta.copy()","                self.theta_init = self.theta")]),
]
