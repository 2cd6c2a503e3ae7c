I='instrument.py'; K='model/kin_classes.py'; F='fit/fit1D.py'; E='model/emission_lines_model.py'
M=[
('d-psf-kw','C06',[(I,"            self.PSF = PSFMoffat(**kwargs)\n","            self.PSF = PSFMoffat(**{k: v for k, v in kwargs.items() if k != 'yspace_dither_arc'})\n")]),
('d-psf-case','C06',[(I,"kwargs['PSF_type'].strip().lower() == 'Moffat'.lower()","kwargs['PSF_type'].strip() == 'Moffat'")]),
('d-psf-alpha','C06',[(I,"np.power(2., 1./beta) -1))","np.power(2., 1./2.5) -1))")]),
('d-psf-beta-set','C06',[(I,"        self.PSF_beta = PSF_beta\n\n        self.setAttr(**kwargs)","        self.PSF_beta = PSF_beta if PSF_beta > 2. else 2.5\n\n        self.setAttr(**kwargs)")]),
('d-psf-neg','C06',[(I,"        conv_stamp_negu = np.exp(- (xarr_flat**2 + (yarr_flat-yspace_dither_arc)**2)/(2.*(PSF_sigma**2)))","        conv_stamp_negu = conv_stamp_negl[::-1,:]")]),
('d-inst-order','C25',[(I,"    def copy(self):\n        return copy.deepcopy(self)","    def copy(self):\n        c = copy.copy(self)\n        c.PSF = copy.copy(self.PSF)\n        return c")]),
('d-gal-copy','C25',[('galaxy.py',"    def copy(self):\n        return copy.deepcopy(self)","    def copy(self):\n        c = copy.copy(self)\n        return c",1)]),
# kin_classes
('d-vel-guard','C03',[(K,"        try:\n            return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )","        try:\n            return 2./np.pi * self.theta[0] * np.arctan( np.abs(r) /self.theta[1] )")]),
('d-theta-alias','C03',[(K,"        self.theta = theta\n\n        # ","        self.theta = np.abs(theta)\n\n        # ")]),
('d-nparams','C03',[(K,"            self.dispProfile.n_params = len(self.dispProfile.theta)","            self.dispProfile.n_params = 1")]),
('d-disp-zero','C03',[(K,"        return 0.*r + self.theta[0]","        return np.where(r > 0, self.theta[0], 0.)")]),
('d-scale-upd','C04',[(K,"        self.z0 = self.q0*(self.re_arcsec/1.676)","        self.z0 = self.q0*(self.re_arcsec/1.678)")]),
('d-int-upd-r','C04',[(K,"        self.intProfile_r.update_values(galaxy)\n        self.intProfile_z.update_values(galaxy)","        self.intProfile_z.update_values(galaxy)")]),
('d-int-n','C04',[(K,"1./float(self.n)","1./float(int(self.n+.5))")]),
('d-prior-any','C11',[(K,"        if np.array(statements).all():","        if np.array(statements).any() or len(statements) == 0:")]),
('d-prior-ifree','C11',[(K,"kfuncs._between(self.theta_bounds[i], theta_fitting[i_free])","kfuncs._between(self.theta_bounds[i], theta_fitting[min(i_free, i)])")]),
('d-prior-first','C11',[(K,"kfuncs._between(self.theta_bounds[i], theta_fitting[i_free])","kfuncs._between(self.theta_bounds[i_free], theta_fitting[i_free])")]),
# fit1D
('d-1d-bound','C27',[(F,"        elif (result.params['vel_disp'].value < 0.):\n            params = self.make_params(vel_disp_bound=True)","        elif (result.params['vel_disp'].value < 0.):\n            params = self.make_params(flux_bound=True)")]),
('d-1d-mcdata','C27',[(F,"                    spec_perturb = self.galaxy.spec1D_trim.flux.copy()","                    spec_perturb = self.galaxy.spec1D_trim.flux")]),
('d-1d-mcmask','C27',[(F,"                            args=(self.galaxy.spec1D_trim.obswave, spec_perturb,\n                                self.galaxy.spec1D_trim.flux_err, self.galaxy.spec1D_trim.spec_mask))","                            args=(self.galaxy.spec1D_trim.obswave, spec_perturb,\n                                self.galaxy.spec1D_trim.flux_err, np.ones(len(spec_perturb))))")]),
('d-1d-mcerr','C27',[(F,"                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals","                    spec_perturb += self.galaxy.spec1D_trim.flux_err*rand_vals[0]")]),
('d-1d-valcol','C27',[(F,"                        value_matrix[i,jj] = result_mc.params['cont_coeff'+str(j)].value","                        value_matrix[i,jj] = result_mc.params['cont_coeff0'].value")]),
('d-1d-fluxcol','C27',[(F,"                    jj = 1\n","                    jj = 0\n")]),
('d-1d-z','C27',[(F,"        self.z = self.lmfit_result.params['z'].value","        self.z = self.lmfit_result.params['z'].init_value if False else self.z")]),
('d-1d-final','C27',[(F,"self.final_model = emisModel.make1DProfile(self.lmfit_result.params,","self.final_model = emisModel.make1DProfile(params,")]),
('d-1d-zmin','C27',[(F,"                    max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[0][0])\n\n        if vel_disp_bound","                    max=self.galaxy.z+self.del_obs_lam/self.restwave_arr[-1][0])\n\n        if vel_disp_bound")]),
('d-1d-trim','C27',[(F,"                linename=self.names_arr[0])","                linename=self.names_arr[-1])")]),
('d-1d-edge','C27',[(F,"        self.galaxy.spec1D_trim.mask_edges()","        self.galaxy.spec1D.mask_edges()")]),
('d-1d-coeffkeep','C27',[(F,"            self.cont_coeff = cont_coeff_tmp","            self.cont_coeff = cont_coeff_tmp + 1.")]),
('d-1d-nmc','C27',[(F,"                for i in range(self.num_MC):","                for i in range(self.num_MC-1):")]),
('d-1d-pct','C27',[(F,"limits = np.percentile(value_matrix, [15.865, 84.135], axis=0).T","limits = np.percentile(value_matrix, [15.865, 84.135], axis=0).T[::1]\n            limits[:,1] = np.maximum(limits[:,1], values_true)")]),
# refactorings
('ok-psf-meshgrid','C06',[(I,"    conv_stamp = np.exp(- (xarr_flat**2 + yarr_flat**2)/(2.*(PSF_sigma**2)))\n","    rsq = xarr_flat*xarr_flat + yarr_flat*yarr_flat\n    conv_stamp = np.exp(-rsq/(2.*PSF_sigma*PSF_sigma))\n")]),
('ok-update-local','C03',[(K,"            self.dispProfile.theta = self.theta[self.velProfile.n_params:self.velProfile.n_params+self.dispProfile.n_params]","            first = self.velProfile.n_params\n            last = first + self.dispProfile.n_params\n            self.dispProfile.theta = self.theta[first:last]")]),
('ok-prior-early','C11',[(K,"        if np.array(statements).all():\n            prior = 0.\n","        if all(statements):\n            prior = 0.\n")]),
('ok-1d-fluxes','C27',[(F,"        flux_arr = np.array([])\n        for i in range(len(self.names_arr)):\n            flux_arr = np.append(flux_arr, self.lmfit_result.params['flux'+str(i)].value)\n        self.flux_arr = flux_arr","        self.flux_arr = np.array([self.lmfit_result.params['flux'+str(i)].value for i in range(len(self.names_arr))])")]),
('ok-1d-perturb','C27',[(F,"                    spec_perturb = self.galaxy.spec1D_trim.flux.copy()\n","                    spec_perturb = np.array(self.galaxy.spec1D_trim.flux)\n")]),
('ok-1d-cols','C27',[(F,"                    value_matrix[i,0] = result_mc.params['z'].value\n                    value_matrix[i,1] = result_mc.params['vel_disp'].value\n","                    best = result_mc.params\n                    value_matrix[i,0], value_matrix[i,1] = best['z'].value, best['vel_disp'].value\n")]),
('ok-1d-helper','C27',[(F,"        if flux_bound:\n            for i in range(len(self.names_arr)):\n                params.add('flux'+str(i), value=self.flux_arr[i], min=0.)\n        else:\n            for i in range(len(self.names_arr)):\n                params.add('flux'+str(i), value=self.flux_arr[i])","        limits = dict(min=0.) if flux_bound else {}\n        for i, value in enumerate(self.flux_arr[:len(self.names_arr)]):\n            params.add('flux{}'.format(i), value=value, **limits)")]),
]
