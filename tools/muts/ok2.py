# behaviour-preserving edits of kin_classes, kin_model, instrument, general_utils
KC='model/kin_classes.py'; KM='model/kin_model.py'; KF='model/kin_functions.py'
M=[
('ok-vel','C03,C15,C23',[(KC,"""        try:
            return 2./np.pi * self.theta[0] * np.arctan( r /self.theta[1] )
        except:
            return np.inf
""","""        v_asymptotic, r_turn = self.theta[0], self.theta[1]
        try:
            x = r / r_turn
        except:
            return np.inf
        return (v_asymptotic * 2./np.pi) * np.arctan(x)
""")]),
('ok-update-theta','C03,C09,C15,C23,C10',[(KC,"""        # Distribute params based on input theta:
        if self.velProfile is not None:
            self.velProfile.theta = self.theta[:self.velProfile.n_params]

        if self.dispProfile is not None:
            self.dispProfile.theta = self.theta[self.velProfile.n_params:self.velProfile.n_params+self.dispProfile.n_params]
""","""        start = 0
        for profile in (self.velProfile, self.dispProfile):
            if profile is None:
                continue
            stop = start + profile.n_params
            profile.theta = self.theta[start:stop]
            start = stop
""")]),
('ok-setup-profiles','C03,C25',[(KC,"""        if self.velProfile is not None:
            self.velProfile.n_params = len(self.velProfile.theta)
        if self.dispProfile is not None:
            self.dispProfile.n_params = len(self.dispProfile.theta)
""","""        for profile in [self.dispProfile, self.velProfile]:
            if profile is not None:
                profile.n_params = np.asarray(profile.theta).shape[0]
""")]),
('ok-int','C04,C09',[(KC,"""        b_n = 2.*self.n - 0.324      # Ciotti+Bertin99
        return self.Ie*np.exp( -b_n * (np.power( (r/self.re_arcsec), 1./float(self.n) ) -1. ) )
""","""        b_n = 2.*self.n - 0.324      # Ciotti+Bertin99
        scaled = (r/self.re_arcsec)**(1./self.n)
        return self.Ie*np.exp(b_n*(1. - scaled))
"""),(KC,"""        self.get_gal_params(galaxy)
        self.z0 = self.q0*(self.re_arcsec/1.676)
""","""        super(IntProfileExpZScale, self).update_values(galaxy)
        self.z0 = self.q0*self.re_arcsec/1.676
"""),(KC,"""        return self.intProfile_r.int(r_perp) * self.intProfile_z.int(z)
""","""        vertical = self.intProfile_z.int(z)
        radial = self.intProfile_r.int(r_perp)
        return vertical*radial
""")]),
('ok-prior','C11',[(KC,"""        i_free = 0

        statements = []
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                statements.append(kfuncs._between(self.theta_bounds[i], theta_fitting[i_free]))
                i_free += 1

        if np.array(statements).all():
            prior = 0.

            return prior
        else:
            return -np.inf
""","""        i_free = 0
        for i, vary in enumerate(self.theta_vary):
            if not vary:
                continue
            if not kfuncs._between(self.theta_bounds[i], theta_fitting[i_free]):
                return -np.inf
            i_free += 1
        return 0.
""")]),
('ok-prior-all','C11',[(KC,"""        statements = []
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                statements.append(kfuncs._between(self.theta_bounds[i], theta_fitting[i_free]))
                i_free += 1

        if np.array(statements).all():
            prior = 0.

            return prior
        else:
            return -np.inf
""","""        inside = True
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                inside = inside and bool(kfuncs._between(self.theta_bounds[i], theta_fitting[i_free]))
                i_free = i_free + 1
        return 0. if inside else -np.inf
""")]),
('ok-update-params','C10,C25,C26',[(KM,"""        j = 0
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                self.theta[i] = theta_fitting[j]
                j += 1
""","""        for j, i in enumerate(np.where(self.theta_vary)[0]):
            self.theta[i] = theta_fitting[j]
""")]),
('ok-update-params2','C10,C25,C26',[(KM,"""        j = 0
        for i in range(len(self.theta)):
            if self.theta_vary[i]:
                self.theta[i] = theta_fitting[j]
                j += 1
""","""        free = iter(theta_fitting)
        for i, vary in enumerate(self.theta_vary):
            if vary:
                self.theta[i] = next(free)
""")]),
('ok-scale','C13,C10',[(KM,"""        wh_no_sky = galaxy.spec2D.wh_nosky.copy()

        num_arr = np.sum(galaxy.spec2D.flux[:,wh_no_sky]*self.model[:,wh_no_sky]/\\
                            galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
        den_arr = np.sum(self.model[:,wh_no_sky]**2/galaxy.spec2D.flux_err[:,wh_no_sky]**2, axis=1)
""","""        spec2D = galaxy.spec2D
        cols = spec2D.wh_nosky
        model_good = self.model[:,cols]
        ivar = 1./spec2D.flux_err[:,cols]**2
        num_arr = (spec2D.flux[:,cols]*model_good*ivar).sum(axis=1)
        den_arr = (model_good**2*ivar).sum(axis=1)
"""),(KM,"""        ratio_tile = np.tile(np.array([ratio_arr]).T, (1, self.model.shape[1]))

        self.model *= ratio_tile
""","""        self.model = self.model*ratio_arr[:,np.newaxis]
""")]),
('ok-scale-loop','C13',[(KM,"""        num_arr[~np.isfinite(num_arr)] = 0.
        num_arr[np.abs(den_arr) == 0.] = 0.
        den_arr[np.abs(den_arr) == 0.] = -99.

        ratio_arr = num_arr/den_arr
        # Tile it: column over rows: like nY
        ratio_tile = np.tile(np.array([ratio_arr]).T, (1, self.model.shape[1]))

        self.model *= ratio_tile
""","""        ratio_arr = np.zeros(len(num_arr))
        for k in range(len(num_arr)):
            if np.isfinite(num_arr[k]) and den_arr[k] != 0.:
                ratio_arr[k] = num_arr[k]/den_arr[k]

        for k in range(self.model.shape[0]):
            self.model[k,:] *= ratio_arr[k]
""")]),
('ok-make-update','C10,C13,C26',[(KM,"""        # Check that the input matches what is already setup:
        if len(theta_fitting) != self.n_free_param:
            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")

        self.update_parameters(theta_fitting)       # expand theta_fitting into full model theta
        #self.aperModel.kinProfile.update_theta(self.theta)

        # self.aperModel.update_model(theta=self.theta,
        #                         kinProfile=self.aperModel.kinProfile)
        self.aperModel.update_model(theta=self.theta)

        # # Save the 2D model to base part of class
        self.model = self.aperModel.model.copy()
        if not self.no_scale:
            self.scale_model(self.aperModel.galaxy)
""","""        self._check_n_free(theta_fitting)
        self.update_parameters(theta_fitting)
        self.aperModel.update_model(theta=self.theta)
        self._collect_model()

    def _check_n_free(self, theta_fitting):
        if len(theta_fitting) != self.n_free_param:
            raise ValueError("Number of fitting parameters does not match initialized number of free parameters")

    def _collect_model(self):
        self.model = self.aperModel.model.copy()
        if not self.no_scale:
            self.scale_model(self.aperModel.galaxy)
"""),(KM,"""            self.aperModel.update_model(theta=self.theta)

        # # Save the 2D model to base part of class
        self.model = self.aperModel.model.copy()
        if not self.no_scale:
            self.scale_model(self.aperModel.galaxy)

    def update_model(""","""            self.aperModel.update_model(theta=self.theta)

        self._collect_model()

    def update_model(""")]),
('ok-nfree','C10,C12,C25',[(KM,"""        wh_free = np.where(self.theta_vary)[0]
        self.n_free_param = len(wh_free)
""","""        self.n_free_param = int(np.sum(self.theta_vary))
""")]),
('ok-chisq','C12',[(KM,"""    chisq_arr_raw = ((((kinModel.aperModel.galaxy.spec2D.flux-model)*\\
                kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)*\\
                kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix

    chisq = chisq_arr_raw.sum()

    return chisq
""","""    spec2D = kinModel.aperModel.galaxy.spec2D
    resid = spec2D.spec_mask*(model - spec2D.flux)/spec2D.flux_err
    return np.sum(spec2D.fitting_weight_matrix*resid*resid)
"""),(KM,"""    chisq_arr_raw_modified = kinModel.aperModel.galaxy.spec2D.spec_mask * \\
            ( kinModel.aperModel.galaxy.spec2D.fitting_weight_matrix * \\
                 ((((kinModel.aperModel.galaxy.spec2D.flux-model))/\\
                kinModel.aperModel.galaxy.spec2D.flux_err)**2.) + \\
            np.log10(2.*np.pi*kinModel.aperModel.galaxy.spec2D.flux_err**2) )
""","""    s = kinModel.aperModel.galaxy.spec2D
    norm_term = np.log10(2.*np.pi*s.flux_err**2)
    chi_term = s.fitting_weight_matrix*((s.flux-model)/s.flux_err)**2
    chisq_arr_raw_modified = s.spec_mask*(chi_term + norm_term)
"""),(KM,"""        chisq = _model_chisq(self)

        wh = np.where(self.aperModel.galaxy.spec2D.spec_mask == 1)

        nFree = self.n_free_param
        nPix = len(wh[0])

        return chisq/float(nPix-nFree)
""","""        return _model_chisq(self)/self._n_dof()

    def _n_dof(self):
        n_used = np.sum(self.aperModel.galaxy.spec2D.spec_mask == 1)
        return float(n_used-self.n_free_param)
""")]),
('ok-chisq-flat','C12',[(KM,"""    chisq_arr_raw = ((((kinModel.aperModel.galaxy.spec2D.flux-model)*\\
                kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)

    chisq = chisq_arr_raw.sum()
""","""    spec2D = kinModel.aperModel.galaxy.spec2D
    good = np.where(spec2D.spec_mask == 1)
    chisq = np.sum(((spec2D.flux[good]-model[good])/spec2D.flux_err[good])**2)
""")]),
('ok-chisq-rows','C12',[(KM,"""    chisq_arr_raw = ((((kinModel.aperModel.galaxy.spec2D.flux-model)*\\
                kinModel.aperModel.galaxy.spec2D.spec_mask)/kinModel.aperModel.galaxy.spec2D.flux_err)**2.)

    chisq = chisq_arr_raw.sum()
""","""    spec2D = kinModel.aperModel.galaxy.spec2D
    chisq = 0.
    for k in range(spec2D.flux.shape[0]):
        row = (spec2D.flux[k]-model[k])*spec2D.spec_mask[k]/spec2D.flux_err[k]
        chisq += np.sum(row**2)
""")]),
]
