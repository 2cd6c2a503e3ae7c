GA='general/galaxy_utils.py'; G='galaxy.py'; F2='fit/fit2D.py'
M=[
('m-qual-alias','C31',[(G,"""    def get_skyline_mask(self, full=True):
        if self.mask_qual is None:
            self.mask_qual = self.spec_mask.copy()""","""    def get_skyline_mask(self, full=True):
        if self.mask_qual is None:
            self.mask_qual = self.spec_mask""")]),
('m-lowsnr-drop','C31',[(G,"self.spec_mask *= self.mask_low_snr","self.mask_qual *= self.mask_low_snr")]),
('m-not-marked','C31',[(G,"            self.prepared_for_fitting = True","            self.prepared_for_fitting = not self.no_continuum_subtraction")]),
('m-delt-falsy','C31',[(G,"if galaxy.delt_PA is None:\n                galaxy.calc","if not galaxy.delt_PA:\n                galaxy.calc")]),
('m-weight-mask','C31',[(G,"            self.spec_weight = np.ones(self.flux.shape)","            self.spec_weight = self.spec_mask if self.spec_mask is not None else np.ones(self.flux.shape)")]),
('m-mask-order','C31',[(G,"""        if (self.spec_mask is None) & (self.flux is not None):
            self.spec_mask = np.ones(self.flux.shape)



    ""","""        if (self.spec_mask is None) & (self.flux is not None):
            self.spec_mask = np.ones(self.flux.shape[0])



    """)]) ,
('m-lam0-always','C31',[(G,"if (self.lam0 is None) & (self.spec_type == 'wave'):","if (self.spec_type == 'wave'):")]),
('m-dlam-first','C31',[(G,"self.dlam = np.average(self.wave[1:]-self.wave[:-1])","self.dlam = self.wave[1]-self.wave[0]")]),
('m-galaxy-spec','C31',[(G,"""            self.prepared_for_fitting = True

        # Make sure galaxy is updated:
        galaxy.spec2D = self""","""            self.prepared_for_fitting = True

            # Make sure galaxy is updated:
            galaxy.spec2D = self""")]),
('m-trim-after','C31',[(G,"""            self.trim_spectrum_spatial(galaxy, instrument)

            ##########
            # Determine weighting for fitting:
            self.calculate_fit_weights()
""","""            self.calculate_fit_weights()
            self.trim_spectrum_spatial(galaxy, instrument)
""")]),
('m-cutoff','C31',[(G,"snr_cut=self.row_snr_cut,","snr_cut=2.,")]),
('m-setspec','C31',[(G,"""       self.spec2D = obsSpectrum2D

       # Ensure few basic things are loaded
       self.spec2D.load_basic_defaults(self)

    def set_pstamp""","""       self.spec2D = obsSpectrum2D

    def set_pstamp""")]),
('m-ratio-key','C31',[(G,"if (self.linenames_arr is not None) & (self.flux_ratio_arr is None):","if (self.linenames_arr is not None) & (self.restwave_arr is None):")]),
('ok-order','C31',[(G,"""            self.initialize_lineset()
            self.initialize_skylevels()
            self.initialize_derived_variables(galaxy)

            self._ensure_mask_weight()
""","""            self._ensure_mask_weight()
            self.initialize_skylevels()
            self.initialize_lineset()
            self.initialize_derived_variables(galaxy)
""")]),
('ok-early-return','C31',[(G,"""        if not self.prepared_for_fitting:
            self.initialize_lineset()
            self.initialize_skylevels()
            self.initialize_derived_variables(galaxy)

            self._ensure_mask_weight()
""","""        if self.prepared_for_fitting:
            galaxy.spec2D = self
            return

        if True:
            self.initialize_lineset()
            self.initialize_skylevels()
            self.initialize_derived_variables(galaxy)

            self._ensure_mask_weight()
""")]),
('ok-mask-expr','C31',[(G,"self.spec_mask *= self.mask_low_snr","self.spec_mask = self.spec_mask*self.mask_low_snr")]),
('ok-dlam-diff','C31',[(G,"self.dlam = np.average(self.wave[1:]-self.wave[:-1])","self.dlam = np.mean(np.diff(self.wave))")]),
('ok-dlam-ends','C31',[(G,"self.dlam = np.average(self.wave[1:]-self.wave[:-1])","self.dlam = (self.wave[-1]-self.wave[0])/(len(self.wave)-1.)")]),
('ok-angle-later','C31',[(G,"""            # Calculate deltPA of galaxy major axis within slit
            if galaxy.delt_PA is None:
                galaxy.calculate_slit_object_delta_PA()

            ##########
            # Calculate m0_shift, lam0 for fitting if they're fixed:
            self.get_m0_lam0_pos(galaxy)
""","""            self.get_m0_lam0_pos(galaxy)

            if galaxy.delt_PA is None:
                galaxy.calculate_slit_object_delta_PA()
""")]),
('ok-ones-like','C31',[(G,"            self.spec_weight = np.ones(self.flux.shape)","            self.spec_weight = np.ones_like(self.flux)")]),
('ok-listcomp','C31',[(G,"""            flux_ratio_arr = []
            for linename in self.linenames_arr:
                flux_ratio_arr.append(io.read_line_ratio(self.restwave_param_filename, linename=linename))
            self.flux_ratio_arr = np.array(flux_ratio_arr)""","""            self.flux_ratio_arr = np.array([io.read_line_ratio(self.restwave_param_filename, linename=line) for line in self.linenames_arr])""")]),
]
