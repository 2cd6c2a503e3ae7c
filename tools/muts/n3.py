F2='fit/fit2D.py'; IO='fit/fit_io.py'; FC='fit/fit_core.py'
LOOP="            fitEmis2DResults.__dict__[key] = copy.deepcopy(self.__dict__[key])"
M=[
('s-shallow','C30',[(F2,LOOP,"            fitEmis2DResults.__dict__[key] = copy.copy(self.__dict__[key])")]),
('s-share','C30',[(F2,LOOP,"            fitEmis2DResults.__dict__[key] = copy.deepcopy(self.__dict__[key]) if key != 'mcmcOptions' else self.__dict__[key]")]),
('s-skipnone','C30',[(F2,LOOP,"            if fitEmis2DResults.__dict__[key] is None:\n                fitEmis2DResults.__dict__[key] = copy.deepcopy(self.__dict__[key])")]),
('s-live-pstamp','C30',[(F2,"            del fitEmis2DResults.galaxy.pstamp","            del fitEmis2DResults.galaxy.pstamp\n            self.galaxy.pstamp = None")]),
('s-hdr','C30',[(F2,"            del fitEmis2DResults.galaxy.spec2D.spec_hdr","            del self.galaxy.spec2D.spec_hdr")]),
('s-reload-none','C30',[(F2,"                self.__dict__[k] = fitEmis2DResults.__dict__[k]","                if fitEmis2DResults.__dict__[k] is not None:\n                    self.__dict__[k] = fitEmis2DResults.__dict__[k]")]),
('s-reload-drop','C30',[(F2,"            for k in fitEmis2DResults.__dict__.keys():\n                self","            for k in ['galaxy', 'instrument', 'mcmc_results', 'thetaSettings']:\n                self")]),
('s-nocopy','C30',[(F2,"self.kinModel.bestfit = self.kinModel.copy()","self.kinModel.bestfit = copy.copy(self.kinModel)")]),
('s-copyfirst','C30',[(F2,"""        self.make_model(theta_fitting)
        self.kinModel.bestfit = self.kinModel.copy()""","""        self.kinModel.bestfit = self.kinModel.copy()
        self.make_model(theta_fitting)""")]),
('s-always-reload','C30',[(F2,"        if self.sampler_dict is None:","        if (self.sampler_dict is None) | (self.mcmcOptions.filename_sampler is not None):")]),
('s-save-early','C30',[(F2,"""        # Do analysis on sampler + add other derived parameters
        self.analyze_results()

        # Save model to disk: entire fit2D to pickle
        self.save_bestfit_model()
""","""        # Save model to disk: entire fit2D to pickle
        self.save_bestfit_model()

        # Do analysis on sampler + add other derived parameters
        self.analyze_results()
""")]),
('s-res0','C30',[(F2,"if self.instrument.instrument_resolution < 0.:","if self.instrument.instrument_resolution <= 0.:")]),
('s-noresave','C30',[(F2,"        if resave_bestfit:","        if resave_bestfit & doPlot:")]),
('s-keepmodel','C30',[(F2,"        if self.kinModel is None:\n            self.setup_model()\n\n        #self.reload","        self.setup_model()\n\n        #self.reload")]),
('s-setattr','C30',[(F2,"        self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if key in self.__dict__]))","        self.__dict__.update(dict([(key, kwargs.get(key)) for key in kwargs if self.__dict__.get(key) is None]))")]),
('s-append','C30',[(IO,'open(filename, "wb")','open(filename, "ab")')]),
('s-set-from-sampler','C30',[(IO,"        fitEmis2D_fit.__dict__[key] = copy.deepcopy(fitEmis2D.__dict__[key])","        fitEmis2D_fit.__dict__[key] = fitEmis2D.__dict__[key]")]),
('s-aper','C30',[(IO,"fitEmis2D_fit = sampler.log_prob_fn.args[0].copy()","fitEmis2D_fit = sampler.log_prob_fn.args[0]")]),
('s-results-default','C30',[(FC,"        self.flux_ratio_arr = None  # Relative flux strengths\n\n        # Kinematic profile function. Fiducial takes 5 parameters\n        self.kinProfile = KinProfileFiducial()","        # Kinematic profile function. Fiducial takes 5 parameters\n        self.kinProfile = KinProfileFiducial()")]),
('s-stale-chain','C30',[(F2,"        # Run emcee: also pass a pared\n        self.run_mcmc()","        # Run emcee: also pass a pared\n        if self.sampler_dict is None:\n            self.run_mcmc()")]),
('ok-with-open','C30',[(F2,'            pickle.dump(fitEmis2DResults, open(self.mcmcOptions.filename_bestfit_model, "wb"))','            with open(self.mcmcOptions.filename_bestfit_model, mode="wb") as f:\n                pickle.dump(fitEmis2DResults, f)')]),
('ok-io-helper','C30',[(F2,'            fitEmis2DResults = pickle.load(open(self.mcmcOptions.filename_bestfit_model, "rb"))','            fitEmis2DResults = fit_io.loadpickle(self.mcmcOptions.filename_bestfit_model)')]),
('ok-items','C30',[(F2,"            for k in fitEmis2DResults.__dict__.keys():\n                self.__dict__[k] = fitEmis2DResults.__dict__[k]","            self.__dict__.update(fitEmis2DResults.__dict__)")]),
('ok-vars','C30',[(F2,"""        for key in fitEmis2DResults.__dict__.keys():
            #if key != 'galaxy':
            fitEmis2DResults.__dict__[key] = copy.deepcopy(self.__dict__[key])
""","""        for key in list(vars(fitEmis2DResults)):
            setattr(fitEmis2DResults, key, copy.deepcopy(getattr(self, key)))
""")]),
('ok-pop','C30',[(F2,"        if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():\n            del fitEmis2DResults.galaxy.spec2D.spec_hdr","        fitEmis2DResults.galaxy.spec2D.__dict__.pop('spec_hdr', None)")]),
('ok-deepbest','C30',[(F2,"self.kinModel.bestfit = self.kinModel.copy()","bestfit = copy.deepcopy(self.kinModel)\n        self.kinModel.bestfit = bestfit")]),
('ok-io-with','C30',[(IO,'    data = pickle.load(open(filename, "rb"))\n    return data','    with open(filename, "rb") as f:\n        return pickle.load(f)')]),
('ok-io-helper2','C30',[(IO,"    # Copy the key stuff:\n    whitelist_keys = ['galaxy', 'instrument', 'intensityProfile', 'kinProfile']\n    for key in whitelist_keys:\n        fitEmis2D_fit.__dict__[key] = copy.deepcopy(fitEmis2D_fit.kinModel.aperModel.__dict__[key])","    aperModel = fitEmis2D_fit.kinModel.aperModel\n    for key in ('galaxy', 'instrument', 'intensityProfile', 'kinProfile'):\n        setattr(fitEmis2D_fit, key, copy.deepcopy(getattr(aperModel, key)))")]),
('ok-none-guard','C30',[(F2,"        if self.instrument_img is not None:\n            inst_img = self.instrument_img.copy()\n        else:\n            inst_img = None","        inst_img = None if self.instrument_img is None else self.instrument_img.copy()")]),
]
