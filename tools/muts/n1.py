GA='general/galaxy_utils.py'; GU='general/general_utils.py'; G='galaxy.py'
M=[
('p-elif-drop-snr','C32',[(GA,"(np.abs(spec2D.m0_shift_fit) <= 1.) & (spec2D.m0_peak_snr >= 3.)","(np.abs(spec2D.m0_shift_fit) <= 1.)")]),
('p-shift-sign','C32',[(GA,"""                     m0_shift = result.params['mu'].value - spec2D.m0
                elif""","""                     m0_shift = result.params['mu'].value - spec2D.ypos
                elif""")]),
('p-lowsnr-err','C32',[(GA,"""    err = spec2D.flux_err*spec2D.mask_sky*spec2D.mask_low_snr

    # Straight""","""    err = spec2D.flux_err*spec2D.mask_sky

    # Straight""")]),
('p-exc-keeps','C32',[(GA,"""            print( "Exception m0_shift_lam0_gausfits (yprof)")
            m0_shift = 0.""","""            print( "Exception m0_shift_lam0_gausfits (yprof)")
            m0_shift = spec2D.m0_shift_fit""")]),
('p-lam-window','C32',[(GA,"max=lam_arr.max() - wave_range/4.)","max=lam_arr.max() - wave_range/8.)")]),
('p-else-zero','C32',[(GA,"""    else:
        m0_shift = 0.
        lam0_init = spec2D.lam0 #""","""    else:
        lam0_init = spec2D.lam0 #""")]),
('e-mc-noreset','C32',[(GA,"""                    result_mc = lmfit.minimize(utils.gaus_residual_mask, params_best,
                                    args=(yy_arr, spec_perturb, y_prof_err, wh_not_mask_y))

                # ++""","""                    result_mc = lmfit.minimize(utils.gaus_residual_mask, params_best,
                                    args=(yy_arr, y_prof, y_prof_err, wh_not_mask_y))

                # ++""")]),
('e-mc-alias','C32',[(GA,"spec_perturb = y_prof.copy()","spec_perturb = y_prof")]),
('e-mc-nan','C32',[(GA,"""                if (not np.isfinite(value_matrix[i,1])):
                    value_matrix[i,1] = 0.""","""                if (not np.isfinite(value_matrix[i,1])):
                    value_matrix[i,1] = value_matrix[i,0]""")]),
('e-nfree','C32',[(GA,"if len(wh_not_mask_y)*pixscale/inst.PSF.PSF_FWHM < 0.8:","if len(yy_arr)*pixscale/inst.PSF.PSF_FWHM < 0.8:")]),
('e-errswap','C32',[(GA,"spec2D.sigma_y_emis_int_err = values_err[1,:]","spec2D.sigma_y_emis_int_err = values_err[0,:]")]),
('e-pixscale','C32',[(GA,"params_best.add('mu', value=spec2D.ypos*pixscale, min=yy_arr.min(), max=yy_arr.max())\n                params_best.add('A', value=y_prof.max())  # for pos image\n                params_best.add('sigma', value=n_spatial/4., min=0.)#","params_best.add('mu', value=spec2D.ypos, min=yy_arr.min(), max=yy_arr.max())\n                params_best.add('A', value=y_prof.max())  # for pos image\n                params_best.add('sigma', value=n_spatial/4., min=0.)#")]),
('e-refit-first','C32',[(GA,"if result.params['sigma'].value > maxsigma:","if result.params['sigma'].value > 2.*maxsigma:")]),
('g-resid','C32',[(GU,"resid = (gaus[wh_not_mask]-data[wh_not_mask])/err[wh_not_mask]","resid = (gaus[wh_not_mask]-data[wh_not_mask])/err[:len(wh_not_mask)]")]),
('ok-spec-once','C32',[(GA,"""    spec = spec2D.flux*spec2D.mask_sky*spec2D.mask_low_snr
    err = spec2D.flux_err*spec2D.mask_sky*spec2D.mask_low_snr

    # Straight""","""    keep = spec2D.mask_low_snr*spec2D.mask_sky
    spec = keep*spec2D.flux
    err = keep*spec2D.flux_err

    # Straight""")]),
('ok-arange','C32',[(GA,"""    yy_arr = np.linspace(spec2D.m_lims[0], spec2D.m_lims[1],
                    num=(spec2D.m_lims[1]-spec2D.m_lims[0]), endpoint=False)
""","""    yy_arr = np.arange(spec2D.m_lims[0], spec2D.m_lims[1])
""")]),
('ok-else-merge','C32',[(GA,"""                if np.abs(spec2D.ypos -result.params['mu'].value ) <= 2.:
                     m0_shift = result.params['mu'].value - spec2D.m0
                elif""","""                mu_fit = result.params['mu'].value
                if np.abs(mu_fit-spec2D.ypos) <= 2.:
                     m0_shift = mu_fit - spec2D.m0
                elif""")]),
('ok-mc-helper','C32',[(GA,"""                # Now perturb randomly, using normal distribution
                rand_vals = np.random.randn(len(spec_perturb))
                spec_perturb += y_prof_err*rand_vals

                params_best = lmfit.Parameters()
                params_best.add('mu', value=spec2D.ypos*pixscale""","""                # Now perturb randomly, using normal distribution
                spec_perturb = y_prof + np.random.normal(size=len(y_prof))*y_prof_err

                params_best = lmfit.Parameters()
                params_best.add('mu', value=spec2D.ypos*pixscale""")]),
('ok-int-max','C32',[(GA,"""            spec2D.sigma_y_emis_int = np.sqrt(spec2D.sigma_y_emis_obs**2 - (inst.PSF.PSF_FWHM/std2FWHM)**2)
            if (not np.isfinite(spec2D.sigma_y_emis_int)):
                spec2D.sigma_y_emis_int = 0.
""","""            spec2D.sigma_y_emis_int = np.sqrt(max(spec2D.sigma_y_emis_obs**2 - (inst.PSF.PSF_FWHM/std2FWHM)**2, 0.))
""")]),
('ok-pct','C32',[(GA,"""            limits = np.percentile(value_matrix, [15.865, 84.135], axis=0).T
            values_err[:,0] = values_true[:] - limits[:,0]
            values_err[:,1] = limits[:,1] - values_true[:]


            spec2D.sigma_y""","""            for k in range(len(values_true)):
                low, high = np.percentile(value_matrix[:,k], [15.865, 84.135])
                values_err[k,0] = values_true[k] - low
                values_err[k,1] = high - values_true[k]

            spec2D.sigma_y""")]),
('ok-missing-helper','C32',[(GA,"""        missing_val = -99.
        spec2D.D50 = missing_val
        spec2D.D50_err = np.array([missing_val,missing_val])
        spec2D.sigma_y_emis_obs = missing_val
        spec2D.sigma_y_emis_obs_err = np.array([missing_val,missing_val])
        spec2D.sigma_y_emis_int = missing_val
        spec2D.sigma_y_emis_int_err = np.array([missing_val,missing_val])


    return""","""        for key in ('D50', 'sigma_y_emis_obs', 'sigma_y_emis_int'):
            setattr(spec2D, key, -99.)
            setattr(spec2D, key+'_err', -99.*np.ones(2))

    return""")]),
]
