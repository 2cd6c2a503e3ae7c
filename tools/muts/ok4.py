# behaviour-preserving edits of galaxy_utils
GU='general/galaxy_utils.py'
NULL1="""            spec1D_trim.wave = None
            spec1D_trim.obswave = None
            spec1D_trim.restwave = None
            spec1D_trim.flux = None
            spec1D_trim.flux_err = None
            spec1D_trim.spec_mask = None
"""
SEL1="""            spec1D_trim.wave = spec1D.wave[wh]
            spec1D_trim.flux = spec1D.flux[wh]
            spec1D_trim.flux_err = spec1D.flux_err[wh]
            spec1D_trim.spec_mask = spec1D.spec_mask[wh]
"""
WH1="""        wh = np.where((spec1D.obswave >= trim_obswave_range[0]) & \\
                (spec1D.obswave <= trim_obswave_range[1]))[0]
"""
WH2="""            wh = np.where((spec2D.obswave >= trim_obswave_range[0]) & \\
                    (spec2D.obswave <= trim_obswave_range[1]))[0]
"""
WH3="""            wh = np.where((spec2D_trim.obswave >= trim_obswave_range[0]) & \\
                    (spec2D_trim.obswave <= trim_obswave_range[1]))[0]
"""
SEL2="""                spec2D.wave = spec2D.wave[wh]
                spec2D.flux = spec2D.flux[:,wh]
                spec2D.flux_err = spec2D.flux_err[:,wh]
                spec2D.spec_mask = spec2D.spec_mask[:,wh]
                spec2D.spec_weight = spec2D.spec_weight[:,wh]
"""
NULL2="""                spec2D.wave = None
                spec2D.obswave = None
                spec2D.restwave = None
                spec2D.flux = None
                spec2D.flux_err = None
                spec2D.spec_mask = None
                spec2D.spec_weight = None
"""
SEL3="""                spec2D_trim.wave = spec2D.wave[wh]
                spec2D_trim.flux = spec2D.flux[:,wh]
                spec2D_trim.flux_err = spec2D.flux_err[:,wh]
                spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
"""
SPAT="""    spec2D.flux = spec2D.flux[l_ind:r_ind,:]
    spec2D.flux_err = spec2D.flux_err[l_ind:r_ind,:]

    spec2D.flux_incl_cont = spec2D.flux_incl_cont[l_ind:r_ind,:]
    spec2D.cont_model = spec2D.cont_model[l_ind:r_ind,:]

    spec2D.spec_weight = spec2D.spec_weight[l_ind:r_ind,:]
    spec2D.spec_mask = spec2D.spec_mask[l_ind:r_ind,:]
    spec2D.mask_qual = spec2D.mask_qual[l_ind:r_ind,:]
    spec2D.mask_sky = spec2D.mask_sky[l_ind:r_ind,:]
    spec2D.mask_low_snr = spec2D.mask_low_snr[l_ind:r_ind,:]
"""
CONT="""            params = lmfit.Parameters()
            params.add('a', value=slope, vary=False)
            params.add('b', value=result_1d.params['b'].value)

            yy = np.append(spec2D.flux_incl_cont[i,wh_line_l], spec2D.flux_incl_cont[i,wh_line_r])
            yy_err = np.append(spec2D.flux_err[i,wh_line_l], spec2D.flux_err[i,wh_line_r])
            yy_mask = np.append(spec2D.spec_mask[i,wh_line_l], spec2D.spec_mask[i,wh_line_r])
"""
CONT2="""            if (np.isfinite(continuum_fit.max())):
                spec2D.flux[i,:] = spec2D.flux_incl_cont[i,:] - continuum_fit
            else:
                errstr = "continuum_fit.max() is not finite!!"
                errstr += "i={:d}".format(i)
                raise ValueError(errstr)
"""
FULL="""    spec2D.wave = spec2D.wave[wh_full]
    spec2D.flux_incl_cont = spec2D.flux_incl_cont[:, wh_full]
    spec2D.cont_model = spec2D.cont_model[:, wh_full]
    spec2D.flux = spec2D.flux[:, wh_full]
    spec2D.flux_err = spec2D.flux_err[:, wh_full]
    spec2D.spec_mask = spec2D.spec_mask[:, wh_full]
    spec2D.spec_weight = spec2D.spec_weight[:, wh_full]
"""
PARS="""        if (len(wh_line_l) > 0.) & (len(wh_line_r) > 0.):
            if (spec_mask_tmp[wh_line_l].max() > 0.) & (spec_mask_tmp[wh_line_r].max() > 0.):
                params_1d = lmfit.Parameters()
                params_1d.add('a', value=0.)
                params_1d.add('b', value=0.)
            else:
                params_1d = lmfit.Parameters()
                params_1d.add('a', value=0., vary=False)
                params_1d.add('b', value=0.)
        else:
            params_1d = lmfit.Parameters()
            params_1d.add('a', value=0., vary=False)
            params_1d.add('b', value=0.)
"""
NRM="""    w_tot = np.sum(weights_nonnorm)
    weights = weights_nonnorm/w_tot

    # If the normalization fails because w_tot is = 0.:
    if w_tot == 0.:
        weights[:] = 0.


    spec2D.fitting_weight_profile = weights
    spec2D.fitting_weight_matrix = np.array([spec2D.fitting_weight_profile for i in range(spec2D.flux.shape[1])]).T
"""
EDGE="""    unmasked_inds = np.where(spec_mask == 1)[0]

    if len(unmasked_inds) > 0:
        edge_l = unmasked_inds[0]
        edge_r = unmasked_inds[-1]

        # If the edges are partway through the trimmed region:
        #       mask the num_edge pixels closest to the edge
        if edge_l > 0:
            spec_mask[edge_l:edge_l+num_edge] = 0
        if edge_r < len(spec)-1:
            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0

    return spec_mask
"""
NANM="""    if not mask_all_masked:
        wh_reset = np.where((np.invert(np.isfinite(flux))) & (spec_mask == 0.))
        flux[wh_reset] = fill_value
    else:
        wh_reset = np.where((spec_mask == 0.))
        flux[wh_reset] = fill_value

    if mask_zero:
        # Eg, set missing errors to non-zero so they don't cause NaN problems later.
        wh_reset = np.where((flux == 0.) & (spec_mask == 0.))
        flux[wh_reset] = fill_value

    return flux
"""
M=[
('ok-trim1-setattr','C18',[(GU,NULL1,"""            for attr in ['wave', 'obswave', 'restwave', 'flux', 'flux_err', 'spec_mask']:
                setattr(spec1D_trim, attr, None)
"""),(GU,SEL1,"""            for attr in ('wave', 'flux', 'flux_err', 'spec_mask'):
                setattr(spec1D_trim, attr, getattr(spec1D, attr)[wh])
""")]),
('ok-trim1-bool','C18',[(GU,WH1,"""        in_range = (spec1D.obswave >= trim_obswave_range[0]) & (spec1D.obswave <= trim_obswave_range[1])
        wh = np.flatnonzero(in_range)
""")]),
('ok-trim1-nonzero','C18',[(GU,WH1,"""        wave_lo, wave_hi = trim_obswave_range
        wh = np.nonzero(np.logical_and(spec1D.obswave >= wave_lo, spec1D.obswave <= wave_hi))[0]
""")]),
('ok-trim1-boolmask','C18',[(GU,WH1,"""        wh = ((spec1D.obswave >= trim_obswave_range[0]) & (spec1D.obswave <= trim_obswave_range[1]))
"""),(GU,"        if len(wh) > 0:\n            spec1D_trim.wave","        if np.any(wh):\n            spec1D_trim.wave")]),
('ok-trim1-early','C18',[(GU,"""    # Find the range there is coverage:
    if spec1D is not None:
        spec1D_trim = spec1D.copy()
""","""    if spec1D is None:
        return None

    # Find the range there is coverage:
    if True:
        spec1D_trim = spec1D.copy()
"""),(GU,"""    else:
        spec1D_trim = None

    return spec1D_trim
""","""
    return spec1D_trim
""")]),
('ok-trim1-range','C18',[(GU,"""    if trim_obswave_range is None:
        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()

    # Find the range there is coverage:
    if spec1D""","""    if trim_obswave_range is None:
        trim_obswave_range = [w*(1.+galaxy.z) for w in trim_restwave_range]

    # Find the range there is coverage:
    if spec1D""")]),
('ok-trim2-bool','C18',[(GU,WH2,"""            wh = np.flatnonzero((spec2D.obswave >= trim_obswave_range[0]) & (spec2D.obswave <= trim_obswave_range[1]))
"""),(GU,WH3,"""            obswave = spec2D_trim.obswave
            wh = np.where(np.logical_not((obswave < trim_obswave_range[0]) | (obswave > trim_obswave_range[1])))[0]
"""),]),
('ok-trim2-helper','C18',[(GU,"#\ndef trim_spectrum_2D_wavelength(","""def _null_spec2D(spec):
    for attr in ['wave', 'obswave', 'restwave', 'flux', 'flux_err', 'spec_mask', 'spec_weight']:
        setattr(spec, attr, None)

def _select_columns(spec, source, wh):
    spec.wave = source.wave[wh]
    for attr in ['flux', 'flux_err', 'spec_mask', 'spec_weight']:
        setattr(spec, attr, getattr(source, attr)[:,wh])

#
def trim_spectrum_2D_wavelength("""),(GU,NULL2,"                _null_spec2D(spec2D)\n"),(GU,SEL2,"                _select_columns(spec2D, spec2D, wh)\n"),(GU,SEL3,"                _select_columns(spec2D_trim, spec2D, wh)\n")]),
('ok-trim2-take','C18',[(GU,SEL3,"""                spec2D_trim.wave = np.take(spec2D.wave, wh)
                spec2D_trim.flux = np.take(spec2D.flux, wh, axis=1)
                spec2D_trim.flux_err = np.take(spec2D.flux_err, wh, axis=1)
                spec2D_trim.spec_mask = np.take(spec2D.spec_mask, wh, axis=1)
                spec2D_trim.spec_weight = np.take(spec2D.spec_weight, wh, axis=1)
""")]),
('ok-spat-loop','C22',[(GU,SPAT,"""    for attr in ['flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_weight',
                'spec_mask', 'mask_qual', 'mask_sky', 'mask_low_snr']:
        setattr(spec2D, attr, getattr(spec2D, attr)[l_ind:r_ind,:])
""")]),
('ok-spat-slice','C22',[(GU,SPAT,SPAT.replace('[l_ind:r_ind,:]','[rows]').replace('    spec2D.flux = ','    rows = slice(l_ind, r_ind)\n    spec2D.flux = ',1)),(GU,"        l_ind = max([0,m_min])\n        r_ind = min([n_spatial_orig-1, m_max])","        l_ind = max(0, m_min)\n        r_ind = m_max if m_max < n_spatial_orig-1 else n_spatial_orig-1")]),
('ok-spat-npmax','C22',[(GU,"        l_ind = max([0,m_min])\n        r_ind = min([n_spatial_orig-1, m_max])","        l_ind = np.maximum(0, m_min)\n        r_ind = np.minimum(n_spatial_orig-1, m_max)"),(GU,"    spec2D.n_spatial = np.shape(spec2D.flux)[0]","    spec2D.n_spatial = spec2D.flux.shape[0]")]),
('ok-cont-concat','C22',[(GU,CONT,"""            params = lmfit.Parameters()
            params.add('a', value=slope, vary=False)
            params.add('b', value=result_1d.params['b'].value)

            wh_cont = np.append(wh_line_l, wh_line_r)
            yy = spec2D.flux_incl_cont[i,wh_cont]
            yy_err = spec2D.flux_err[i,wh_cont]
            yy_mask = spec2D.spec_mask[i,wh_cont]
""")]),
('ok-cont-concat2','C22',[(GU,CONT,CONT.replace('np.append(','np.concatenate((').replace('r])','r]))'))]),
('ok-cont-guard','C22',[(GU,CONT2,"""            if not np.isfinite(continuum_fit.max()):
                raise ValueError("continuum_fit.max() is not finite!!i={:d}".format(i))
            spec2D.flux[i,:] = spec2D.flux_incl_cont[i,:] - continuum_fit
"""),(GU,"        for i in range(np.shape(spec2D.flux)[0]):\n            params = lm","        n_rows = spec2D.flux.shape[0]\n        for i in range(n_rows):\n            params = lm")]),
('ok-cont-full','C22',[(GU,FULL,"""    spec2D.wave = spec2D.wave[wh_full]
    for attr in ['flux_incl_cont', 'cont_model', 'flux', 'flux_err', 'spec_mask', 'spec_weight']:
        setattr(spec2D, attr, getattr(spec2D, attr)[:, wh_full])
""")]),
('ok-cont-pars','C22',[(GU,PARS,"""        fit_slope = False
        if (len(wh_line_l) > 0) and (len(wh_line_r) > 0):
            fit_slope = (spec_mask_tmp[wh_line_l].max() > 0.) and (spec_mask_tmp[wh_line_r].max() > 0.)
        params_1d = lmfit.Parameters()
        params_1d.add('a', value=0., vary=bool(fit_slope))
        params_1d.add('b', value=0.)
""")]),
('ok-cont-pars2','C22',[(GU,PARS,"""        params_1d = lmfit.Parameters()
        params_1d.add('a', value=0.)
        params_1d.add('b', value=0.)
        two_sided = (len(wh_line_l) > 0.) & (len(wh_line_r) > 0.)
        if not (two_sided and (spec_mask_tmp[wh_line_l].max() > 0.) & (spec_mask_tmp[wh_line_r].max() > 0.)):
            params_1d['a'].vary = False
""")]),
('ok-cont-sky','C22',[(GU,"        spec_mask_tmp = galaxy.spec1D.spec_mask[:]\n","        spec1D = galaxy.spec1D\n        spec_mask_tmp = spec1D.spec_mask[:]\n"),(GU,"        sum_over_col_arr = np.sqrt((galaxy.spec1D.flux_err*galaxy.spec1D.spec_mask)**2)","        sum_over_col_arr = np.abs(galaxy.spec1D.flux_err*galaxy.spec1D.spec_mask)")]),
('ok-weights-early','C21',[(GU,NRM,"""    w_tot = weights_nonnorm.sum()
    if w_tot == 0.:
        weights = np.zeros(weights_nonnorm.shape)
    else:
        weights = weights_nonnorm/w_tot

    spec2D.fitting_weight_profile = weights
    spec2D.fitting_weight_matrix = np.array([weights for i in range(spec2D.flux.shape[1])]).T
""")]),
('ok-weights-tile','C21',[(GU,NRM,NRM.replace("np.array([spec2D.fitting_weight_profile for i in range(spec2D.flux.shape[1])]).T","np.tile(weights[:,np.newaxis], (1, spec2D.flux.shape[1]))"))]),
('ok-weights-repeat','C21',[(GU,NRM,NRM.replace("np.array([spec2D.fitting_weight_profile for i in range(spec2D.flux.shape[1])]).T","np.repeat(weights.reshape(-1,1), spec2D.flux.shape[1], axis=1)"))]),
('ok-weights-ones','C21',[(GU,NRM,NRM.replace("np.array([spec2D.fitting_weight_profile for i in range(spec2D.flux.shape[1])]).T","weights[:,None]*np.ones(spec2D.flux.shape)"))]),
('ok-weights-broadcast','C21',[(GU,NRM,NRM.replace("np.array([spec2D.fitting_weight_profile for i in range(spec2D.flux.shape[1])]).T","np.outer(weights, np.ones(spec2D.flux.shape[1]))"))]),
('ok-edges-early','C19,C22',[(GU,EDGE,"""    unmasked_inds, = np.where(spec_mask == 1)
    if len(unmasked_inds) == 0:
        return spec_mask

    edge_l, edge_r = unmasked_inds.min(), unmasked_inds.max()
    if edge_l > 0:
        spec_mask[edge_l:edge_l+num_edge] = 0
    if edge_r < len(spec)-1:
        first = max(edge_r-num_edge+1, 0)
        spec_mask[first:edge_r+1] = 0

    return spec_mask
""")]),
('ok-missing-bool','C19',[(GU,"""        wh_missing = np.where(spec_err == 0.)
        spec_mask[wh_missing] = 0.
""","""        spec_mask[spec_err == 0.] = 0.
"""),(GU,"""    spec_mask[np.invert(np.isfinite(spec))] = 0.
    spec_mask[np.invert(np.isfinite(spec_err))] = 0.
""","""    bad = ~np.isfinite(spec) | ~np.isfinite(spec_err)
    spec_mask[bad] = 0.
"""),(GU,"        spec_mask[np.where(spec_weight == 0.)] = 0.","        spec_mask[spec_weight == 0.] = 0.")]),
('ok-from1d-vec','C19',[(GU,"""    for w in wh:
        mask2D[:,w] = 0.
""","""    mask2D[:,wh] = 0.
""")]),
('ok-nan-bool','C19',[(GU,NANM,"""    masked = (spec_mask == 0.)
    if mask_all_masked:
        flux[masked] = fill_value
    else:
        flux[masked & ~np.isfinite(flux)] = fill_value

    if mask_zero:
        flux[masked & (flux == 0.)] = fill_value

    return flux
""")]),
('ok-sky-1d','C19,C22',[(GU,"""    wh_sky = np.where(err_spec >= cutoff*median_err)[0]
    wh_nosky = np.where(err_spec < cutoff*median_err)[0]

    if full:
        return wh_nosky, wh_sky

    else:
        wh_cont = utils.wh_continuous(wh_nosky)
        wh_cont_sky = utils.wh_continuous(wh_sky)

        return wh_cont, wh_cont_sky
""","""    threshold = cutoff*median_err
    wh_sky = np.flatnonzero(err_spec >= threshold)
    wh_nosky = np.flatnonzero(err_spec < threshold)

    if not full:
        return utils.wh_continuous(wh_nosky), utils.wh_continuous(wh_sky)

    return wh_nosky, wh_sky
""")]),
('ok-sky-2d','C19',[(GU,"    wh_nosky = np.setdiff1d(range(np.shape(flux)[1]), wh_sky)\n","    wh_nosky = np.setdiff1d(np.arange(flux.shape[1]), wh_sky)\n"),(GU,"    sum_over_col_arr = np.sqrt(np.sum((err*mask_sky)**2, axis=0))\n\n    wh_nosky, wh","    masked_err = err*mask_sky\n    sum_over_col_arr = np.sqrt((masked_err**2).sum(axis=0))\n\n    wh_nosky, wh")]),
('ok-lowsnr-loop','C19,C22',[(GU,"""            ii = 0
            minind = low_snr_row_inds.min()
            while ii < minind:
                low_snr_row_inds = np.append(low_snr_row_inds, ii)
                ii += 1
""","""            low_snr_row_inds = np.append(low_snr_row_inds, np.arange(low_snr_row_inds.min()))
""")]),
('ok-lowsnr-for','C19,C22',[(GU,"""            ii = 0
            minind = low_snr_row_inds.min()
            while ii < minind:
                low_snr_row_inds = np.append(low_snr_row_inds, ii)
                ii += 1
""","""            for ii in range(low_snr_row_inds.min()):
                low_snr_row_inds = np.append(low_snr_row_inds, ii)
"""),(GU,"""        high_snr_inds_new = []
        for wh in high_snr_inds_cont:
            if len(wh) > 2:
                high_snr_inds_new.extend(wh)
        high_snr_inds = np.array(high_snr_inds_new)
""","""        high_snr_inds = np.array([ind for wh in high_snr_inds_cont if len(wh) > 2 for ind in wh])
""")]),
('ok-slitangle','C02',[(GU,"""    if not galaxy.generate_model:
        slit_PA_on_img = galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA
        delt_PA = galaxy.sersicPA - slit_PA_on_img

        delt_PA = np.arctan(np.tan(delt_PA*np.pi/180.))*180./np.pi

        galaxy.delt_PA = delt_PA
""","""    if not galaxy.generate_model:
        delt_PA = galaxy.sersicPA - (galaxy.spec2D.slit_PA - galaxy.pstamp.img_PA)
        galaxy.delt_PA = np.rad2deg(np.arctan(np.tan(np.deg2rad(delt_PA))))
""")]),
]
