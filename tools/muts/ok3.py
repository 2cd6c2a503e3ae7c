# behaviour-preserving edits of general_utils, instrument, io
GU='general/general_utils.py'; I='instrument.py'; IO='general/io.py'; GA='general/galaxy_utils.py'
M=[
('ok-wh-groups','C20,C19',[(GU,"""    wh_arrs = []
    arr = []
    for i in range(len(wh_arr)):
        if i < len(wh_arr)-1:
            if wh_arr[i+1] - wh_arr[i] == 1:
                arr.append(wh_arr[i])
            else:
                arr.append(wh_arr[i])
                wh_arrs.append(arr)
                arr = []
        else:
            arr.append(wh_arr[i])
            wh_arrs.append(arr)

    return wh_arrs
""","""    wh_arrs = []
    arr = []
    n_tot = len(wh_arr)
    for i in range(n_tot):
        arr.append(wh_arr[i])
        at_end = (i == n_tot-1)
        if at_end or (wh_arr[i+1] - wh_arr[i] != 1):
            wh_arrs.append(arr)
            arr = []

    return wh_arrs
""")]),
('ok-wh-split','C20,C19',[(GU,"""    wh_arrs = []
    arr = []
    for i in range(len(wh_arr)):
        if i < len(wh_arr)-1:
            if wh_arr[i+1] - wh_arr[i] == 1:
                arr.append(wh_arr[i])
            else:
                arr.append(wh_arr[i])
                wh_arrs.append(arr)
                arr = []
        else:
            arr.append(wh_arr[i])
            wh_arrs.append(arr)

    return wh_arrs
""","""    wh_arrs = []
    previous = None
    for ind in wh_arr:
        if previous is not None and ind - previous == 1:
            wh_arrs[-1].append(ind)
        else:
            wh_arrs.append([ind])
        previous = ind
    return wh_arrs
""")]),
('ok-proj','C02',[(GU,"""    slit_HW = 0.5 * slit_width_arcsec  #0.35  # slit HW in [arcsec]
    a_slit = np.abs(slit_HW/np.sin(delt_PA*deg2rad))

    x_proj = np.abs(re*np.sin(delt_PA*deg2rad))
    if x_proj <= slit_HW:
        # whole RE lies within slit:
        y_proj_major_inslit = np.abs(re*np.cos(delt_PA*deg2rad))
    else:
        # part of object falls outside of slit:
        y_proj_major_inslit = np.abs(a_slit*np.cos(delt_PA*deg2rad))

    return y_proj_major_inslit
""","""    half_width = 0.5 * slit_width_arcsec
    if x_proj_major(re, delt_PA, None) > half_width:
        angle = np.radians(delt_PA)
        length = half_width/np.abs(np.sin(angle))
    else:
        length = re
    return y_proj_major(length, delt_PA)
"""),(GU,"""    return q*re/np.sqrt((q*np.cos(delt_PA*deg2rad))**2 + (np.sin(delt_PA*deg2rad)**2))
""","""    a = delt_PA*deg2rad
    return q*re/np.sqrt(q**2*np.cos(a)**2 + np.sin(a)**2)
"""),(GU,"""    return q*re/np.sqrt((q*np.cos((90-delt_PA)*deg2rad))**2 + (np.sin((90-delt_PA)*deg2rad)**2))
""","""    return y_proj_phys(re, 90-delt_PA, q)
"""),(GU,"""    r_unproj = y_proj/np.cos(delt_PA*deg2rad)

    return np.abs(r_unproj)""","""    return np.abs(y_proj)/np.abs(np.cos(delt_PA*np.pi/180.))""")]),
('ok-angle','C02',[(GA,"""    galaxy.delt_PA_abs = np.abs(galaxy.delt_PA)

    return galaxy""","""    galaxy.delt_PA_abs = abs(galaxy.delt_PA)
    return galaxy""")]),
('ok-incl','C01,C05,C15',[(GU,"""    return np.arccos(np.sqrt(np.maximum((q)**2 - q0**2, 0.)/(1.-q0**2)))
""","""    cos2 = (q*q - q0*q0)/(1.-q0*q0)
    if cos2 < 0.:
        cos2 = 0.
    return np.arccos(np.sqrt(cos2))
""")]),
('ok-gauss','C06,C14',[(I,"""    xarr_flat = np.repeat(x, len(y)).reshape((len(x),len(y))).T
    yarr_flat = np.repeat(y, len(x)).reshape((len(y),len(x)))

    conv_stamp = np.exp(- (xarr_flat**2 + yarr_flat**2)/(2.*(PSF_sigma**2)))

    if yspace_dither_arc is not None:
        conv_stamp_negl = np.exp(- (xarr_flat**2 + (yarr_flat+yspace_dither_arc)**2)/(2.*(PSF_sigma**2)))
        conv_stamp_negu = np.exp(- (xarr_flat**2 + (yarr_flat-yspace_dither_arc)**2)/(2.*(PSF_sigma**2)))
        conv_stamp -= 0.5*(conv_stamp_negl + conv_stamp_negu)


    return conv_stamp""","""    xx = np.tile(x, (len(y),1))
    yy = np.tile(np.array([y]).T, (1,len(x)))
    denom = 2.*PSF_sigma**2

    stamp = np.exp(-(xx**2 + yy**2)/denom)
    if yspace_dither_arc is None:
        return stamp
    for shift in (yspace_dither_arc, -yspace_dither_arc):
        stamp = stamp - 0.5*np.exp(-(xx**2 + (yy+shift)**2)/denom)
    return stamp""")]),
('ok-moffat-helper','C06',[(I,"""@njit
def PSF_stamp_moffat(x,""","""@njit
def _moffat(xx, yy, alpha, beta):
    amp = (beta-1)/(np.pi * alpha**2)
    return amp*(1.+(xx**2 + yy**2)/alpha**2)**(-beta)

@njit
def PSF_stamp_moffat(x,"""),(I,"""    conv_stamp = (beta-1)/(np.pi * alpha**2) * \\
            np.power((1.+(xarr_flat **2 + yarr_flat**2)/(alpha**2)), -beta)
""","""    conv_stamp = _moffat(xarr_flat, yarr_flat, alpha, beta)
"""),(I,"""        conv_stamp_negl = (beta-1)/(np.pi * alpha**2) * \\
                np.power((1.+(xarr_flat **2 + (yarr_flat+yspace_dither_arc)**2)/(alpha**2)), -beta)
        conv_stamp_negu = (beta-1)/(np.pi * alpha**2) * \\
                np.power((1.+(xarr_flat **2 + (yarr_flat-yspace_dither_arc)**2)/(alpha**2)), -beta)
        conv_stamp -= 0.5*(conv_stamp_negl + conv_stamp_negu)
""","""        negl = _moffat(xarr_flat, yarr_flat+yspace_dither_arc, alpha, beta)
        negu = _moffat(xarr_flat, yarr_flat-yspace_dither_arc, alpha, beta)
        conv_stamp = conv_stamp - 0.5*negl - 0.5*negu
""")]),
('ok-moffat-broadcast','C06',[(I,"""    # xarr_flat = np.tile(x, (len(y),1))
    # yarr_flat = np.tile(np.array([y]).T, (1,len(x)))

    xarr_flat = np.repeat(x, len(y)).reshape((len(x),len(y))).T
    yarr_flat = np.repeat(y, len(x)).reshape((len(y),len(x)))


    conv_stamp""","""    xarr_flat = x.reshape((1,len(x)))
    yarr_flat = y.reshape((len(y),1))

    conv_stamp""")]),
('ok-psf-type','C06,C26',[(I,"""        if kwargs['PSF_type'].strip().lower() == 'Gaussian'.lower():
            self.PSF = PSFGaussian(**kwargs)
        elif kwargs['PSF_type'].strip().lower() == 'Moffat'.lower():
            self.PSF = PSFMoffat(**kwargs)
        else:
            # Assume Gaussian:
            self.PSF = PSFGaussian(**kwargs)
""","""        psf_classes = {'gaussian': PSFGaussian, 'moffat': PSFMoffat}
        psf_type = kwargs['PSF_type'].strip().lower()
        self.PSF = psf_classes.get(psf_type, PSFGaussian)(**kwargs)
""")]),
('ok-lookup-loop','C17',[(IO,"""    wh = np.where(data['linename'] == linename)[0]
    if len(wh) == 0:
        raise ValueError("Problem with param file: {}".format(param_filename) )
    else:
        wh = wh[0]


    return data['restwave'][wh]""","""    for k in range(len(data['linename'])):
        if data['linename'][k] == linename:
            return data['restwave'][k]
    raise ValueError("Problem with param file: {}".format(param_filename) )""")]),
('ok-lookup-list','C17',[(IO,"""    wh = np.where(data['linename'] == linename)[0]
    if len(wh) == 0:
        raise ValueError("Problem with param file: {}".format(param_filename) )
    else:
        wh = wh[0]


    return data['restwave'][wh]""","""    matches = [i for i, name in enumerate(data['linename']) if name == linename]
    if not matches:
        raise ValueError("Problem with param file: {}".format(param_filename) )
    return data['restwave'][matches[0]]""")]),
('ok-range-arrs','C24',[(GU,"""    for j in range(len(fitEmis2D.kinModel.theta_names)):
        if fitEmis2D.kinModel.theta_vary[j]:
            param_range.append(max(fitEmis2D.thetaPrior.theta_bounds[j])-\\
                        min(fitEmis2D.thetaPrior.theta_bounds[j]))
            param_lower.append(min(fitEmis2D.thetaPrior.theta_bounds[j]))
""","""    kin_model = fitEmis2D.kinModel
    for j in range(len(kin_model.theta_names)):
        if not kin_model.theta_vary[j]:
            continue
        lower = min(fitEmis2D.thetaPrior.theta_bounds[j])
        upper = max(fitEmis2D.thetaPrior.theta_bounds[j])
        param_lower.append(lower)
        param_range.append(upper-lower)
""")]),
('ok-kde','C23',[(GU,"""    nparams = len(linked_inds)
    kern = gaussian_kde(flatchain[:,linked_inds].T)
    peakvals = fmin(lambda x: -kern(x), initval, disp=False)

    return peakvals
""","""    subset = flatchain[:,linked_inds].T
    kern = gaussian_kde(subset)
    def negative(x):
        return -kern(x)
    return fmin(negative, initval, disp=False)
"""),(GU,"""            if flatchain[:,i].min() == flatchain[:,i].max():
                # No spread (eg, derived from fixed parameters only): KDE is undefined
                peakvals[i] = flatchain[0,i]
                continue
            kern = gaussian_kde(flatchain[:,i])
            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
""","""            col = flatchain[:,i]
            if col.max() > col.min():
                kern = gaussian_kde(col)
                peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
            else:
                peakvals[i] = col[0]
"""),(GU,"""    for k in range(len(theta_linked_posteriors)):
        bestfit_theta[theta_linked_posteriors[k]] = bestfit_theta_linked[k]
        err_theta[theta_linked_posteriors[k]] = np.array([bestfit_theta_linked[k]-mcmc_lims_zip[theta_linked_posteriors[k]][0],
                                mcmc_lims_zip[theta_linked_posteriors[k]][1] - bestfit_theta_linked[k]])
""","""    for k, ind in enumerate(theta_linked_posteriors):
        best = bestfit_theta_linked[k]
        lims = mcmc_lims_zip[ind]
        bestfit_theta[ind] = best
        err_theta[ind] = np.array([best-lims[0], lims[1]-best])
""")]),
]
