# behaviour-preserving edits of kin_functions
KF='model/kin_functions.py'
M=[
('ok-transform-names','C01,C08,C09',[(KF,"""    xp = x*np.cos(rad_deltPA) + y*np.sin(rad_deltPA) # minor axis
    yp = -x*np.sin(rad_deltPA) + y*np.cos(rad_deltPA) # major axis
    zp = z
""","""    c, s = np.cos(rad_deltPA), np.sin(rad_deltPA)
    yp = y*c - x*s
    xp = x*c + s*y
"""),(KF,"""    xint = np.cos(i_rad)*xp + np.sin(i_rad)*zp      # minor axis direction
    zint = -np.sin(i_rad)*xp + np.cos(i_rad)*zp

    return (xint,yint,zint)""","""    cos_i = np.cos(i_rad)
    sin_i_val = np.sin(i_rad)
    zint = cos_i*z - sin_i_val*xp
    xint = cos_i*xp + sin_i_val*z
    return xint, yint, zint""")]),
('ok-collapse-helper','C08,C09',[(KF,"""def add_sigma_collapse_z(I_wide,""","""def _line_profile(centre, sigma, grid):
    norm_factor = 1/(sigma*np.sqrt(2.*np.pi))
    return norm_factor*np.exp(-(centre-grid)**2/(2.*sigma**2))


def add_sigma_collapse_z(I_wide,"""),(KF,"""                scale = 1/(sigma_lam_arr*np.sqrt(2.*np.pi))
                gaus = scale*np.exp(-(lam0*(1.+V_matrix/c_kms)-wave_ref_matrix)**2/(2.*sigma_lam_arr**2))
""","""                gaus = _line_profile(lam0*(1.+V_matrix/c_kms), sigma_lam_arr, wave_ref_matrix)
"""),(KF,"""            scale = 1/(sigma_wide*np.sqrt(2.*np.pi))
            gaus = scale*np.exp(-(V_matrix-wave_ref_matrix)**2/(2.*sigma_wide**2))
""","""            gaus = _line_profile(V_matrix, sigma_wide, wave_ref_matrix)
"""),(KF,"""        for i in range(len(restwave_arr)):
            lam0 = restwave_arr[i] * (1.+z)""","""        for restwave, flux_ratio in zip(restwave_arr, flux_ratio_arr):
            lam0 = (1.+z)*restwave"""),(KF,"I_Vxy += I_Vxy_oneline*flux_ratio_arr[i]","I_Vxy = I_Vxy + flux_ratio*I_Vxy_oneline")]),
('ok-collapse-broadcast','C08,C09',[(KF,"""    V_matrix = np.tile(V_wide, (nWave,1,1,1))
""","""    V_matrix = V_wide[np.newaxis, ...]
    has_dispersion = np.max(np.abs(sigma_wide)) > 0.
"""),(KF,"""            # Crude way of handling potential sigma = 0: just checking for MAX, not all values:
            if np.abs(sigma_wide).max() > 0.:""","""            if has_dispersion:"""),(KF,"""        # Sigma = sigma_profile(r)
        if np.abs(sigma_wide).max() > 0.:
            scale""","""        if has_dispersion:
            scale""")]),
('ok-simple-order','C08,C09',[(KF,"""    for k in range(int(nX)):
        for j in range(int(nY)):
            # At every (x,y): for each z, find closest v bin, and add that to the intensity.
            for m in range(int(nZ)):
""","""    for m in range(int(nZ)):
        for j in range(int(nY)):
            for k in range(int(nX)):
"""),(KF,"""                lam_diff = np.abs(lam - wave_arr)

                # Force it all into the closest pixel:
                wh_closest = np.argmin(lam_diff)
                I_Vxy""","""                wh_closest = np.abs(wave_arr - lam).argmin()
                I_Vxy""")]),
('ok-illum-minmax','C28,C09',[(KF,"""    modified_bounds = False
    if x_l < -0.5*tot_slit_width:
        x_l = -0.5*tot_slit_width
        modified_bounds = True
    if x_u > 0.5*tot_slit_width:
        x_u = 0.5*tot_slit_width
        modified_bounds = True
""","""    half = 0.5*tot_slit_width
    modified_bounds = (x_l < -half) or (x_u > half)
    x_l = max(x_l, -half)
    x_u = min(x_u, half)
"""),(KF,"""        # Check if delx_y is inside the slit:
        if delx_y > 0.5*tot_slit_width:
            delx_y = 0.5*tot_slit_width #- 0.5*FWHM_arcsec

        if delx_y < -0.5*tot_slit_width:
            delx_y = -0.5*tot_slit_width #+ 0.5*FWHM_arcsec
""","""        delx_y = min(max(delx_y, -half), half)
""")]),
('ok-illum-loop','C28,C09',[(KF,"""    FWHM_arcsec = np.zeros(len(yarr))     # [ARCSEC]
    mu_y = np.zeros(len(yarr))            # [ARCSEC]
    delx_y = np.zeros(len(yarr))          # [ARCSEC]
""","""    n_rows = len(yarr)
    FWHM_arcsec = np.zeros(n_rows)     # [ARCSEC]
    delx_y = np.zeros(n_rows)          # [ARCSEC]
"""),(KF,"""    for k in range(len(yarr)):
        # Do gaussian fit to each row:
        A_tmp, mu_y[k], FWHM_arcsec[k] = lmfit_gaussian(xarr[wh_in_slit_x],
                                        I_arr_2D_conv[k,wh_in_slit_x])
""","""    x_slit = xarr[wh_in_slit_x]
    for k in range(n_rows):
        # Do gaussian fit to each row:
        A_tmp, mu_tmp, fwhm_tmp = lmfit_gaussian(x_slit, I_arr_2D_conv[k,wh_in_slit_x])
"""),(KF,"""                                A_tmp, mu_y[k], FWHM_arcsec[k], tot_slit_width)
        # print("post""","""                                A_tmp, mu_tmp, fwhm_tmp, tot_slit_width)
        # print("post"""),(KF,"""    del_velspace = delx_y * wavelength_scale/lam0 * c_kms # [km/s]
""","""    del_velspace = c_kms * (delx_y * wavelength_scale)/lam0 # [km/s]
""")]),
('ok-psf-early','C07,C08,C09,C15,C28',[(KF,"""    if PSF.PSF_FWHM > 0.:
        kern3D = PSF._conv_stamp
        # Allow for a flat (2D) stamp, as set by the 1D aperture models:
        if kern3D.ndim == 2:
            kern3D = kern3D[np.newaxis, :, :]

        spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
        # Conserve total flux:
        spectra_cube_see_conv *= np.sum(spectra_cube)/np.sum(spectra_cube_see_conv)

        return spectra_cube_see_conv
    else:
        return spectra_cube
""","""    if not PSF.PSF_FWHM > 0.:
        return spectra_cube

    kern3D = PSF._conv_stamp
    if len(kern3D.shape) == 2:
        kern3D = np.array([kern3D])

    flux_before = spectra_cube.sum()
    conv = fftconvolve(spectra_cube, kern3D, mode='same')
    flux_after = conv.sum()
    return conv*(flux_before/flux_after)
""")]),
('ok-rebin-noeval','C07,C09,C26,C14',[(KF,"""    factor = np.array(np.asarray(shape)/np.asarray(args), dtype=int)
    evList = ['a.reshape('] + \\
             ['args[%d],factor[%d],'%(i,i) for i in range(lenShape)] + \\
             [')'] + ['.sum(%d)'%(i+1) for i in range(lenShape)]
    return 1.*eval(''.join(evList))""","""    new_shape = []
    for i in range(lenShape):
        new_shape.extend([int(args[i]), int(shape[i]/args[i])])
    out = a.reshape(new_shape)
    for i in range(lenShape):
        out = out.sum(axis=i+1)
    return 1.*out""")]),
('ok-instconv','C07,C09',[(KF,"""    wavegaus2D = np.zeros(shape=(wave_gaus.shape[0], 1,))
    wavegaus2D[:,0] = wave_gaus
    fluxtot = np.sum(model_out)
    model_out = fftconvolve(model_out, wavegaus2D, mode='same')
    # Conserve total flux:
    model_out *= fluxtot/np.sum(model_out)

    return model_out""","""    convolved = fftconvolve(model_out, wave_gaus[:, np.newaxis], mode='same')
    # Conserve total flux:
    return convolved*(np.sum(model_out)/np.sum(convolved))"""),(KF,"""    if len(wave_arr) % 2 == 0:
        xx = wave_arr[:-1]
    else:
        xx = wave_arr
    lam_cent = np.average(xx)""","""    n_odd = len(wave_arr) - (1 - len(wave_arr) % 2)
    xx = wave_arr[:n_odd]
    lam_cent = xx.mean()"""),(KF,"""    wave_gaus[~np.isfinite(wave_gaus)] = 0.
    wavegaus""","""    wave_gaus = np.where(np.isfinite(wave_gaus), wave_gaus, 0.)
    wavegaus""")][:2]),
('ok-instconv-where','C07,C09',[(KF,"""    wave_gaus[~np.isfinite(wave_gaus)] = 0.
    wavegaus""","""    wave_gaus = np.where(np.isfinite(wave_gaus), wave_gaus, 0.)
    wavegaus""")]),
('ok-sini','C01,C10,C26',[(KF,"""    if q < q0:
        sini = 1.
    else:
        sini = np.sqrt((1.-q**2)/(1.-q0**2))

    return sini""","""    if q >= q0:
        return np.sqrt((1.-q*q)/(1.-q0*q0))
    return 1.""")]),
('ok-optimal-helper','C14',[(KF,"""def sigma_aper_dispersion(aperModel1DDisp = None,""","""def _row_weights(aperModel1DDisp, shape):
    if aperModel1DDisp.extraction_method == 'boxcar':
        return np.ones(shape)
    if aperModel1DDisp.extraction_method != 'optimal':
        raise ValueError('extraction method not recognized: '+aperModel1DDisp.extraction_method)
    prof_sigma = (0.5*aperModel1DDisp.extraction_width/aperModel1DDisp.delt_y)/(2.*np.sqrt(2.*np.log(2.)))
    yy_prof = np.arange(shape[0]) - (shape[0]-1.)/2.
    g_y = norm.pdf(yy_prof, 0., prof_sigma)
    g_y = g_y/np.sum(g_y)
    return np.repeat(g_y[:, np.newaxis], shape[1], axis=1)


def sigma_aper_dispersion(aperModel1DDisp = None,"""),(KF,"""    if aperModel1DDisp.extraction_method == 'optimal':
        prof_sigma = (0.5*aperModel1DDisp.extraction_width/aperModel1DDisp.delt_y)/\\
                    (2.*np.sqrt(2.*np.log(2.)))
        # y extent = number of ROWS - shape[0]
        yy_prof = np.array(range(I_conv.shape[0])) - (I_conv.shape[0]-1.)/2.

        g_y = norm.pdf(yy_prof, 0., prof_sigma)
        g_y = g_y/np.sum(g_y)  # normalize

        G_y = np.tile(np.array([g_y]).transpose(), (1, I_conv.shape[1]))
    elif aperModel1DDisp.extraction_method == 'boxcar':
        G_y = np.ones(I_conv.shape)
    else:
        raise ValueError('extraction method not recognized: '+aperModel1DDisp.extraction_method)

    sigmasq_aper = np.sum(sigsq_I_conv*G_y*aperModel1DDisp.delt_x*aperModel1DDisp.delt_y)/\\
                    np.sum(I_conv*G_y*aperModel1DDisp.delt_x*aperModel1DDisp.delt_y)

    sigma_aper""","""    G_y = _row_weights(aperModel1DDisp, I_conv.shape)
    sigmasq_aper = np.sum(sigsq_I_conv*G_y)/np.sum(I_conv*G_y)

    sigma_aper""")]),
('ok-misalign-reorder','C14',[(KF,"""    sig_sq_wide = disp_square(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                    q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,
                    re_mass_arcsec=re_mass_arcsec,
                    r_core=aperModel1DDisp.r_core)


    I_wide  = Igal(aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full,
                        q=aperModel1DDisp.galaxy.q, delt_PA=aperModel1DDisp.galaxy.delt_PA,""","""    gal = aperModel1DDisp.galaxy
    xx, yy = aperModel1DDisp.x_arr_full, aperModel1DDisp.y_arr_full
    sig_sq_wide = disp_square(xx, yy, q=gal.q, delt_PA=gal.delt_PA,
                    re_mass_arcsec=re_mass_arcsec, r_core=aperModel1DDisp.r_core)
    I_wide  = Igal(xx, yy, q=gal.q, delt_PA=gal.delt_PA,""")]),
('ok-sersic','C04,C14',[(KF,"""    r_core_val = r_core*re #1/30.*re

    return Ie*np.exp(-b_n*( (np.power( ((r + r_core_val)/re), (1./float(n)) )) - 1.) )""","""    r_scaled = (r + r_core*re)/re
    exponent = b_n*(1. - r_scaled**(1./n))
    return Ie*np.exp(exponent)"""),(KF,"""    r_core_val = r_core*re #1/30.*re

    # Set constant so that sigma_profile(re) = 1.
    #sigma_cnst = 1.
    sigma_cnst = 1./np.power(((re+r_core_val)/re), d)

    return sigma_cnst * np.power( ((r+r_core_val)/re), d )""","""    def _shape(radius):
        return np.power((radius + r_core*re)/re, d)
    return _shape(r)/_shape(re)"""),(KF,"""    yp = np.sin(delt_PA*deg2rad)*x + np.cos(delt_PA*deg2rad)*y
    xp = np.cos(delt_PA*deg2rad)*x - np.sin(delt_PA*deg2rad)*y
""","""    angle = np.radians(delt_PA)
    xp = x*np.cos(angle) - y*np.sin(angle)
    yp = x*np.sin(angle) + y*np.cos(angle)
""")]),
]
