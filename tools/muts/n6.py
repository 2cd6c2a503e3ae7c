GU='general/galaxy_utils.py'; EL='model/emission_lines_model.py'; IO='general/io.py'
M=[
# C16
('b-res-mask','C16',[(EL,"wh_good = np.where(mask == 1)[0]","wh_good = np.where((mask == 1) & (err > 0))[0]")]),
('b-order','C16',[(EL,"profile += cont_coeff[i]*np.power(obswave_arr,i)","profile += cont_coeff[i]*np.power(obswave_arr,min(i,2))")]),
('b-attr-alias','C16',[(EL,"        profile = np.zeros(len(obswave_arr))\n        # Loop","        profile = np.zeros(len(obswave_arr))\n        # Loop")]) if False else
('b-fluxsort','C16',[(EL,"lineModel.make1DProfile(obswave_arr, z, vel_disp, self.flux_arr[i])","lineModel.make1DProfile(obswave_arr, z, vel_disp, np.abs(self.flux_arr[i]))")]),
('b-zshare','C16',[(EL,"            profile += self.profile_func(self.obswave_arr, \n                            self.restwave_arr[i]*(1.+self.z), self.vel_disp, self.flux*self.flux_ratio_arr[i])","XX")]) if False else
('b-sig','C16',[(EL,"    sig = vel_sig / c_kms * mu","    sig = np.abs(vel_sig) / c_kms * np.average(x)")]),
('b-resid-inf','C16',[(EL,"        resid[~np.isfinite(resid)] = 0.","        resid[np.isnan(resid)] = 0.")]),
# C17
('b-io-last','C17',[(IO,"    wh = np.where(data['band'] == band)[0]\n    if len(wh) == 0:\n        raise ValueError(\"Problem with param file: {}\".format(param_filename) )\n    else:\n        wh = wh[0]","    wh = np.where(data['band'] == band)[0]\n    if len(wh) == 0:\n        raise ValueError(\"Problem with param file: {}\".format(param_filename) )\n    else:\n        wh = wh[-1]")]),
('b-io-range','C17',[(IO,"np.array([data['wave_l'][wh], data['wave_u'][wh]])","np.sort(np.array([data['wave_l'][wh], data['wave_u'][wh]]))")]),
('b-io-names','C17',[(IO,"    linename_arr = lineset.split(',')","    linename_arr = sorted(set(lineset.split(',')), key=lineset.split(',').index)")]),
('b-io-strip','C17',[(IO,"    wh = np.where(data['name'] == name)[0]","    wh = np.where(np.char.lower(np.array(data['name'], dtype=str)) == str(name).lower())[0]")]),
('b-el-overwrite','C17',[(EL,"            if self.restwave_arr is None:\n                self.restwave_arr = np.array(wave_arr)","            self.restwave_arr = np.array(wave_arr)")]),
('b-el-names','C17',[(EL,"        if (self.linenames_arr is None):","        if (self.linenames_arr is None) or (self.name is not None):")]),
('b-el-sorted','C17',[(EL,"            for linename in self.linenames_arr:\n                wave_arr.append(io.read_restwave(wave_file, linename=linename))\n                line","            for linename in sorted(self.linenames_arr):\n                wave_arr.append(io.read_restwave(wave_file, linename=linename))\n                line")]),
# C18
('b-tr-1d-rest','C18',[(GU,"            spec1D_trim.calculate_restwave(galaxy)\n        else:","            spec1D_trim.restwave = spec1D.restwave[wh] if spec1D.restwave is not None else None\n            spec1D_trim.obswave = spec1D.obswave[wh]\n        else:")]),
('b-tr-2d-cont','C18',[(GU,"                    spec2D.cont_model = spec2D.cont_model[:,wh]\n                except:","                    spec2D.cont_model = spec2D.cont_model[:,wh[0]:wh[0]+len(wh)]\n                except:")]),
('b-tr-2d-copyw','C18',[(GU,"                spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]\n","                spec2D_trim.spec_weight = spec2D.spec_weight[:,wh] if spec2D.spec_weight is not None else None\n                spec2D.trim_obswave_range = trim_obswave_range\n")]),
('b-tr-2d-restr','C18',[(GU,"        trim_restwave_range = (np.array(trim_obswave_range)/(1.+galaxy.z)).tolist()","        trim_restwave_range = (np.array(trim_obswave_range)*(1.-galaxy.z)).tolist()")]),
('b-tr-2d-empty','C18',[(GU,"                spec2D_trim.spec_weight = None\n","")]),
('b-tr-1d-empty','C18',[(GU,"        if len(wh) > 0:\n            spec1D_trim.wave","        if len(wh) > 1:\n            spec1D_trim.wave")]),
('b-tr-2d-ow','C18',[(GU,"            wh = np.where((spec2D_trim.obswave >= trim_obswave_range[0]) &","            wh = np.where((spec2D_trim.wave >= trim_obswave_range[0]) &")]),
# C19
('b-low-2','C19',[(GU,"            if len(wh) > 2:","            if len(wh) >= 2:")]),
('b-low-half','C19',[(GU,"if (low_snr_row_inds.min() < (nrows)/2.) &","if (low_snr_row_inds.min() <= (nrows)/2.) &")]),
('b-low-abs','C19',[(GU,"    snr_arr = np.abs(sum_arr/err_arr)\n    high","    snr_arr = sum_arr/err_arr\n    high")]),
('b-low-mask','C19',[(GU,"    mask_low_snr[low_snr_row_inds,:] = 0.\n\n","    mask_low_snr[low_snr_row_inds,:] = 0.\n    mask_low_snr[high_snr_inds.astype(int),:] = 1.\n\n")]),
('b-sky-alias','C19',[(GU,"    mask_sky = mask.copy()\n","    mask_sky = mask\n")]),
('b-edge-all','C19',[(GU,"        if edge_r < len(spec)-1:","        if edge_r < len(spec):")]),
('b-edge-max','C19',[(GU,"spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0","spec_mask[edge_r-num_edge+1:edge_r+1] = 0")]),
('b-miss-any','C19',[(GU,"    if (not nonfinite_only) & np.any(np.abs(spec_err) > 0.):","    if (not nonfinite_only) & np.all(np.abs(spec_err) >= 0.):")]),
('b-miss-w','C19',[(GU,"spec_mask[np.where(spec_weight == 0.)] = 0.","spec_mask[np.where(spec_weight <= 0.)] = 0.")]),
('b-1d2d','C19',[(GU,"        mask2D[:,w] = 0.","        mask2D[:,w] = mask1D[w]*0. + (mask2D[:,w] < 0)")]),
('b-nanmask','C19',[(GU,"        wh_reset = np.where((np.invert(np.isfinite(flux))) & (spec_mask == 0.))","        wh_reset = np.where((np.invert(np.isfinite(flux))))")]),
('b-setdiff','C19',[(GU,"    wh_nosky = np.setdiff1d(range(np.shape(flux)[1]), wh_sky)","    wh_nosky = np.where(np.any(mask_sky > 0., axis=0))[0]")]),
# C22
('b-cont-edge','C22',[(GU,"        galaxy.spec1D.num_mask_edge = 10 #5\n","        galaxy.spec1D.num_mask_edge = 5 #5\n")]),
('b-cont-mask','C22',[(GU,"    wh_line_r = np.where((spec2D.obswave <= frange[1])&(spec2D.obswave > line_mask_range[1]))[0]","    wh_line_r = np.where((spec2D.obswave <= frange[1])&(spec2D.obswave > line_mask_range[0]))[0]")]),
('b-cont-yerr','C22',[(GU,"        yy1d_mask = np.append(spec_mask_tmp[wh_line_l], spec_mask_tmp[wh_line_r])","        yy1d_mask = np.append(galaxy.spec1D.spec_mask[wh_line_l], galaxy.spec1D.spec_mask[wh_line_r])")]),
('b-cont-slope','C22',[(GU,"            if (spec_mask_tmp[wh_line_l].max() > 0.) & (spec_mask_tmp[wh_line_r].max() > 0.):","            if (spec_mask_tmp[wh_line_l].max() > 0.) | (spec_mask_tmp[wh_line_r].max() > 0.):")]),
('b-cont-1dtrim','C22',[(GU,"        galaxy.spec1D.flux_err = galaxy.spec1D.flux_err[wh_full]\n","")]),
('b-cont-yymask','C22',[(GU,"            yy_mask = np.append(spec2D.spec_mask[i,wh_line_l], spec2D.spec_mask[i,wh_line_r])","            yy_mask = yy1d_mask")]),
('b-cont-incl','C22',[(GU,"    spec2D.flux_incl_cont = spec2D.flux.copy()\n","    spec2D.flux_incl_cont = spec2D.flux\n")]),
('b-cont-median','C22',[(GU,"    spec2D.median_flux_error = np.median(sum_over_col_arr)\n","    spec2D.median_flux_error = np.median(sum_over_col_arr[sum_over_col_arr > 0])\n")]),
('b-cont-band','C22',[(GU,"    if (spec2D.wave_line_range_rest is None):\n","    if (spec2D.wave_line_range_rest is None) or (spec2D.wave_line_range_rest_param_filename is None):\n")]),
('b-sp-ypos','C22',[(GU,"    spec2D.ypos = spec2D.ypos - l_ind\n","    spec2D.ypos = spec2D.ypos - l_ind if galaxy.dither else spec2D.ypos - m_min\n")]),
('b-sp-neg','C22',[(GU,"        l_ind = max([0,m_min])","        l_ind = m_min")]),
('b-sp-rind','C22',[(GU,"        r_ind = min([n_spatial_orig-1, m_max])","        r_ind = m_max")]),
('b-sp-extr','C22',[(GU,"galaxy.spec1D.extraction_spatial_profile[l_ind:r_ind]","galaxy.spec1D.extraction_spatial_profile[l_ind:l_ind+(r_ind-l_ind)//1+1]")]),
('b-sp-lowinds','C22',[(GU,"    spec2D.low_snr_row_inds = low_snr_row_inds\n","    spec2D.low_snr_row_inds = low_snr_row_inds + l_ind\n")]),
('b-sp-m0','C22',[(GU,"    spec2D.m0 = m0 - l_ind\n","    spec2D.m0 = m0 - spec2D.full_l_ind if m0 > l_ind else m0\n")]),
('b-sp-mlow','C22',[(GU,"    spec2D.mask_low_snr = spec2D.mask_low_snr[l_ind:r_ind,:]\n","    spec2D.mask_low_snr = mask_low_snr_rows_2D(flux=spec2D.flux, err=spec2D.flux_err, mask=spec2D.mask_qual.copy(), mask_calc=spec2D.mask_sky, snr_cut=spec2D.row_snr_cut)[0]\n")]),
]
