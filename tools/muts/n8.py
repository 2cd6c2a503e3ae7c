G='mock/generate_basic.py'
def m(i,o,n,p='C26',f=G): return (i,p,[(f,o,n)])
M=[
m('e-nymin',"    if slit_length < nymin*pixscale:\n","    if slit_length < (nymin-1)*pixscale:\n"),
m('e-nymin2',"        slit_length = nymin*pixscale\n","        slit_length = nymin*pixscale*1.0001\n"),
m('e-shape',"spec2D.shape = [ int(np.ceil(instrument.slit_length/instrument.pixscale)), nwave]","spec2D.shape = [ int(np.round(instrument.slit_length/instrument.pixscale)), nwave]"),
m('e-ypos',"    spec2D.ypos = spec2D.m0\n","    spec2D.ypos = np.floor(spec2D.m0)\n"),
m('e-upd',"    intensityProfile.update_values(galaxy=galaxy)\n","    if re_arcsec > instrument.pixscale*0.5:\n        intensityProfile.update_values(galaxy=galaxy)\n"),
m('e-res',"    instrument.instrument_resolution = instrument_resolution\n","    instrument.instrument_resolution = instrument_resolution or None\n"),
m('e-wave',"    spec2D = ObsSpectrum2D(band=band, wave=wave,","    spec2D = ObsSpectrum2D(band=band, wave=np.linspace(wave[0], wave[-1], nwave),"),
m('e-noscale',"                    no_scale=True,\n","                    no_scale=(spec_type=='wave'),\n"),
m('e-pad',"                        pad_factor=pad_factor,\n","                        pad_factor=max(pad_factor, 0.5),\n"),
m('e-sub',"nSubpixels=nSubpixels,","nSubpixels=max(nSubpixels, 2),"),
m('e-q0',"delt_PA=delt_PA, q=q, q0=q0,","delt_PA=delt_PA, q=q, q0=min(q0, q),"),
m('e-pa',"delt_PA=delt_PA, q=q, q0=q0,","delt_PA=delt_PA % 180., q=q, q0=q0,"),
m('e-dither',"dither=dither, generate_model=True)","dither=False, generate_model=True)"),
m('e-moffat',"                    PSF_type = PSF_type, yspace_dither_arc=None,","                    PSF_type = PSF_type if PSF_FWHM else 'Gaussian', yspace_dither_arc=None,"),
m('e-sig',"theta_init = np.array([Va, rt, sigma0, yshift, galaxy.z])","theta_init = np.array([Va, rt, np.maximum(sigma0, 1.), yshift, galaxy.z])"),
m('e-int-dtype',"theta_init = np.array([Va, rt, sigma0, yshift, galaxy.z])","theta_init = np.array([Va, rt, sigma0, yshift, galaxy.z], dtype=type(Va))"),
m('e-float32',"theta_init = np.array([Va, rt, sigma0, yshift, galaxy.z])","theta_init = np.array([Va, rt, sigma0, yshift, galaxy.z], dtype='f4')"),
m('e-prof-shared',"kinProfile = None,\n    intensityProfile","kinProfile = None,\n    intensityProfile") if False else m('e-cache-kin',"        kinProfile = KinProfileFiducial()\n","        if not hasattr(KinProfileFiducial, '_mock'): KinProfileFiducial._mock = KinProfileFiducial()\n        kinProfile = KinProfileFiducial._mock\n",'C25'),
m('e-n1',"                n=n, re_arcsec=re_arcsec,\n                delt_PA","                n=round(n, 1), re_arcsec=re_arcsec,\n                delt_PA"),
m('ok-mock-rows',"    spec2D.shape = [ int(np.ceil(instrument.slit_length/instrument.pixscale)), nwave]\n","    n_rows = int(np.ceil(slit_length/pixscale))\n    spec2D.shape = [n_rows, nwave]\n",'C26,C25'),
m('ok-mock-m0',"spec2D.m0 = np.ceil(instrument.slit_length/instrument.pixscale)/2. - 0.5","spec2D.m0 = 0.5*(spec2D.shape[0] - 1)"),
m('ok-mock-max',"    if slit_length < nymin*pixscale:\n        slit_length = nymin*pixscale\n","    slit_length = max(slit_length, nymin*pixscale)\n"),
m('ok-mock-opt',"    kinModelOptions = KinModel2DOptions(nSubpixels","    opts = dict(nSubpixels") if False else m('ok-mock-ret',"    model_img = kinModel.model\n\n    return model_img","    return kinModel.model"),
m('ok-mock-vary',"theta_vary = np.array([False, False, False, False, False])\n    theta_bounds = np.array([None, None, None, None, None])","theta_vary = np.zeros(len(theta_init), dtype=bool)\n    theta_bounds = np.array([None]*len(theta_init))",'C26,C25'),
]
