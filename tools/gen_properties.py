#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is readable in one place)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
KF='misfit/model/kin_functions.py'; KC='misfit/model/kin_classes.py'; AM='misfit/model/aper_model.py'; KM='misfit/model/kin_model.py'
GU='misfit/general/galaxy_utils.py'; UT='misfit/general/general_utils.py'; GA='misfit/galaxy.py'; IN='misfit/instrument.py'
EM='misfit/model/emission_lines_model.py'; FC='misfit/fit/fit_core.py'; F2='misfit/fit/fit2D.py'; F1='misfit/fit/fit1D.py'; FI='misfit/fit/fit_io.py'; MO='misfit/mock/generate_basic.py'; IO='misfit/general/io.py'
T="The tests compare a handful of aperture ratios and one 2D model at one or two hand-picked geometries; "

prop("C01","Sky-to-galaxy frame change is the misalignment rotation plus inclination",
 "For every sky position and line-of-sight depth, the galaxy-frame coordinates are the input rotated counter-clockwise from the slit axis by the misalignment angle and then tilted about the major axis by the inclination, so distances are preserved and the major-axis coordinate does not depend on depth or inclination. The inclination follows from the observed and intrinsic axis ratios of an oblate spheroid, sin i = sqrt((1-q^2)/(1-q0^2)), and is edge-on whenever the observed ratio is below the intrinsic one; the two ways the package derives the inclination agree. The elliptical radius is constant along ellipses of the given axis ratio and angle, circularised, with the same radius at every point for axis ratio one.",
 ["inputs"],"all coordinates, misalignment angles, inclinations and axis ratios 0<q<=1, 0<=q0<1",
 T+"an angle-sign or axis swap that is symmetric at those angles passes, and no finite sample covers all angles.",
 [KF,UT,AM],[("transform_int_3d",KF),("sin_i",KF),("r_int_ellip",KF),("inclination_angle",UT)],observe=["returned coordinates"])
prop("C02","Slit misalignment angle is folded modulo 180 degrees and projections match",
 "The misalignment between galaxy major axis and slit is the galaxy position angle minus the slit angle expressed in the image frame, folded into the open interval (-90, 90) degrees without changing it modulo 180, and its stored absolute value matches it. A model-only galaxy keeps the angle it was given. Projected and unprojected lengths along and across the slit are non-negative and equal the cosine and sine projections of the misalignment, and the in-slit projection never extends past the slit half-width.",
 ["inputs","configurations"],"all position angles (except where the fold is undefined), slit widths, radii and axis ratios",
 T+"no test computes a misalignment from position angles or calls the projection helpers directly.",
 [GU,UT,GA],[("calculate_slit_offset_angles",GU),("x_proj_major/y_proj_major/y_proj_major_inslit/...",UT)],observe=["galaxy.delt_PA","galaxy.delt_PA_abs"])
prop("C03","Velocity and dispersion profiles follow their parameters",
 "For every parameter vector and radius, the fiducial rotation curve is (2/pi) times the asymptotic velocity times the arctangent of radius over turnover radius, and the dispersion is spatially constant at its parameter value. The parameter vector is split between rotation and dispersion in that order, whatever the sizes of the two groups, and later entries never affect either. The rotation curve is odd in its amplitude, zero at the centre, and never exceeds the asymptotic velocity.",
 ["inputs","configurations"],"all parameter vectors, all radii, all splits between the velocity and dispersion groups",
 T+"one parameter split and a few radii are exercised, always through an aperture sum that hides per-radius errors.",
 [KC],[("VelArctanProfile.vel",KC),("DispConstProfile.sigma",KC),("KinProfile.update_theta",KC)],observe=["profile values"])
prop("C04","Light profiles are the stated Sersic and exponential-disk laws",
 "The model light at any position is the product of a Sersic radial profile, equal to its reference value at the effective radius with b = 2n - 0.324, and a vertical exponential symmetric about the midplane with scale height q0 times the (optionally 1.676-scaled) effective radius. The cored radial light and power-law dispersion profiles used for aperture corrections use the same b, are normalised to one reference radius as specified, and stay finite at zero radius. Updating the galaxy updates every derived scale.",
 ["inputs","configurations"],"all radii, heights, Sersic indices n>0, effective radii and thicknesses",
 T+"two Sersic indices are sampled and only ratios are compared, so a common mis-scaling cancels.",
 [KC,KF],[("IntProfileSersic.int",KC),("IntProfileExpZ/IntProfileExpZScale",KC),("I_sersic",KF),("sigma_profile",KF)],observe=["profile values"])
prop("C05","Model grids are uniform, centred, padded and cover slit and aperture exactly",
 "For every instrument, aperture and subsampling choice, pixel coordinates along slit, across slit and in depth are uniformly spaced at the stated pixel size, the unpadded pixels tile the slit width and aperture (or detector rows) exactly, and padding adds the same number of pixels on both sides. Coordinates are centred on the slit (minus the object offset), and along a two-dimensional spectrum on the object row, so the subpixels of a detector row average to that row's position. All three-dimensional coordinate, intensity and radius arrays share one (depth, slit, cross) shape.",
 ["inputs","configurations"],"all pixel scales, slit widths, apertures, PSF widths, pixel counts and subpixel factors",
 T+"one or two grids are built and only an integrated number is checked, so an off-by-half-pixel grid passes.",
 [AM],[("setup_model_grid (dispersion aperture)",AM),("setup_model_grid (rotation aperture)",AM),("setup_model_grid (2D)",AM)],observe=["x_arr, y_arr, z_arr and derived arrays"])
prop("C06","PSF kernels have the stated width, symmetry, orientation and negative images",
 "The PSF kernel value at an offset depends only on the offset distance, is maximal at zero, and drops to half its peak at half the stated FWHM, for both the Gaussian and Moffat shapes; rows of the kernel follow the slit direction and columns the cross direction. When a dither separation is set, half a PSF is subtracted at plus and minus that separation along the slit, for either shape. An explicitly passed FWHM overrides the stored one.",
 ["inputs","configurations"],"all coordinate vectors, FWHM > 0, Moffat beta > 1 and dither separations",
 T+"only Gaussian kernels without dithering are exercised, and only through flux ratios.",
 [IN],[("PSF_stamp_gauss",IN),("PSF_stamp_moffat",IN),("PSFGaussian/PSFMoffat.generate_conv_stamp",IN)],observe=["kernel values"])
prop("C07","Convolution and rebinning conserve flux and keep shapes",
 "Smearing a cube with the PSF, or a model with the spectral resolution, preserves total flux and array shape, and does nothing when the PSF width is zero; non-finite kernel values contribute nothing. The spectral kernel is a unit-peak Gaussian of the requested FWHM, centred on a pixel. Rebinning to a coarser grid sums each block of fine pixels into exactly one coarse pixel.",
 ["inputs"],"all cubes, kernels, wavelength grids of either parity, and integer rebin factors in any number of dimensions",
 T+"no test checks total flux or the rebinned values of an arbitrary array.",
 [KF],[("PSF_convolve",KF),("convol_instconstfwhm",KF),("inst_convol_complete",KF),("rebin",KF),("gaus_from_fwhm",KF)],observe=["returned arrays"])
prop("C08","Spectral cubes sum Doppler-shifted Gaussian lines along each sightline",
 "At every wavelength and sky pixel, the cube is the depth integral of the light times a unit-area Gaussian centred on each line's redshifted wavelength shifted by the local velocity, with width set by the local dispersion, weighted by that line's flux ratio and summed over lines. In velocity mode the same holds with velocities directly. With zero dispersion everywhere, the light of each cell goes wholly to the nearest wavelength bin.",
 ["inputs"],"all light, velocity and dispersion cubes, any number of lines, ratios, redshifts and wavelength grids",
 T+"the cube is never compared with its definition, and only one line set is sampled.",
 [KF],[("add_sigma_collapse_z",KF),("I_simple_collapse",KF)],observe=["returned cube"])
prop("C09","A two-dimensional model depends only on its current parameters",
 "Evaluating a model object at a parameter vector gives the same two-dimensional spectrum as a freshly built model at that vector, whatever parameter vectors were evaluated before, including earlier low-dispersion evaluations that switch to a finer internal wavelength grid. Evaluating never changes the observed data, the real wavelength grid or the subsampling used next time. The returned model always has the shape (rows, wavelengths) of the data.",
 ["histories","inputs"],"all sequences of parameter vectors evaluated on one model object",
 T+"each test builds one model once; no test evaluates one model object twice.",
 [AM,KM],[("update_model",AM),("check_do_upsample_wave/downsample_to_real_wave",AM),("do_model_calcs",AM)],
 [("wave_arr, nWave, I_matrix, wave_ref_matrix","current spectral grid and tiled arrays",AM)],["AperModel2D.model","KinModel2D.model"])
prop("C10","Free fit parameters map one-to-one onto the full parameter vector",
 "Writing a vector of free parameters into a model sets exactly the free entries of the full vector, in order, and leaves fixed entries unchanged; reading the free entries back returns the same vector. The stored initial vector is never changed by evaluations. A vector of the wrong length is rejected before any state changes.",
 ["inputs","configurations"],"all parameter counts, all free/fixed patterns, all values",
 T+"no test varies the free/fixed pattern or passes a wrong-length vector.",
 [KM,FC],[("update_parameters",KM),("initialize_fitting_theta",FC),("make_model/update_model",KM)],
 [("theta","full parameter vector",KM),("theta_vary","free/fixed pattern",KM)],["KinModel2D.theta"])
prop("C11","The prior is flat inside its bounds and the posterior never returns NaN",
 "The log prior is exactly zero when every free parameter lies within its inclusive bounds and minus infinity otherwise, and fixed parameters and their bounds play no role. Outside the bounds the log posterior is minus infinity and the model is not evaluated. Whatever the likelihood returns, the log posterior is either finite and equal to prior plus likelihood, or minus infinity.",
 ["inputs","configurations"],"all parameter vectors, free/fixed patterns, bounds and likelihood values including non-finite ones",
 T+"no stable test evaluates the prior or the posterior.",
 [KC,FC],[("ThetaPriorFlat.log_prior",KC),("lnprob",FC),("_between",KF)],observe=["returned value"])
prop("C12","Likelihood and chi-square count exactly the unmasked weighted pixels",
 "Weighted chi-square is the sum over unmasked pixels of weight times squared residual over error, the unweighted version uses unit weights, and reduced values divide by unmasked pixels minus free parameters. The log likelihood is minus half of weighted chi-square plus a term independent of the model, so likelihood differences between two models equal minus half their chi-square difference. Masked pixels and the model there have no influence.",
 ["inputs"],"all data, error, mask (0/1), weight and model arrays of matching shape",
 T+"no stable test evaluates a likelihood.",
 [KM],[("_model_llike",KM),("_model_chisq",KM),("_model_chisq_no_weight",KM),("model_redchisq",KM)],observe=["returned value"])
prop("C13","Model rows are scaled to the data by the least-squares optimum off sky lines",
 "Before comparison, each model row is multiplied by a single factor, the inverse-variance least-squares solution over the sky-free columns, so the residual there is orthogonal to the model row and no other factor gives a smaller chi-square. Rows where the model has no weight become zero rather than NaN or infinite. Columns flagged as sky never influence the factor, and the data are unchanged.",
 ["inputs"],"all model, flux and positive error arrays and all selections of sky-free columns",
 T+"the scaling is skipped in the stable tests (generated models are unscaled).",
 [KM],[("scale_model",KM)],observe=["KinModel2D.model"])
prop("C14","Aperture dispersion is the extraction-weighted, PSF-smeared second moment",
 "The aperture dispersion is the square root of the ratio of extraction-weighted sums, over exactly the unpadded aperture pixels, of the smeared second moment times light and of the smeared light; the weight is a unit-sum Gaussian along the slit whose FWHM is half the extraction width, or uniform for a boxcar, and any other method is rejected. The reported correction is that dispersion over the reference dispersion (light-weighted within the reference radius, or root-sum-square velocity there). Scaling all light by a constant changes nothing.",
 ["inputs","configurations"],"all light and kinematic grids, aperture sizes, extraction methods",
 T+"ten aperture ratios at fixed geometries are compared; other extraction methods, offsets and grids are never run.",
 [KF,AM],[("sigma_aper_dispersion",KF),("sigma_aper_dispersion_misalign",KF),("sigma_e_dispersion",KF),("trim_sum_aperture",AM),("calc_aper_correction",AM)],observe=["disp_aper_ratio"])
prop("C15","Rotation aperture models realise the requested V/sigma at the aperture radius",
 "For a rotation-dominated aperture model the dispersion is set so that rotation velocity over dispersion at the aperture radius equals the requested ratio exactly. A requested ratio of zero means no rotation with the given velocity used as dispersion, and no requested ratio means a pure disk with zero dispersion. The second moment at each cell is squared line-of-sight velocity plus squared dispersion, with the centre pixel's undefined azimuth contributing zero rotation.",
 ["inputs","configurations"],"all requested ratios (absent, zero, non-zero), velocities, turnover and aperture radii",
 T+"three ratios are sampled.",
 [AM],[("update_kinProfile",AM),("calculate_kin_cube",AM)],observe=["kinProfile.theta","RMS_sq_wide"])
prop("C16","1D emission spectra sum flux-normalised lines plus a polynomial continuum",
 "A one-dimensional model spectrum is, at every wavelength, the sum over line groups and their member lines of a Gaussian whose area is the group flux times the member ratio, centred at the redshifted wavelength with width velocity dispersion over c times that wavelength, plus the polynomial continuum. The value at one wavelength never depends on which other wavelengths are evaluated. The fit residual is model minus data over error on unmasked pixels only, with non-finite values replaced by zero.",
 ["inputs"],"all wavelength grids, redshifts, dispersions, fluxes, line sets, continuum orders and masks",
 T+"no test builds a one-dimensional spectrum.",
 [EM],[("gaussian_line",EM),("EmissionLines1DModel.make1DProfile",EM),("EmissionLinesSpectrum1DModel.make1DProfile/residual1DProfile",EM)],observe=["returned profile, residual"])
prop("C17","Line-table lookups return the row that was asked for",
 "Looking up a line group, rest wavelength, strength, wavelength range or sky threshold returns the values of the first table row whose key equals the request, and raises an error when there is none rather than returning another row. Rest wavelengths and flux ratios resolved for a list of lines are aligned with that list, in order, and explicitly supplied lists are never overwritten.",
 ["inputs","configurations"],"all table contents, requested keys and line lists",
 T+"only one line of one shipped table is read.",
 [IO,GA,EM],[("read_line_names/read_restwave/read_line_ratio/read_wave_range/read_skyline_band_cutoff",IO),("initialize_lineset",GA),("EmissionLines1DModel.setAttr",EM)],observe=["returned values"])
prop("C18","Wavelength trimming keeps exactly the pixels in range, aligned in every array",
 "Trimming a spectrum to a rest or observed range keeps exactly the pixels whose observed wavelength lies in the inclusive range, in order, with flux, error, mask and weight columns all taken from the same pixels; rest and observed ranges are related by one plus redshift. The rest-frame wavelength array is recomputed for the trimmed pixels. A copying trim leaves the original spectrum unchanged, and an empty selection yields an empty result rather than stale arrays.",
 ["inputs"],"all spectra, redshifts and ranges, including none in range",
 T+"no stable test trims a spectrum.",
 [GU,GA],[("trim_spectrum_1D",GU),("trim_spectrum_2D_wavelength",GU),("calculate_restwave",GA)],observe=["wave, flux, flux_err, spec_mask, spec_weight, restwave"])
prop("C19","Mask operations only ever remove pixels, and remove exactly the bad ones",
 "Every masking step only turns pixels off: missing or non-finite data and errors, zero weights, sky columns, low signal-to-noise rows and spectrum edges are set to zero and all other pixels keep their mask value. Sky and sky-free columns partition the columns, sky being exactly those with summed error at or above the cutoff times the median level. Edge masking touches only pixels within the stated number of pixels of the first and last good pixel.",
 ["inputs"],"all flux, error, weight and mask arrays, cutoffs and edge widths",
 T+"no stable test masks a spectrum.",
 [GU,GA],[("spec_mask_missing",GU),("mask_skylines_2D/wh_skylines_1D",GU),("mask_low_snr_rows_2D",GU),("mask_edges_1D",GU),("mask_spec2D_from_1D",GU),("spec_nan_masking",GU)],observe=["returned masks and index lists"])
prop("C20","Index lists split into maximal runs of consecutive values",
 "Splitting a list of indices into continuous groups returns groups that concatenate back to the input, in order, where neighbours inside a group differ by exactly one and the step across a group boundary is never one. No group is empty.",
 ["inputs"],"all finite index lists, including the empty one",
 "No test calls it; it decides which rows survive masking.",
 [UT],[("wh_continuous",UT)],observe=["returned list"])
prop("C21","Fit weights are a normalised row profile with masked rows at zero",
 "Fitting weights are constant along wavelength and sum to one over rows, or are all zero when no row carries weight; they are never negative. Low signal-to-noise rows get zero weight in the weighted modes, edge-upweighting gives each remaining row a weight inversely proportional to its signal-to-noise, and the unweighted mode gives equal weights.",
 ["inputs","configurations"],"all spectra, masks, row selections and weighting types",
 T+"no stable test computes weights.",
 [GU],[("calculate_2D_fit_weights",GU)],observe=["fitting_weight_profile","fitting_weight_matrix"])
prop("C22","Continuum subtraction and spatial trimming keep data, errors and masks aligned",
 "After continuum subtraction, flux plus continuum model equals the flux before subtraction at every kept pixel, the continuum is linear in wavelength within each row, and without subtraction the flux is unchanged. Every array of the spectrum is cut to the same wavelength window and, in the spatial trim, to the same rows, and the object position and row coordinates shift by the number of rows removed below.",
 ["inputs","configurations"],"all spectra, masks, continuum fits returned by the optimiser, and fitted object positions",
 T+"no stable test prepares an observed spectrum.",
 [GU],[("subtract_continuum_2D",GU),("trim_spectrum_2D_spatial",GU)],observe=["flux, flux_incl_cont, cont_model, m0, ypos"])
prop("C23","Posterior summaries describe the sampled chain and its derived columns",
 "The derived columns appended to a chain are, sample by sample, the rotation velocity and dispersion at one and 2.2/1.676 mass effective radii for that sample's parameters, with fixed parameters at their fixed values; the original columns are unchanged except for the documented absolute dispersion. Names line up with columns. Quoted one- and two-sigma errors are the distances from the quoted best value to the 15.865/84.135 and 2.275/97.725 percentiles, for every parameter and every linked group, and the opposite-sign percentage counts samples of sign opposite to the best value.",
 ["inputs","configurations","histories"],"all chains, free/fixed patterns and linked parameter groups",
 T+"no stable test analyses a chain.",
 [FC,UT,FI],[("add_v_re_22",FC),("get_param_posterior_bestfits",FC),("get_bestfit_values_linked",UT),("make_emcee_sampler_dict",FI)],observe=["mcmc_results","sampler_dict"])
prop("C24","Walkers start inside the prior bounds of the free parameters",
 "Every starting position of every walker lies within the bounds of the corresponding free parameter, in order, whatever the order in which the two bounds were given; fixed parameters contribute no coordinate. The number of positions and their dimension are those requested.",
 ["inputs","configurations"],"all bounds, free/fixed patterns, walker counts and random draws",
 T+"no stable test initialises walkers.",
 [FC,UT],[("init_walker_pos",FC),("range_arrs",UT)],observe=["returned positions"])
prop("C25","Separately created objects never share mutable state",
 "Two models, fits or mock observations created separately without passing the same objects in explicitly share no mutable settings, profiles, options or results, so changing or evaluating one never changes the other. The settings object passed in keeps the parameter values it was given.",
 ["histories","configurations"],"all orders of creating, configuring and evaluating several objects",
 T+"each test creates its objects once and looks at only one.",
 [KM,F2,MO,KC],[("KinModel2D.__init__ defaults",KM),("FitEmissionLines2D.__init__ defaults",F2),("generate_mock_basis defaults",MO)],observe=["attributes of the other object"])
prop("C26","Mock observations are built from exactly the requested parameters",
 "A mock observation uses the requested galaxy structure, kinematics, instrument and offsets, with the parameter order velocity, turnover radius, dispersion, offset, redshift all held fixed and no data scaling. The number of rows is the slit length over the pixel scale rounded up with the slit never shorter than the minimum, and the galaxy sits at the centre row. The slit observation has that number of rows and one column per input wavelength.",
 ["inputs","configurations"],"all mock parameters",
 T+"one mock is generated and only its existence or shape is checked.",
 [MO],[("generate_mock_basis",MO),("generate_mock_slit_obs",MO)],observe=["kinModel, galaxy, instrument attributes"])
prop("C27","Corrected dispersions subtract resolution in quadrature, never go imaginary",
 "The corrected dispersion is the square root of the measured minus instrumental dispersion squared, or zero when the measured value does not exceed the instrumental one, for the best fit and for every Monte Carlo realisation alike. Quoted errors are distances from the corrected value to the 15.865 and 84.135 percentiles of the corrected realisations. The fitted values reported are those of the accepted optimiser result.",
 ["inputs"],"all measured dispersions, resolutions and Monte Carlo tables",
 T+"no test runs the one-dimensional fit.",
 [F1],[("calculate_inst_corr_vel_disp",F1),("make_params",F1)],observe=["vel_disp_inst_corr","vel_disp_inst_corr_err"])
prop("C28","Slit illumination offsets stay within the slit",
 "For any fitted light centroid and width in a slit row, the effective position used for the wavelength shift lies within the slit, and the effective width is the overlap of the fitted full width with the slit whenever that overlap is positive; profiles wholly inside the slit are unchanged. The velocity shift per row is proportional to that position, with the slit's full width corresponding to the full-slit resolution element.",
 ["inputs"],"all centroids, widths and slit widths",
 "No stable test enables position-dependent wavelength shifts.",
 [KF],[("check_slit_illum",KF),("calculate_effective_inst_res_lam_shift",KF)],observe=["returned offset and width"])
prop("C29","Sampling converges to the true kinematics of a noisy mock observation",
 "Given a mock observation with known parameters and noise of the stated size, the sampler's posterior covers the true parameters at the nominal rate and its best values approach the truth as noise decreases. Rerunning with the same random seed gives the same chain.",
 ["inputs","schedules"],"all mock galaxies, noise realisations and seeds",
 "One end-to-end fit exists and does not run in this environment; coverage is a statistical statement over noise realisations.",
 [FC],[("run_mcmc",FC)],observe=["sampler_dict"])
prop("C30","Saved fits reload to the same state",
 "A saved sampler table or best-fit result, read back in a new process, has the same chain, parameters, data arrays and settings as the object that was saved, and analysing it gives the same summaries.",
 ["inputs","histories"],"all fit objects and chains",
 "No stable test saves or reloads a fit.",
 [F2,FI],[("dumppickle/loadpickle",FI),("save_bestfit_model/reload_bestfit_model",F2)],observe=["reloaded attributes"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P:
        len(p["title"])<=80 or print("LONG",p["title"])
        f.write(json.dumps(p)+"\n")
print(len(P))
