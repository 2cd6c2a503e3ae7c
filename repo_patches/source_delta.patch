From c586bbe69ef1c1dd8abf2c36ffd8b12c66ba484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 01/32] fix: inclination_angle is edge-on, not NaN, below the
 intrinsic axis ratio

---
 misfit/general/general_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index 5fcf554..f7652f3 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -171,7 +171,8 @@ def y_proj_major_inslit(re, delt_PA, slit_width_arcsec=None):
     return y_proj_major_inslit
 
 def inclination_angle(q, q0=None):
-    return np.arccos(np.sqrt(((q)**2 - q0**2)/(1.-q0**2)))
+    # Edge-on if the observed axis ratio is below the intrinsic one
+    return np.arccos(np.sqrt(np.maximum((q)**2 - q0**2, 0.)/(1.-q0**2)))
 
 
 
-- 
2.43.0


From 860b89519e102980520afc8d356af55c26d30e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 02/32] fix: 2D model rows are spaced by the subpixel size and
 centred on the object row

---
 misfit/model/aper_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index e36093b..35fe8da 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -706,8 +706,9 @@ class AperModel2D(object):
         self.z_arr = np.linspace(-(self.n_pix_z/2.-0.5)*self.delt_z,
                             (self.n_pix_z/2.-0.5)*self.delt_z, num=self.nZ)
 
-        self.y_arr = np.linspace(-(self.padY-0.5)*self.delt_y,
-                ((self.n_pix_y_whole-1)*self.nSubpixels + self.padY-0.5)*self.delt_y,
+        # Row 0 is centered at 0, so its subpixels span +-(nSubpixels-1)/2
+        self.y_arr = np.linspace(-(self.padY+0.5*(self.nSubpixels-1))*self.delt_y,
+                ((self.n_pix_y_whole-0.5)*self.nSubpixels + self.padY-0.5)*self.delt_y,
                 num=self.nY)
 
         self.z = self.theta[-1]
-- 
2.43.0


From fc481747797ca15a31277da0a59151633aaf011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:43 +0000
Subject: [PATCH 03/32] fix: Moffat PSF kernels include the dither negative
 images

---
 misfit/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/instrument.py b/misfit/instrument.py
index 52ba1d3..bff23ec 100644
--- a/misfit/instrument.py
+++ b/misfit/instrument.py
@@ -69,7 +69,7 @@ class PSFMoffat(PSFBase):
         beta = self.PSF_beta
         alpha = PSF_FWHM/(2. * np.sqrt(np.power(2., 1./beta) -1))
 
-        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta)
+        return PSF_stamp_moffat(x, y, alpha=alpha, beta=beta, yspace_dither_arc=self.yspace_dither_arc)
 
 
 class Instrument(object):
-- 
2.43.0


From d4339e4d9fd46bd8aef99bbf0b4050264587f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 04/32] fix: velocity-mode cubes without dispersion no longer
 reference an undefined wavelength

---
 misfit/model/kin_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 5dbb9d1..d36787c 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -125,7 +125,7 @@ def add_sigma_collapse_z(I_wide, V_wide, sigma_wide,
             I_Vxy_oneline = np.sum(I_conv, axis=1)*delt_z
         else:
             I_Vxy_oneline = I_simple_collapse(I_wide, V_wide, wave_arr, nWave,
-                            nZ, nY, nX, delt_z, delt_wave, lam0)
+                            nZ, nY, nX, delt_z, delt_wave, None)
 
         I_Vxy += I_Vxy_oneline
 
@@ -153,7 +153,11 @@ def I_simple_collapse(I_wide, V_wide, wave_arr,
             # At every (x,y): for each z, find closest v bin, and add that to the intensity.
             for m in range(int(nZ)):
 
-                lam = lam0*(1.+V_wide[m,j,k]/c_kms)
+                # lam0 = None: wave_arr is a velocity grid
+                if lam0 is None:
+                    lam = V_wide[m,j,k]
+                else:
+                    lam = lam0*(1.+V_wide[m,j,k]/c_kms)
                 I = I_wide[m,j,k]
                 lam_diff = np.abs(lam - wave_arr)
 
-- 
2.43.0


From 98f6808d458cdd58e056847a6457980df1da9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:41 +0000
Subject: [PATCH 05/32] fix: adaptive wavelength upsampling used np.float,
 removed from numpy

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 35fe8da..0c9a7e1 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -751,7 +751,7 @@ class AperModel2D(object):
     def check_do_upsample_wave(self):
         if (np.abs(self.kinProfile.dispProfile.theta) < self.sigma_upsample_value) :
             # Create new array that has finer sampling:
-            self.delt_wave = self.delt_wave_real / np.float(self.adaptive_upsample_factor)
+            self.delt_wave = self.delt_wave_real / float(self.adaptive_upsample_factor)
 
             nwmin = self.wave_arr.min() - 0.5*(self.delt_wave_real - self.delt_wave)
             nwmax = self.wave_arr.max() + 0.5*(self.delt_wave_real - self.delt_wave)
-- 
2.43.0


From b9c2d307bf5fd34b4ea875252a7796847f0685a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:17 +0000
Subject: [PATCH 06/32] fix: AperModel2D.update_model ignored changed m0_shift
 and z

---
 misfit/model/aper_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 0c9a7e1..2a74b5e 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -628,6 +628,12 @@ class AperModel2D(object):
     def update_model(self, **kwargs):
         self.setAttr(**kwargs)
 
+        # The model grid depends on the last two parameters (m0_shift, z): rebuild it if they changed
+        if (self.theta[-1] != self.z) or (self.galaxy.spec2D.m0 + self.theta[-2] != self.m0_fit):
+            self.delta_position_velspace = None
+            self.inst_disp_wave = None
+            self.setup_calcs()
+
         self.do_model_calcs()
 
     def do_model_calcs(self):
-- 
2.43.0


From 47d94406b0379080e0f8b36497aaa0abe4a308ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 07/32] fix: slit illumination check used np.NaN, removed from
 numpy

---
 misfit/model/kin_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index d36787c..481d8f7 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -294,7 +294,7 @@ def check_slit_illum(xarr, wh_in_slit_x, A_tmp, mu_y, FWHM_arcsec, tot_slit_widt
     if modified_bounds:
         # Determine the new mu:
         model = A_tmp*gaus_from_fwhm(xarr, FWHM_arcsec, mu_y)
-        model_mask = np.zeros(len(xarr))*np.NaN
+        model_mask = np.zeros(len(xarr))*np.nan
         model_mask[wh_in_slit_x] = 1.
         model_orig = model.copy()
         model *= model_mask
-- 
2.43.0


From 9ebb417b0e35e02daa0b5887cfa51bbbbfa0560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:02 +0000
Subject: [PATCH 08/32] fix: AperModel1DRot can recalculate its cube with
 position shifts (attribute is inst_disp_vel)

---
 misfit/model/aper_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/aper_model.py b/misfit/model/aper_model.py
index 2a74b5e..9aebb10 100644
--- a/misfit/model/aper_model.py
+++ b/misfit/model/aper_model.py
@@ -421,7 +421,7 @@ class AperModel1DRot(AperModel1DBase):
 
         # Add position offset, if calculating that shift:
         if self.do_position_wave_shift or self.do_inst_res_conv_effective:
-            if (self.delta_position_velspace is None) or (self.inst_disp_wave is None):
+            if (self.delta_position_velspace is None) or (self.inst_disp_vel is None):
                 #################
                 # Exclude the padded regions ????
                 wh_in_slit_x = np.array(range(self.padX,self.n_pix_x+self.padX))
-- 
2.43.0


From a1ba38f17caadc0b7f62f0454cc18cce1d01031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 09/32] fix: PSF_convolve accepts the flat stamp set by the 1D
 aperture models (position shift of AperModel1DRot crashed)

---
 misfit/model/kin_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misfit/model/kin_functions.py b/misfit/model/kin_functions.py
index 481d8f7..0c3097b 100644
--- a/misfit/model/kin_functions.py
+++ b/misfit/model/kin_functions.py
@@ -369,6 +369,9 @@ def PSF_convolve(spectra_cube, PSF):
 
     if PSF.PSF_FWHM > 0.:
         kern3D = PSF._conv_stamp
+        # Allow for a flat (2D) stamp, as set by the 1D aperture models:
+        if kern3D.ndim == 2:
+            kern3D = kern3D[np.newaxis, :, :]
 
         spectra_cube_see_conv = fftconvolve(spectra_cube, kern3D, mode='same')
         # Conserve total flux:
-- 
2.43.0


From 624715d989d7cd2bc77f66a9f9aa69dd9debcbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 10/32] fix: gaussian_line has the requested flux whatever
 wavelengths are sampled

---
 misfit/model/emission_lines_model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 5b8292a..2c97e0d 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -275,9 +275,7 @@ def gaussian_line(x, mu, vel_sig, flux):
     # Convert vel_sig into sig in wavelength:
     sig = vel_sig / c_kms * mu
 
-    # make gaussian
-    gaus = norm.pdf(x, mu, sig)
-    # scale to amplitude
-    scale = flux/(sig*np.sqrt(2.*np.pi))
-    gaus = gaus/gaus.max()*scale
+    # Gaussian with total flux `flux`. Don't normalize by the sampled maximum:
+    #   that depends on where the line falls relative to the pixels.
+    gaus = flux*norm.pdf(x, mu, sig)
     return gaus
-- 
2.43.0


From 4aa8dfc593845a600be3cd0165007037b4c5a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 11/32] fix: EmissionLines1DModel keeps explicitly supplied
 wavelengths or ratios

---
 misfit/model/emission_lines_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misfit/model/emission_lines_model.py b/misfit/model/emission_lines_model.py
index 2c97e0d..2b1e721 100644
--- a/misfit/model/emission_lines_model.py
+++ b/misfit/model/emission_lines_model.py
@@ -241,8 +241,11 @@ class EmissionLines1DModel(EmissionLines):
                 wave_arr.append(io.read_restwave(wave_file, linename=linename))
                 line_ratio_arr.append(io.read_line_ratio(wave_file, linename=linename))
 
-            self.restwave_arr = np.array(wave_arr)
-            self.flux_ratio_arr = np.array(line_ratio_arr)
+            # Keep any explicitly supplied values
+            if self.restwave_arr is None:
+                self.restwave_arr = np.array(wave_arr)
+            if self.flux_ratio_arr is None:
+                self.flux_ratio_arr = np.array(line_ratio_arr)
 
 
 
-- 
2.43.0


From 6cd5f43610c9d8b46890b2ce0d75125dc0187881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:31 +0000
Subject: [PATCH 12/32] fix: trim_spectrum_1D with a plain Python float
 redshift

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 0c95bcd..4c78e8d 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -46,7 +46,7 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
         trim_restwave_range = io.read_wave_range(param_restwave_filename,linename=linename)
 
     if trim_obswave_range is None:
-        trim_obswave_range = np.array(trim_restwave_range)*(1.+galaxy.z).tolist()
+        trim_obswave_range = (np.array(trim_restwave_range)*(1.+galaxy.z)).tolist()
 
     # Find the range there is coverage:
     if spec1D is not None:
-- 
2.43.0


From a5a5fabfe644fe9e668a0c1efa854a780890dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 13/32] fix: an empty wavelength trim leaves no stale
 wavelength arrays

---
 misfit/general/galaxy_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 4c78e8d..c3c2df8 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -66,6 +66,8 @@ def trim_spectrum_1D(spec1D, galaxy, trim_restwave_range=None,
             spec1D_trim.calculate_restwave(galaxy)
         else:
             spec1D_trim.wave = None
+            spec1D_trim.obswave = None
+            spec1D_trim.restwave = None
             spec1D_trim.flux = None
             spec1D_trim.flux_err = None
             spec1D_trim.spec_mask = None
@@ -134,6 +136,8 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D.calculate_restwave(galaxy)
             else:
                 spec2D.wave = None
+                spec2D.obswave = None
+                spec2D.restwave = None
                 spec2D.flux = None
                 spec2D.flux_err = None
                 spec2D.spec_mask = None
@@ -161,6 +165,8 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.calculate_restwave(galaxy)
             else:
                 spec2D_trim.wave = None
+                spec2D_trim.obswave = None
+                spec2D_trim.restwave = None
                 spec2D_trim.flux = None
                 spec2D_trim.flux_err = None
                 spec2D_trim.spec_mask = None
-- 
2.43.0


From 4e6aa2a071e4f646560e7067252eb8fac59ce737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 14/32] fix: mask_edges_1D masks num_edge pixels at the right
 edge, and never wraps around

---
 misfit/general/galaxy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c3c2df8..16dc517 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -700,7 +700,7 @@ def mask_edges_1D(spec=None, spec_err=None, spec_mask=None,num_edge=10):
         if edge_l > 0:
             spec_mask[edge_l:edge_l+num_edge] = 0
         if edge_r < len(spec)-1:
-            spec_mask[edge_r-num_edge-1:edge_r+1] = 0
+            spec_mask[max(edge_r-num_edge+1, 0):edge_r+1] = 0
 
     return spec_mask
 
-- 
2.43.0


From fdb9be3e332814ee7dabdbc4a59eb8401739bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 15/32] fix: spec_mask_missing masks missing pixels also next
 to NaN errors, and pixel by pixel in 2D

---
 misfit/general/galaxy_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index 16dc517..c041057 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -716,8 +716,8 @@ def spec_mask_missing(spec=None, spec_err=None, spec_weight=None,
 
     # ##########################################################
     # # Mask missing values: eg, where error = 0.
-    if (not nonfinite_only) & (np.abs(spec_err).max() > 0.):
-        wh_missing = np.where(spec_err == 0.)[0]
+    if (not nonfinite_only) & np.any(np.abs(spec_err) > 0.):
+        wh_missing = np.where(spec_err == 0.)
         spec_mask[wh_missing] = 0.
     # ##########################################################
 
-- 
2.43.0


From cb64b2c58057f292c5f01d09e5c4b1bca2493454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:14 +0000
Subject: [PATCH 16/32] fix: np.int was removed from numpy: vertical position
 fit and spatial trim crashed

---
 misfit/general/galaxy_utils.py | 46 +++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index c041057..dc5c465 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -897,7 +897,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                             args=(xx, sp_arr, err_arr))
 
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         if (m0 > (len(snr_arr) -1)):
             m0_closest = len(snr_arr) -1
         elif (m0 < 0):
@@ -908,8 +908,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0_closest]
         if dither:
-            m1 = np.int(np.round(result.params['mu_l'].value))
-            m2 = np.int(np.round(result.params['mu_r'].value))
+            m1 = int(np.round(result.params['mu_l'].value))
+            m2 = int(np.round(result.params['mu_r'].value))
 
         if debug:
             print(ypos)
@@ -937,9 +937,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
             sp_ind_neg2 = m2
 
             diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-            cut = np.int(np.ceil(diff/2.))
+            cut = int(np.ceil(diff/2.))
         else:
-            cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+            cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
         m_min = m0 - cut
         m_max = m0 + cut
@@ -956,7 +956,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 print("m0, ypos=", m0, ypos)
 
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
 
                 params = lmfit.Parameters()
 
@@ -980,7 +980,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                 args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value))
+                m0 = int(np.round(result.params['mu'].value))
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -990,8 +990,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value - m0
                 m0_peak_snr = snr_arr[m0_closest]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value))
-                    m2 = np.int(np.round(result.params['mu_r'].value))
+                    m1 = int(np.round(result.params['mu_l'].value))
+                    m2 = int(np.round(result.params['mu_r'].value))
 
                 if debug:
                     print(ypos)
@@ -1016,9 +1016,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
 
                 m_min = m0 - cut
@@ -1077,7 +1077,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     result = lmfit.minimize(utils.gaus_residual, params,
                                     args=(xx, sp_arr, err_arr))
 
-                m0 = np.int(np.round(result.params['mu'].value)) + trimval
+                m0 = int(np.round(result.params['mu'].value)) + trimval
                 if (m0 > (len(snr_arr) -1)):
                     m0_closest = len(snr_arr) -1
                 elif (m0 < 0):
@@ -1087,8 +1087,8 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 m0_shift_fit = result.params['mu'].value + trimval - m0
                 m0_peak_snr = snr_arr[m0_closest-trimval]
                 if dither:
-                    m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                    m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                    m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                    m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
                 if debug:
                     print(ypos)
@@ -1111,9 +1111,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                     sp_ind_neg2 = m2
 
                     diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                    cut = np.int(np.ceil(diff/2.))
+                    cut = int(np.ceil(diff/2.))
                 else:
-                    cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                    cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
                 m_min = m0 - cut
                 m_max = m0 + cut
@@ -1153,12 +1153,12 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 result = lmfit.minimize(utils.gaus_residual, params,
                             args=(xx, sp_arr, err_arr))
 
-            m0 = np.int(np.round(result.params['mu'].value)) + trimval
+            m0 = int(np.round(result.params['mu'].value)) + trimval
             m0_shift_fit = result.params['mu'].value + trimval - m0
             m0_peak_snr = snr_arr[m0-trimval]
             if dither:
-                m1 = np.int(np.round(result.params['mu_l'].value)) + trimval
-                m2 = np.int(np.round(result.params['mu_r'].value)) + trimval
+                m1 = int(np.round(result.params['mu_l'].value)) + trimval
+                m2 = int(np.round(result.params['mu_r'].value)) + trimval
 
             if debug:
                 print(ypos            )
@@ -1181,9 +1181,9 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
                 sp_ind_neg2 = m2
 
                 diff = (abs(sp_ind0-sp_ind_neg1) + abs(sp_ind0-sp_ind_neg2))/2.
-                cut = np.int(np.ceil(diff/2.))
+                cut = int(np.ceil(diff/2.))
             else:
-                cut = np.int(np.ceil(1.5/spatial_pixscale/2.))
+                cut = int(np.ceil(1.5/spatial_pixscale/2.))
 
             m_min = m0 - cut
             m_max = m0 + cut
@@ -1201,7 +1201,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         result = lmfit.minimize(utils.gaus_residual, params,
                         args=(xx, sp_arr, err_arr))
 
-        m0 = np.int(np.round(result.params['mu'].value))
+        m0 = int(np.round(result.params['mu'].value))
         m0_shift_fit = result.params['mu'].value - m0
         m0_peak_snr = snr_arr[m0]
 
@@ -1231,7 +1231,7 @@ def vert_position(flux=None, err=None, obswave=None, obswave_val=None,
         if ypos is not None:
             if ((np.abs(ypos-m0) > 2.) & (not skip_check)):
                 # Just default to the old position!
-                m0 = np.int(np.round(ypos))
+                m0 = int(np.round(ypos))
                 m0_shift_fit = ypos - m0
                 m0_peak_snr = snr_arr[m0]
 
-- 
2.43.0


From db584ce7ced6770cd8e11405cea9bdb9a1fcf0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 17/32] fix: absvalsigma with a fixed dispersion took the
 absolute value of the whole chain

---
 misfit/fit/fit_core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index 1d3016f..f7cfc94 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -945,10 +945,11 @@ def add_v_re_22(fitEmis2D):
                 else:
                     free_inds.append(None)
             ind = free_inds[ind_all]
-            fitEmis2D.sampler_dict['flatchain'][:, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
-            fitEmis2D.sampler_dict['chain'][:, :, ind] = \
-                   np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
+            if ind is not None:
+                fitEmis2D.sampler_dict['flatchain'][:, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['flatchain'][:, ind])
+                fitEmis2D.sampler_dict['chain'][:, :, ind] = \
+                       np.abs(fitEmis2D.sampler_dict['chain'][:, :, ind])
         else:
             raise ValueError
 
-- 
2.43.0


From 63a10e995555604381106f4490f033130fece045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 18/32] fix: analyzing a chain again appended the derived
 columns a second time

---
 misfit/fit/fit_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index f7cfc94..e9afb59 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -977,7 +977,8 @@ def add_v_re_22(fitEmis2D):
     V_re_arr = np.array([fitEmis2D.kinProfile.vel(fitEmis2D.galaxy.re_mass_arcsec, 0.)])
     V_22_arr = np.array([fitEmis2D.kinProfile.vel(2.2/1.676 * fitEmis2D.galaxy.re_mass_arcsec, 0.)])
 
-    flatchain = np.append(fitEmis2D.sampler_dict['flatchain'].T,V_re_arr, axis=0).T
+    # Append to the sampled columns only: derived columns of an earlier analysis are replaced
+    flatchain = np.append(fitEmis2D.sampler_dict['flatchain'].T[:i_free],V_re_arr, axis=0).T
     flatchain = np.append(flatchain.T,V_22_arr, axis=0).T
 
 
-- 
2.43.0


From b0d493cebcf0ed38e21ee023834ab5d30aa32a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:04 +0000
Subject: [PATCH 19/32] fix: linked posteriors: 1 sigma errors used 2 sigma
 limits from the second group on, 2 sigma errors a different best value

---
 misfit/fit/fit_core.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/misfit/fit/fit_core.py b/misfit/fit/fit_core.py
index e9afb59..ec5702b 100644
--- a/misfit/fit/fit_core.py
+++ b/misfit/fit/fit_core.py
@@ -1072,9 +1072,8 @@ def get_param_posterior_bestfits(fitEmis2D):
     #       eg, theta_linked_posteriors.
     # eg, for V_a and r_t mcmc based on best-fit value for V(R_E):
     if fitEmis2D.theta_linked_posteriors is not None:
-        mcmc_lims_zip = list(zip(*mcmc_limits))
-
         for i in range(len(fitEmis2D.theta_linked_posteriors)):
+            mcmc_lims_zip = list(zip(*mcmc_limits))
             mcmc_peak, mcmc_uncertainties_1sig = \
                     utils.get_bestfit_values_linked(fitEmis2D,
                     mcmc_uncertainties_1sig, mcmc_lims_zip,
@@ -1082,11 +1081,9 @@ def get_param_posterior_bestfits(fitEmis2D):
             fitEmis2D.mcmc_results.bestfit_theta = mcmc_peak
             fitEmis2D.mcmc_results.err_theta_1sig = mcmc_uncertainties_1sig
 
-            mcmc_lims_zip = list(zip(*mcmc_limits_2sig))
-            mcmc_peak, mcmc_uncertainties_2sig = \
-                    utils.get_bestfit_values_linked(fitEmis2D,
-                    mcmc_uncertainties_2sig, mcmc_lims_zip,
-                    theta_linked_posteriors=fitEmis2D.theta_linked_posteriors[i]) #, debug=True)
+            # 2sig bounds: from the same best-fit values
+            mcmc_uncertainties_2sig = np.array([mcmc_peak-mcmc_limits_2sig[0],
+                                                mcmc_limits_2sig[1]-mcmc_peak]).T
             fitEmis2D.mcmc_results.err_theta_2sig = mcmc_uncertainties_2sig
 
     #############################################################################
-- 
2.43.0


From 66bddc93ac276877b24717197539e3b14386c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:01 +0000
Subject: [PATCH 20/32] fix: posterior peak search assigned a length-one array
 to a scalar slot (error in numpy 2)

---
 misfit/general/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index f7652f3..b203bbd 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -211,7 +211,7 @@ def find_peak_gaussian_KDE(flatchain, initval):
         peakvals = np.zeros(nparams)
         for i in range(nparams):
             kern = gaussian_kde(flatchain[:,i])
-            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)
+            peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
     else:
         neg_kernel = gaussian_KDE_kernel_func(flatchain)
-- 
2.43.0


From 2b424713312d49b91a4e00b2c458caf958e73827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:17 +0000
Subject: [PATCH 21/32] fix: posterior analysis crashed when a derived column
 has no spread (e.g. fixed dispersion)

---
 misfit/general/general_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misfit/general/general_utils.py b/misfit/general/general_utils.py
index b203bbd..15a3e20 100644
--- a/misfit/general/general_utils.py
+++ b/misfit/general/general_utils.py
@@ -210,6 +210,10 @@ def find_peak_gaussian_KDE(flatchain, initval):
     if nparams > 1:
         peakvals = np.zeros(nparams)
         for i in range(nparams):
+            if flatchain[:,i].min() == flatchain[:,i].max():
+                # No spread (eg, derived from fixed parameters only): KDE is undefined
+                peakvals[i] = flatchain[0,i]
+                continue
             kern = gaussian_kde(flatchain[:,i])
             peakvals[i] = fmin(lambda x: -kern(x), initval[i], disp=False)[0]
         return peakvals
-- 
2.43.0


From 0fef36ea3f8f91487e8fa33106a7386d91f0ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 22/32] fix: models created with default options, profiles or
 settings shared them

---
 misfit/model/kin_model.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index cc87e12..a1d720b 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -60,12 +60,22 @@ class KinModel2D(object):
     Handles variable + fixed parameters, talks to the Aper2DModel class,
     creates scaled model to data.
     """
-    def __init__(self, galaxy, thetaSettings=Theta2DSettingsFiducial(),
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions = KinModel2DOptions(),
+    def __init__(self, galaxy, thetaSettings=None,
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     do_position_wave_shift=False,
                     do_inst_res_conv_effective=False, **kwargs):
+        # Defaults: new instances, so separate models share nothing
+        if thetaSettings is None:
+            thetaSettings = Theta2DSettingsFiducial()
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+
         # Galaxy()
         # Unpack thetaSettings:
         self.theta = thetaSettings.theta
-- 
2.43.0


From 7aa7e011e8c497f18cb94f8752ebd7d570023c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:07 +0000
Subject: [PATCH 23/32] fix: KinModel2D changed the parameter values of the
 settings passed in

---
 misfit/model/kin_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/model/kin_model.py b/misfit/model/kin_model.py
index a1d720b..3c3c84f 100644
--- a/misfit/model/kin_model.py
+++ b/misfit/model/kin_model.py
@@ -78,7 +78,7 @@ class KinModel2D(object):
 
         # Galaxy()
         # Unpack thetaSettings:
-        self.theta = thetaSettings.theta
+        self.theta = copy.deepcopy(thetaSettings.theta)  # updated in place: keep the input values
         self.theta_vary = thetaSettings.theta_vary
         self.theta_names = thetaSettings.theta_names
         self.theta_names_nice = thetaSettings.theta_names_nice
-- 
2.43.0


From 3e653e0bb0d912b90077a71648f860ef6888af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:14 +0000
Subject: [PATCH 24/32] fix: fits created with default options, profiles or
 results shared them

---
 misfit/fit/fit2D.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index 4e913e6..b5a7b91 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -142,17 +142,29 @@ class FitEmissionLines2D(object):
     def __init__(self, galaxy=None, instrument=None, instrument_img=None,
                     linegroup_name = None, linenames_arr = None,
                     restwave_arr = None, flux_ratio_arr = None,
-                    kinProfile=KinProfileFiducial(),
-                    intensityProfile=IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
-                    kinModelOptions=KinModel2DOptions(),
+                    kinProfile=None,
+                    intensityProfile=None,
+                    kinModelOptions=None,
                     thetaPrior=None,
                     thetaSettings=None,
-                    mcmcOptions = MCMC2DOptions(),
+                    mcmcOptions = None,
                     theta_linked_posteriors = None,
-                    mcmc_results = MCMCResults(),
+                    mcmc_results = None,
                     usetex=True,
                     **kwargs):
 
+        # Defaults: new instances, so separate fits share nothing
+        if kinProfile is None:
+            kinProfile = KinProfileFiducial()
+        if intensityProfile is None:
+            intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+        if kinModelOptions is None:
+            kinModelOptions = KinModel2DOptions()
+        if mcmcOptions is None:
+            mcmcOptions = MCMC2DOptions()
+        if mcmc_results is None:
+            mcmc_results = MCMCResults()
+
         self.galaxy = galaxy
         self.instrument = instrument
         self.instrument_img = instrument_img
-- 
2.43.0


From 40f174f9b184427aa493badaafe1866512dfa225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 25/32] fix: mock observations created with default profiles
 shared them

---
 misfit/mock/generate_basic.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 0ada591..6449df2 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -42,10 +42,16 @@ def generate_mock_basis(z=None,
         pad_factor=0.5,
         do_position_wave_shift=False,
         do_inst_res_conv_effective=False,
-        kinProfile = KinProfileFiducial(),
-        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.)),
+        kinProfile = None,
+        intensityProfile = None,
         debug=False, **kwargs):
 
+    # Defaults: new instances, so separate mock observations share nothing
+    if kinProfile is None:
+        kinProfile = KinProfileFiducial()
+    if intensityProfile is None:
+        intensityProfile = IntensityProfileFiducial(Galaxy(n=1.,q0=0.19,re_arcsec=0.))
+
     # Enforce min slit-length
     if slit_length < nymin*pixscale:
         slit_length = nymin*pixscale
-- 
2.43.0


From 641ee90c6cab317e420617188e6543302f9d70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 26/32] fix: mock observations ignored the requested dither
 flag

---
 misfit/mock/generate_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/mock/generate_basic.py b/misfit/mock/generate_basic.py
index 6449df2..23d22b5 100644
--- a/misfit/mock/generate_basic.py
+++ b/misfit/mock/generate_basic.py
@@ -67,7 +67,7 @@ def generate_mock_basis(z=None,
     galaxy = Galaxy(z=z, ID=ID,
                 n=n, re_arcsec=re_arcsec,
                 delt_PA=delt_PA, q=q, q0=q0,
-                dither=False, generate_model=True)
+                dither=dither, generate_model=True)
     spec2D = ObsSpectrum2D(band=band, wave=wave,
                     line_primary=line_primary,linegroup_name=linegroup_name,
                     no_continuum_subtraction=True,
-- 
2.43.0


From 90d0c52068ea4e374906095700f902fec265482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 27/32] fix: 1D fits with Monte Carlo errors always ended in an
 exception

---
 misfit/fit/fit1D.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 41b622d..ca56062 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -506,8 +506,6 @@ class FitEmissionLines1D(object):
             self.cont_coeff_err =   \
                 values_err[len(self.names_arr)+2:len(self.names_arr)+2+self.cont_order+1,:]
 
-            raise ValueError
-
         else:
             print( "Not doing errors")
             self.z_err =            np.zeros(2)
-- 
2.43.0


From 8b88e9b49aed7e2b115e42cdf50ae04fdbe2c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 28/32] fix: Monte Carlo dispersions were corrected with a
 resolution the 1D spectrum does not have

---
 misfit/fit/fit1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index ca56062..3b52b3d 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -612,7 +612,7 @@ class FitEmissionLines1D(object):
 
             # Correct all in value matrix
             vel_disp_mc = value_matrix[:,1]
-            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.galaxy.spec1D.instrument_resolution**2)
+            vel_disp_mc_inst_corr = np.sqrt(vel_disp_mc**2 - self.instrument.instrument_resolution**2)
 
             # Make non-finite cases: these are where inst res > vel disp
             vel_disp_mc_inst_corr[~np.isfinite(vel_disp_mc_inst_corr)] = 0.
-- 
2.43.0


From 202e34882e9d8d645d5f869ffc94868671eb302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 29/32] fix: 1D fits of line groups of different sizes could
 not be set up

---
 misfit/fit/fit1D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misfit/fit/fit1D.py b/misfit/fit/fit1D.py
index 3b52b3d..9c2a000 100644
--- a/misfit/fit/fit1D.py
+++ b/misfit/fit/fit1D.py
@@ -179,9 +179,10 @@ class FitEmissionLines1D(object):
                 wave_arr = []
                 for linename in linenames:
                     wave_arr.append(io.read_restwave(wave_file, linename=linename))
-                waves_arr.append(wave_arr)
+                waves_arr.append(np.array(wave_arr))
 
-            self.restwave_arr = np.array(waves_arr)
+            # One array per line group: these can have different lengths
+            self.restwave_arr = waves_arr
 
     def setup_spectrum(self):
         """
-- 
2.43.0


From 8f5f19c539374c4aaebf207d8c75886219c80fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:39 +0000
Subject: [PATCH 30/32] fix: saving a best-fit result again after reloading it
 (galaxy without postage stamp)

---
 misfit/fit/fit2D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misfit/fit/fit2D.py b/misfit/fit/fit2D.py
index b5a7b91..bbea25f 100644
--- a/misfit/fit/fit2D.py
+++ b/misfit/fit/fit2D.py
@@ -435,7 +435,8 @@ class FitEmissionLines2D(object):
 
 
         # Clean up a few things:
-        del fitEmis2DResults.galaxy.pstamp
+        if 'pstamp' in fitEmis2DResults.galaxy.__dict__.keys():
+            del fitEmis2DResults.galaxy.pstamp
         if 'spec_hdr' in fitEmis2DResults.galaxy.spec2D.__dict__.keys():
             del fitEmis2DResults.galaxy.spec2D.spec_hdr
 
-- 
2.43.0


From ee1d0615ea6151eca087d0c21b981156f0d4877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:39 +0000
Subject: [PATCH 31/32] fix: sampler table when the autocorrelation time is not
 available

---
 misfit/fit/fit_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misfit/fit/fit_io.py b/misfit/fit/fit_io.py
index c73ba99..f95a45e 100644
--- a/misfit/fit/fit_io.py
+++ b/misfit/fit/fit_io.py
@@ -50,7 +50,7 @@ def make_emcee_sampler_dict(sampler,fitEmis2D=None, nBurn=0):
         try:
             acor_time = sampler.get_autocorr_time(self, low=5, c=10)
         except:
-            acor_time = np.NaN
+            acor_time = np.nan
 
     try:
         nDim = sampler.ndim
-- 
2.43.0


From c48f9fa9623b7fa08505419a4f7e5bb8c81dc3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:58 +0000
Subject: [PATCH 32/32] fix: wavelength trim leaves the continuum arrays uncut
 (copying) or stale (nothing in range)

---
 misfit/general/galaxy_utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/misfit/general/galaxy_utils.py b/misfit/general/galaxy_utils.py
index dc5c465..e7d5dd3 100644
--- a/misfit/general/galaxy_utils.py
+++ b/misfit/general/galaxy_utils.py
@@ -142,6 +142,8 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D.flux_err = None
                 spec2D.spec_mask = None
                 spec2D.spec_weight = None
+                spec2D.flux_incl_cont = None
+                spec2D.cont_model = None
 
         return spec2D
     else:
@@ -161,6 +163,13 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.flux_err = spec2D.flux_err[:,wh]
                 spec2D_trim.spec_mask = spec2D.spec_mask[:,wh]
                 spec2D_trim.spec_weight = spec2D.spec_weight[:,wh]
+                
+                try:
+                    spec2D_trim.flux_incl_cont = spec2D.flux_incl_cont[:,wh]
+                    spec2D_trim.cont_model = spec2D.cont_model[:,wh]
+                except:
+                    spec2D_trim.flux_incl_cont = None
+                    spec2D_trim.cont_model = None
 
                 spec2D_trim.calculate_restwave(galaxy)
             else:
@@ -171,6 +180,8 @@ def trim_spectrum_2D_wavelength(spec2D, galaxy,
                 spec2D_trim.flux_err = None
                 spec2D_trim.spec_mask = None
                 spec2D_trim.spec_weight = None
+                spec2D_trim.flux_incl_cont = None
+                spec2D_trim.cont_model = None
         else:
             spec2D_trim = None
 
-- 
2.43.0

