From 17960a49114fa06c0719a21c972e058f7336fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 01/22] fix: qsonic-calib reads every delta file when the count
 is not divisible by the number of ranks

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..b15753f 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = ndelta_all * mpi_rank // mpi_size
+    i2 = ndelta_all * (mpi_rank + 1) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 8b73ca9467a345be3c1d7370854eea2712df4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 02/22] fix: slicing a forest once when ivar, smoothed ivar and
 weight share storage

---
 py/qsonic/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..cca1634 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -291,8 +291,12 @@ class Spectrum():
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
         self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # smoothed ivar and weight may point to the ivar dictionary
+        if self._forestivar_sm is not self._forestivar:
+            self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
+        if self._forestweight is not self._forestivar \
+                and self._forestweight is not self._forestivar_sm:
+            self._forestweight[arm] = self._forestweight[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From b341d9171162ae50de67598ac2ae679566710be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 03/22] fix: dropping an arm while matching exposures to coadds

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..3b09ee6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -416,7 +416,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From cfc9cd9695d4ee0fae0af25dd6dbaf18693e849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 04/22] fix: group the exposure catalog by survey before
 reading exposures

---
 py/qsonic/scripts/qsonic_fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 3b09ee6..4f362ef 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -389,7 +389,11 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    # readers need catalogs grouped by survey within a healpix
+    sort_order = ['HPXPIXEL', 'TARGETID']
+    if 'SURVEY' in local_catalog.dtype.names:
+        sort_order.insert(1, 'SURVEY')
+    idx_sort = local_catalog.argsort(order=sort_order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From d66a682ad74da76f13825943be47a5c1cc3cf6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 05/22] fix: sort by survey when all surveys are kept

---
 py/qsonic/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..6fd2f60 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -383,6 +383,8 @@ def _prime_catalog(
             sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
+    elif 'SURVEY' in colnames and not is_tile:
+        sort_order.insert(1, 'SURVEY')
 
     if catalog.size == 0:
         raise Exception("Empty quasar catalogue.")
-- 
2.43.0


From 4bdfccd14da1127933b1731878b240f7bcfd00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 06/22] fix: match catalog rows to spectra when the catalog is
 not ordered by TARGETID

---
 py/qsonic/io.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..5ff3fd3 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -538,8 +538,7 @@ def read_onehealpix_file_data_coadd(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        cat_by_survey = cat_by_survey[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -588,8 +587,7 @@ def read_onehealpix_file_data_uncoadd(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat,
             ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID'])
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        cat_by_survey = cat_by_survey[idx_cat]
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
@@ -647,8 +645,7 @@ def read_onetile_coaddfile_data(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_petal['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_petal.size:
-            cat_by_petal = cat_by_petal[idx_cat]
+        cat_by_petal = cat_by_petal[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -693,8 +690,7 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From 8097b94aa46bb520b857df87752c1878d2350c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 07/22] fix: attach resolution matrices to the matching
 spectrum

---
 py/qsonic/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 5ff3fd3..8ca3ed0 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -481,7 +481,8 @@ def _read_onehealpix_file_onlyreso(
     for arm in arms_to_keep:
         imhdu = fitsfile[f'{arm}_RESOLUTION']
 
-        for jj, spec in zip(idx_fbr, spectra_list):
+        for jj, kk in zip(idx_fbr, idx_cat):
+            spec = spectra_list[kk]
             # assert (common_targetids[jj] == spec.targetid)
 
             if arm not in spec.forestwave.keys():
-- 
2.43.0


From b89fdfd0b44a07c3dbdfacb1a372785533062e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 08/22] fix: masked pixels do not contribute to the coadded
 var_lss

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index cca1634..6e85309 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1023,7 +1023,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += np.where(w, 1 - obj.weight * var, 0)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From 3174ccb9558d1edde09a5122e5b9c3e812a7bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 09/22] fix: no uninitialised continuum in pixels that no arm
 covers

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 6e85309..2d4e255 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -642,7 +642,7 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            coadd_cont = np.zeros(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
-- 
2.43.0


From cef16352cd75ccbf0181e3d562a935c3a36ec4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 10/22] fix: no NaN in coadded resolution where no arm
 contributes

---
 py/qsonic/spectrum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 2d4e255..44471e1 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -583,7 +583,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -669,7 +670,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
@@ -995,7 +997,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From 292c7b483e7900ac067179bcf28aed89194cf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 11/22] fix: keep the fiducial var_lss for weights after the
 final var_lss fit

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..960821b 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            varlss_interp, eta_interp = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # fitted values do not go into weights
+            self.varlss_interp, self.eta_interp = varlss_interp, eta_interp
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From f76747bef210844528457ac9e9cd14bf254014ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 12/22] fix: column names of a delta match its columns

---
 py/qsonic/spectrum.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 44471e1..e8432c7 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -163,9 +163,6 @@ class Spectrum():
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
 
-        if not args.skip_resomat:
-            Spectrum._fits_colnames.append('RESOMAT')
-
     @staticmethod
     def blinding_not_set():
         """bool: ``True`` if blinding is not set."""
@@ -769,12 +766,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames.copy()
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From 7ff8bcec827fafd4a91ba1eacf2db3bdf101a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 13/22] fix: sky mask is read on the master rank and broadcast

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4f362ef..7c60628 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -193,7 +193,7 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
 
     if args.sky_mask:
         logging.info("Reading sky mask.")
-        skymasker = qsonic.masks.SkyMask(args.sky_mask)
+        skymasker = qsonic.masks.SkyMask(args.sky_mask, comm, mpi_rank)
 
         maskers.append(skymasker)
 
-- 
2.43.0


From d1bb5a78276c77aefed75082c9612e6641718cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:16 +0000
Subject: [PATCH 14/22] fix: an unexpected error aborts with a nonzero exit
 code

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 py/qsonic/scripts/qsonic_fit.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index b15753f..c18456c 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -277,4 +277,4 @@ def main():
     except Exception as e:
         logging.critical(
             f"Unexpected error on Rank{mpi_rank}: {e}. Abort.", exc_info=True)
-        comm.Abort()
+        comm.Abort(1)
diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 7c60628..24b709c 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -528,7 +528,7 @@ def main():
     except Exception as e:
         logging.critical(
             f"Unexpected error on Rank{mpi_rank}: {e}. Abort.", exc_info=True)
-        comm.Abort()
+        comm.Abort(1)
 
     etime = (time.time() - start_time) / 60  # min
     logging.info(f"Total time spent is {etime:.1f} mins.")
-- 
2.43.0


From 8cc231771cecb1bdca1299f3e377bce30401608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:57 +0000
Subject: [PATCH 15/22] fix: invalid options give a nonzero exit code

---
 py/qsonic/mpi_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..717ab91 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -32,15 +32,15 @@ def mpi_parse(
         try:
             args = parser.parse_args(options)
             if not args_logic_fnc(args):
-                args = -1
-        except SystemExit:
-            args = -1
+                args = 2
+        except SystemExit as e:
+            args = e.code
     else:
         args = -1
 
     args = comm.bcast(args)
-    if args == -1:
-        exit(0)
+    if isinstance(args, int):
+        exit(args)
 
     return args
 
-- 
2.43.0


From 4654345941d0824433fc6d022c29a16141516e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 16/22] fix: a remove list with a single TARGETID can be
 combined with other removals

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index c18456c..65e7ef3 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From 228969dd0f6b471a7a3bdc03371aac0ac66d486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 17/22] fix: qsonic-calib stacks fluxes when a rank has no
 deltas left

---
 py/qsonic/scripts/qsonic_calib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 65e7ef3..9eb62d2 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0
+    dwave = comm.allreduce(dwave, max)
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 4dc901e9b708aa559ee122100174645f2933a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 18/22] fix: input continuum on a rank without spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..2af5cd6 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if not spectra_list:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 9946d3bea56df22bc9713846777d2d5c070fd654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:53 +0000
Subject: [PATCH 19/22] fix: reading exposures on a rank without valid spectra

---
 py/qsonic/scripts/qsonic_fit.py | 37 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 24b709c..f9ee762 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -386,23 +386,26 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    # readers need catalogs grouped by survey within a healpix
-    sort_order = ['HPXPIXEL', 'TARGETID']
-    if 'SURVEY' in local_catalog.dtype.names:
-        sort_order.insert(1, 'SURVEY')
-    idx_sort = local_catalog.argsort(order=sort_order)
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    # this rank may be left without spectra
+    if spectra_list:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        # readers need catalogs grouped by survey within a healpix
+        sort_order = ['HPXPIXEL', 'TARGETID']
+        if 'SURVEY' in local_catalog.dtype.names:
+            sort_order.insert(1, 'SURVEY')
+        idx_sort = local_catalog.argsort(order=sort_order)
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From 992810fbfd38eba7faca35321a2fc5232925e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:05 +0000
Subject: [PATCH 20/22] fix: covariance and variance can be queried after the
 mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..16a0443 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -642,7 +642,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -685,7 +685,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From 6b73cb6d4436be517e4eff4e572ca4a393ded222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:44 +0000
Subject: [PATCH 21/22] fix: reject --continuum-model input without
 --input-continuum-dir

---
 py/qsonic/scripts/qsonic_fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index f9ee762..392193a 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -70,6 +70,8 @@ def args_logic_fnc_qsonic_fit(args):
             "True continuum analysis requires fiducial var_lss."),
         (args.true_continuum and args.input_continuum_dir,
             "Both true continuum and input continuum cannot be set."),
+        (args.continuum_model == "input" and not args.input_continuum_dir,
+            "Input continuum analysis requires input continuum directory."),
         (args.wave2 <= args.wave1,
             "wave2 must be greater than wave1."),
         (args.forest_w2 <= args.forest_w1,
-- 
2.43.0


From c467695bf1308932cd23293ee7734f6ae1c41217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:22 +0000
Subject: [PATCH 22/22] fix: exposure reader failed for catalogs that have
 fibermap columns

---
 py/qsonic/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 8ca3ed0..607f0ae 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -592,10 +592,11 @@ def read_onehealpix_file_data_uncoadd(
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
+        fbrmap = drop_fields(fbrmap, 'TARGETID', usemask=False)
+        # columns in both take the values of the exposure
+        new_cat = drop_fields(new_cat, fbrmap.dtype.names, usemask=False)
         new_cat = merge_arrays(
-            (new_cat, drop_fields(fbrmap, 'TARGETID', usemask=False)),
-            flatten=True, usemask=False
-        )
+            (new_cat, fbrmap), flatten=True, usemask=False)
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(new_cat, data)
-- 
2.43.0

