From 1010465482a936996420fc9846756b33d27a88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 01/34] fix: match catalog rows to spectra when the catalog is
 not in TARGETID order

---
 py/qsonic/io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..c3a9933 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -538,8 +538,8 @@ def read_onehealpix_file_data_coadd(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # data is in TARGETID order
+        cat_by_survey = cat_by_survey[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -588,8 +588,8 @@ def read_onehealpix_file_data_uncoadd(
             cat_by_survey['TARGETID'], fspec, arms_to_keep, skip_resomat,
             ['TARGETID', 'PETAL_LOC', 'FIBER', 'NIGHT', 'EXPID', 'TILEID'])
 
-        if idx_cat.size != cat_by_survey.size:
-            cat_by_survey = cat_by_survey[idx_cat]
+        # data is in TARGETID order
+        cat_by_survey = cat_by_survey[idx_cat]
 
         new_cat = cat_by_survey[
             np.searchsorted(cat_by_survey['TARGETID'], fbrmap['TARGETID'])]
@@ -647,8 +647,8 @@ def read_onetile_coaddfile_data(
         data, idx_cat, _ = _read_onehealpix_file(
             cat_by_petal['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-        if idx_cat.size != cat_by_petal.size:
-            cat_by_petal = cat_by_petal[idx_cat]
+        # data is in TARGETID order
+        cat_by_petal = cat_by_petal[idx_cat]
 
         spectra_list.extend(
             qsonic.spectrum.generate_spectra_list_from_data(
@@ -693,8 +693,8 @@ def read_onehealpix_file_mock(
     data, idx_cat, _ = _read_onehealpix_file(
         catalog_hpx['TARGETID'], fspec, arms_to_keep, skip_resomat)
 
-    if idx_cat.size != catalog_hpx.size:
-        catalog_hpx = catalog_hpx[idx_cat]
+    # data is in TARGETID order
+    catalog_hpx = catalog_hpx[idx_cat]
 
     fspec = f"{input_dir}/{pixnum//100}/{pixnum}/truth-{nside}-{pixnum}.fits"
     if read_true_continuum:
-- 
2.43.0


From 98db64420bbab4cbce21960895b3012669ecb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 02/34] fix: sort the catalog by SURVEY when all surveys are
 kept

---
 py/qsonic/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..b134ae2 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -376,11 +376,13 @@ def _prime_catalog(
 
     # Filter all the objects in the catalogue not belonging to the specified
     # surveys.
+    if 'SURVEY' in colnames and not is_tile and (
+            keep_surveys is None or len(keep_surveys) > 1):
+        sort_order.insert(1, 'SURVEY')
+
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
-- 
2.43.0


From c4d7f2618e1c646e45af483cbff6249204ae8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 03/34] fix: mpi_get_local_queue without a communicator

---
 py/qsonic/catalog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index b134ae2..141e486 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -178,7 +178,8 @@ def mpi_get_local_queue(
     else:
         status = False
 
-    status = comm.bcast(status)
+    if comm is not None:
+        status = comm.bcast(status)
     if not status:
         raise QsonicException("Error while reading catalog.")
 
@@ -197,6 +198,9 @@ def mpi_get_local_queue(
     else:
         local_queue = None
 
+    if comm is None:
+        return local_queue[mpi_rank]
+
     return comm.scatter(local_queue)
 
 
-- 
2.43.0


From 61cb2952067128fb870c1bd230ae07bdd0fdf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 04/34] fix: mpi_fnc_bcast with callables that have no __name__
 left other ranks waiting

---
 py/qsonic/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..ab859c5 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,7 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            logging.error(f"Error in {fnc!r}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From 92d3aba9fa88fc52ac1f24249e38780201bebf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 05/34] fix: Spectrum.slice sliced shared ivar and weight
 arrays more than once

---
 py/qsonic/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..5e46864 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -291,8 +291,12 @@ class Spectrum():
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
         self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        # These may point to forestivar. Do not slice more than once
+        if self._forestivar_sm is not self._forestivar:
+            self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
+        if (self._forestweight is not self._forestivar
+                and self._forestweight is not self._forestivar_sm):
+            self._forestweight[arm] = self._forestweight[arm][i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 2ad5198f81bfcdfc62aa9222475f719ea23f1c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 06/34] fix: set_forest_region kept arms of the previous region

---
 py/qsonic/spectrum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 5e46864..c218be6 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -322,6 +322,11 @@ class Spectrum():
         l1 = max(w1, (1 + self.z_qso) * lya1)
         l2 = min(w2, (1 + self.z_qso) * lya2)
 
+        # Forget the previous region
+        self._f1, self._f2 = {}, {}
+        self._forestwave, self._forestflux = {}, {}
+        self._forestivar, self._forestreso = {}, {}
+
         for arm, wave_arm in self.wave.items():
             # Slice to forest limits
             ii1, ii2 = np.searchsorted(wave_arm, [l1, l2])
-- 
2.43.0


From 35bd47794439c0fe8e219f06813e185709cc1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 07/34] fix: undefined continuum and resolution in wavelength
 gaps of coadds

---
 py/qsonic/spectrum.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c218be6..4fa1900 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -588,7 +588,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self.reso = {'brz': coadd_reso}
 
         self._current_wave = Spectrum._coadd_wave
@@ -647,7 +648,7 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            coadd_cont = np.zeros(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
@@ -674,7 +675,8 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
@@ -1000,7 +1002,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=0.8):
-- 
2.43.0


From f7964e3e64d050e7e4194179aafdc1cdbfa49ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 08/34] fix: set_blinding accumulated column names of earlier
 calls

---
 py/qsonic/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 4fa1900..1da9625 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -160,6 +160,7 @@ class Spectrum():
         else:
             Spectrum._blinding = "desi_y3"
 
+        Spectrum._fits_colnames = ['LAMBDA', 'DELTA', 'IVAR', 'WEIGHT', 'CONT']
         if Spectrum._blinding != "none":
             Spectrum._fits_colnames[1] = 'DELTA_BLIND'
 
-- 
2.43.0


From b0ea71d9535fa51c66db074776fbfbd3710cbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 09/34] fix: write deltas when the resolution matrix is not
 present

---
 py/qsonic/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 1da9625..1991ac8 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -775,12 +775,14 @@ class Spectrum():
             delta[ivar == 0] = 0
 
             cols = [wave_arm, delta, ivar, weight, cont_est]
+            names = Spectrum._fits_colnames[:5]
             if self.forestreso:
                 hdr_dict['MEANRESO'] = self.mean_resolution(arm)
                 cols.append(self.forestreso[arm].T.astype('f8'))
+                names.append('RESOMAT')
 
             fts_file.write(
-                cols, names=Spectrum._fits_colnames, header=hdr_dict,
+                cols, names=names, header=hdr_dict,
                 extname=f"{self.targetid}-{arm}{expid}")
 
     @property
-- 
2.43.0


From 34ea603eed3e22d05178e58232713ba85650e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 10/34] fix: pixels without weight added large-scale variance
 in Delta.coadd

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 1991ac8..6d85f91 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1034,7 +1034,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += np.where(obj.weight > 0, 1 - obj.weight * var, 0)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From b4712647b5a44f147302d3767a399ee73e5854e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 11/34] fix: Delta.coadd assumed 0.8 A pixels

---
 py/qsonic/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 6d85f91..6043539 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1009,7 +1009,10 @@ class Delta():
         coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
-    def coadd(self, other, dwave=0.8):
+    def coadd(self, other, dwave=None):
+        if dwave is None:
+            dwave = self.header.get('DELTA_LAMBDA', 0.8)
+
         min_wave = min(self.wave[0], other.wave[0])
         max_wave = max(self.wave[-1], other.wave[-1])
 
-- 
2.43.0


From 44378ae4b52e420bcea5202c6b1fe24a0dfe06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 12/34] fix: Delta.coadd lost the blinding of the other delta

---
 py/qsonic/spectrum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 6043539..11d3542 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1059,6 +1059,11 @@ class Delta():
             np.sqrt(coadd_ivar), coadd_delta + 1) / np.sum(coadd_ivar > 0)
         self.header['MEANSNR'] = self.mean_snr
 
+        # Coadding with a blinded delta cannot unblind it
+        if other._is_blinded and not self._is_blinded:
+            self._is_blinded = True
+            self.header['BLINDING'] = other.header.get('BLINDING')
+
     @property
     def ra(self):
         """float: Right ascension in degrees."""
-- 
2.43.0


From 525725c16ee9827fba43806b3a8c74fbca6bdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 13/34] fix: SubsampleCov covariance and variance after
 get_mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..16a0443 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -642,7 +642,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -685,7 +685,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From 7ffac43b5f83a0baaca69c2400de15bdfbc800fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:29 +0000
Subject: [PATCH 14/34] fix: DLA redshift column was arbitrary when both Z_DLA
 and Z are present

---
 py/qsonic/masks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..2d77488 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -392,7 +392,8 @@ class DLAMask():
         fts = fitsio.FITS(fname)
 
         fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        z_colname = [
+            c for c in DLAMask.accepted_zcolnames if c in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -400,7 +401,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From acb0249cea067e60d9bd122e4fd66c7509fc27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:44 +0000
Subject: [PATCH 15/34] fix: save_deltas left an unreadable file when there are
 no deltas

---
 py/qsonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index c3a9933..c8800df 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,8 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Primary HDU. File must be readable even if there are no deltas
+        results.write(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From 05d20cfc2d240a4baa14ceb8baae4c980307b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:44 +0000
Subject: [PATCH 16/34] fix: remove_targetid_list with a single TARGETID

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..333dbc8 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From 0fd9f9a43e087d299ea1f1b7f29520d529da7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 17/34] fix: qsonic-calib skipped leftover delta files

---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 333dbc8..bc2f9e0 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 6b58daeb1e09dc3b90aed821d3d9cbab39e06fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 18/34] fix: qsonic-calib failed if a rank has no deltas

---
 py/qsonic/scripts/qsonic_calib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index bc2f9e0..724abf0 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,9 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # This rank may not have any deltas
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0.
+    dwave = comm.allreduce(dwave, max)
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 2f1ea919abacd8dd950d9ef615570a141ec2defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 19/34] fix: final var_lss fit replaced the fiducials used in
 weights

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..20aece4 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducials = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # Weights keep using the fiducials
+            self.varlss_interp, self.eta_interp = fiducials
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From d56931c707ef477708f951547715036027522ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 20/34] fix: dropping arms while matching exposures to coadds

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..3b09ee6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -416,7 +416,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From af5051232bdb6685cf42527c2f2365310e91c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 21/34] fix: exposures of multiple surveys were not read survey
 by survey

---
 py/qsonic/scripts/qsonic_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 3b09ee6..a63b149 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -389,7 +389,10 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
     # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+    sort_order = ['HPXPIXEL', 'TARGETID']
+    if 'SURVEY' in local_catalog.dtype.names:
+        sort_order.insert(1, 'SURVEY')
+    idx_sort = local_catalog.argsort(order=sort_order)
     spectra_list = np.array(spectra_list)[idx_sort]
     local_catalog = local_catalog[idx_sort]
     # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From d3ee7fca4f529b87e1bca46ac2d8322491755cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 22/34] fix: reading exposures on a rank without valid spectra

---
 py/qsonic/scripts/qsonic_fit.py | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index a63b149..34dfa30 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -386,22 +386,26 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    sort_order = ['HPXPIXEL', 'TARGETID']
-    if 'SURVEY' in local_catalog.dtype.names:
-        sort_order.insert(1, 'SURVEY')
-    idx_sort = local_catalog.argsort(order=sort_order)
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    # This rank may not have any spectra left
+    if spectra_list:
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        sort_order = ['HPXPIXEL', 'TARGETID']
+        if 'SURVEY' in local_catalog.dtype.names:
+            sort_order.insert(1, 'SURVEY')
+        idx_sort = local_catalog.argsort(order=sort_order)
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(
+            local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From df247acec5725af3660206fbc334aa0c4a5dad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 23/34] fix: input continuum on a rank without spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..60e80ba 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if len(spectra_list) == 0:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 8b2a47aa890f211055b84559a9aa0777b63ae0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 24/34] fix: fully masked spectra crashed the coadding of arms

---
 py/qsonic/scripts/qsonic_fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 34dfa30..9a92579 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -301,6 +301,9 @@ def mpi_read_calibrate_mask_select_spectra(
 
     apply_masks(maskers, spectra_list, mpi_rank)
 
+    # remove from sample if all arms are masked
+    spectra_list = [spec for spec in spectra_list if spec.forestwave]
+
     # remove from sample if the number of pixels is small
     spectra_list = remove_short_spectra(
         spectra_list, args.forest_w1, args.forest_w2, args.skip)
-- 
2.43.0


From ba810a3176944f360fd21ed813a5434f8385084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 25/34] fix: do not scale continua by empty bins of the stacked
 flux

---
 py/qsonic/picca_continuum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 20aece4..0541af6 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -496,9 +496,16 @@ class PiccaContinuumFitter():
 
         logging.info("Forcing stacked flux to be one.")
 
+        # Empty bins are zero in the stack. Do not scale by them.
+        stacked_flux = self.flux_stacker.stacked_flux.copy()
+        stacked_flux[stacked_flux == 0] = 1
+        norm_interp = FastLinear1DInterp(
+            self.flux_stacker.waveobs[0], self.flux_stacker.dwobs,
+            stacked_flux)
+
         for spec in valid_spectra(spectra_list):
             for arm, wave_arm in spec.forestwave.items():
-                spec.cont_params['cont'][arm] *= self.flux_stacker(wave_arm)
+                spec.cont_params['cont'][arm] *= norm_interp(wave_arm)
 
     def _eta_calibate_ivar(self, spectra_list):
         """Divides forest ivar values by eta estimates if ``--eta-calib-ivar``
-- 
2.43.0


From 88afee6ab3c5a29a09d0364f70bec555611a497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:08 +0000
Subject: [PATCH 26/34] fix: SNR of a fully masked coadded spectrum is zero,
 not NaN

---
 py/qsonic/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 11d3542..7bcc547 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -683,8 +683,8 @@ class Spectrum():
         self.set_smooth_forestivar(self._smoothing_scale)
         self.set_forest_weight(varlss_interp, eta_interp)
 
-        mean_snr = np.dot(
-            np.sqrt(coadd_ivar), coadd_flux) / np.sum(coadd_ivar > 0)
+        mean_snr = np.dot(np.sqrt(coadd_ivar), coadd_flux)
+        mean_snr /= max(1, np.sum(coadd_ivar > 0))
         self.mean_snr = {'brz': mean_snr}
 
     def mean_resolution(self, arm, weight=None):
-- 
2.43.0


From f41ad55b20fafc602c041bf5965d259378659002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:08 +0000
Subject: [PATCH 27/34] fix: SNR of fully masked coadded deltas is zero, not
 NaN

---
 py/qsonic/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 7bcc547..20101ac 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1055,8 +1055,8 @@ class Delta():
         self.weight = self.ivar / (1 + self.ivar * coadd_lss)
         self.cont = coadd_cont
 
-        self.mean_snr = np.dot(
-            np.sqrt(coadd_ivar), coadd_delta + 1) / np.sum(coadd_ivar > 0)
+        self.mean_snr = np.dot(np.sqrt(coadd_ivar), coadd_delta + 1)
+        self.mean_snr /= max(1, np.sum(coadd_ivar > 0))
         self.header['MEANSNR'] = self.mean_snr
 
         # Coadding with a blinded delta cannot unblind it
-- 
2.43.0


From 48a5c778e031504bcd589b149cf16dc4dd476cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:52 +0000
Subject: [PATCH 28/34] fix: Tepper-Garcia profile diverged at the line centre

---
 py/qsonic/masks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index 2d77488..fdf174f 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -258,7 +258,8 @@ class DLAMask():
         -------
         :external+numpy:py:class:`ndarray <numpy.ndarray>`
         """
-        P = u**2 + 1e-12
+        # Cancellation errors dominate corr for smaller values
+        P = u**2 + 1e-6
         Q = 1.5 / P
         R = np.exp(-P)
         corr = (R**2 * (4 * P**2 + 7 * P + 4 + Q) - Q - 1)
-- 
2.43.0


From 3d841869b8e3021bc2cd56ad93c6cb7b301129c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:48 +0000
Subject: [PATCH 29/34] fix: not-a-knot spline of fewer than four points used
 uninitialised memory

---
 py/qsonic/mathtools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 16a0443..292bfe5 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -104,6 +104,13 @@ def _spline_cubic_notaknot(fp, dxp):
         Second derivative array. Same size as ``fp``.
     """
     N = fp.size
+    if N < 4:
+        # All points lie on a single parabola (or line)
+        y2p = np.zeros(N)
+        if N == 3:
+            y2p += (fp[0] - 2 * fp[1] + fp[2]) / dxp**2
+        return y2p
+
     y2p = np.empty(N)
     # Solve the submatrix 1:-1 using precalculated u and p values
     u = np.array([
-- 
2.43.0


From e4e54486c67d9c5150371d4a94be98d93a413aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:46 +0000
Subject: [PATCH 30/34] fix: a refused VarLSSFitter.add no longer changes the
 pixel counts

---
 py/qsonic/picca_continuum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 0541af6..0833acf 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -918,10 +918,11 @@ class VarLSSFitter():
         var[w] = 1. / ivar[w]
 
         npix = np.bincount(all_indx, minlength=self.minlength)
-        self._num_pixels += npix
         xvec = _fast_weighted_vector_bincount(
             all_indx, delta, var, self.minlength)
+        # raises if the statistics are already calculated
         self.subsampler.add_measurement(xvec, npix)
+        self._num_pixels += npix
 
         npix[npix > 0] = 1
         self._num_qso += npix
-- 
2.43.0


From 05b636bd8a91a71d76ce3e3ecbbb6797cfeed712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:05 +0000
Subject: [PATCH 31/34] fix: calibration stack loses pixels half way between
 two bins

np.round sends neighbouring half-way pixels to the same even index, and the
fancy-index += then keeps only the last of them, so a delta grid that is
offset by half a pixel from wave1 lost half of its pixels and left every other
bin empty.
---
 py/qsonic/scripts/qsonic_calib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 724abf0..fa588a5 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -183,10 +183,14 @@ def mpi_stack_fluxes(args, comm, deltas_list):
 
     for delta in deltas_list:
         flux = 1 + delta.delta
-        idx = np.round((delta.wave - args.wave1) / dwave).astype(int)
+        # Pixels half way between two bins must not share a bin
+        idx = np.floor(
+            (delta.wave - args.wave1) / dwave + 0.5).astype(int)
         w = (idx >= 0) & (idx < nwaveobs)
-        stacked_flux[idx[w]] += flux[w] * delta.weight[w]
-        weights[idx[w]] += delta.weight[w]
+        stacked_flux += np.bincount(
+            idx[w], weights=flux[w] * delta.weight[w], minlength=nwaveobs)
+        weights += np.bincount(
+            idx[w], weights=delta.weight[w], minlength=nwaveobs)
 
     # Save stacked_flux to buffer, then used stacked_flux to store reduced
     # weights. Place them properly in the end.
-- 
2.43.0


From 196048e752ff2c28c85261d8914236c12437ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:52 +0000
Subject: [PATCH 32/34] fix: options that are not a number passed as consistent

--skip nan, --wave1 nan etc. compare false with everything, so none of the
checks refused them and the run started (and dropped every spectrum).
---
 py/qsonic/io.py                 | 2 +-
 py/qsonic/scripts/qsonic_fit.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index c8800df..87cc662 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -722,7 +722,7 @@ def _float_range(f1, f2):
             f = float(arg)
         except ValueError:
             raise argparse.ArgumentTypeError("must be a floating point number")
-        if f < f1 or f > f2:
+        if not f1 <= f <= f2:
             raise argparse.ArgumentTypeError(f"must be in range [{f1}--{f2}]")
         return f
 
diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 9a92579..d77b9bd 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -70,9 +70,9 @@ def args_logic_fnc_qsonic_fit(args):
             "True continuum analysis requires fiducial var_lss."),
         (args.true_continuum and args.input_continuum_dir,
             "Both true continuum and input continuum cannot be set."),
-        (args.wave2 <= args.wave1,
+        (not args.wave2 > args.wave1,
             "wave2 must be greater than wave1."),
-        (args.forest_w2 <= args.forest_w1,
+        (not args.forest_w2 > args.forest_w1,
             "forest_w2 must be greater than forest_w1."),
         (args.mock_analysis and args.tile_format,
             "Mock analysis in tile format is not supported."),
-- 
2.43.0


From 2c0c58f44041044349802403c0adf6ed987459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:52 +0000
Subject: [PATCH 33/34] fix: true continuum silently replaced the requested
 input continuum model

--true-continuum with --continuum-model input asks for both, which is refused
when the input continuum is requested by its directory.
---
 py/qsonic/scripts/qsonic_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index d77b9bd..5849ee1 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -68,7 +68,8 @@ def args_logic_fnc_qsonic_fit(args):
             "True continuum analysis requires fiducial mean flux."),
         (args.true_continuum and not args.fiducial_varlss,
             "True continuum analysis requires fiducial var_lss."),
-        (args.true_continuum and args.input_continuum_dir,
+        (args.true_continuum and (
+            args.input_continuum_dir or args.continuum_model == "input"),
             "Both true continuum and input continuum cannot be set."),
         (not args.wave2 > args.wave1,
             "wave2 must be greater than wave1."),
-- 
2.43.0


From 60bd19846696609a5c13cdf983fc200a9e64269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:33 +0000
Subject: [PATCH 34/34] fix: every rank read the sky mask by itself

A sky mask that cannot be read on one of the ranks ended that rank only and left
the others waiting. Read it on the main rank like the other inputs.
---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 5849ee1..8cac44d 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -194,7 +194,7 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
 
     if args.sky_mask:
         logging.info("Reading sky mask.")
-        skymasker = qsonic.masks.SkyMask(args.sky_mask)
+        skymasker = qsonic.masks.SkyMask(args.sky_mask, comm, mpi_rank)
 
         maskers.append(skymasker)
 
-- 
2.43.0

