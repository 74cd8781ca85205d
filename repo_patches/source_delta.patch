From ac87b61bc78857be8b141cbfcba6c0e8512f4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:07 +0000
Subject: [PATCH 01/92] fix: reset theta_r to 0 outside r_lambda for the hard
 radial cut

---
 redmapper/solver_nfw/nfw_weights.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/solver_nfw/nfw_weights.c b/redmapper/solver_nfw/nfw_weights.c
index 5678b51..67a82fe 100644
--- a/redmapper/solver_nfw/nfw_weights.c
+++ b/redmapper/solver_nfw/nfw_weights.c
@@ -45,6 +45,7 @@ int nfw_weights(double inlambda, double r0, double beta, long ngal,
 	 theta_r[i] = 1.0; // added by Tom
       } else {
          wt[i]=0.0;
+         theta_r[i] = 0.0;
       }
     } else { // rsig > 0.0
       /*
-- 
2.43.0


From 9a5244349d40f678b092e2ad90d0f3c6c1347c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 02/92] fix: keep the bracket sign in the richness solver's
 low-end stabilisation

---
 redmapper/solver_nfw/solver_nfw.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/solver_nfw/solver_nfw.c b/redmapper/solver_nfw/solver_nfw.c
index fb88267..9e7dfd4 100644
--- a/redmapper/solver_nfw/solver_nfw.c
+++ b/redmapper/solver_nfw/solver_nfw.c
@@ -41,7 +41,8 @@ int solver_nfw(double r0, double beta, long ngal,
 
     outmid += mid*cval;
 
-    if (outlo < 1.0) { outlo = 0.9;} // stability at low end
+    // stability at low end (must stay above lamlo to keep the sign of the bracket)
+    if (outlo < 1.0 && lamlo < 0.9) { outlo = 0.9;}
     if ((outlo-lamlo)*(outmid-mid) > 0.0) {
       lamlo=mid;
       outlo=-1.0;
-- 
2.43.0


From 70cb18727905265b64a1d9e256a382b23e02a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:32 +0000
Subject: [PATCH 03/92] fix: use each galaxy's own slope in the refmag error
 term of chisq mode 2

---
 redmapper/chisq_dist/chisq_dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/chisq_dist/chisq_dist.c b/redmapper/chisq_dist/chisq_dist.c
index f632c97..312c4e3 100644
--- a/redmapper/chisq_dist/chisq_dist.c
+++ b/redmapper/chisq_dist/chisq_dist.c
@@ -351,7 +351,7 @@ int chisq_dist(int mode, int do_chisq, int nophotoerr, int ncalc, int ncol,
 	      gsl_matrix_set_zero(cimat);
 	      for (j=0;j<ncol;j++) {
 		  for (k=j;k<ncol;k++) {
-		      val = slope[j] * slope[k] * refmagerr[i] * refmagerr[i];
+		      val = slope[i*ncol+j] * slope[i*ncol+k] * refmagerr[i] * refmagerr[i];
 		      gsl_matrix_set(cimat, j, k, val);
 		      if (k != j) {
 			  gsl_matrix_set(cimat, k, j, val);
-- 
2.43.0


From f47530d1bcbb13e202e19e174e78335dda81ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 04/92] fix: chi-squared inputs are read in the memory layout
 the C code expects

---
 redmapper/chisq_dist/chisq_dist_lib.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/redmapper/chisq_dist/chisq_dist_lib.py b/redmapper/chisq_dist/chisq_dist_lib.py
index 458a276..8685f99 100644
--- a/redmapper/chisq_dist/chisq_dist_lib.py
+++ b/redmapper/chisq_dist/chisq_dist_lib.py
@@ -83,13 +83,18 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
        Float array of likelihoods.  Present if calc_lkhd=True.
     """
 
-    _covmat = covmat.astype('f8')
-    _c = c.astype('f8')
-    _slope = slope.astype('f8')
+    # The C code reads plain buffers: force the memory layout it expects
+    # (with the redshift axis of the covariance matrix the slowest one.)
+    if covmat.ndim == 3:
+        _covmat = np.ascontiguousarray(covmat.transpose(2, 0, 1), dtype='f8')
+    else:
+        _covmat = np.ascontiguousarray(covmat, dtype='f8')
+    _c = np.ascontiguousarray(c, dtype='f8')
+    _slope = np.ascontiguousarray(slope, dtype='f8')
     _pivotmag = np.atleast_1d(pivotmag.astype('f8'))
     _refmag = np.atleast_1d(refmag.astype('f8'))
-    _magerr = magerr.astype('f8')
-    _color = color.astype('f8')
+    _magerr = np.ascontiguousarray(magerr, dtype='f8')
+    _color = np.ascontiguousarray(color, dtype='f8')
 
     if (refmagerr is None):
         _refmagerr = np.zeros(refmag.size,dtype='f8')
@@ -152,7 +157,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x ngal for mode 0")
@@ -192,7 +197,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((nz, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != nz) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ncol x nz for mode 1")
@@ -226,7 +231,7 @@ def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=N
         if (lupcorr is None):
             _lupcorr = np.zeros((ngal, ncol),dtype='f8')
         else :
-            _lupcorr = lupcorr.astype('f8')
+            _lupcorr = np.ascontiguousarray(lupcorr, dtype='f8')
 
         if (_lupcorr.shape[0] != ngal) or (_lupcorr.shape[1] != ncol):
             raise ValueError("lupcorr must be ngal x ncol for mode 2")
-- 
2.43.0


From d074ee9587f02cfd7358346391645a5229a91e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:19 +0000
Subject: [PATCH 05/92] fix: keep the overflow bin out of the zred peak search

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 303d5b0..1804aca 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -42,7 +42,7 @@ class ZredColor(object):
         self.zrange = zrange
 
         self.nz = self.zredstr.z.size - 1
-        self.notextrap, = np.where(~self.zredstr.extrapolated)
+        self.notextrap, = np.where(~self.zredstr.extrapolated[: self.nz])
 
         if self.zrange is None:
             self.zbinstart = 0
-- 
2.43.0


From 0c3febcb75deaf429bc030cff8512b28779e8bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:19 +0000
Subject: [PATCH 06/92] fix: galaxies without a valid zred keep bad values when
 corrections are applied

---
 redmapper/zred_color.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 1804aca..099e7b0 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -90,6 +90,13 @@ class ZredColor(object):
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
             galaxies.zred2_e = galaxies.zred_uncorr_e * r2s
 
+            # Galaxies without a valid zred keep their "bad" values.
+            bad, = np.where(galaxies.zred_uncorr_e < 0.0)
+            galaxies.zred[bad] = -1.0
+            galaxies.zred_e[bad] = -1.0
+            galaxies.zred2[bad] = -1.0
+            galaxies.zred2_e[bad] = -1.0
+
 
     def compute_zred(self, galaxy, no_corrections=False):
         """
@@ -337,5 +344,6 @@ class ZredColor(object):
         galaxy.zred2_e = -1.0
         galaxy.zred_uncorr = -1.0
         galaxy.zred_uncorr_e = -1.0
+        galaxy.zred_samp = -1.0
         galaxy.chisq = -1.0
 
-- 
2.43.0


From 9baab4ed4959818781151456bcbdad2c79c5fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:19 +0000
Subject: [PATCH 07/92] fix: apply the magnitude slope of the zred2 correction
 in bulk mode

---
 redmapper/zred_color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_color.py b/redmapper/zred_color.py
index 099e7b0..29e1e55 100644
--- a/redmapper/zred_color.py
+++ b/redmapper/zred_color.py
@@ -84,7 +84,7 @@ class ZredColor(object):
             galaxies.zred = galaxies.zred_uncorr + dzs
             galaxies.zred_e = galaxies.zred_uncorr_e * interpol(self.zredstr.corr_r, self.zredstr.z, galaxies.zred)
 
-            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr)
+            dz2s = interpol(self.zredstr.corr2, self.zredstr.z, galaxies.zred_uncorr) + (galaxies.refmag - pivotmags) * interpol(self.zredstr.corr2_slope, self.zredstr.z, galaxies.zred_uncorr)
             r2s = interpol(self.zredstr.corr2_r, self.zredstr.z, galaxies.zred_uncorr)
 
             galaxies.zred2 = galaxies.zred_uncorr + dz2s
-- 
2.43.0


From 683a5859ea8a62551073a602396a7435be044083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:59 +0000
Subject: [PATCH 08/92] fix: zred catalogue runs with fewer galaxies than
 processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..deb568f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From bea7e4dd4fde98d4237bc3a91b8e73e1b6a75476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:38 +0000
Subject: [PATCH 09/92] fix: background look-up at the lowest chisq uses the
 first chisq bin

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..7d0c20c 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -149,7 +149,8 @@ class Background(object):
            Sigma_g(x) for input values
         """
         zmin = self.zbins[0]
-        chisqindex = np.searchsorted(self.chisqbins, chisq) - 1
+        # A chisq exactly at the lower edge belongs to the first bin.
+        chisqindex = np.clip(np.searchsorted(self.chisqbins, chisq) - 1, 0, None)
         refmagindex = np.searchsorted(self.refmagbins, refmag) - 1
         # Look into changing to searchsorted
         ind = np.clip(np.round((z-zmin)/(self.zbins[1]-zmin)),0, self.zbins.size-1).astype(np.int32)
-- 
2.43.0


From 34d3e6101ccdfba0b0545d40ef5a75b8419cdf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:13 +0000
Subject: [PATCH 10/92] fix: read backgrounds whose chisq and ln(chisq) bin
 counts differ

---
 redmapper/background.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 7d0c20c..9c69044 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -68,7 +68,7 @@ class Background(object):
 
         # Set up some arrays to populate
         sigma_g_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
-        sigma_lng_new = np.zeros((nrefmagbins, nchisqbins, nzbins))
+        sigma_lng_new = np.zeros((nrefmagbins, nlnchisqbins, nzbins))
 
         # Do linear interpolation to get the sigma_g value
         # between the raw background points.
@@ -77,6 +77,7 @@ class Background(object):
             for j in range(nchisqbins):
                 sigma_g_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_g[:,j,i])
                 sigma_g_new[:,j,i] = np.where(sigma_g_new[:,j,i] < 0, 0, sigma_g_new[:,j,i])
+            for j in range(nlnchisqbins):
                 sigma_lng_new[:,j,i] = np.interp(refmagbins, obkg.refmagbins, obkg.sigma_lng[:,j,i])
                 sigma_lng_new[:,j,i] = np.where(sigma_lng_new[:,j,i] < 0, 0, sigma_lng_new[:,j,i])
 
-- 
2.43.0


From b8641c34641290a32ec99795f25378aa074c16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:14 +0000
Subject: [PATCH 11/92] fix: keep each color with its own axis when an
 off-diagonal background is looked up in reverse

---
 redmapper/color_background.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..c45af60 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -277,6 +277,7 @@ class ColorBackground(object):
         key = bkg_index1 * 100 + bkg_index2
         if key not in self.bkgs:
             key = bkg_index2 * 100 + bkg_index1
+            colors1, colors2 = colors2, colors1
 
         try:
             bkg = self.bkgs[key]
-- 
2.43.0


From d714f94a90c37a012dc930b95449bd8ad7f12e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:59 +0000
Subject: [PATCH 12/92] fix: background magnitude limits do not depend on the
 number of processes

---
 redmapper/background.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 9c69044..d5661eb 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -442,7 +442,9 @@ class BackgroundGenerator(object):
         starttime = time.time()
 
         zbins_use = self.zbins[zbinmark]
-        zrange_use = np.array([zbins_use[0], zbins_use[-1] + self.config.bkg_zbinsize])
+        # Use the full upper end, so that the magnitude limits (from the top of
+        # each bin) do not depend on how the bins are split over processes.
+        zrange_use = np.array([zbins_use[0], self.zbins[-1] + self.config.bkg_zbinsize])
 
         # We need to load in the red sequence structure -- just in the specific redshift range
         zredstr = RedSequenceColorPar(self.config.parfile, zrange=zrange_use)
-- 
2.43.0


From 994f0c85db09a2af2f70c6466c6228fe3056e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:21 +0000
Subject: [PATCH 13/92] fix: read every galaxy of a non-pixelized galaxy file
 when generating a background

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index d5661eb..0e20f64 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -472,7 +472,7 @@ class BackgroundGenerator(object):
             hdr = fitsio.read_header(self.config.galfile, ext=1)
 
             ngal = hdr['NAXIS2']
-            npix = 0
+            npix = 1
 
         nmag = self.config.nmag
         ncol = nmag - 1
@@ -504,7 +504,7 @@ class BackgroundGenerator(object):
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From 09dec7aa1d869f41035e9b2aaa9384bb303ddc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 14/92] fix: masks can be applied while ingesting galaxies

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..e563c03 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From 04a9e3383c0411a851101d00cc3fad527a9a9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:22 +0000
Subject: [PATCH 15/92] fix: do not leave a finalized galaxy table behind when
 galaxy ids are refused

---
 redmapper/galaxy.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index e563c03..3b9fd66 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -882,12 +882,6 @@ class GalaxyCatalogMaker(object):
         if self.y_ind is not None:
             tab.y_ind = self.y_ind
 
-        hdr = fitsio.FITSHDR()
-        hdr['PIXELS'] = 1
-        hdr['FITS'] = 1
-
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -919,8 +913,18 @@ class GalaxyCatalogMaker(object):
                     ctr += tab.ngals[i]
 
             if len(np.unique(ids)) < len(ids):
+                if self.parallel:
+                    os.remove(lockfile)
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        # The master table is written last, so it only exists for a complete
+        # and valid catalog.
+        hdr = fitsio.FITSHDR()
+        hdr['PIXELS'] = 1
+        hdr['FITS'] = 1
+
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 4f9439464f52ec5390b95cf608b7c594b2ceacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 16/92] fix: ingest batches in which every galaxy is masked

---
 redmapper/galaxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 3b9fd66..2f33f59 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -733,6 +733,9 @@ class GalaxyCatalogMaker(object):
         if self.mask is not None:
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
+            if gals.size == 0:
+                # Every galaxy in this batch is masked.
+                return
 
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
-- 
2.43.0


From 13f6660b150e3add5e1e822e7d51127eee8c10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:23 +0000
Subject: [PATCH 17/92] fix: report the out-of-range pixel when reading a
 galaxy sub-region

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 2f33f59..259d1c8 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
-- 
2.43.0


From b5133a1449640d4832fc5690438ea43dcabedfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:12 +0000
Subject: [PATCH 18/92] fix: evaluate the mask correction at r_lambda with the
 polynomial order the solver uses

---
 redmapper/cluster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index 96a8290..dfadbca 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -524,8 +524,7 @@ class Cluster(Entry):
         else:
             # Only do this computation if we have a valid measurement
             bar_pmem = np.sum(pmem**2.0)/np.sum(pmem)
-            cval = np.clip(np.sum(cpars * rlam**np.arange(cpars.size, dtype=float)),
-                           0.0, None)
+            cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
 
             self.scaleval = np.absolute(lam / np.sum(pmem))
 
-- 
2.43.0


From 342c0d55274902eae2d530fb0c9e6ed4220c2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:32 +0000
Subject: [PATCH 19/92] fix: richness error of the color fit uses defined
 quantities

---
 redmapper/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index dfadbca..d332464 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -747,9 +747,10 @@ class Cluster(Entry):
             lam_unscaled = lam / self.scaleval
 
             if calc_err:
+                cval = np.clip(np.polyval(cpars, rlam), 0.0, None)
                 lam_cerr = self.calc_lambdacerr(mask.maskgals, self.mstar,
                                                lam, rlam, pmem, cval, self.config.dldr_gamma)
-                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lambda_cerr**2.)
+                lam_err = np.sqrt((1. - bar_pmem) * lam_unscaled + lam_cerr**2.)
 
             # calculate pcol (color only)
             ucounts = d_wt * phi
-- 
2.43.0


From f6cdce5cefe3adac55bbd672d213b3a5ed20177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:32 +0000
Subject: [PATCH 20/92] fix: a cluster copy keeps its catalog values and zred
 background

---
 redmapper/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/cluster.py b/redmapper/cluster.py
index d332464..92da6d4 100644
--- a/redmapper/cluster.py
+++ b/redmapper/cluster.py
@@ -853,12 +853,14 @@ class Cluster(Entry):
     def __copy__(self):
         # This returns a copy of the cluster, and note that the neighbors will
         # be deepcopied which is what we want.
-        return Cluster(r0=self.r0,
+        return Cluster(cat_vals=self._ndarray.copy(),
+                       r0=self.r0,
                        beta=self.beta,
                        config=self.config,
                        zredstr=self.zredstr,
                        bkg=self.bkg,
                        cbkg=self.cbkg,
+                       zredbkg=self.zredbkg,
                        neighbors=self.neighbors)
 
 class ClusterCatalog(Catalog):
-- 
2.43.0


From 61f022ec3cd17939a4bd536e97c1b11f747f6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:01 +0000
Subject: [PATCH 21/92] fix: read sub-regions of several pixels that share a
 coverage pixel

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..226b7a7 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1198,7 +1198,7 @@ def get_healsparse_subpix_indices(subpix_nside, subpix_hpix, subpix_border, cove
     elif subpix_nside > coverage_nside:
         # what pixels are these contained in?
         theta, phi = hpg.pixel_to_angle(subpix_nside, subpix_hpix, lonlat=False, nest=False)
-        covpix = hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False, nest=True)
+        covpix = np.unique(hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False, nest=True))
     else:
         # This is subpix_nside < coverage_nside
         # what coverage pixels are contained in subpix_hpix?
-- 
2.43.0


From ac307b070c244ddfc50d2e91e2b887fa3dc3e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:46 +0000
Subject: [PATCH 22/92] fix: make coverage pixels unique where maps are read
 for several sub-region pixels

---
 redmapper/depthmap.py    | 3 +++
 redmapper/mask.py        | 3 +++
 redmapper/utilities.py   | 2 +-
 redmapper/volumelimit.py | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/redmapper/depthmap.py b/redmapper/depthmap.py
index 4c93fb2..1e17772 100644
--- a/redmapper/depthmap.py
+++ b/redmapper/depthmap.py
@@ -57,6 +57,9 @@ class DepthMap(object):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel.
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
diff --git a/redmapper/mask.py b/redmapper/mask.py
index cad3570..a09db53 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -361,6 +361,9 @@ class HPMask(Mask):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel.
+                covpixels = np.unique(covpixels)
         else:
             # Read in the whole thing
             covpixels = None
diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index 226b7a7..e53507d 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1198,7 +1198,7 @@ def get_healsparse_subpix_indices(subpix_nside, subpix_hpix, subpix_border, cove
     elif subpix_nside > coverage_nside:
         # what pixels are these contained in?
         theta, phi = hpg.pixel_to_angle(subpix_nside, subpix_hpix, lonlat=False, nest=False)
-        covpix = np.unique(hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False, nest=True))
+        covpix = hpg.angle_to_pixel(coverage_nside, theta, phi, lonlat=False, nest=True)
     else:
         # This is subpix_nside < coverage_nside
         # what coverage pixels are contained in subpix_hpix?
diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..4d73f2d 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -81,6 +81,9 @@ class VolumeLimitMask(object):
         if len(self.config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(self.config.d.nside, self.config.d.hpix,
                                                       self.config.border, nside_coverage)
+            if covpixels is not None:
+                # Several sub-region pixels may share a coverage pixel.
+                covpixels = np.unique(covpixels)
         else:
             covpixels = None
 
-- 
2.43.0


From a1e91eb0e07840e9bdda6d1474f7cc6e76820c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:37 +0000
Subject: [PATCH 23/92] fix: mask points beyond the radius do not count for the
 hard radial cut

---
 redmapper/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/mask.py b/redmapper/mask.py
index a09db53..9ed6dfa 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -237,7 +237,7 @@ class Mask(object):
                 maskgals.nin_orig[indices, i] = inside.size
 
                 if self.config.rsig <= 0.0:
-                    theta_r = np.ones(self.config.maskgal_ngals)
+                    theta_r = (maskgals.r[indices] <= rad).astype(np.float64)
                 else:
                     theta_r = 0.5 + 0.5*erf((rad - maskgals.r[indices]) / (np.sqrt(2.)*self.config.rsig))
                 maskgals.theta_r[indices, i] = theta_r
-- 
2.43.0


From 8aec1e5fc32ee67dcc71cd65f9703ace50ec741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:47 +0000
Subject: [PATCH 24/92] fix: the volume-limited area is that of the pixels
 reaching beyond the redshift

---
 redmapper/volumelimit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 4d73f2d..faed8ca 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -307,7 +307,8 @@ class VolumeLimitMask(object):
 
         if np.sum(~lo) > 0:
             carea = pixsize * np.cumsum(fracgoods, dtype=np.float64)
-            astr.area[~lo] = carea[carea.size - inds[~lo]]
+            # Only the pixels which go deeper than the redshift
+            astr.area[~lo] = carea[-1] - carea[inds[~lo] - 1]
 
         return astr
 
-- 
2.43.0


From 1dbe36411c119443d64d832dfc2691e7f2a01c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:47 +0000
Subject: [PATCH 25/92] fix: positions with impossible declinations have no
 volume limit

---
 redmapper/volumelimit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index faed8ca..1711ab8 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -263,7 +263,7 @@ class VolumeLimitMask(object):
         if (len(ras) != len(decs)):
             raise ValueError("ras, decs must be same length")
 
-        values = self.sparse_vlimmap.get_values_pos(ras, decs, lonlat=True)
+        values = self.sparse_vlimmap.get_values_pos(ras, np.clip(decs, -90.0, 90.0), lonlat=True)
 
         bad, = np.where(np.abs(decs) > 90.0)
         values['zmax'][bad] = hpg.UNSEEN
-- 
2.43.0


From 2ad7d1141a6751625702fea87920f286477fcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:49 +0000
Subject: [PATCH 26/92] fix: the free probability of a percolated galaxy is
 never negative

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..6611672 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -403,7 +403,7 @@ class ClusterRunner(object):
                         continue
 
                     if self.do_percolation_masking:
-                        cluster.neighbors.pfree[:] = 1.0 - self.pgal[cluster.neighbors.index]
+                        cluster.neighbors.pfree[:] = np.clip(1.0 - self.pgal[cluster.neighbors.index], 0.0, None)
                     else:
                         cluster.neighbors.pfree[:] = 1.0
 
-- 
2.43.0


From 09f494063d6ad62aaa6489d0582008f906ee2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:49 +0000
Subject: [PATCH 27/92] fix: store the corrected p(z) of a cluster

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 6611672..a8dce2e 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -459,7 +459,7 @@ class ClusterRunner(object):
                                                                                           pzbins=cluster.pzbins,
                                                                                           pzvals=cluster.pz)
                         cluster.pzbins = pzbins
-                        cluster.pzvals = pzvals
+                        cluster.pz = pzvals
                     else:
                         zlam, zlam_e = self.zlambda_corr.apply_correction(cluster.Lambda,
                                                                           cluster.z_lambda,
-- 
2.43.0


From 83e0c7f6073bab73b6b02b341429dc8986d7dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:45 +0000
Subject: [PATCH 28/92] fix: a single input cluster keeps its identifier

---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index a8dce2e..7683bdd 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -292,7 +292,7 @@ class ClusterRunner(object):
         min_id = self.cat.mem_match_id.min()
         max_id = self.cat.mem_match_id.max()
 
-        if (min_id == max_id):
+        if (min_id == max_id) and (self.cat.size > 1 or min_id <= 0):
             # These are unset: generate them
             self.cat.mem_match_id = np.arange(self.cat.size) + 1
         else:
-- 
2.43.0


From 155cb99721ffc136833b7a8e38478bf613347379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:25 +0000
Subject: [PATCH 29/92] fix: redshift corrections without errors do not need a
 p(z)

---
 redmapper/zlambda.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index f808769..7edca88 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -708,9 +708,10 @@ class ZlambdaCorrectionPar(object):
 
             zlam += dz
 
-            if pzbins is None and not noerr:
+            if pzbins is None:
                 # No P(z).  Simple error application
-                zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
+                if not noerr:
+                    zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
             else:
                 # With P(z).  Do "space density expansion"
                 # modify width of bins by expansion, and also
-- 
2.43.0


From 8a54387e5d90e29c456d51150f2edfedd74afdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:25 +0000
Subject: [PATCH 30/92] fix: redshift corrections leave the p(z) passed in
 unchanged

---
 redmapper/zlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 7edca88..a8cd52c 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -725,7 +725,7 @@ class ZlambdaCorrectionPar(object):
                 pzbins = pdz * np.arange(npzbins) + zlam - pdz * (npzbins - 1)/2. + offset
 
                 n = scipy.integrate.simpson(y=pzvals, x=pzbins)
-                pzvals /= n
+                pzvals = pzvals / n
 
                 zlam_e = np.sqrt(zlam_e**2. + extra_err**2.)
 
-- 
2.43.0


From acf2dc7265b0a2150a9877425ca4a304dc190acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:11 +0000
Subject: [PATCH 31/92] fix: read redshift corrections calibrated with a single
 iteration

---
 redmapper/zlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index a8cd52c..79746b9 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -639,7 +639,7 @@ class ZlambdaCorrectionPar(object):
         self.extrapolated[loz] = True
         self.extrapolated[hiz] = True
 
-        if self.niter == 1:
+        if self.niter == 1 and np.ndim(pars.offset_true) == 1:
             spl = CubicSpline(pars.offset_z, pars.offset_true)
             self.offset[0, :] = spl(self.z)
 
-- 
2.43.0


From 65c5c7992a10e0dffc4dc7ad5e78d14b37cd7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:04 +0000
Subject: [PATCH 32/92] fix: centering with spectroscopic redshifts leaves the
 neighbours unchanged

---
 redmapper/centering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index 5641393..daf504f 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -86,8 +86,8 @@ class CenteringBCG(Centering):
         # This is somewhat arbitrary, and is not yet configurable
         pmem_cut = 0.8
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
@@ -142,9 +142,9 @@ class CenteringWcenZred(Centering):
            True when a center is successfully found. (Always True).
         """
 
-        z_neighbors = self.cluster.neighbors.zred
-        z_neighbors_e = self.cluster.neighbors.zred_e
-        chisq_neighbors = self.cluster.neighbors.zred_chisq
+        z_neighbors = self.cluster.neighbors.zred.copy()
+        z_neighbors_e = self.cluster.neighbors.zred_e.copy()
+        chisq_neighbors = self.cluster.neighbors.zred_chisq.copy()
         if self.config.centering_use_zspec:
             has_zspec, = np.where(self.cluster.neighbors.zspec > 0.0)
             z_neighbors[has_zspec] = self.cluster.neighbors.zspec[has_zspec]
-- 
2.43.0


From 196d2fc895649b7d404973532897a1dd785099cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:04 +0000
Subject: [PATCH 33/92] fix: centering without any candidate galaxy fails
 cleanly

---
 redmapper/centering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/centering.py b/redmapper/centering.py
index daf504f..5f6608b 100644
--- a/redmapper/centering.py
+++ b/redmapper/centering.py
@@ -158,6 +158,9 @@ class CenteringWcenZred(Centering):
                         ((self.cluster.neighbors.pmem > 0.0) |
                          (np.abs(self.cluster.redshift - z_neighbors) < 5.0 * z_neighbors_e)))
 
+        if use.size == 0:
+            return False
+
         # Do the phi_cen filter
         mbar = self.cluster.mstar + self.config.wcen_Delta0 + self.config.wcen_Delta1 * np.log(self.cluster.Lambda / self.config.wcen_pivot)
         phi_cen = gaussFunction(self.cluster.neighbors.refmag[use],
-- 
2.43.0


From 92df89a16fd21ad273cccc16577130e8b695b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:47 +0000
Subject: [PATCH 34/92] fix: honour the row selection when writing a one-row
 catalogue

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..f975879 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -140,7 +140,7 @@ class DataObject(object):
         indices: `np.array`, optional
            Indices of rows to output.  Default is None (output all).
         """
-        if self._ndarray.size == 1:
+        if self._ndarray.size == 1 and indices is None:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
             fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
-- 
2.43.0


From 53463c1ee13b41fbd332278f88f6acec9b8f5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:47 +0000
Subject: [PATCH 35/92] fix: dir() of catalogues and entries

---
 redmapper/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index f975879..87b61c6 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -218,7 +218,7 @@ class DataObject(object):
         # also need to know original __dir__!
         return sorted(set(
                 dir(type(self)) +
-                self.__dict__.keys() +
+                list(self.__dict__.keys()) +
                 [x.lower() for x in self._ndarray.dtype.names]))
 
 
-- 
2.43.0


From 024557bc68318abf6c91357367ffd9b03ca98ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:47 +0000
Subject: [PATCH 36/92] fix: find the member file of catalogues whose name ends
 in f, i or t

---
 redmapper/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..731af4c 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1091,7 +1091,8 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    base = catfile[: -len('.fit')] if catfile.endswith('.fit') else catfile
+    memfile = '%s_members.fit' % (base)
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 9deae343dc9111729b4385115013116f52386459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 37/92] fix: consolidate with select_scaleval when clusters are
 cut

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..5b44982 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -160,8 +160,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -179,6 +177,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-- 
2.43.0


From b91c83cd6cd8ee5c2b4de549f089added04673dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 38/92] fix: consolidate when no cluster passes one of the cuts

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 5b44982..0c50996 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -246,6 +246,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # No clusters passed these cuts
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From 1fcdce2e167cfb0a062bafd7b36bd2ef33bd3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 39/92] fix: take the pixel of a catalog file from the end of
 its name

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 0c50996..17c4214 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -80,7 +80,7 @@ class RedmapperConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -128,7 +128,7 @@ class RedmapperConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_final_catalog\.fit$', catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
@@ -338,7 +338,7 @@ class RuncatConsolidateTask(object):
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
         # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
+        m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfiles[0])
         if m is None:
             raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
 
@@ -361,7 +361,7 @@ class RuncatConsolidateTask(object):
 
             # Extract pixnum from name
 
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
+            m = re.search(r'_(\d+)_(\d\d\d\d\d)_%s_catalog\.fit$' % (re.escape(cattype)), catfile)
             if m is None:
                 raise RuntimeError("Could not understand filename for %s" % (catfile))
 
-- 
2.43.0


From 4e073526796d19ec990a7cedcc60a0afb8c392e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 40/92] fix: only consolidate runcat members of the clusters
 that are kept

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 17c4214..d5f2a29 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -404,6 +404,10 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Only keep the members of the clusters in the pixel
+                mem = mem[np.isin(mem.mem_match_id, cat.mem_match_id)]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
-- 
2.43.0


From dc14f9a149115647d8870ee6f3cee0b73217cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 41/92] fix: undefined name in the runcat consolidation plots

---
 redmapper/pipeline/redmapperconsolidatetask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index d5f2a29..c3128fb 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -427,7 +427,7 @@ class RuncatConsolidateTask(object):
 
         if do_plots:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From d30cd3d9c6bd5250e475879d955d5f7601595f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 42/92] fix: split a single-process run of a sub-region

---
 redmapper/redmapper_run.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..d4ee8f8 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -168,10 +168,7 @@ class RedmapperRun(object):
         tab = Entry.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
-            if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
-            else:
-                nside_test = np.clip(self.config.d.nside, 1, None)
+            nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
             return (nside_test, subpixels)
 
-- 
2.43.0


From 29dfbed1f6a0e2a0e417a0b48b9b07281172c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 43/92] fix: start file logging of a run on the full sky

---
 redmapper/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..dadf06d 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -591,8 +591,9 @@ class Configuration(object):
             os.makedirs(os.path.join(self.outpath, self.logpath), exist_ok=True)
 
         if filename is None:
+            hpix_label = f'{self.d.hpix[0]:04}' if len(self.d.hpix) > 0 else 'all'
             logfilename = os.path.join(self.outpath, self.logpath,
-                                       f'redmapper_{self.d.outbase}_{self.d.hpix[0]:04}.log')
+                                       f'redmapper_{self.d.outbase}_{hpix_label}.log')
         else:
             logfilename = os.path.join(self.outpath, self.logpath, os.path.basename(filename))
 
-- 
2.43.0


From 97faa91e0f2ead136f17650d9863b7ce32abc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:10 +0000
Subject: [PATCH 44/92] fix: do not take an interrupted output for a finished
 one

---
 redmapper/catalog.py        | 18 +++++++++++++++---
 redmapper/cluster_runner.py | 14 ++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 87b61c6..742dafb 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -5,6 +5,7 @@ like the old idl code (for good or ill).  It also makes some things a bit more
 readable.
 """
 
+import os
 import fitsio
 import esutil as eu
 import numpy as np
@@ -140,15 +141,26 @@ class DataObject(object):
         indices: `np.array`, optional
            Indices of rows to output.  Default is None (output all).
         """
+        if clobber:
+            # Write to a temporary name, so that an interrupted write does
+            # not leave an incomplete file behind.
+            outfile = os.path.join(os.path.dirname(filename),
+                                   '.tmp%d_%s' % (os.getpid(), os.path.basename(filename)))
+        else:
+            outfile = filename
+
         if self._ndarray.size == 1 and indices is None:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
-            fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
+            fitsio.write(outfile, temp_array, clobber=clobber, header=header, extname=extname)
         else:
             if indices is None:
-                fitsio.write(filename, self._ndarray, clobber=clobber, header=header, extname=extname)
+                fitsio.write(outfile, self._ndarray, clobber=clobber, header=header, extname=extname)
             else:
-                fitsio.write(filename, self._ndarray[indices], clobber=clobber, header=header, extname=extname)
+                fitsio.write(outfile, self._ndarray[indices], clobber=clobber, header=header, extname=extname)
+
+        if clobber:
+            os.replace(outfile, filename)
 
     def _merge_arrays(self, arrays):
         """
diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 7683bdd..6f0705a 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # The members are written first, because the presence of the catalog
+        # file is used to mark that this run is complete.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
-- 
2.43.0


From c4a02e5375ad22f8fec4e14c1465789460203c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:17 +0000
Subject: [PATCH 45/92] fix: read phi1_mmstar_slope from the centering
 calibration

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index dadf06d..57a493d 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -823,7 +823,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 27890225ef90c415a1213734bb45310de033d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:17 +0000
Subject: [PATCH 46/92] fix: output a configuration with an array that is not
 set

---
 redmapper/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 57a493d..add37b2 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -945,7 +945,9 @@ class Configuration(object):
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
                     # Convert all elements to python types and make a list
-                    out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
+                    # (arrays which are not set are left out)
+                    if type(self).__dict__[key]._value is not None:
+                        out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
                     # Try to use numpy to convert to scalar; if it doesn't work then
                     # it's not numpy and we can use the value directly
-- 
2.43.0


From db0b3c98a53bdeb8b5440fe5b06cc3e0c99c3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:17 +0000
Subject: [PATCH 47/92] fix: output lists in a configuration that were set from
 numpy arrays

---
 redmapper/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index add37b2..de95d87 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -948,6 +948,9 @@ class Configuration(object):
                     # (arrays which are not set are left out)
                     if type(self).__dict__[key]._value is not None:
                         out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
+                elif type(self).__dict__[key]._isList:
+                    # Lists may have been set from numpy arrays
+                    out_dict[key] = np.array(type(self).__dict__[key]._value).tolist()
                 else:
                     # Try to use numpy to convert to scalar; if it doesn't work then
                     # it's not numpy and we can use the value directly
-- 
2.43.0


From 486e8876fc085d62077f132b64f9fa6a8717d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:17 +0000
Subject: [PATCH 48/92] fix: refuse configuration keys that are names of
 methods

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index de95d87..ae00477 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -635,7 +635,7 @@ class Configuration(object):
         for key in d:
             if check_none and d[key] is None:
                 continue
-            if key not in type(self).__dict__:
+            if not isinstance(type(self).__dict__.get(key), ConfigField):
                 raise AttributeError("Unknown config variable: %s" % (key))
             try:
                 setattr(self, key, d[key])
-- 
2.43.0


From e0db956c10a5ff96a8b230437d5ec27d05c9e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:17 +0000
Subject: [PATCH 49/92] fix: changing a default array in place does not change
 the default

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index ae00477..2d7d84e 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -78,7 +78,7 @@ class ConfigField(object):
 
     def reset(self):
         """Reset the value to the default."""
-        self._value = self._default
+        self._value = copy.copy(self._default)
 
     def set_length(self, length):
         """Set the desired array length.
-- 
2.43.0


From bb1627b8408bedf29e7e82c4d8b66ebc886d6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 50/92] fix: compare the redshift of a random point with the
 limit at its own position

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..54dccdb 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -109,6 +109,7 @@ class GenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z = -1.0
+            zmax = zmax[gd]
 
             r = rng.choice(np.arange(self.redmapper_cat.size), size=gd.size, replace=True)
             zz = self.redmapper_cat.z_lambda[r]
-- 
2.43.0


From 105dd53189093c314a746ced4b6e6d33fe4877a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 51/92] fix: import os, used to split randoms

---
 redmapper/randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 54dccdb..3abdf22 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -1,6 +1,7 @@
 """Classes for generating redmapper randoms.
 """
 
+import os
 import fitsio
 import esutil
 import re
-- 
2.43.0


From 77a0acd56139c4730dc864ab019c471b90ce2036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 52/92] fix: name weighted randoms after the redshift range
 they were made for

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 3abdf22..b4d77e7 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -280,8 +280,8 @@ class RandomWeigher(object):
         if zrange is None:
             zrange = np.array([self.config.zrange[0], self.config.zrange[1]])
 
-        zname = 'z%03d-%03d' % (int(self.config.zrange[0]*100),
-                                int(self.config.zrange[1]*100))
+        zname = 'z%03d-%03d' % (int(zrange[0]*100),
+                                int(zrange[1]*100))
         vlimname = 'vl%02d' % (int(self.vlim_lstar*10))
         if lambdabin is None:
             lamname = 'lgt%03d' % (int(minlambda))
-- 
2.43.0


From 7a4be56af8ce748e95c09acbbe28bdd82b9c7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 53/92] fix: replace weighted randoms that were made before

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index b4d77e7..4927c7d 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -359,7 +359,7 @@ class RandomWeigher(object):
         fname_base = 'weighted_randoms_%s_%s_%s' % (zname, lamname, vlimname)
         randfile_out = self.config.redmapper_filename(fname_base, withversion=True)
 
-        randpoints.to_fits_file(randfile_out, indices=use)
+        randpoints.to_fits_file(randfile_out, indices=use, clobber=True)
 
         # And now we need to compute the associated area.
 
@@ -407,6 +407,6 @@ class RandomWeigher(object):
         astr.area = corrs*astr.area
 
         areafile_out = self.config.redmapper_filename(fname_base + '_area', withversion=True)
-        astr.to_fits_file(areafile_out)
+        astr.to_fits_file(areafile_out, clobber=True)
 
         return (randfile_out, areafile_out)
-- 
2.43.0


From af1b4c343124c151cfd5e9a8183d3d1380e3d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 54/92] fix: redmagic randoms have weight one

---
 redmapper/redmagic/redmagic_randoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..e2966e6 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -103,6 +103,7 @@ class RedmagicGenerateRandoms(object):
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
             tempcat.z[:] = -1.0
+            tempcat.weight[:] = 1.0
 
             zz = rng.choice(self.redmagic_cat.zredmagic, size=gd.size)
             zmax = zmax[gd]
-- 
2.43.0


From 649e14f0bfb59aaf7ec77cd79da2e5614f72849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:08 +0000
Subject: [PATCH 55/92] fix: make redmagic randoms from files

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index e2966e6..16c0194 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From ad19e4e4a2469c4896012453199b09d8c56323a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:04 +0000
Subject: [PATCH 56/92] fix: count randoms at the upper edge of a richness bin
 in the effective area

---
 redmapper/randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 4927c7d..2c7a1fa 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -383,12 +383,12 @@ class RandomWeigher(object):
             gd, = np.where((self.randcat.lambda_in[alluse[st]]/self.randcat.scaleval[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         else:
             gd, = np.where((self.randcat.lambda_in[alluse[st]] > minlambda) &
                            (self.randcat.maskfrac[alluse[st]] < self.config.max_maskfrac) &
                            (self.randcat.lambda_in[alluse[st]] > lambdabin[0]) &
-                           (self.randcat.lambda_in[alluse[st]] < lambdabin[1]))
+                           (self.randcat.lambda_in[alluse[st]] <= lambdabin[1]))
         ind2 = np.searchsorted(self.randcat.z[alluse[st[gd]]], zbins)
 
         xvals = (zbins[0: -2] + zbins[1: -1])/2.
-- 
2.43.0


From 65a6812033311d0c73895b0ffc74f3f596d0339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:43 +0000
Subject: [PATCH 57/92] fix: select redmagic galaxies from a list of one galaxy

---
 redmapper/redmagic/redmagic_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index 627c60e..470b949 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -167,7 +167,7 @@ class RedmagicSelector(object):
             zredmagic_e *= spl(gals.zred_uncorr)
 
         # Compute mstar
-        mstar = self.zredstr.mstar(zredmagic)
+        mstar = np.atleast_1d(self.zredstr.mstar(zredmagic))
 
         # Compute the maximum redshift
         vmask = self.vlim_masks[_mode]
-- 
2.43.0


From c63659cac091823f6bb3a59be761ee146269fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 58/92] fix: keep the first node when the range is shorter than
 the node spacing

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index 731af4c..dee24bf 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -864,7 +864,7 @@ def make_nodes(zrange, nodesize, maxnode=None):
     nodes = np.arange(zrange[0], _maxnode, nodesize)
 
     # Should we extend the last bin?
-    if ((_maxnode - nodes.max()) > (nodesize / 2. + 0.01)):
+    if nodes.size == 1 or ((_maxnode - nodes.max()) > (nodesize / 2. + 0.01)):
         # one more node!
         nodes = np.append(nodes, _maxnode)
     elif ~np.allclose(np.max(nodes), _maxnode):
-- 
2.43.0


From 139f81d0ffe521a0e63b9ea615f1cf5fa1633eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 59/92] fix: select the mask pixels of a sub-region

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index dee24bf..30600dc 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1144,7 +1144,7 @@ def get_hpmask_subpix_indices(submask_nside, submask_hpix, submask_border, nside
     nside_cutref = np.clip(submask_nside * 4, 256, nside_mask)
 
     # Find out which cutref pixels are inside the main pixel
-    theta, phi = hpg.pixel_to_angle(nside_cutref, np.arange(hp.nside2npix(nside_cutref)), lonlat=False, nest=False)
+    theta, phi = hpg.pixel_to_angle(nside_cutref, np.arange(hpg.nside_to_npixel(nside_cutref)), lonlat=False, nest=False)
     ipring_coarse = hpg.angle_to_pixel(submask_nside, theta, phi, lonlat=False, nest=False)
     inhpix, = np.where(ipring_coarse == submask_hpix)
 
-- 
2.43.0


From 9a3067d7b380992cd3e9f8db99946aec79c2c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 60/92] fix: read the pixel number from the end of the file
 name when a parallel table is finalized

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 259d1c8..f217381 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -810,7 +810,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', f)
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From ed724e9d0b0bd8be07f10ba7126fbf1f5c8aef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 61/92] fix: find member files in directories whose name
 contains .fit

---
 redmapper/redmapper_run.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index d4ee8f8..eef8654 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -314,8 +314,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
-                mem = Catalog.from_fits_file(parts[0] + '_members.fit')
+                mem = Catalog.from_fits_file(f[:-len('.fit')] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
                 # because the ones generated in the pixels aren't unique
-- 
2.43.0


From 999793c03b9c1b898dfcfdbc766a9b7f0cde3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 62/92] fix: draw an independent noise value per object in
 applyErrorModel

---
 redmapper/depth_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 0dee613..2d7aac4 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -105,7 +105,7 @@ def applyErrorModel(pars, magIn, noNoise=False, lnscat=None):
     if (noNoise):
         flux = tFlux
     else:
-        flux = tFlux + noise*np.random.normal(magIn.size)
+        flux = tFlux + noise*np.random.normal(size=magIn.size)
 
     # Straight magnitudes
     mag = pars['ZP'][0] - 2.5*np.log10(flux/pars['EXPTIME'][0])
-- 
2.43.0


From b6567b27b0a5326d33e5a0eb42009b81537dd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 63/92] fix: report a failed depth fit when there are no usable
 magnitudes

---
 redmapper/depth_fitting.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 2d7aac4..ee46467 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -161,6 +161,13 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
     mag=_mag[ok]
     magErr=_magErr[ok]
 
+    if (ok.size == 0):
+        # There is nothing to fit
+        if (doPlot):
+            return (-1,1,None,None)
+        else:
+            return (-1,1)
+
     if oldIDL:
         # old IDL version...
         st=np.argsort(mag)
-- 
2.43.0


From 3df12aa7d547fef1c294283c3554aa09ba77eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 64/92] fix: keep the depth model consistent with the bootstrap
 limiting magnitude

---
 redmapper/depth_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index ee46467..4b8b52d 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -286,6 +286,8 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
         if (useBoot):
             pars['LIMMAG'] = np.median(limMags)
             pars['EXPTIME'] = np.median(expTimes)
+            pars['FLUX1_LIM'] = 10.**((pars['LIMMAG'][0] - dFunc.zp)/(-2.5))
+            pars['FSKY1'] = (pars['FLUX1_LIM'][0]**2.*pars['EXPTIME'][0])/(dFunc.nSig**2.) - pars['FLUX1_LIM'][0]
 
     if (doPlot):
         fig=plt.figure(1)
-- 
2.43.0


From 2d268d9c634af6083c661ddf96b692da2222fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 65/92] fix: import pyplot for the depth fit plot

---
 redmapper/depth_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/depth_fitting.py b/redmapper/depth_fitting.py
index 4b8b52d..0892833 100644
--- a/redmapper/depth_fitting.py
+++ b/redmapper/depth_fitting.py
@@ -290,6 +290,8 @@ def calcErrorModel(_mag, _magErr, nSig=10.0, doPlot=False, nTrial=100, calcErr=F
             pars['FSKY1'] = (pars['FLUX1_LIM'][0]**2.*pars['EXPTIME'][0])/(dFunc.nSig**2.) - pars['FLUX1_LIM'][0]
 
     if (doPlot):
+        import matplotlib.pyplot as plt
+
         fig=plt.figure(1)
         fig.clf()
         ax=fig.add_subplot(111)
-- 
2.43.0


From 26120c4db70def0b21d46b18884180e7a4fe1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 66/92] fix: use the firstpass radius when starting from zreds

---
 redmapper/run_firstpass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/run_firstpass.py b/redmapper/run_firstpass.py
index 9bb209c..5dbc94b 100644
--- a/redmapper/run_firstpass.py
+++ b/redmapper/run_firstpass.py
@@ -209,7 +209,9 @@ class RunFirstPass(ClusterRunner):
                                             zredstr=self.zredstr,
                                             config=self.config,
                                             bkg=self.bkg,
-                                            cosmo=self.cosmo)
+                                            cosmo=self.cosmo,
+                                            r0=self.r0,
+                                            beta=self.beta)
 
             self.cat.ra = self.gals.ra[use[good]]
             self.cat.dec = self.gals.dec[use[good]]
-- 
2.43.0


From 4907ecbc7a4fc60d7f7b8cce2a0042e4a38f13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 67/92] fix: use the number of colors in the likelihood without
 zreds

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 81dc02c..202956a 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -219,7 +219,7 @@ class RunLikelihoods(ClusterRunner):
                      np.exp(-0.5 * (cluster.neighbors.zred[minrind] - zrmod)**2. / cluster.neighbors.zred_e[minrind]**2.))
             else:
                 # chisq filter
-                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.dof)
+                g = chisq_pdf(cluster.neighbors.chisq[minrind], self.zredstr.ncol)
 
             # and the w filter
             lum = 10.**((cluster.mstar - cluster.neighbors.refmag) / 2.5)
-- 
2.43.0


From 5d63aab035b17c8c2965c1296191eccb2e043fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 68/92] fix: store the central galaxy likelihood in its catalog
 column

---
 redmapper/run_likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 202956a..3b5dc87 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -160,7 +160,7 @@ class RunLikelihoods(ClusterRunner):
         Internal method to reset all cluster values to "bad" values.
         """
         cluster.lnlamlike = -1e11
-        cluster.lnbcglike = -1e11
+        cluster.lncglike = -1e11
         cluster.lnlike = -1e11
 
         super(RunLikelihoods, self)._reset_bad_values(cluster)
@@ -198,7 +198,7 @@ class RunLikelihoods(ClusterRunner):
         # And the central likelihood
         if self.config.lnw_cen_sigma <= 0.0:
             # We do not have a calibration yet
-            cluster.lnbcglike = 0.0
+            cluster.lncglike = 0.0
         else:
             # First phi_cen
             mbar = (cluster.mstar + self.config.wcen_Delta0 +
@@ -232,9 +232,9 @@ class RunLikelihoods(ClusterRunner):
             with warnings.catch_warnings():
                 warnings.simplefilter("error")
 
-                cluster.lnbcglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
+                cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lnbcglike + cluster.lnlamlike
+            cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From 196524684f360e14df3ef8686fb629b91bf969c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 69/92] fix: set the total likelihood when the centering
 likelihood is off

---
 redmapper/run_likelihoods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index 3b5dc87..c2b12b4 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -234,7 +234,7 @@ class RunLikelihoods(ClusterRunner):
 
                 cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
-            cluster.lnlike = cluster.lncglike + cluster.lnlamlike
+        cluster.lnlike = cluster.lncglike + cluster.lnlamlike
 
         return bad
 
-- 
2.43.0


From ae0e794980ac55390031690242b89cdc64b69699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 70/92] fix: default for cutgals_bkgrange

---
 redmapper/cluster_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 6f0705a..9f729ac 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -73,6 +73,7 @@ class ClusterRunner(object):
         self.use_parfile = True
         self.use_maxmag_in_matching = True
         self.use_rmask_settings = True
+        self.cutgals_bkgrange = False
         self.cutgals_chisqmax = False
         self._filename = None
 
-- 
2.43.0


From 775edbfe925c2025394e1513811832ab5a467a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:27 +0000
Subject: [PATCH 71/92] fix: import RunCatalog for RuncatPixelTask

---
 redmapper/pipeline/redmappertask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..0ebbb65 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
-- 
2.43.0


From 4c79fa9d97ad5033ea30f9506aa315c83288bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:26 +0000
Subject: [PATCH 72/92] fix: do not abort the likelihood run on an underflowing
 center likelihood

---
 redmapper/run_likelihoods.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redmapper/run_likelihoods.py b/redmapper/run_likelihoods.py
index c2b12b4..834e19a 100644
--- a/redmapper/run_likelihoods.py
+++ b/redmapper/run_likelihoods.py
@@ -229,9 +229,8 @@ class RunLikelihoods(ClusterRunner):
             sig = self.config.lnw_cen_sigma / np.sqrt(((np.clip(cluster.Lambda, None, self.config.wcen_maxlambda)) / cluster.scaleval) / self.config.wcen_pivot)
             fw = (1. / (np.sqrt(2. * np.pi) * sig)) * np.exp(-0.5 * (np.log(w) - self.config.lnw_cen_mean)**2. / (sig**2.))
 
-            with warnings.catch_warnings():
-                warnings.simplefilter("error")
-
+            # An extremely unlikely center underflows to a likelihood of -inf
+            with np.errstate(divide='ignore'):
                 cluster.lncglike = np.log(phi_cen * np.clip(g, 1e-10, None) * fw)
 
         cluster.lnlike = cluster.lncglike + cluster.lnlamlike
-- 
2.43.0


From a227dc4e33e90b7f7890cfbe9389a7c815eb8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 73/92] fix: respect the maximum number of iterations in
 RunCatalog

---
 redmapper/runcat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7f7ac96..7195799 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -179,5 +179,7 @@ class RunCatalog(ClusterRunner):
             else:
                 done = True
 
+            iteration += 1
+
         return bad
 
-- 
2.43.0


From 95e021cb2ffdc5f3c0d64041e8d2e9d860b4980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 74/92] fix: start the Gaussian fit of p(z) from the width of
 p(z)

With a fixed starting width of 0.01 the fit of a narrow p(z) could run off to
a spurious spike (an error of 1e-5 for a p(z) of width 0.002) or to a negative
width.
---
 redmapper/zlambda.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redmapper/zlambda.py b/redmapper/zlambda.py
index 79746b9..ac38935 100644
--- a/redmapper/zlambda.py
+++ b/redmapper/zlambda.py
@@ -407,7 +407,11 @@ class Zlambda(object):
             z_lambda_e = -1.0
         else:
             m = np.argmax(self.pz)
-            p0 = np.array([self.pz[m], self.pzbins[m], 0.01])
+            # Start the fit from the width of the p(z) itself, so that it does
+            # not run off to a spurious spike or to a negative width.
+            mean = np.sum(self.pz * self.pzbins) / np.sum(self.pz)
+            width = np.sqrt(np.sum(self.pz * (self.pzbins - mean)**2.) / np.sum(self.pz))
+            p0 = np.array([self.pz[m], self.pzbins[m], max(width, self.pzbinsize / 2.)])
 
             try:
                 coeff, varMatrix = scipy.optimize.curve_fit(gaussFunction,
-- 
2.43.0


From e53458c0783a507b0c01431fab6e07332bcf41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:49 +0000
Subject: [PATCH 75/92] fix: keep the uncorrected red-sequence model out of the
 final parameter file

The model without redshift corrections was written to the final file name: an
interrupted calibration left it there, and a resumed one took it as complete.
If the file existed, the new model was appended as a second extension, and the
corrections were computed with the old model.
---
 redmapper/calibration/redsequencecal.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..6bac3b6 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -195,11 +195,15 @@ class RedSequenceCalibrator(object):
         self._calc_volume_factor(self.config.zrange[1])
 
         # Write out the parameter file
-        self.save_pars(self.config.parfile, clobber=False)
+        # (under a temporary name, so that neither an interrupted calibration nor
+        # the model of an earlier one is mistaken for the final model)
+        tempfile = self.config.parfile + '.tmp'
+        self.save_pars(tempfile, clobber=True)
 
         # Compute zreds without corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=False)
+        self._calc_zreds(gals, tempfile, do_correction=False)
+        os.remove(tempfile)
 
         # Compute correction (mode1)
         self._calc_corrections(gals)
@@ -212,7 +216,7 @@ class RedSequenceCalibrator(object):
 
         # Recompute zreds with corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=True)
+        self._calc_zreds(gals, self.config.parfile, do_correction=True)
 
         # And want to save galaxies and zreds
         zredfile = os.path.join(self.config.outpath, os.path.basename(self._galfile.rstrip('.fit') + '_zreds.fit'))
@@ -930,7 +934,7 @@ class RedSequenceCalibrator(object):
 
         self.pars.to_fits_file(filename, header=hdr, clobber=clobber)
 
-    def _calc_zreds(self, gals, do_correction=True):
+    def _calc_zreds(self, gals, parfile, do_correction=True):
         """
         Calculate the zreds for a set of galaxies, using the newly fit model.
 
@@ -938,12 +942,14 @@ class RedSequenceCalibrator(object):
         ----------
         gals: `redmapper.GalaxyCatalog`
            Galaxy catalog being fit
+        parfile: `str`
+           Name of the parameter file of the model
         do_corrections: `bool`, optional
            Do redshift afterburner corrections?  Default is True.
         """
 
         # This is temporary
-        zredstr = RedSequenceColorPar(self.config.parfile)
+        zredstr = RedSequenceColorPar(parfile)
 
         zredc = ZredColor(zredstr, do_correction=do_correction)
 
-- 
2.43.0


From ad56409657d50e09428b9e72a32d50cedfb35ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:49 +0000
Subject: [PATCH 76/92] fix: name the training redshift file after the training
 file, and overwrite it

rstrip('.fit') also removed letters of the name (members_first.fit became
members_firs_zreds.fit), and a second run appended to the old file.
---
 redmapper/calibration/redsequencecal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 6bac3b6..0a25565 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -219,8 +219,8 @@ class RedSequenceCalibrator(object):
         self._calc_zreds(gals, self.config.parfile, do_correction=True)
 
         # And want to save galaxies and zreds
-        zredfile = os.path.join(self.config.outpath, os.path.basename(self._galfile.rstrip('.fit') + '_zreds.fit'))
-        gals.to_fits_file(zredfile)
+        zredfile = os.path.join(self.config.outpath, os.path.splitext(os.path.basename(self._galfile))[0] + '_zreds.fit')
+        gals.to_fits_file(zredfile, clobber=True)
 
         # Make diagnostic plots
         self._make_diagnostic_plots(gals)
-- 
2.43.0


From 656610adf034a291e6ae2726b2a54417331f7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:15 +0000
Subject: [PATCH 77/92] fix: save a red-sequence model calibrated without a
 template

np.clip() refuses to clip when neither limit is given, so the model could not
be saved unless calib_redgal_template was set.
---
 redmapper/calibration/redsequencecal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 0a25565..a5d23c4 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -908,7 +908,7 @@ class RedSequenceCalibrator(object):
             rg = RedGalInitialColors(self.config.calib_redgal_template)
             zmax = rg.zmax
         else:
-            zmax = None
+            zmax = np.inf
 
         hdr = fitsio.FITSHDR()
         hdr['NCOL'] = self.config.nmag - 1
-- 
2.43.0


From 03a72adac0d6b57fda3f2b4367734034d6a26a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:24 +0000
Subject: [PATCH 78/92] fix: apply the luminosity limit of the recorded members

---
 redmapper/run_percolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/run_percolation.py b/redmapper/run_percolation.py
index 905c22f..89dd8d0 100644
--- a/redmapper/run_percolation.py
+++ b/redmapper/run_percolation.py
@@ -210,6 +210,7 @@ class RunPercolation(ClusterRunner):
         if (self.config.percolation_memlum is not None and
             self.config.percolation_memlum > 0.0 and
             self.config.percolation_memlum < self.config.lval_reference):
+            self.use_memlum = True
             if self.config.percolation_memlum < self.limlum:
                 self.limlum = self.config.percolation_memlum
 
-- 
2.43.0


From 360e71944f0fb1b59103f0fc30ecf9589158a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:26 +0000
Subject: [PATCH 79/92] fix: run redMaGiC from the configuration file that was
 written

---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..5ac8c6e 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -711,5 +711,5 @@ class RedmagicCalibrator(object):
 
         if do_run:
             # Call the redmagic runner here.
-            run_redmagic = RunRedmagicTask(runfile)
+            run_redmagic = RunRedmagicTask(self.runfile)
             run_redmagic.run()
-- 
2.43.0


From 32d59184b54807f3bf0a199ff673164122fc3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:31 +0000
Subject: [PATCH 80/92] fix: start the redMaGiC calibration file afresh

A repeated calibration appended to the file of the previous one, so that
selections which are no longer configured stayed in it and were run.
---
 redmapper/redmagic/redmagic_calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index 5ac8c6e..2651f2d 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -637,7 +637,7 @@ class RedmagicCalibrator(object):
             calstr.bias[:] = biasvals
             calstr.eratio[:] = eratiovals
 
-            calstr.to_fits_file(self.config.redmagicfile, clobber=False, extname=self.config.redmagic_names[i])
+            calstr.to_fits_file(self.config.redmagicfile, clobber=(i == 0), extname=self.config.redmagic_names[i])
 
             # Do the redmagic selection on our calibration galaxies
             selector = RedmagicSelector(self.config, vlim_masks=vlim_masks)
-- 
2.43.0


From b2816e13888ab485d19daebfa6f1289954920c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:47 +0000
Subject: [PATCH 81/92] fix: start the redMaGiC fit from galaxies inside the
 volume limit

The starting chi-squared cuts were taken from the density of all galaxies in
the volume of the masked area.  With galaxies outside the mask they were so
low that the minimiser stopped far from the density asked for.
---
 redmapper/redmagic/redmagic_calibrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index 2651f2d..449596d 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -583,7 +583,8 @@ class RedmagicCalibrator(object):
                                   nodes[j]]
 
                     u, = np.where((gals.zuse[red_poss] > zrange[0]) &
-                                  (gals.zuse[red_poss] < zrange[1]))
+                                  (gals.zuse[red_poss] < zrange[1]) &
+                                  (gals.zuse[red_poss] < zmax))
 
                     st = np.argsort(gals.chisq[red_poss[u]])
                     test_den = np.arange(u.size) / test_vol[j]
-- 
2.43.0


From 48dca576ede6e63bb6fafee5df421607379693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:52 +0000
Subject: [PATCH 82/92] fix: redo a calibration step that was interrupted
 between two of its files

---
 redmapper/calibration/calibrate.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..58017df 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -26,6 +26,24 @@ from ..run_colormem import RunColormem
 from ..utilities import getMemoryString
 from .._version import __version__
 
+def _all_files_there(*filenames):
+    """
+    Check that all the output files of a calibration step are there, so that a
+    step that was interrupted between two files is done again.
+
+    Parameters
+    ----------
+    filenames: `str`
+       Filenames to check
+
+    Returns
+    -------
+    there: `bool`
+       True if all of the files are there.
+    """
+    return all(os.path.isfile(filename) for filename in filenames)
+
+
 class RedmapperCalibrator(object):
     """
     Class to perform red-sequence calibration
@@ -56,7 +74,7 @@ class RedmapperCalibrator(object):
         self.config.redgalfile = self.config.redmapper_filename('zspec_redgals')
         self.config.redgalmodelfile = self.config.redmapper_filename('zspec_redgals_model')
 
-        if os.path.isfile(self.config.redgalfile):
+        if _all_files_there(self.config.redgalfile, self.config.redgalmodelfile):
             self.config.logger.info("%s already there.  Skipping..." % (self.config.redgalfile))
         else:
             self.config.logger.info("Selecting red galaxies from spectra...")
@@ -409,7 +427,9 @@ class RedmapperCalibrationIteration(object):
         # Run the cluster finder in specmode (And consolidate likelihoods)
         finalfile = self.config.redmapper_filename('final')
 
-        if os.path.isfile(finalfile):
+        if _all_files_there(finalfile,
+                            self.config.redmapper_filename('final_members'),
+                            self.config.redmapper_filename('like')):
             self.config.logger.info('%s already there.  Skipping...' % (finalfile))
         else:
             self.config.logger.info("Running redmapper in specmode with seeds...")
@@ -446,7 +466,7 @@ class RedmapperCalibrationIteration(object):
 
             self.config.d.outbase = '%s_rand' % (outbase)
             catfile_for_rand_calib = self.config.redmapper_filename('final')
-            if os.path.isfile(catfile_for_rand_calib):
+            if _all_files_there(catfile_for_rand_calib, self.config.redmapper_filename('final_members')):
                 self.config.logger.info('%s already there.  Skipping...' % (catfile_for_rand_calib))
             else:
                 self.config.logger.info("Running percolation for random centers...")
@@ -458,7 +478,7 @@ class RedmapperCalibrationIteration(object):
 
             self.config.d.outbase = '%s_randsat' % (outbase)
             catfile_for_randsat_calib = self.config.redmapper_filename('final')
-            if os.path.isfile(catfile_for_randsat_calib):
+            if _all_files_there(catfile_for_randsat_calib, self.config.redmapper_filename('final_members')):
                 self.config.logger.info('%s already there.  Skipping...' % (catfile_for_randsat_calib))
             else:
                 self.config.logger.info("Running percolation for random satellite centers...")
@@ -600,7 +620,7 @@ class RedmapperCalibrationIterationFinal(object):
 
         finalfile = self.config.redmapper_filename('final')
 
-        if os.path.isfile(finalfile):
+        if _all_files_there(finalfile, self.config.redmapper_filename('final_members')):
             self.config.logger.info('%s already there.  Skipping...' % (finalfile))
         else:
             self.config.logger.info("Doing final iteration run")
-- 
2.43.0


From aed9fbe6cbc7d3cce6de240e7ed1828da9768f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:52 +0000
Subject: [PATCH 83/92] fix: look for negative corrected redshifts in all
 clusters

---
 redmapper/calibration/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index 58017df..3558b91 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -548,7 +548,7 @@ class RedmapperCalibrationIteration(object):
                 cluster.z_lambda_e = zlam_e
 
             # Check for negative values... this is a minimal check
-            test, = np.where(cluster.z_lambda < 0.0)
+            test, = np.where(cat.z_lambda < 0.0)
             if (test.size > 0):
                 raise RuntimeError("z_lambda correction calibration totally failed, and is yielding negative redshifts.  "
                                    "Likely there is a configuration error, see config.calib_zlambda_minlambda and "
-- 
2.43.0


From de08a099fc37219b40d98c4b9c1e9b0c66d14f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 84/92] fix: default output path of the tasks is that of the
 config file

---
 redmapper/pipeline/redmapperconsolidatetask.py | 4 ++--
 redmapper/pipeline/redmappertask.py            | 8 ++++----
 redmapper/redmagic/redmagictask.py             | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index c3128fb..16ac9e7 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -46,7 +46,7 @@ class RedmapperConsolidateTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
 
         if lambda_cuts is None:
             self.lambda_cuts = self.config.consolidate_lambda_cuts
@@ -316,7 +316,7 @@ class RuncatConsolidateTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
 
     def run(self, do_plots=True, match_spec=True, consolidate_members=True, cattype='runcat'):
         """
diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 0ebbb65..f6f2c0b 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -41,7 +41,7 @@ class RunRedmapperPixelTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
         self.pixel = pixel
         self.nside = nside
 
@@ -144,7 +144,7 @@ class RuncatPixelTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
         self.pixel = pixel
         self.nside = nside
 
@@ -207,7 +207,7 @@ class RunZmaskPixelTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
         self.pixel = pixel
         self.nside = nside
 
@@ -276,7 +276,7 @@ class RunZScanPixelTask(object):
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
         self.pixel = pixel
         self.nside = nside
 
diff --git a/redmapper/redmagic/redmagictask.py b/redmapper/redmagic/redmagictask.py
index edf6a00..75a3e42 100644
--- a/redmapper/redmagic/redmagictask.py
+++ b/redmapper/redmagic/redmagictask.py
@@ -34,7 +34,7 @@ l           Output path.  Default is None, use same absolute
         else:
             outpath = path
 
-        self.config = Configuration(configfile, outpath=path)
+        self.config = Configuration(configfile, outpath=outpath)
 
     def run(self, modes=None, clobber=False, do_plots=True, n_randoms=None, rng=None):
         """
-- 
2.43.0


From 927b2cd9ab9b32840ec2095b6c63a9735de6e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 85/92] fix: name the runcat and zscan pixel files as they are
 looked for

---
 redmapper/pipeline/redmappertask.py | 4 ++--
 redmapper/runcat.py                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index f6f2c0b..2da7a05 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -176,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
@@ -306,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
diff --git a/redmapper/runcat.py b/redmapper/runcat.py
index 7195799..1115768 100644
--- a/redmapper/runcat.py
+++ b/redmapper/runcat.py
@@ -32,7 +32,7 @@ class RunCatalog(ClusterRunner):
         self.zreds_required = False
         self.cutgals_bkgrange = True
         self.cutgals_chisqmax = True
-        self.filetype = 'lambda_chisq'
+        self.filetype = 'runcat'
 
     def run(self, *args, **kwargs):
         """
-- 
2.43.0


From 1dea9f3de743381515194b4842b44df09ce889bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 86/92] fix: stop at a pixel without clusters, and replace what
 an interrupted pixel run left

---
 redmapper/pipeline/redmappertask.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 2da7a05..ac60b0f 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -83,7 +83,13 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
-            firstpass.output(savemembers=False, withversion=False)
+
+            if firstpass.cat is None or firstpass.cat.size == 0:
+                self.config.logger.info("Did not produce a firstpass catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
+            firstpass.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
 
@@ -96,7 +102,13 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(like.filename):
             like.run()
-            like.output(savemembers=False, withversion=False)
+
+            if like.cat is None or like.cat.size == 0:
+                self.config.logger.info("Did not produce a likelihood catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
+            like.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
 
@@ -109,7 +121,13 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
-            perc.output(savemembers=True, withversion=False)
+
+            if perc.cat is None or perc.cat.size == 0:
+                self.config.logger.info("Did not produce a percolation catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
+            perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
 
@@ -244,7 +262,7 @@ class RunZmaskPixelTask(object):
 
         if not os.path.isfile(rand_zmask.filename):
             rand_zmask.run()
-            rand_zmask.output(savemembers=False, withversion=False)
+            rand_zmask.output(savemembers=False, withversion=False, clobber=True)
 
         # All done
         self.config.stop_file_logging()
-- 
2.43.0


From aff4f379dd829d43e8a22982c618098c320e234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 87/92] fix: make batch jobs without healpy, which is not used
 elsewhere

---
 bin/redmapper_batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index 473aae4..f00b55c 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -8,7 +8,7 @@ from __future__ import division, absolute_import, print_function
 import os
 import argparse
 import yaml
-import healpy as hp
+import hpgeom as hpg
 import numpy as np
 import glob
 
@@ -154,8 +154,8 @@ jobname = '%s_%s' % (config.outbase, jobtype)
 
 tab = redmapper.Entry.from_fits_file(config.galfile)
 
-theta, phi = hp.pix2ang(tab.nside, tab.hpix)
-hpix_run = np.unique(hp.ang2pix(nside, theta, phi))
+theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
+hpix_run = np.unique(hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False))
 
 # Make the batch script in a "jobs" directory
 
-- 
2.43.0


From 8ea23c80c4a2301d9b8c959ce4d2d5d2f214c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 88/92] fix: batch jobs for pixels finer than the galaxy table
 cover all of it

---
 bin/redmapper_batch.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index f00b55c..3b1bf2d 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -154,8 +154,14 @@ jobname = '%s_%s' % (config.outbase, jobtype)
 
 tab = redmapper.Entry.from_fits_file(config.galfile)
 
-theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
-hpix_run = np.unique(hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False))
+if nside <= tab.nside:
+    theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
+    hpix_run = np.unique(hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False))
+else:
+    # Need all the sub-pixels of each of the galaxy file pixels
+    hpix_all = np.arange(hpg.nside_to_npixel(nside))
+    theta, phi = hpg.pixel_to_angle(nside, hpix_all, lonlat=False, nest=False)
+    hpix_run = hpix_all[np.isin(hpg.angle_to_pixel(tab.nside, theta, phi, lonlat=False, nest=False), tab.hpix)]
 
 # Make the batch script in a "jobs" directory
 
-- 
2.43.0


From a7918fc8ccb60d1c23b6ba986d8245841c202fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 89/92] fix: never write a batch job over an earlier one

---
 bin/redmapper_batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin/redmapper_batch.py b/bin/redmapper_batch.py
index 3b1bf2d..191f871 100644
--- a/bin/redmapper_batch.py
+++ b/bin/redmapper_batch.py
@@ -10,7 +10,6 @@ import argparse
 import yaml
 import hpgeom as hpg
 import numpy as np
-import glob
 
 import redmapper
 import redmapper.parsl_templates as parsl_templates
@@ -173,10 +172,12 @@ if not os.path.isdir(jobpath):
 
 # Will want to check for previous (failed) jobs
 if batchconfig[batchmode]['batch'] == 'parsl':
-    test = glob.glob(os.path.join(jobpath, '%s_?.py' % (jobname)))
+    jobext = 'py'
 else:
-    test = glob.glob(os.path.join(jobpath, '%s_?.job' % (jobname)))
-index = len(test)
+    jobext = 'job'
+index = 0
+while os.path.isfile(os.path.join(jobpath, '%s_%d.%s' % (jobname, index + 1, jobext))):
+    index += 1
 
 need_maskgals = False
 
-- 
2.43.0


From 6bed46a6bf096cd51cce3199344ffcf877697b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:58 +0000
Subject: [PATCH 90/92] fix: group galaxy pixels by run pixel in the memory
 prediction

---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index a64ff57..7e745fc 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -91,7 +91,7 @@ class MemPredict(object):
 
         theta, phi = hpg.pixel_to_angle(tab.nside, tab.hpix, lonlat=False, nest=False)
         for i, nside in enumerate(nsides):
-            hpix_run = hpg.pixel_to_angle(nside, theta, phi, lonlat=False, nest=False)
+            hpix_run = hpg.angle_to_pixel(nside, theta, phi, lonlat=False, nest=False)
 
             h, rev = esutil.stat.histogram(hpix_run, rev=True)
 
-- 
2.43.0


From 2314f8b5c0b0f922e791969460d68580e7299e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:18 +0000
Subject: [PATCH 91/92] fix: plot each cluster with the redshifts of its own
 members

---
 redmapper/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/plotting.py b/redmapper/plotting.py
index 16b4027..cdb99bc 100644
--- a/redmapper/plotting.py
+++ b/redmapper/plotting.py
@@ -106,13 +106,13 @@ class SpecPlot(object):
 
         a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
-        h, rev = esutil.stat.histogram(a, rev=True)
+        h, rev = esutil.stat.histogram(a, min=0, max=cat.size - 1, rev=True)
         mem_zmed = np.zeros(cat.size)
         for i in range(h.size):
             if h[i] == 0:
                 continue
             i1a = rev[rev[i]: rev[i + 1]]
-            mem_zmed[i] = np.median(mem.zspec[i1a])
+            mem_zmed[i] = np.median(mem.zspec[b[i1a]])
 
         return self.plot_values(mem_zmed, cat.z_lambda, cat.z_lambda_e, title=title,
                                 figure_return=figure_return, withversion=withversion)
-- 
2.43.0


From 05a596059ea95d962a603c44c860be6cbb0035c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 92/92] fix: predict the memory of large galaxy pixels

The number of bytes of a pixel was computed in 32 bits.
---
 redmapper/pipeline/mempredict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/pipeline/mempredict.py b/redmapper/pipeline/mempredict.py
index 7e745fc..1cc8281 100644
--- a/redmapper/pipeline/mempredict.py
+++ b/redmapper/pipeline/mempredict.py
@@ -77,7 +77,7 @@ class MemPredict(object):
         # Now compute the number of bytes per galaxy tile
         hpix_tab = tab.hpix
 
-        tab_mb = tab.ngals*nbytes/(1000.0*1000.0)
+        tab_mb = tab.ngals*(nbytes/(1000.0*1000.0))
 
         # Now break apart into different nsides ...
         nsides = [2]
-- 
2.43.0

