From e2ac07187e8a43b47fe3872eddd8ed74266bae51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 01/51] fix: keep gain, crop and dtype conversion when masking
 invalid values

---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From 8100e05590ab9a251d03307660b60c39fe28220e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 02/51] fix: accept HDU lists without a mask extension

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..57fbb39 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -365,7 +365,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From 1327e0b20d7366afee184673f4211838763feb8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 03/51] fix: always mask non finite pixels

---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 57fbb39..fc3397a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -460,6 +460,9 @@ class SingleImage(object):
         )
         self.__data.mask = ma.mask_or(self.__data.mask, mask_lower.mask)
         self.__data.mask = ma.mask_or(self.__data.mask, mask_greater.mask)
+        self.__data.mask = ma.mask_or(
+            self.__data.mask, ~np.isfinite(self.__data.data)
+        )
         added_pixels = (
             self.__data.mask.sum() if self.__data.mask.shape != () else 0
         ) - initial_mask_count
-- 
2.43.0


From 6f359451dcfe60c5ee562bdd043ee4f6a46ecd83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 04/51] fix: crop zero pixels from a trailing edge

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index fc3397a..9cb28f9 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,8 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            sx, sy = self.__data.shape
+            self.__data = self.__data[dx[0] : sx - dx[1], dy[0] : sy - dy[1]]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From 5194e2916fbcb2c8c5492cf4ff057562e741944a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 05/51] fix: find zero borders independently on each side

---
 properimage/single_image.py | 50 ++++++-------------------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 9cb28f9..c57692b 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,49 +213,13 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
+            filled = self.__data.data != 0
+            rows = np.flatnonzero(filled.any(axis=1))
+            cols = np.flatnonzero(filled.any(axis=0))
+            if len(rows) == 0:
+                raise ValueError("Image is empty, borders not found")
+            ldx, rdx = rows[0], rows[-1] + 1
+            ldy, rdy = cols[0], cols[-1] + 1
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
-- 
2.43.0


From 75ad0e66e3baa5cad7c0b8718439d1232718751a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 06/51] fix: return a mask array when no pixel is masked

---
 properimage/operations.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..f26ccd8 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -145,7 +145,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -450,7 +450,9 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(
+            mix_mask, an_img.data.mask, shrink=False
+        )
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -540,7 +542,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -561,7 +563,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From acc0014a15291589a4adfbb342e8595aa7d0d4a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 07/51] fix: refresh cached products when inf_loss or zp change

---
 properimage/single_image.py | 54 +++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index c57692b..8057e91 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -989,20 +989,18 @@ class SingleImage(object):
     @property
     def kl_basis(self):
         """Get the Karhunen-Loeve basis elements."""
-        if not hasattr(self, "_kl_basis"):
-            self._setup_kl_basis()
+        self._setup_kl_basis()
         return self._kl_basis
 
     def _setup_kl_basis(self, inf_loss=None):
         """Determine the KL psf_basis from stars detected in the field."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
-
-        if not hasattr(self, "_kl_basis") or inf_loss_update:
-            if inf_loss is not None:
-                self.inf_loss = inf_loss
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
+        if (
+            not hasattr(self, "_kl_basis")
+            or self._kl_inf_loss != self.inf_loss
+        ):
             valh, vech = self.eigenv
             power = abs(valh) / np.sum(abs(valh))
             pw = 1
@@ -1053,12 +1051,12 @@ class SingleImage(object):
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
             self._kl_basis = psf_basis
+            self._kl_inf_loss = self.inf_loss
 
     @property
     def kl_afields(self):
         """Get the Karhunen-Loeve coefficients."""
-        if not hasattr(self, "_a_fields"):
-            self._setup_kl_a_fields()
+        self._setup_kl_a_fields()
         return self._a_fields
 
     def get_afield_domain(self):
@@ -1068,14 +1066,14 @@ class SingleImage(object):
 
     def _setup_kl_a_fields(self, inf_loss=None, updating=False):
         """Calculate coefficients of Karhunen-Loeve expansion."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
-        if not hasattr(self, "_a_fields") or inf_loss_update or updating:
-            if inf_loss is not None:
-                self._setup_kl_basis(inf_loss)
-                self.inf_loss = inf_loss
+        if (
+            not hasattr(self, "_a_fields")
+            or self._a_fields_inf_loss != self.inf_loss
+            or updating
+        ):
             # get the psf basis
             psf_basis = self.kl_basis
             n_fields = len(psf_basis)
@@ -1083,6 +1081,7 @@ class SingleImage(object):
             # if only one psf then the afields is  [None]
             if n_fields == 1:
                 self._a_fields = [None]
+                self._a_fields_inf_loss = self.inf_loss
                 return self._a_fields
 
             # get the sources for observations
@@ -1103,6 +1102,7 @@ class SingleImage(object):
 
                 a_fields.append(fit)
             self._a_fields = a_fields
+            self._a_fields_inf_loss = self.inf_loss
 
     def get_variable_psf(self, inf_loss=None, shape=None):
         """
@@ -1164,7 +1164,10 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if not hasattr(self, "_normal_image"):
+        if (
+            not hasattr(self, "_normal_image")
+            or self._normal_inf_loss != self.inf_loss
+        ):
             a_fields, psf_basis = self.get_variable_psf()
 
             if a_fields[0] is None:
@@ -1177,6 +1180,7 @@ class SingleImage(object):
                 for a, psf_i in zip(a_fields, psf_basis):
                     conv += convolve_scp(a(x, y), psf_i)
                 self._normal_image = conv
+            self._normal_inf_loss = self.inf_loss
         return self._normal_image
 
     @property
@@ -1229,6 +1233,7 @@ class SingleImage(object):
         if (
             not hasattr(self, "_s_hat_comp")
             or self._s_hat_inf_loss != self.inf_loss
+            or self._s_hat_zp != self.zp
         ):
 
             a_fields, psf_basis = self.get_variable_psf()
@@ -1260,6 +1265,7 @@ class SingleImage(object):
 
             self._s_hat_comp = (self.zp / (var**2)) * s_hat
             self._s_hat_inf_loss = self.inf_loss
+            self._s_hat_zp = self.zp
 
         return self._s_hat_comp
 
@@ -1270,12 +1276,14 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if not hasattr(self, "_s_component"):
+        if (
+            not hasattr(self, "_s_component")
+            or self._s_inf_loss != self.inf_loss
+            or self._s_zp != self.zp
+        ):
             self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
             self._s_inf_loss = self.inf_loss
-
-        if self._s_inf_loss != self.inf_loss:
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            self._s_zp = self.zp
         return self._s_component
 
     @property
-- 
2.43.0


From e559bea096da48802a13364b74a1629a98dd9500 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 08/51] fix: disable strict star picking when there are few
 candidates

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 8057e91..3c945bb 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -764,7 +764,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From c9b3e3e7840b2a4f3784b8027fa0de42026e59a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 09/51] fix: order transparency magnitudes image by image like
 the design matrix

---
 properimage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..bfd777b 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -215,9 +215,9 @@ def transparency(images, master=None):
         )
 
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From d17d2494ea4c37f24226142fd1076818ddd9eae3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 10/51] fix: renumber the master catalog on every transparency
 call

---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index bfd777b..19045b1 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,8 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        # ids of an earlier matching do not apply to this one
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From d35cbc352215a6cadd347181eca2eb274420d68c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 11/51] fix: return transparencies as flux scales, as every
 caller uses them

---
 properimage/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 19045b1..5f76393 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -151,7 +151,8 @@ def transparency(images, master=None):
     Returns
     -------
     zps : array_like
-        The relative zeropoints
+        The relative zeropoints, as flux scales relative to the first image
+        (the master one, if given)
     meanmags : array_like
         The mean magnitude of each image source list catalog.
     """
@@ -235,7 +236,9 @@ def transparency(images, master=None):
         H = sparse.bmat(sparses)
 
         P = sparse.linalg.lsqr(H, m)
-        zps = P[0][:p]
+        # the solution is in magnitudes, up to a constant: give flux scales
+        # relative to the master image
+        zps = 10 ** (-0.4 * (P[0][:p] - P[0][0]))
 
         meanmags = P[0][p:]
 
-- 
2.43.0


From 539115a5e0c0df0636787122a29fabfff7c4e7dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 12/51] fix: centre fitted PSFs on non square images

---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index f26ccd8..93e3279 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -164,10 +164,10 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 6b1a0676156a86e4b60604c069392755f0597f22 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 13/51] fix: give fitted PSFs unit sum before subtracting

---
 properimage/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index 93e3279..e7a3a98 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -172,7 +172,9 @@ def subtract(
         p_n.bounding_box = None
 
         p_n = p_n.render(np.zeros(new.data.data.shape))
+        p_n = p_n / np.sum(p_n)
         p_r = p_r.render(np.zeros(ref.data.data.shape))
+        p_r = p_r / np.sum(p_r)
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From d1231f43a34412ded191c99d9acfc3b97a3bcc9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 14/51] fix: coadd with more workers than images

---
 properimage/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index e7a3a98..236fb2e 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -517,7 +517,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     psf_shape = (psf_shape, psf_shape)
     logger.info(f"PSF shape: {psf_shape}")
 
-    n_jobs = n_procs
+    n_jobs = min(n_procs, len(img_list))
     if n_jobs > 1:
         logger.info(f"Using parallel processing with {n_jobs} workers")
         chunks = list(u.chunk_it(img_list, n_jobs))
-- 
2.43.0


From ba0b42d0d53439ac138dbfbbbccf9a2520861331 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 15/51] fix: do not modify the cleaned image while extracting
 stamps

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 3c945bb..749383e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -801,7 +801,10 @@ class SingleImage(object):
 
                 new_shape = sub_array_data.shape
                 # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                # (a new array: the stamp may be a view of the image)
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From 9abf6b734650e753c31221daa50742cd5d4eb2e6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 16/51] fix: keep the bad pixels of the new image when aligning
 it to subtract

---
 properimage/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 236fb2e..eab15a5 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,7 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
-- 
2.43.0


From ad7f0a70308397b696a158940b717b7afaa2d66e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 17/51] fix: store masked images without mask and any complex
 image

---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 5f76393..e9573f9 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,11 +47,11 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 82cbe0fe40a5fbc24ed8f389e56aa1aa08de700b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 18/51] fix: honour the contour options of PSF plots

---
 properimage/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..174847f 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -231,7 +231,8 @@ class Plot:
         kwargs.setdefault("interpolation", "none")
 
         iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw.setdefault("colors", "black")
+        iso_kw.setdefault("alpha", 0.5)
 
         cmap_kw = cmap_kw or {}
         cmap_kw.setdefault("shrink", 0.85)
-- 
2.43.0


From 2421856ea162f7b20c9f85448eadd5b50fe22111 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 19/51] fix: report too few axes also for a single axes

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 174847f..9ee16c4 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,7 +223,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
@@ -288,7 +288,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = cmap_kw or {}
-- 
2.43.0


From 470dc36b5e89090b7310c76054bf0eb83369b3d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 20/51] fix: finite centre of the Airy pattern

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..baa15fc 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -89,6 +89,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0:
+        return amplitude
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From 1cb5cd7f7a783afd4c836e3f833697ca3d25f10a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 21/51] fix: fill the last row and column of the Sersic galaxy

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index baa15fc..a37ea6d 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -160,8 +160,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From 5ab6c1d8b0c5e529c5c829dc3f1978a05d0e6315 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 22/51] fix: pair each delta with its weight and accept
 iterators

---
 properimage/simtools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index a37ea6d..a0cd6d3 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -212,13 +212,11 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From 1dfb31c232bf292925463e1eee716a021220fcf2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 23/51] fix: honour the standard deviation of the gaussian sky

---
 properimage/simtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index a0cd6d3..6d9417e 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -266,7 +266,8 @@ def image(
 
     elif bkg_pdf == "gaussian":
         mean = 0
-        std = b / SN
+        if std is None:
+            std = b / SN
         C = random.normal(mean, std, (N, N))
     return C + IM + bias
 
-- 
2.43.0


From ae931b5cd0d60e9450b4a246923a2e2f339505ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 24/51] fix: keep simulated gaussian PSFs centred and symmetric

---
 properimage/simtools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 6d9417e..520a787 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -44,15 +44,17 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     if Y_FWHM == 0:
         Y_FWHM = X_FWHM
 
-    a = np.zeros((int(N), int(N)))
+    N = int(N)
+    a = np.zeros((N, N))
     mu = (N - 1) / 2.0
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
     sigma = max(sigma_x, sigma_y)
-    tail_len = min(int(5 * sigma), N / 2)
+    tail_len = int(5 * sigma)
     mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    pixels = range(max(mu_int - tail_len, 0), min(N - mu_int + tail_len, N))
+    for i in pixels:
+        for j in pixels:
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
-- 
2.43.0


From 2351be3f7abc9a1a360d64fd0544e30a88c3b7ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 25/51] fix: coadd without replacing the images in the caller's
 list

---
 properimage/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index eab15a5..f64293d 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -488,9 +488,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
-    for i_img, animg in enumerate(si_list):
-        if not isinstance(animg, si):
-            si_list[i_img] = si(animg)
+    si_list = [
+        animg if isinstance(animg, si) else si(animg) for animg in si_list
+    ]
 
     if align:
         logger.info("Aligning images for coadd")
-- 
2.43.0


From a5d63feb155f76ece1929e366399d1060122c242 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 26/51] fix: detect sources without the values of masked pixels

---
 properimage/single_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 749383e..540b2bb 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -559,7 +559,7 @@ class SingleImage(object):
                     f"{thresh_default:.4f} (minarea=9)"
                 )
                 srcs = sep.extract(
-                    self.bkg_sub_img.data,
+                    self.bkg_sub_img.filled(0),
                     thresh=thresh_default,
                     mask=self.mask,
                     minarea=9,
@@ -579,7 +579,7 @@ class SingleImage(object):
                         f"{thresh_high:.4f} (minarea=9)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_high,
                         mask=self.mask,
                         minarea=9,
@@ -605,7 +605,7 @@ class SingleImage(object):
                         f"{thresh_low:.4f} (minarea=5)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_low,
                         mask=self.mask,
                         minarea=5,
@@ -620,7 +620,7 @@ class SingleImage(object):
                     )
                     sep.set_extract_pixstack(900000)
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=SEP_THRESH["low"] * self.__bkg.globalrms,
                         mask=self.mask,
                         minarea=9,
-- 
2.43.0


From 3f03f44a0296c3f11be2a00b71394b038c072ce3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 27/51] fix: split sequences in exactly the asked number of
 even chunks

---
 properimage/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index e9573f9..bad48bd 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -382,12 +382,9 @@ def chunk_it(seq, num):
     Sorted list.
     List of chunks containing the data splited in num parts.
     """
-    avg = len(seq) / float(num)
-    out = []
-    last = 0.0
-    while last < len(seq):
-        out.append(seq[int(last) : int(last + avg)])
-        last += avg
+    # integer bounds: adding up float steps may drift across them
+    bounds = [i * len(seq) // num for i in range(num + 1)]
+    out = [seq[lo:hi] for lo, hi in zip(bounds[:-1], bounds[1:])]
     try:
         return sorted(out, reverse=True)
     except TypeError:
-- 
2.43.0


From ea9d44d3d49a036d0de88d0c747443b3c035e2c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 28/51] fix: evaluate the PSF at a position for non-square
 stamps

---
 properimage/single_image.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 540b2bb..14aafda 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1399,12 +1399,13 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            delta_x = int((psf_at_xy.shape[0] - 1) / 2)
+            delta_y = int((psf_at_xy.shape[1] - 1) / 2)
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - delta_x
+            xmax = xp + delta_x + 1
+            ymin = yp - delta_y
+            ymax = yp + delta_y + 1
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
                     apsf
-- 
2.43.0


From 401f2f8bd80c57dad235d210e909fdf3ba287cc4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 29/51] fix: draw the contours of non-square PSF components

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 9ee16c4..73ff6ec 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -248,7 +248,7 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
-- 
2.43.0


From 2e12a19f881273d2881d1ab36db5a2ef0a491eba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 30/51] fix: plot the PSF of images with a fitted PSF

---
 properimage/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 73ff6ec..b096c00 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -193,7 +193,11 @@ class Plot:
         **kwargs,
     ):
         """Plot autopsf basis components."""
-        _, psf_basis = self.si.get_variable_psf(inf_loss=inf_loss, shape=shape)
+        a_fields, psf_basis = self.si.get_variable_psf(
+            inf_loss=inf_loss, shape=shape
+        )
+        # a fitted PSF comes with its model, which is no component
+        psf_basis = psf_basis[: len(a_fields)]
 
         # here we plot
         N = len(psf_basis)
-- 
2.43.0


From 613c683e4b476e251f753769db232a30a2bac56d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 31/51] fix: keep the scratch data of the caller's image when
 aligning

---
 properimage/operations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index f64293d..55e6e14 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -131,7 +131,6 @@ def subtract(
         registrd, registrd_mask = aa.register(
             new.data, ref.data, propagate_mask=True
         )
-        new._clean()
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
-- 
2.43.0


From 53b7efa2641990a1d0e9534b97af21af0dd16262 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 32/51] fix: accept pixels in any memory layout

---
 properimage/single_image.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 14aafda..25e5867 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -192,25 +192,29 @@ class SingleImage(object):
         logger.debug(f"Setting data from {type(img).__name__}")
         if isinstance(img, str):
             logger.info(f"Loading image data from file: {img}")
-            self.__data = ma.asarray(fits.getdata(img)).astype("<f4")
+            self.__data = ma.asarray(fits.getdata(img)).astype(
+                "<f4", order="C"
+            )
             logger.debug(f"Loaded data shape: {self.__data.shape}")
         elif isinstance(img, np.ndarray):
             logger.debug(
                 f"Converting numpy array to MaskedArray, shape: {img.shape}"
             )
-            self.__data = ma.MaskedArray(img, mask=False).astype("<f4")
+            self.__data = ma.MaskedArray(img, mask=False).astype(
+                "<f4", order="C"
+            )
         elif isinstance(img, fits.HDUList):
             if img[0].is_image:
                 logger.debug(
                     f"Extracting data from HDUList, shape: {img[0].data.shape}"
                 )
-                self.__data = ma.asarray(img[0].data).astype("<f4")
+                self.__data = ma.asarray(img[0].data).astype("<f4", order="C")
         elif isinstance(img, fits.PrimaryHDU):
             if img.is_image:
                 logger.debug(
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
-                self.__data = ma.asarray(img.data).astype("<f4")
+                self.__data = ma.asarray(img.data).astype("<f4", order="C")
         if self.borders:
             logger.debug("Detecting and removing image borders")
             filled = self.__data.data != 0
-- 
2.43.0


From e1648b49a565d157a6f26e3dff569f4d5730fdfb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 33/51] fix: pick all the stars when strict picking leaves too
 few

---
 properimage/single_image.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 25e5867..f88abcf 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -919,6 +919,10 @@ class SingleImage(object):
                     f"{n_cand_srcs - len(to_del)}valid sources (< 15). "
                     f"Keeping all {n_cand_srcs} sources."
                 )
+                if self._strict_star_pick:
+                    # start over, picking all the sources
+                    self._strict_star_pick = False
+                    return self.stamps_pos
             # Adding extra border to ramp to 0
             self.stamp_shape = (
                 self.stamp_shape[0] + STAMP_PADSIZE,
-- 
2.43.0


From 29f754c769fd03307a7843e321496d6072edeb25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:38:03 +0000
Subject: [PATCH 34/51] fix: keep the source-noise variance of the score on its
 pixels

---
 properimage/operations.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 55e6e14..a871e30 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -393,15 +393,14 @@ def subtract(
 
     S_hat = fourier_shift(d_zp * D_hat * P_hat.conj(), (dx_p, dy_p))
 
-    kr = _ifftwn(
-        new.zp * psf_ref_hat_conj * b * psf_new_hat * psf_new_hat_conj / norm,
-        norm="ortho",
+    # the kernels are centred, so the variances stay on their pixels
+    kr_hat = (
+        new.zp * psf_ref_hat_conj * b * psf_new_hat * psf_new_hat_conj / norm
     )
+    kr = _ifftwn(fourier_shift(kr_hat, (dx_ref, dy_ref)), norm="ortho")
 
-    kn = _ifftwn(
-        new.zp * psf_new_hat_conj * psf_ref_hat * psf_ref_hat_conj / norm,
-        norm="ortho",
-    )
+    kn_hat = new.zp * psf_new_hat_conj * psf_ref_hat * psf_ref_hat_conj / norm
+    kn = _ifftwn(fourier_shift(kn_hat, (dx_new, dy_new)), norm="ortho")
 
     V_en = _ifftwn(
         _fftwn(new.data.filled(0) + 1.0, norm="ortho")
-- 
2.43.0


From 3acbc205cd8bd19a788c11cdafb5193c02ec97bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:41:27 +0000
Subject: [PATCH 35/51] fix: keep the score's variances positive on
 sky-subtracted images

---
 properimage/operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index a871e30..0914ec1 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -402,14 +402,18 @@ def subtract(
     kn_hat = new.zp * psf_new_hat_conj * psf_ref_hat * psf_ref_hat_conj / norm
     kn = _ifftwn(fourier_shift(kn_hat, (dx_new, dy_new)), norm="ortho")
 
+    # pixel variances: the counts, and no less than the background noise
+    n_var = np.maximum(new.data.filled(0) + 1.0, new.var**2)
+    r_var = np.maximum(ref.data.filled(0) + 1.0, ref.var**2)
+
     V_en = _ifftwn(
-        _fftwn(new.data.filled(0) + 1.0, norm="ortho")
+        _fftwn(n_var, norm="ortho")
         * _fftwn(kn**2, s=new.data.shape),
         norm="ortho",
     )
 
     V_er = _ifftwn(
-        _fftwn(ref.data.filled(0) + 1.0, norm="ortho")
+        _fftwn(r_var, norm="ortho")
         * _fftwn(kr**2, s=ref.data.shape),
         norm="ortho",
     )
-- 
2.43.0


From cdfdbfc976ceaf049a3addfcbccd9fe901110062 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 36/51] fix: subtract with measured PSFs of unit sum

---
 properimage/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 0914ec1..92c488b 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -180,8 +180,8 @@ def subtract(
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
     else:
-        p_r = psf_ref[0]
-        p_n = psf_new[0]
+        p_r = psf_ref[0] / np.sum(psf_ref[0])
+        p_n = psf_new[0] / np.sum(psf_new[0])
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From 71b13cfdd080260cd009ff95e150470e7cfb8dff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 37/51] fix: register the score with the centres of both PSFs

---
 properimage/operations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 92c488b..8deaff8 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -383,13 +383,11 @@ def subtract(
     P_hat = (psf_ref_hat * psf_new_hat * b) / (np.sqrt(norm) * d_zp)
 
     P = _ifftwn(P_hat, norm="ortho").real
-    dx_p, dy_p = center_of_mass(P)
 
-    dx_pk, dy_pk = [val[0] for val in np.where(P == np.max(P))]
-    if (np.abs(dx_p - dx_pk) > 30) or (np.abs(dy_p - dy_pk) > 30):
-        logger.info("Resetting PSF center of mass to peak")
-        dx_p = dx_pk
-        dy_p = dy_pk
+    # P carries the offsets of both PSFs, and wraps around at the edges, so
+    # its centre cannot be measured on the pixels
+    dx_p = dx_ref + dx_new
+    dy_p = dy_ref + dy_new
 
     S_hat = fourier_shift(d_zp * D_hat * P_hat.conj(), (dx_p, dy_p))
 
-- 
2.43.0


From 081a04b2a3573f517537287157ad80dcb80ce29d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 38/51] fix: count the master star number zero as matched

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index bad48bd..f0e968e 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs >= 0  # the first star may have number zero
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From a763f339a8f3513c54adba43bf8b1537bb662256 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 39/51] fix: keep the values of bad pixels out of resampled
 images

---
 properimage/operations.py |  2 +-
 properimage/utils.py      | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 8deaff8..d9eae20 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -129,7 +129,7 @@ def subtract(
 
     if align:
         registrd, registrd_mask = aa.register(
-            new.data, ref.data, propagate_mask=True
+            u._fill_masked(new), ref.data, propagate_mask=True
         )
         #  should it be new = type(new)(  ?
         new = SI(
diff --git a/properimage/utils.py b/properimage/utils.py
index f0e968e..3e9a560 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -302,6 +302,19 @@ def _align_for_diff(refpath, newpath, newmask=None):
     return dest_file
 
 
+def _fill_masked(img):
+    """Get the data of an image with its masked pixels interpolated.
+
+    Resampling mixes each pixel with its neighbours, so the values of bad
+    pixels would leave the mask.
+    """
+    data = img.data.copy()
+    bad = np.ma.getmaskarray(data)
+    if bad.any():
+        data.data[bad] = (img.interped + img.background)[bad]
+    return data
+
+
 def _align_for_coadd(imglist):
     """
     Algin a group of images for coadding with astroalign.
@@ -325,7 +338,7 @@ def _align_for_coadd(imglist):
     new_list = [ref]
     for animg in imglist[1:]:
         registrd, registrd_mask = aa.register(
-            animg.data, ref.data, propagate_mask=True
+            _fill_masked(animg), ref.data, propagate_mask=True
         )
         # [: ref.data.shape[0], : ref.data.shape[1]],  Deprecated
         new_list.append(
-- 
2.43.0


From b8a787bd64531c8f688d2d0d4f17d2fd31e3a555 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 40/51] fix: store unsigned masked images without offset

---
 properimage/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 3e9a560..0270f73 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -52,9 +52,8 @@ def store_img(img, path=None):
 
     if isinstance(img, np.ma.core.MaskedArray):
         mask = np.ma.getmaskarray(img).astype("int")
-        data = img.data
+        data = img.data.astype("float32")
         hdu_data = fits.PrimaryHDU(data)
-        hdu_data.scale(type="float32")
         hdu_mask = fits.ImageHDU(mask, uint="uint8")
         hdu_mask.header["IMG_TYPE"] = "BAD_PIXEL_MASK"
         hdu = fits.HDUList([hdu_data, hdu_mask])
-- 
2.43.0


From 0b70d39fb191b4bc2ec1259c8bfc10e4ce59851e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 41/51] fix: keep the astropy gaussian PSF symmetric and of any
 size

---
 properimage/simtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 520a787..2888282 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -78,7 +78,7 @@ def astropy_Psf(N, FWHM):
     )
     tail_len = int(7 * sigma)
     mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    i = range(max(mu_int - tail_len, 0), min(N - mu_int + tail_len, N))
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From c758c6ddeb0346ef0859a40202c4215cbea5a3bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 42/51] fix: keep the values of products of arrays of mixed
 types

---
 properimage/simtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 2888282..2953a47 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -183,7 +183,7 @@ def cartesian_product(arrays):
     broadcastable = np.ix_(*arrays)
     broadcasted = np.broadcast_arrays(*broadcastable)
     rows, cols = reduce(np.multiply, broadcasted[0].shape), len(broadcasted)
-    out = np.empty(rows * cols, dtype=broadcasted[0].dtype)
+    out = np.empty(rows * cols, dtype=np.result_type(*broadcasted))
     start, end = 0, rows
     for a in broadcasted:
         out[start:end] = a.reshape(-1)
-- 
2.43.0


From c5e5c2ee55406e3ff68d12ba83a273c8d7f67ec5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 43/51] fix: leave the caller's plot option dictionaries as
 they are

---
 properimage/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index b096c00..9298804 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -234,11 +234,11 @@ class Plot:
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
+        iso_kw = dict(iso_kw or {})
         iso_kw.setdefault("colors", "black")
         iso_kw.setdefault("alpha", 0.5)
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.85)
 
         title_tpl = r"$\sum p_{j:d} = {sum:4.3e}$"
@@ -295,7 +295,7 @@ class Plot:
                 f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.75)
         cmap_kw.setdefault("aspect", 30)
 
-- 
2.43.0


From b42fb863cec7626aeebc9a315906ea6cdd390b65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 44/51] fix: plot complex images of any precision or masked
 corner

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 9298804..1060162 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -128,7 +128,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
-- 
2.43.0


From e6d023fe8c8119decff5fefa4ced5d0fa914e0b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 45/51] fix: return the axes drawn by plot_S and plot_R

---
 properimage/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 1060162..9f0cf10 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -101,6 +101,7 @@ def plot_S(S, path=None, nbook=False):
         interpolation="none",
         cmap="viridis",
     )
+    ax = plt.gca()
     plt.tight_layout()
     plt.colorbar()
     if path is not None:
@@ -109,7 +110,7 @@ def plot_S(S, path=None, nbook=False):
         plt.show()
     if not nbook:
         plt.close()
-    return plt.gca()
+    return ax
 
 
 def plot_R(R, path=None, nbook=False):
@@ -133,6 +134,7 @@ def plot_R(R, path=None, nbook=False):
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
     plt.imshow(np.log10(R), interpolation="none", cmap="viridis")
+    ax = plt.gca()
     plt.tight_layout()
     plt.colorbar()
     if path is not None:
@@ -141,7 +143,7 @@ def plot_R(R, path=None, nbook=False):
         plt.show()
     if not nbook:
         plt.close()
-    return
+    return ax
 
 
 # =============================================================================
-- 
2.43.0


From 6ec3c831a8295da9024473a0cd59dd6ac0af9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 46/51] fix: keep the scratch data of forked processes apart

---
 properimage/single_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f88abcf..47e2d4a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -141,7 +141,9 @@ class SingleImage(object):
         self.stamp_shape = stamp_shape
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
-        self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        self.dbname = str(
+            TEMP_PATH / f"{os.getpid()}_{id(self)}_SingleImage"
+        )
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From 5e03c52033d9769518738c64d4f8155e3de35a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 47/51] fix: remove the scratch data of the images made while
 operating

---
 properimage/operations.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index d9eae20..e91abfd 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -109,6 +109,7 @@ def subtract(
     else:
         from .single_image import SingleImage as SI
 
+    given = (ref, new)
     if not isinstance(ref, SI):
         try:
             ref = SI(ref, smooth_psf=smooth_psf)
@@ -427,6 +428,11 @@ def subtract(
         "Subtraction performed in {} seconds\n\n".format(time.time() - t0)
     )
 
+    # the images made here are gone: so should be their scratch files
+    for given_img, img in zip(given, (ref, new)):
+        if img is not given_img:
+            img._clean()
+
     return D, P, S_corr.real, mix_mask
 
 
@@ -488,8 +494,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
+    given = si_list
     si_list = [
-        animg if isinstance(animg, si) else si(animg) for animg in si_list
+        animg if isinstance(animg, si) else si(animg) for animg in given
     ]
 
     if align:
@@ -581,6 +588,11 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         P_r = P_r / np.sum(P_r)
         R = _ifftwn(S_hat / P_r_hat)
 
+    # the images made here are gone: so should be their scratch files
+    for an_img in img_list:
+        if not any(an_img is given_img for given_img in given):
+            an_img._clean()
+
     logger.info("Coadd operation completed successfully")
     return R, P_r, mix_mask
 
-- 
2.43.0


From c5306e28c22cff74497600bb3796b2191f711e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 48/51] fix: update the sources of an image that was not asked
 for them yet

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 47e2d4a..e112393 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -714,7 +714,8 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        if hasattr(self, "_best_sources"):
+            del self._best_sources
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From 9b71d4ea407b4738cf1bd6c90feb1da5c6fedc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 49/51] fix: fit shifts on frames smaller than twice the
 excluded border

---
 properimage/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index e91abfd..ec44509 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -209,6 +209,8 @@ def subtract(
     gamma = new_back - ref_back
     b = n_zp / r_zp
     norm = np.sqrt(norm_a + norm_b * b**2)
+    # pixels to leave out of the shift fits: most of the frame must remain
+    border = min(OPT_BORDER, min(ref.data.shape) // 8)
     if beta:
         if shift:  # beta==True & shift==True
 
@@ -224,7 +226,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[border:-border, border:-border]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
 
                 return chi
@@ -334,7 +336,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[border:-border, border:-border]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
                 return chi
 
-- 
2.43.0


From 7649df2fc6fb67d350b77d423d2bf4f18258175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 50/51] fix: a stamp shape given after the PSF was determined
 broke later requests

---
 properimage/single_image.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index e112393..7e76a44 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -728,15 +728,10 @@ class SingleImage(object):
     @property
     def stamps_pos(self):
         """Get star stamp positions propery value."""
-        _cond = (
-            hasattr(self, "_shape")
-            and self._shape != self.stamp_shape
-            and self._shape is not None
-        )
-
-        if not hasattr(self, "_stamps_pos") or _cond:
-            if _cond:
+        if not hasattr(self, "_stamps_pos"):
+            if getattr(self, "_shape", None) is not None:
                 self.stamp_shape = self._shape
+                self._shape = None
             self.db = npdb.NumPyDB(self.dbname, mode="store")
             pos = []
             jj = 0
@@ -1157,7 +1152,8 @@ class SingleImage(object):
         arguments to return numpy array fields (for example a_fields[0](x, y)).
         These can be generated using `get_afield_domain`.
         """
-        if shape is not None:
+        if shape is not None and not hasattr(self, "_stamps_pos"):
+            # once the stamps are extracted their shape is settled
             self._shape = shape
 
         updating = (inf_loss is not None) and (self.inf_loss != inf_loss)
-- 
2.43.0


From d858a70bdcf65eaa981965925bc2f24575f383fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 51/51] fix: the PSF at positions close to the image border
 could not be evaluated

---
 properimage/single_image.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7e76a44..fcd1369 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1413,11 +1413,18 @@ class SingleImage(object):
             xmax = xp + delta_x + 1
             ymin = yp - delta_y
             ymax = yp + delta_y + 1
+            # near the borders the stamp sticks out of the image, where the
+            # norm is taken from the closest pixel
+            nx, ny = self.normal_image.shape
+            norm = self.normal_image[
+                np.ix_(
+                    np.clip(np.arange(xmin, xmax), 0, nx - 1),
+                    np.clip(np.arange(ymin, ymax), 0, ny - 1),
+                )
+            ]
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
-                    apsf
-                    * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
+                    apsf * afield(*np.mgrid[xmin:xmax, ymin:ymax]) / norm
                 )
 
             return psf_at_xy / np.sum(psf_at_xy)
-- 
2.43.0

