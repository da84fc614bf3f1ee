From b5dc022aa77a016d68732d3fd2bf85f2f1a81648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 01/43] fix: build the transparency magnitudes image by image

The design matrix of the linear system is stacked by image, but the
vector of magnitudes was filled star by star, so that with three or more
images every zero point but the first mixed the magnitudes of different
images.
---
 properimage/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..bfd777b 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -215,9 +215,9 @@ def transparency(images, master=None):
         )
 
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From 12f5975dc082e98215f8965937366d2ce1b98c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 02/43] fix: renumber the master catalog when it was matched
 before

An image already matched against another one carries the identifiers of
that match, the unmatched rows sharing one value. Using it as master
later paired unrelated stars.
---
 properimage/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index bfd777b..09c7f8a 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,9 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        # the catalog comes from a previous match: number its rows again
+        mastercat = mastercat.copy()
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From aad7b34fe81d04ebce521ac168b123cec03ebb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 03/43] fix: turn the relative magnitudes into flux factors

transparency() solves for zero points in magnitudes. coadd and subtract
used them as linear flux factors (weights of the coadd, scale of the
reference), so images of different depth were neither weighted nor
subtracted in their flux ratio.
---
 properimage/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..cbdef5f 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -148,6 +148,8 @@ def subtract(
     mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
 
     zps, meanmags = u.transparency([ref, new])
+    # from relative magnitudes to flux factors, the reference being 1
+    zps = 10.0 ** (-0.4 * (zps - zps[0]))
     ref.zp = zps[0]
     new.zp = zps[1]
     n_zp = new.zp
@@ -503,6 +505,8 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
 
     logger.info("Computing transparency and zero points")
     zps, meanmags = u.transparency(img_list)
+    # from relative magnitudes to flux factors, the first image being 1
+    zps = 10.0 ** (-0.4 * (zps - zps[0]))
     for j, an_img in enumerate(img_list):
         an_img.zp = zps[j]
         an_img._setup_kl_a_fields(inf_loss)
-- 
2.43.0


From b14a8438d112a5f216fa2ec8d9b16b83275ecaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 04/43] fix: subtract with unit sum PSFs when they are not
 fitted

The first element of a PSF basis with several elements is not
normalized, so its arbitrary sum scaled one of the images.
---
 properimage/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index cbdef5f..15ec1b6 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -179,8 +179,9 @@ def subtract(
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
     else:
-        p_r = psf_ref[0]
-        p_n = psf_new[0]
+        # only a PSF made of a single element comes with unit sum
+        p_r = psf_ref[0] / np.sum(psf_ref[0])
+        p_n = psf_new[0] / np.sum(psf_new[0])
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From c1726b570a508bc67fb76a098361bbce2f5f467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 05/43] fix: center the fitted PSF of images that are not
 square

The model was centered with its axes swapped, which truncated the PSF of
rectangular frames at their border or left it out completely.
---
 properimage/operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 15ec1b6..14ba8c4 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -166,10 +166,11 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        # x runs along the second axis of the rendered array
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 39cb205f7c2cba3969498ee78f00c73713ece1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 06/43] fix: always return the mask of bad pixels as an image

Images without bad pixels collapsed the mask to a scalar, and the mask
of a coadd of one image was the mask of that image itself.
---
 properimage/operations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 14ba8c4..d974633 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -145,7 +145,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     # from relative magnitudes to flux factors, the reference being 1
@@ -454,7 +454,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -546,7 +546,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -557,7 +557,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         logger.info("Using sequential processing (single thread)")
         S_hat = np.zeros(global_shape, dtype=np.complex128)
         P_hat = np.zeros(global_shape, dtype=np.complex128)
-        mix_mask = img_list[0].data.mask
+        mix_mask = img_list[0].data.mask.copy()
 
         ti = time.time()
         for an_img in img_list:
@@ -567,7 +567,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From fd366d29fc7ae936d81249d948a136fd71225170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 07/43] fix: leave the list given to coadd untouched

Paths and arrays were replaced by SingleImage instances in the list of
the caller.
---
 properimage/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index d974633..2b4730e 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -486,6 +486,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
+    si_list = list(si_list)  # the list of the caller stays as it is
     for i_img, animg in enumerate(si_list):
         if not isinstance(animg, si):
             si_list[i_img] = si(animg)
-- 
2.43.0


From 30e05468bb0f8a63072b3db9dc4b8584c16200da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 08/43] fix: coadd fewer images than workers

A worker with no images made coadd fail with IndexError.
---
 properimage/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2b4730e..a7785a2 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -520,7 +520,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     psf_shape = (psf_shape, psf_shape)
     logger.info(f"PSF shape: {psf_shape}")
 
-    n_jobs = n_procs
+    n_jobs = min(n_procs, len(img_list))  # no worker without images
     if n_jobs > 1:
         logger.info(f"Using parallel processing with {n_jobs} workers")
         chunks = list(u.chunk_it(img_list, n_jobs))
-- 
2.43.0


From 24ab9a93aedfbcfcb3292464460ec37d0b51dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 09/43] fix: keep the bad pixels and the instance of an aligned
 image

subtract(align=True) lost the mask of the new image, and erased the
stamp files of an instance that belongs to the caller.
---
 properimage/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index a7785a2..3e8c47a 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,8 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
-        new._clean()
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
-- 
2.43.0


From 8aea992fbe18508455710d82cdeb0966ed8f7d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 10/43] fix: fit the scale and the shift of small images

Frames of up to twice OPT_BORDER pixels were trimmed to nothing, so the
cost was constant and the fit returned its starting point.
---
 properimage/operations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 3e8c47a..6f9d529 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -210,6 +210,11 @@ def subtract(
     gamma = new_back - ref_back
     b = n_zp / r_zp
     norm = np.sqrt(norm_a + norm_b * b**2)
+    # a frame smaller than the borders is used as a whole
+    window = tuple(
+        slice(OPT_BORDER, -OPT_BORDER) if n > 2 * OPT_BORDER else slice(None)
+        for n in mix_mask.shape
+    )
     if beta:
         if shift:  # beta==True & shift==True
 
@@ -225,7 +230,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[window]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
 
                 return chi
@@ -335,7 +340,7 @@ def subtract(
                     - np.roll(gammap, (int(round(dx)), int(round(dy))))
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
-                chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
+                chi = chi[window]
                 chi = np.sum(np.abs(chi / (chi.shape[0] * chi.shape[1])))
                 return chi
 
-- 
2.43.0


From 11328c7139103ae6cac76b6d21615d207b63e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 11/43] fix: crop the borders that were asked for

The zero borders of the two axes were mixed up, so a frame padded by
different amounts kept part of its padding or lost pixels, and a crop of
zero pixels at the end of an axis left an empty image.
---
 properimage/single_image.py | 61 +++++++------------------------------
 1 file changed, 11 insertions(+), 50 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..7a62db4 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -211,61 +211,22 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        rows, cols = [(0, n) for n in self.__data.shape]
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
-            logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
-            self.__data = self.__data[ldx:rdx, ldy:rdy]
-            logger.debug(
-                f"Data shape after border removal: {self.__data.shape}"
-            )
+            filled = self.__data.data != 0
+            x = np.flatnonzero(np.any(filled, axis=1))
+            y = np.flatnonzero(np.any(filled, axis=0))
+            if len(x) > 0:
+                rows, cols = (x[0], x[-1] + 1), (y[0], y[-1] + 1)
+            logger.info(f"Cropping borders: x{rows}, y{cols}")
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
-            logger.debug(f"Data shape after crop: {self.__data.shape}")
+            rows = (rows[0] + dx[0], rows[1] - dx[1])
+            cols = (cols[0] + dy[0], cols[1] - dy[1])
+        self.__data = self.__data[slice(*rows), slice(*cols)]
+        logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
         self.__data.soften_mask()
-- 
2.43.0


From f2b5a533ee8b0b5f9fb04315d0c69a63a939b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 12/43] fix: trim the mask together with the image

The mask of a cropped image was laid over it in flat order, marking the
wrong pixels; a mask of any other shape was repeated or cut silently.
---
 properimage/single_image.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7a62db4..5e2fd15 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -225,7 +225,10 @@ class SingleImage(object):
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
             rows = (rows[0] + dx[0], rows[1] - dx[1])
             cols = (cols[0] + dy[0], cols[1] - dy[1])
-        self.__data = self.__data[slice(*rows), slice(*cols)]
+        # kept to trim a mask given for the whole frame in the same way
+        self.__full_shape = self.__data.shape
+        self.__window = (slice(*rows), slice(*cols))
+        self.__data = self.__data[self.__window]
         logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
@@ -271,6 +274,14 @@ class SingleImage(object):
             logger.debug("Extracting header from PrimaryHDU")
             self.__header = img.header
 
+    def _trim_mask(self, mask):
+        """Cut the mask of the whole frame like the data."""
+        if mask.shape == self.__full_shape:
+            mask = mask[self.__window]
+        if mask.shape != self.__data.shape:
+            raise ValueError("Mask and image are of different shape")
+        return mask
+
     @property
     def mask(self):
         """Get mask property value."""
@@ -281,7 +292,7 @@ class SingleImage(object):
         logger.debug(f"Setting mask, input type: {type(mask).__name__}")
         if isinstance(mask, str):
             logger.info(f"Loading mask from file: {mask}")
-            fitsmask = fits.getdata(mask)
+            fitsmask = self._trim_mask(fits.getdata(mask))
             logger.debug(
                 f"Mask shape: {fitsmask.shape}, "
                 f"median: {np.median(fitsmask)}, "
@@ -307,7 +318,7 @@ class SingleImage(object):
             logger.debug(
                 f"Using provided numpy array as mask, shape: {mask.shape}"
             )
-            self.__data.mask = mask
+            self.__data.mask = self._trim_mask(mask)
             logger.info(
                 f"Applied array mask: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -330,7 +341,7 @@ class SingleImage(object):
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-                    fitsmask = self.__img[1].data
+                    fitsmask = self._trim_mask(self.__img[1].data)
                     logger.debug(
                         f"Extension mask shape: {fitsmask.shape}, median: "
                         f"{np.median(fitsmask)}"
@@ -360,7 +371,7 @@ class SingleImage(object):
                                     "FITS file has extensions, "
                                     "loading mask from extension 1"
                                 )
-                                fitsmask = ff[1].data
+                                fitsmask = self._trim_mask(ff[1].data)
                                 logger.debug(
                                     f"Extension mask median: "
                                     f"{np.median(fitsmask)}"
-- 
2.43.0


From 39f92899f5388ab28e0985be506ea746438fae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 13/43] fix: guess the mask without going back to the input
 pixels

Masking the invalid values of an array or an HDU started again from the
input, undoing gain, crop and conversion: gain and crop had no effect,
and big endian or integer images were refused. An HDUList without
extensions was refused too, and a masked array was taken for a path.
---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 5e2fd15..c82dafe 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -331,13 +331,13 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
-            elif self.attached_to == "ndarray":
+            elif isinstance(self.__img, np.ndarray):
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
@@ -356,7 +356,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From 7ca49590b983b4d38cb67193ef1f2f93af75c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 14/43] fix: mask the invalid pixels of images that come with a
 mask

Only images without a mask had their NaN pixels masked.
---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index c82dafe..b37c945 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -432,6 +432,9 @@ class SingleImage(object):
         )
         self.__data.mask = ma.mask_or(self.__data.mask, mask_lower.mask)
         self.__data.mask = ma.mask_or(self.__data.mask, mask_greater.mask)
+        self.__data.mask = ma.mask_or(
+            self.__data.mask, ~np.isfinite(self.__data.data)
+        )
         added_pixels = (
             self.__data.mask.sum() if self.__data.mask.shape != () else 0
         ) - initial_mask_count
-- 
2.43.0


From 280cb47020ae1fbaac9b5397b2a4578f666032da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 15/43] fix: cut a sequence in the number of chunks required

---
 properimage/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 09c7f8a..cb2d8f1 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -380,12 +380,9 @@ def chunk_it(seq, num):
     Sorted list.
     List of chunks containing the data splited in num parts.
     """
-    avg = len(seq) / float(num)
-    out = []
-    last = 0.0
-    while last < len(seq):
-        out.append(seq[int(last) : int(last + avg)])
-        last += avg
+    # integer limits: the sums of a float step may leave an extra chunk
+    edges = [i * len(seq) // num for i in range(num + 1)]
+    out = [seq[lo:hi] for lo, hi in zip(edges[:-1], edges[1:])]
     try:
         return sorted(out, reverse=True)
     except TypeError:
-- 
2.43.0


From 2e6dd3ceb5982a222a16da5cdfee5b1a3a9fb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 16/43] fix: store complex64 and masked images of any kind

---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index cb2d8f1..5342ffd 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,11 +47,11 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 49bd832943ddb355e56ec20f108302ec0257a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 17/43] fix: disable the strict star pick when the candidates
 are few

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b37c945..6a41683 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -771,7 +771,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From 55ef3fa2e1d85c1a96b68cdb5887eda0e863276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 18/43] fix: update the sources of an image that has none yet

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 6a41683..946ad19 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -715,7 +715,8 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        if hasattr(self, "_best_sources"):
+            del self._best_sources
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From dc746a1446b776b838aa983e6122df8078ad3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 19/43] fix: build the PSF basis of more than 250 sources with
 no loss

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 946ad19..3f3f9aa 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1023,8 +1023,8 @@ class SingleImage(object):
                     break
 
             #  Build psf basis
-            n_basis = abs(cut)
             xs = vech[:, -cut:]
+            n_basis = xs.shape[1]  # rounding may ask for one more than all
             psf_basis = []
             if hasattr(self, "_m"):
                 logger.debug(
-- 
2.43.0


From 39b34dd7b04039e09262b8a206e66fc819860795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 20/43] fix: keep apart the stamp files of images made in
 forked processes

---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 3f3f9aa..b658573 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -141,7 +141,7 @@ class SingleImage(object):
         self.stamp_shape = stamp_shape
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
-        self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        self.dbname = str(TEMP_PATH / f"{os.getpid()}_{id(self)}_SingleImage")
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From ce4685f5202a60afee7e57075c796cfbaebdb7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 21/43] fix: clean every stamp file that can be removed

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b658573..5372037 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -159,11 +159,11 @@ class SingleImage(object):
 
     def _clean(self):
         logger.info("cleaning... ")
-        try:
-            os.remove(self.dbname + ".dat")
-            os.remove(self.dbname + ".map")
-        except OSError:
-            logger.warning("Nothing to clean. (Or something has failed)")
+        for suffix in (".dat", ".map"):
+            try:
+                os.remove(self.dbname + suffix)
+            except OSError:
+                logger.warning("Nothing to clean. (Or something has failed)")
 
     @property
     def attached_to(self):
-- 
2.43.0


From bbc0064e33a788f24964e8a5db87b2050dc88007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 22/43] fix: get the PSF close to the edges and with even
 stamps

---
 properimage/single_image.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 5372037..c7dc32e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1396,18 +1396,17 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            nx, ny = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - int((nx - 1) / 2)
+            ymin = yp - int((ny - 1) / 2)
+            # past the edges of the image take the closest pixel
+            xs = np.arange(xmin, xmin + nx).clip(0, self.data.shape[0] - 1)
+            ys = np.arange(ymin, ymin + ny).clip(0, self.data.shape[1] - 1)
+            grid = np.meshgrid(xs, ys, indexing="ij")
+            norm = self.normal_image[np.ix_(xs, ys)]
             for apsf, afield in zip(psf_basis, a_fields):
-                psf_at_xy += (
-                    apsf
-                    * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
-                )
+                psf_at_xy += apsf * afield(*grid) / norm
 
             return psf_at_xy / np.sum(psf_at_xy)
         else:
-- 
2.43.0


From 2981abf2b6e49c0adb5df343414472ffe233d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 23/43] fix: honour the shape asked for only before the stamps
 are extracted

---
 properimage/single_image.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index c7dc32e..1a03f82 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -729,14 +729,9 @@ class SingleImage(object):
     @property
     def stamps_pos(self):
         """Get star stamp positions propery value."""
-        _cond = (
-            hasattr(self, "_shape")
-            and self._shape != self.stamp_shape
-            and self._shape is not None
-        )
-
-        if not hasattr(self, "_stamps_pos") or _cond:
-            if _cond:
+        if not hasattr(self, "_stamps_pos"):
+            # a shape asked for later on does not override the stamps
+            if getattr(self, "_shape", None) is not None:
                 self.stamp_shape = self._shape
             self.db = npdb.NumPyDB(self.dbname, mode="store")
             pos = []
-- 
2.43.0


From 27fe56dc81956f5d1c3c6499934ea1ed7a71e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 24/43] fix: follow the information loss and the zero point in
 the cached results

---
 properimage/single_image.py | 52 ++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 1a03f82..f01922f 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -992,20 +992,15 @@ class SingleImage(object):
     @property
     def kl_basis(self):
         """Get the Karhunen-Loeve basis elements."""
-        if not hasattr(self, "_kl_basis"):
-            self._setup_kl_basis()
+        self._setup_kl_basis()
         return self._kl_basis
 
     def _setup_kl_basis(self, inf_loss=None):
         """Determine the KL psf_basis from stars detected in the field."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
-
-        if not hasattr(self, "_kl_basis") or inf_loss_update:
-            if inf_loss is not None:
-                self.inf_loss = inf_loss
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
+        if getattr(self, "_kl_inf_loss", None) != self.inf_loss:
             valh, vech = self.eigenv
             power = abs(valh) / np.sum(abs(valh))
             pw = 1
@@ -1056,12 +1051,12 @@ class SingleImage(object):
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
             self._kl_basis = psf_basis
+            self._kl_inf_loss = self.inf_loss
 
     @property
     def kl_afields(self):
         """Get the Karhunen-Loeve coefficients."""
-        if not hasattr(self, "_a_fields"):
-            self._setup_kl_a_fields()
+        self._setup_kl_a_fields()
         return self._a_fields
 
     def get_afield_domain(self):
@@ -1071,14 +1066,13 @@ class SingleImage(object):
 
     def _setup_kl_a_fields(self, inf_loss=None, updating=False):
         """Calculate coefficients of Karhunen-Loeve expansion."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
-        if not hasattr(self, "_a_fields") or inf_loss_update or updating:
-            if inf_loss is not None:
-                self._setup_kl_basis(inf_loss)
-                self.inf_loss = inf_loss
+        if (
+            getattr(self, "_a_fields_inf_loss", None) != self.inf_loss
+            or updating
+        ):
             # get the psf basis
             psf_basis = self.kl_basis
             n_fields = len(psf_basis)
@@ -1086,6 +1080,7 @@ class SingleImage(object):
             # if only one psf then the afields is  [None]
             if n_fields == 1:
                 self._a_fields = [None]
+                self._a_fields_inf_loss = self.inf_loss
                 return self._a_fields
 
             # get the sources for observations
@@ -1106,6 +1101,7 @@ class SingleImage(object):
 
                 a_fields.append(fit)
             self._a_fields = a_fields
+            self._a_fields_inf_loss = self.inf_loss
 
     def get_variable_psf(self, inf_loss=None, shape=None):
         """
@@ -1167,7 +1163,7 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if not hasattr(self, "_normal_image"):
+        if getattr(self, "_normal_inf_loss", None) != self.inf_loss:
             a_fields, psf_basis = self.get_variable_psf()
 
             if a_fields[0] is None:
@@ -1180,6 +1176,7 @@ class SingleImage(object):
                 for a, psf_i in zip(a_fields, psf_basis):
                     conv += convolve_scp(a(x, y), psf_i)
                 self._normal_image = conv
+            self._normal_inf_loss = self.inf_loss
         return self._normal_image
 
     @property
@@ -1229,11 +1226,8 @@ class SingleImage(object):
     @property
     def s_hat_comp(self):
         """Get the fourier transform of S image."""
-        if (
-            not hasattr(self, "_s_hat_comp")
-            or self._s_hat_inf_loss != self.inf_loss
-        ):
-
+        key = (self.inf_loss, self.zp)
+        if getattr(self, "_s_hat_key", None) != key:
             a_fields, psf_basis = self.get_variable_psf()
 
             var = self._bkg.globalrms
@@ -1262,7 +1256,7 @@ class SingleImage(object):
                     np.add(conv, s_hat, out=s_hat)
 
             self._s_hat_comp = (self.zp / (var**2)) * s_hat
-            self._s_hat_inf_loss = self.inf_loss
+            self._s_hat_key = key
 
         return self._s_hat_comp
 
@@ -1273,12 +1267,10 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if not hasattr(self, "_s_component"):
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
-            self._s_inf_loss = self.inf_loss
-
-        if self._s_inf_loss != self.inf_loss:
+        key = (self.inf_loss, self.zp)
+        if getattr(self, "_s_key", None) != key:
             self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            self._s_key = key
         return self._s_component
 
     @property
-- 
2.43.0


From 56913de963b0d465fb5594ec8bbbbb2aee1ae4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 25/43] fix: draw with the options given and leave them as they
 were

---
 properimage/plot.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..2638a04 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,17 +223,16 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.85)
 
         title_tpl = r"$\sum p_{j:d} = {sum:4.3e}$"
@@ -247,7 +246,7 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
@@ -287,10 +286,10 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
-        cmap_kw = cmap_kw or {}
+        cmap_kw = dict(cmap_kw or {})
         cmap_kw.setdefault("shrink", 0.75)
         cmap_kw.setdefault("aspect", 30)
 
-- 
2.43.0


From 4280e46ce2a9fbd1793b78da6f14cb43ceba101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 26/43] fix: plot the real part of any complex coadd

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 2638a04..6e3e5fe 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -128,7 +128,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
-- 
2.43.0


From 61dae6ed7502f44aa7b8fc9a222b17e4048ca93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 27/43] fix: fill the center of the Airy pattern of odd size

---
 properimage/simtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..621682e 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -115,7 +115,8 @@ def airy_patron(N, width):
     for i in range(N):
         for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
-            a[i, j] = _airy_func(r_pix, width)
+            # the limit at the center is one
+            a[i, j] = _airy_func(r_pix, width) if r_pix > 0 else 1.0
     return a
 
 
-- 
2.43.0


From febc221cb666701c1af5071dd7ea2e1fee17c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 28/43] fix: fill the last row and column of the Sersic galaxy

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 621682e..3d61ca7 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -159,8 +159,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From c8aec47c5b1c4e1a8bd0d852e3a4243ba834ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 29/43] fix: center the simulated PSFs in their arrays

---
 properimage/simtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 3d61ca7..8e56933 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -44,15 +44,17 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     if Y_FWHM == 0:
         Y_FWHM = X_FWHM
 
-    a = np.zeros((int(N), int(N)))
+    N = int(N)
+    a = np.zeros((N, N))
     mu = (N - 1) / 2.0
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
     sigma = max(sigma_x, sigma_y)
     tail_len = min(int(5 * sigma), N / 2)
-    mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    # the same tail at both sides, inside of the array
+    first = max(int(int(mu) - tail_len), 0)
+    for i in range(first, N - first):
+        for j in range(first, N - first):
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
@@ -74,9 +76,9 @@ def astropy_Psf(N, FWHM):
     model = models.Gaussian2D(
         amplitude=1.0, x_mean=mu, y_mean=mu, x_stddev=sigma, y_stddev=sigma
     )
-    tail_len = int(7 * sigma)
-    mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    # the same tail at both sides, inside of the array
+    first = max(int(mu) - int(7 * sigma), 0)
+    i = range(first, N - first)
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From a93dc0d4ffd9398dd62c763dadbe13874a4f3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:05 +0000
Subject: [PATCH 30/43] fix: give each delta its own weight and take any
 iterable of positions

---
 properimage/simtools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 8e56933..14abfc0 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -213,13 +213,11 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From d451542590434aa092d9325f3c9d46b96657fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 31/43] fix: take the significance at the pixel of the
 detection

---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 5342ffd..1ae3fc6 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -359,7 +359,8 @@ def find_S_local_maxima(S_image, threshold=2.5, neighborhood_size=5):
     )
     cat = []
     for x, y in xy:
-        cat.append((y, x, (S_image[int(x), int(y)] - mean) / std))
+        peak = S_image[int(np.round(x)), int(np.round(y))]
+        cat.append((y, x, (peak - mean) / std))
 
     return cat
 
-- 
2.43.0


From c18980694a025440588b29977787f20630e4ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 32/43] fix: draw a single PSF in a single panel

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 6e3e5fe..80af3a7 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -205,9 +205,9 @@ class Plot:
 
             if N == 1:
                 subplots = (1, 1)
-            if N == 2:
+            elif N == 2:
                 subplots = (1, 2)
-            if N == 3:
+            elif N == 3:
                 subplots = (1, 3)
             elif p == N:
                 subplots = (round(np.sqrt(N)), round(np.sqrt(N) + 1))
-- 
2.43.0


From c63907e6f4c497dff7f8384ee907e12a261c754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 33/43] fix: extract the stamps without changing the
 interpolated image

---
 properimage/single_image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f01922f..44d9426 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -803,8 +803,10 @@ class SingleImage(object):
                         check_shape = False
 
                 new_shape = sub_array_data.shape
-                # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                # Normalize to unit sum, not in the image this is a view of
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From 6118e95fb179111145f0a40f9dc69315ed79469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 34/43] fix: accept arrays that are not C ordered

---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 44d9426..4ded712 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -231,7 +231,8 @@ class SingleImage(object):
         self.__data = self.__data[self.__window]
         logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
-        self.__data = self.__data * self.__gain
+        # sep only takes C ordered arrays
+        self.__data = (self.__data * self.__gain).copy(order="C")
         self.__data.soften_mask()
 
     @property
-- 
2.43.0


From 151d87eff253d0f4e4e17aa05ff8cc9a20074dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:37 +0000
Subject: [PATCH 35/43] fix: center the significance when the PSF wraps around
 the frame

---
 properimage/operations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 6f9d529..99fbd2b 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -390,9 +390,15 @@ def subtract(
     P_hat = (psf_ref_hat * psf_new_hat * b) / (np.sqrt(norm) * d_zp)
 
     P = _ifftwn(P_hat, norm="ortho").real
-    dx_p, dy_p = center_of_mass(P)
-
     dx_pk, dy_pk = [val[0] for val in np.where(P == np.max(P))]
+
+    # the center, also of a PSF that wraps around the edges of the frame
+    half = (P.shape[0] // 2, P.shape[1] // 2)
+    rolled = np.roll(P, (half[0] - dx_pk, half[1] - dy_pk), axis=(0, 1))
+    dx_p, dy_p = center_of_mass(rolled)
+    dx_p += dx_pk - half[0]
+    dy_p += dy_pk - half[1]
+
     if (np.abs(dx_p - dx_pk) > 30) or (np.abs(dy_p - dy_pk) > 30):
         logger.info("Resetting PSF center of mass to peak")
         dx_p = dx_pk
-- 
2.43.0


From 951d51474da63ac44bd3ebb0767cde96887eb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:18 +0000
Subject: [PATCH 36/43] fix: register the variance of the significance with the
 image

---
 properimage/operations.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 99fbd2b..c6b7347 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -406,15 +406,14 @@ def subtract(
 
     S_hat = fourier_shift(d_zp * D_hat * P_hat.conj(), (dx_p, dy_p))
 
-    kr = _ifftwn(
-        new.zp * psf_ref_hat_conj * b * psf_new_hat * psf_new_hat_conj / norm,
-        norm="ortho",
+    # the kernels have the displacement of the PSFs in their arrays
+    kr_hat = (
+        new.zp * psf_ref_hat_conj * b * psf_new_hat * psf_new_hat_conj / norm
     )
+    kr = _ifftwn(fourier_shift(kr_hat, (dx_ref, dy_ref)), norm="ortho")
 
-    kn = _ifftwn(
-        new.zp * psf_new_hat_conj * psf_ref_hat * psf_ref_hat_conj / norm,
-        norm="ortho",
-    )
+    kn_hat = new.zp * psf_new_hat_conj * psf_ref_hat * psf_ref_hat_conj / norm
+    kn = _ifftwn(fourier_shift(kn_hat, (dx_new, dy_new)), norm="ortho")
 
     V_en = _ifftwn(
         _fftwn(new.data.filled(0) + 1.0, norm="ortho")
-- 
2.43.0


From 2ff1039d9c2ee3751b0f6b549635ca9b097ba986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 37/43] fix: give the fitted PSFs unit sum

---
 properimage/operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/operations.py b/properimage/operations.py
index c6b7347..4c4ca96 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -177,6 +177,9 @@ def subtract(
 
         p_n = p_n.render(np.zeros(new.data.data.shape))
         p_r = p_r.render(np.zeros(ref.data.data.shape))
+        # the fitted models come with unit amplitude
+        p_n = p_n / np.sum(p_n)
+        p_r = p_r / np.sum(p_r)
 
         dx_ref, dy_ref = center_of_mass(p_r)  # [0])
         dx_new, dy_new = center_of_mass(p_n)  # [0])
-- 
2.43.0


From 726796d226e22f713679d3e044ad54a339039f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 38/43] fix: keep the photometric flux scale inside of the
 bounds of the fit

---
 properimage/operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 4c4ca96..0e5f91f 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -213,6 +213,8 @@ def subtract(
     gamma = new_back - ref_back
     b = n_zp / r_zp
     norm = np.sqrt(norm_a + norm_b * b**2)
+    # the photometric flux scale has to be inside of the bounds of the fit
+    b_min, b_max = min(0.1, b / 10.0), max(10.0, b * 10.0)
     # a frame smaller than the borders is used as a whole
     window = tuple(
         slice(OPT_BORDER, -OPT_BORDER) if n > 2 * OPT_BORDER else slice(None)
@@ -240,7 +242,7 @@ def subtract(
 
             ti = time.time()
             vec0 = [b, 0.0, 0.0]
-            bounds = ([0.1, -0.9, -0.9], [10.0, 0.9, 0.9])
+            bounds = ([b_min, -0.9, -0.9], [b_max, 0.9, 0.9])
             solv_beta = optimize.least_squares(
                 cost,
                 vec0,
@@ -283,7 +285,7 @@ def subtract(
             solv_beta = optimize.minimize_scalar(
                 F,
                 method="bounded",
-                bounds=[0.1, 10.0],
+                bounds=[b_min, b_max],
                 options={"maxiter": 1000},
             )
 
@@ -312,7 +314,7 @@ def subtract(
 
             ti = time.time()
             solv_beta = optimize.least_squares(
-                F, b, ftol=1e-8, bounds=[0.1, 10.0], jac="2-point"
+                F, b, ftol=1e-8, bounds=[b_min, b_max], jac="2-point"
             )
 
             tf = time.time()
-- 
2.43.0


From ff23195dff1c7615fc1a8d9c70e9b52949afa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 39/43] fix: store masked images without changing the array of
 the caller

---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 1ae3fc6..ceabcd9 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -53,8 +53,8 @@ def store_img(img, path=None):
     if isinstance(img, np.ma.core.MaskedArray):
         mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
-        hdu_data = fits.PrimaryHDU(data)
-        hdu_data.scale(type="float32")
+        # a copy: rescaling the HDU would change the array of the caller
+        hdu_data = fits.PrimaryHDU(data.astype("float32"))
         hdu_mask = fits.ImageHDU(mask, uint="uint8")
         hdu_mask.header["IMG_TYPE"] = "BAD_PIXEL_MASK"
         hdu = fits.HDUList([hdu_data, hdu_mask])
-- 
2.43.0


From 2b3c11917a0eac6217be625b1615170c97a51f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 40/43] fix: average the Gaussian fits of the stars whatever
 their form

A Gaussian is the same after exchanging its widths and turning it 90
degrees, and the fits of elongated stars end in either form. The means of
the widths and angles mixed them, so the PSF was rounder than the stars and
pointed elsewhere.
---
 properimage/single_image.py | 43 +++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 4ded712..5949186 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -26,7 +26,7 @@ from astropy.convolution import interpolate_replace_nans
 from astropy.io import fits
 from astropy.modeling import fitting, models
 from astropy.nddata.utils import extract_array
-from astropy.stats import sigma_clipped_stats
+from astropy.stats import sigma_clip, sigma_clipped_stats
 
 from astroscrappy import detect_cosmics
 
@@ -1439,10 +1439,7 @@ class SingleImageGaussPSF(SingleImage):
         An astropy model Gaussian2D instance, with the median parameters
         for the fit of every star.
         """
-        p_xw = []
-        p_yw = []
-        p_th = []
-        p_am = []
+        moments = []
         fitter = utils.fitting.LevMarLSQFitter()
         for i in range(self.n_sources):
             psfi_render = self.db.load(i)[0]
@@ -1450,15 +1447,33 @@ class SingleImageGaussPSF(SingleImage):
             #  room for p checking
             gaussian = p[0]
             #  back = p[1]
-            p_xw.append(gaussian.x_stddev.value)
-            p_yw.append(gaussian.y_stddev.value)
-            p_th.append(gaussian.theta.value)
-            p_am.append(gaussian.amplitude.value)
-
-        mean_xw, med_xw, std_xw = sigma_clipped_stats(p_xw)
-        mean_yw, med_yw, std_yw = sigma_clipped_stats(p_yw)
-        mean_th, med_th, std_th = sigma_clipped_stats(p_th)
-        mean_am, med_am, std_am = sigma_clipped_stats(p_am)
+            # exchanging the widths and turning 90 degrees gives the same
+            # profile, so only its second moments can be averaged
+            var_x = gaussian.x_stddev.value**2
+            var_y = gaussian.y_stddev.value**2
+            cos_th = np.cos(gaussian.theta.value)
+            sin_th = np.sin(gaussian.theta.value)
+            moments.append(
+                (
+                    var_x * cos_th**2 + var_y * sin_th**2,
+                    var_x * sin_th**2 + var_y * cos_th**2,
+                    (var_x - var_y) * cos_th * sin_th,
+                )
+            )
+
+        moments = np.array(moments)
+        clipped = np.ma.getmaskarray(sigma_clip(moments, axis=0)).any(axis=1)
+        if clipped.all():
+            clipped[:] = False
+        xx, yy, xy = moments[~clipped].mean(axis=0)
+
+        # widths along the axes of the mean, the first is the closest to x
+        half_diff = np.hypot((xx - yy) / 2.0, xy) * (-1 if xx < yy else 1)
+        mean_xw = np.sqrt((xx + yy) / 2.0 + half_diff)
+        mean_yw = np.sqrt((xx + yy) / 2.0 - half_diff)
+        mean_th = 0.5 * np.arctan2(
+            -xy if xx < yy else xy, abs(xx - yy) / 2.0
+        )
 
         mean_model = utils.models.Gaussian2D(
             x_mean=0,
-- 
2.43.0


From f5173ec144098cc745f050a2769ae7d0b995879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 41/43] fix: detect the stars without the values of the masked
 pixels

sep ignores the mask in the first rows, so that masked pixels (even infinite
ones) could be taken as stars.
---
 properimage/single_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 5949186..0c3d737 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -567,7 +567,7 @@ class SingleImage(object):
                     f"{thresh_default:.4f} (minarea=9)"
                 )
                 srcs = sep.extract(
-                    self.bkg_sub_img.data,
+                    self.bkg_sub_img.filled(0),
                     thresh=thresh_default,
                     mask=self.mask,
                     minarea=9,
@@ -587,7 +587,7 @@ class SingleImage(object):
                         f"{thresh_high:.4f} (minarea=9)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_high,
                         mask=self.mask,
                         minarea=9,
@@ -613,7 +613,7 @@ class SingleImage(object):
                         f"{thresh_low:.4f} (minarea=5)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_low,
                         mask=self.mask,
                         minarea=5,
@@ -628,7 +628,7 @@ class SingleImage(object):
                     )
                     sep.set_extract_pixstack(900000)
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=SEP_THRESH["low"] * self.__bkg.globalrms,
                         mask=self.mask,
                         minarea=9,
-- 
2.43.0


From 2c72bee4f1b7f174b71c5995855a9f81a481550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 42/43] fix: smooth the PSF components without changing their
 weights

Giving unit sum to each component changes its weight (and sign) in the PSF,
as the coefficient fields are not scaled with it.
---
 properimage/single_image.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 0c3d737..f4f2881 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1049,7 +1049,6 @@ class SingleImage(object):
                     new_psfs.append(
                         filters.gaussian(a_psf, sigma=1.5, preserve_range=True)
                     )
-                    new_psfs[-1] = new_psfs[-1] / np.sum(new_psfs[-1])
                 psf_basis = new_psfs
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
-- 
2.43.0


From 4299685943d40072d254b1a285eae1b019a8f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 43/43] fix: keep the weights of the PSF components of many
 stars

With more than 250 stars each component was moved and scaled to unit sum, but
the coefficient fields are the ones of the components as they are.
---
 properimage/single_image.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f4f2881..88bdd2a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1035,9 +1035,6 @@ class SingleImage(object):
                     for j in range(self.n_sources):
                         pj = self.db.load(j)[0]
                         base += xs[j, i] * pj
-                    base = base / np.sum(base)
-                    base = base - np.abs(np.min(base))
-                    base = base / np.sum(base)
                     psf_basis.append(base)
                     del base
             psf_basis.reverse()
-- 
2.43.0

