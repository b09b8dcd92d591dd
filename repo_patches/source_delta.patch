From 454a3263b62c3c85d00866e45efa9917da9dde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 01/95] fix: pgm: accept PGM headers with a valid maximum value

The test was inverted: every image with max_value < 65536, that is every
valid image, was rejected. Reject non-positive sizes too, as they would be
turned into huge unsigned values.
---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..74d3a55 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if(width < 1 || height < 1 || max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From b226506f574c4cbcc92f9c68061ab5b3a17fb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 02/95] fix: pgm: reject ASCII pixels which are missing or out
 of range

The value was stored before checking that it had been read, a value above
max_value was silently truncated, and the format string contained a
spurious 'd'.
---
 vl/pgm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 74d3a55..d251022 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -308,13 +308,16 @@ vl_pgm_extract_data (FILE* f, VlPgmImage const *im, void *data)
     for(good = 1, i = 0 ;
         i < data_size && good ;
         ++i) {
-      c = fscanf(f, " %ud", &v) ;
+      c = fscanf(f, " %u", &v) ;
+      if (c != 1 || v > im->max_value) {
+        good = 0 ;
+        break ;
+      }
       if (bpp == 1) {
         * ((vl_uint8* )  data + i) = (vl_uint8)  v ;
       } else {
         * ((vl_uint16*)  data + i) = (vl_uint16) v ;
       }
-      good &= c == 1 ;
     }
   }
 
-- 
2.43.0


From 1ab339dcda17ac10a705975972ea3518104a1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/95] fix: pgm: release the buffer and the stream once when
 reading fails

vl_pgm_read_new() freed the address of the caller's pointer instead of the
buffer, closed the stream twice on a data error, never closed it for 16 bit
images and did not check its allocations.
---
 vl/pgm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index d251022..ced39ee 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -410,15 +410,21 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
   *data = vl_malloc (vl_pgm_get_npixels(im) * sizeof(vl_uint8)) ;
+  if (! *data) {
+    fclose (f) ;
+    return vl_set_last_error(VL_ERR_ALLOC, "Could not allocate the PGM data") ;
+  }
+
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
@@ -456,6 +462,10 @@ int vl_pgm_read_new_f (char const *name,  VlPgmImage *im, float** data)
 
   npixels = vl_pgm_get_npixels(im) ;
   *data = vl_malloc (sizeof(float) * npixels) ;
+  if (! *data) {
+    vl_free (idata) ;
+    return vl_set_last_error(VL_ERR_ALLOC, "Could not allocate the PGM data") ;
+  }
   {
     size_t k ;
     float scale = 1.0f / (float)im->max_value ;
-- 
2.43.0


From 90fcf60fd797f0acdd8bc570729595f1a108cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 04/95] fix: pgm: report failures to write the header or to
 flush the file

vl_pgm_write() returned success when the buffered data could not be
written by fclose().
---
 vl/pgm.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index ced39ee..53234af 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -344,11 +344,13 @@ vl_pgm_insert(FILE* f, VlPgmImage const *im, void const *data)
   size_t c ;
 
   /* write preamble */
-  fprintf(f,
-          "P5\n%d\n%d\n%d\n",
-          (signed)im->width,
-          (signed)im->height,
-          (signed)im->max_value) ;
+  if (fprintf(f,
+              "P5\n%d\n%d\n%d\n",
+              (signed)im->width,
+              (signed)im->height,
+              (signed)im->max_value) < 0) {
+    return vl_set_last_error(VL_ERR_PGM_IO, "Error writing PGM header") ;
+  }
 
   /* take care of endianness */
 #if defined(VL_ARCH_LITTLE_ENDIAN)
@@ -507,7 +509,12 @@ int vl_pgm_write (char const *name, vl_uint8 const* data, int width, int height)
   pgm.max_value = 255 ;
 
   err = vl_pgm_insert (f, &pgm, data) ;
-  fclose (f) ;
+
+  /* closing flushes the data, which may fail */
+  if (fclose (f) && ! err) {
+    err = vl_set_last_error(VL_ERR_PGM_IO,
+                            "Error writing PGM file '%s'", name) ;
+  }
 
   return err ;
 }
-- 
2.43.0


From 791e38b892426073371f75bedd992597c70ceef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 05/95] fix: kmeans: compile with OpenMP and recent compilers

From GCC 9 on, the constant VL_INFINITY_D must be given a data sharing
attribute in a region with default(none), so that the library could not be
built with OpenMP. Older versions refuse the explicit attribute, hence use
default(shared) as elsewhere in the file.
---
 vl/kmeans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..cea0986 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -669,7 +669,7 @@ VL_XCAT(_vl_kmeans_quantize_, SFX)
 #endif
 
 #ifdef _OPENMP
-#pragma omp parallel default(none) \
+#pragma omp parallel default(shared) \
             shared(self, distances, assignments, numData, distFn, data) \
             num_threads(vl_get_max_threads())
 #endif
-- 
2.43.0


From fac93993beeec97dc6ef905ae914ae013c993ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 06/95] fix: kmeans: copy all the settings in
 vl_kmeans_new_copy()

The initialization method and the minimum energy variation of the copy were
left uninitialized.
---
 vl/kmeans.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index cea0986..97453bd 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -441,6 +441,8 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
 
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
+  self->initialization = kmeans->initialization ;
   self->numRepetitions = kmeans->numRepetitions ;
 
   self->dimension = kmeans->dimension ;
-- 
2.43.0


From 456707be17dde5fd083cfa18467aba4db6117707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 07/95] fix: gmm: release the covariance bounds and the mode
 masses

vl_gmm_delete() leaked the covariance lower bounds and each restart of the
empty modes leaked a buffer.
---
 vl/gmm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..97ac65e 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -417,6 +417,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
   if(self->posteriors) vl_free(self->posteriors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
   }
@@ -825,10 +826,12 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   //VlRand * rand = vl_get_rand() ;
 
-  TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+  TYPE * mass ;
 
   if (numClusters <= 1) { return 0 ; }
 
+  mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+
   /* compute statistics */
   {
     vl_uindex i, k ;
@@ -995,6 +998,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From 4acc691f73ff84f7a002eccecf44518e6bd0eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 08/95] fix: gmm: copy the covariance lower bounds in
 vl_gmm_new_copy()

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 97ac65e..7d8f08c 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1495,6 +1495,7 @@ vl_gmm_new_copy (VlGMM const * self)
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
+  memcpy(gmm->sigmaLowBound, self->sigmaLowBound, sizeof(double)*self->dimension);
   return gmm ;
 }
 
-- 
2.43.0


From d696194a6ad2fb239365697aa1bde4f9d0b6dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 09/95] fix: gmm: do not repeat from uninitialized parameters

With VlGMMCustom, the repetitions after the first one started from the
buffers swapped in to hold the best model, which hold arbitrary data.
---
 vl/gmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 7d8f08c..a10290b 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1632,6 +1632,10 @@ double vl_gmm_cluster (VlGMM * self,
 
       bestLL = LL;
     }
+
+    /* The user specified parameters are gone, and starting from them
+     * again would give the same result. */
+    if (self->initialization == VlGMMCustom) { break ; }
   }
 
   vl_free (self->priors) ;
-- 
2.43.0


From c9611a844072ca393337c556e7b54f493e95160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 10/95] fix: svm: release the scores in vl_svm_delete()

---
 vl/svm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..e69451b 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1108,6 +1108,10 @@ vl_svm_delete (VlSvm * self)
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   vl_free (self) ;
 }
 
-- 
2.43.0


From 4b796d55fb1a856e63ff98dbed2e38056d4cbd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 11/95] fix: svm: handle allocation failures in the
 constructors

The error path leaked the object itself and the callers dereferenced the
NULL it returns.
---
 vl/svm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index e69451b..69021a7 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -962,7 +962,13 @@ vl_svm_new (VlSvmSolverType type,
             double lambda)
 {
   VlSvmDataset * dataset = vl_svmdataset_new(VL_TYPE_DOUBLE, (void*)data, dimension, numData) ;
-  VlSvm * self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  VlSvm * self ;
+  if (dataset == NULL) return NULL ;
+  self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  if (self == NULL) {
+    vl_svmdataset_delete (dataset) ;
+    return NULL ;
+  }
   self->ownDataset = dataset ;
   return self ;
 }
@@ -988,6 +994,7 @@ vl_svm_new_with_dataset (VlSvmSolverType solver,
                                              vl_svmdataset_get_num_data(dataset),
                                              labels,
                                              lambda) ;
+  if (self == NULL) return NULL ;
   vl_svm_set_data_functions (self,
                              vl_svmdataset_get_inner_product_function(dataset),
                              vl_svmdataset_get_accumulate_function(dataset)) ;
@@ -1019,6 +1026,7 @@ vl_svm_new_with_abstract_data (VlSvmSolverType solver,
                                double lambda)
 {
   VlSvm * self = vl_calloc(1,sizeof(VlSvm)) ;
+  if (self == NULL) return NULL ;
 
   assert(dimension >= 1) ;
   assert(numData >= 1) ;
@@ -1085,6 +1093,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
-- 
2.43.0


From 54502bef8958c9ba6f54103adf349fffb6607b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 12/95] fix: scalespace: release the list of octaves when an
 octave cannot be allocated

---
 vl/scalespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..665f060 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -586,6 +586,7 @@ err_alloc_octaves:
       vl_free(self->octaves[o - self->geom.firstOctave]) ;
     }
   }
+  vl_free(self->octaves) ;
 err_alloc_octave_list:
   vl_free(self) ;
 err_alloc_self:
-- 
2.43.0


From ccbc781f8657f4da5f8c4292c3005f8d2c71bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 13/95] fix: covdet: forget the features in vl_covdet_reset()

The buffer was released but its size and the number of features were kept,
so that adding a feature after a reset wrote through a NULL pointer.
---
 vl/covdet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index d3cfa96..784ff6e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1623,6 +1623,8 @@ vl_covdet_reset (VlCovDet * self)
     vl_free(self->features) ;
     self->features = NULL ;
   }
+  self->numFeatures = 0 ;
+  self->numFeatureBufferSize = 0 ;
   if (self->css) {
     vl_scalespace_delete(self->css) ;
     self->css = NULL ;
-- 
2.43.0


From 60cc2462defdf222bb546c52028181498503d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 14/95] fix: covdet: reset the number of suppressed features at
 each detection

With the suppression disabled, the number of a previous detection was
reported.
---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 784ff6e..240fcb3 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2110,10 +2110,10 @@ vl_covdet_detect (VlCovDet * self)
       break ;
   }
 
+  self->numNonExtremaSuppressed = 0 ;
   if (self->nonExtremaSuppression) {
     vl_index i, j ;
     double tol = self->nonExtremaSuppression ;
-    self->numNonExtremaSuppressed = 0 ;
     for (i = 0 ; i < (signed)self->numFeatures ; ++i) {
       double x = self->features[i].frame.x ;
       double y = self->features[i].frame.y ;
-- 
2.43.0


From 17617d5a72085218461d1d2c60423181cab322c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 15/95] fix: covdet: do not write past the patch buffer left of
 the image

For a frame which lies entirely left of the image, the left padding is
larger than the patch.
---
 vl/covdet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 240fcb3..7ae08d1 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2328,6 +2328,7 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
       vl_index patchWidth = x1i - x0i + 1 ;
       vl_index patchHeight = y1i - y0i + 1 ;
       vl_size patchBufferSize = patchWidth * patchHeight * sizeof(float) ;
+      padx0 = VL_MIN(padx0, patchWidth) ;
       if (patchBufferSize > self->patchBufferSize) {
         int err = _vl_resize_buffer((void**)&self->patch, &self->patchBufferSize, patchBufferSize) ;
         if (err) return vl_set_last_error(VL_ERR_ALLOC, "Unable to allocate data.") ;
-- 
2.43.0


From 3079ca70fe87de884fd158ee0d330ca8c3a5207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 16/95] fix: ikmeans: initialize the assignments and size the
 counts by cluster

Lloyd's algorithm compared the first assignments with uninitialized memory,
and could stop at once; both algorithms wrote past the counts if there are
more clusters than data.
---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..6964125 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,10 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
+
+  /* no datum is assigned yet */
+  for (j = 0 ; j < N ; ++j) { asgn [j] = (vl_uint32) -1 ; }
 
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
-- 
2.43.0


From 79f6aa3348ee1540b48292a05241cf4925cfc65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 17/95] fix: hikmeans: release the previous tree when training
 again

---
 vl/hikmeans.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..bb7b12c 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -237,6 +237,8 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ;
+  f->root = NULL ;
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From a370f270b38bafdce367cf33585334a966b6255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 18/95] fix: hikmeans: do not descend below clusters without
 training data

A cluster to which no training datum was assigned has no sub-clusters:
pushing a datum which falls into it read past the list of children.
---
 vl/hikmeans.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index bb7b12c..2e5965a 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -266,7 +266,7 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
   for(i = 0 ; i < N ; i++) {
     VlHIKMNode *node = f->root ;
     d = 0 ;
-    while (node) {
+    while (node && vl_ikm_get_K (node->filter) > 0) {
       vl_uint32 best ;
       vl_ikm_push (node->filter,
                    &best,
@@ -276,6 +276,8 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
       if (!node->children) break ;
       node = node->children [best] ;
     }
+    /* no center to choose from in the rest of the path */
+    for ( ; d < depth ; ++d) { asgn[i * depth + d] = 0 ; }
   }
 }
 
-- 
2.43.0


From cc1cc5b90d1465c4b3f6318d0890cfd892aac6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 19/95] fix: mser: compare the heights of the trees which are
 joined

The height of the neighboring tree was read from region 0 before the root
was known. This height is uninitialized or left over from the previous
image until that pixel is processed, so that the choice of the seeds
depended on the content of the memory.
---
 vl/mser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/mser.c b/vl/mser.c
index 4c55db2..c030802 100644
--- a/vl/mser.c
+++ b/vl/mser.c
@@ -555,8 +555,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
         vl_mser_pix nr_val = 0 ;
         vl_uint     nr_idx = 0 ;
-        int         hgt   = r [ r_idx] .height ;
-        int         n_hgt = r [nr_idx] .height ;
+        int         hgt ;
+        int         n_hgt ;
 
         /*
           Now we join the two subtrees rooted at
@@ -570,6 +570,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
          r_idx = climb(r,   idx) ;
         nr_idx = climb(r, n_idx) ;
+        hgt    = r [ r_idx] .height ;
+        n_hgt  = r [nr_idx] .height ;
 
         /*
           At this point we have three possibilities:
-- 
2.43.0


From 95abbf5460fc850144077821f3d2795c26fef4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 20/95] fix: sift: forget the gradient of the previous image

If the gradient cached last was the one of the first octave, it was used
again for the first octave of the next image.
---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..c8ace45 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -994,6 +994,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
 
   /* restart from the first */
   f->o_cur = o_min ;
+  f->grad_o = o_min - 1 ;
   f->nkeys = 0 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
-- 
2.43.0


From d8aac6cc40819b7266ee30efae7d516848648533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 21/95] fix: hog: compute the norms afresh at each extraction

Extracting the features of an image twice added up the norms and returned
different features the second time.
---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..93061d0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -869,6 +869,7 @@ vl_hog_extract (VlHog * self, float * features)
    */
   {
     float const * iter = self->hog ;
+    memset(self->hogNorm, 0, sizeof(float) * hogStride) ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
       float * niter = self->hogNorm ;
       float * niterEnd = self->hogNorm + self->hogWidth * self->hogHeight ;
-- 
2.43.0


From feb186311aff1c53e50f2a564e1222cbe8cc29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 22/95] fix: quickshift: compute the density afresh at each run

Processing again added to the density of the previous run.
---
 vl/quickshift.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..ee9c1dd 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -277,6 +277,8 @@ void vl_quickshift_process(VlQS * q)
     n = (vl_qs_type *) vl_calloc(N1*N2,   sizeof(vl_qs_type)) ;
   }
 
+  memset (E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   R = (int) ceil (3 * sigma) ;
   tR = (int) ceil (tau) ;
 
-- 
2.43.0


From a80ee4f96a2d7dbeb3cde49fbecc456e6de5466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 23/95] fix: kdtree: bound the L1 distance correctly in exact
 searches

The bound used to discard parts of the trees accumulated squared
differences also for the L1 distance, for which it is not a lower bound
as soon as a difference exceeds one.
---
 vl/kdtree.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..b08440b 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -577,6 +577,19 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 }
 
 
+/** ------------------------------------------------------------------
+ ** @internal @brief Contribution of one dimension to the distance
+ ** @param self object.
+ ** @param delta difference of the coordinates along the dimension.
+ ** @return contribution to the distance.
+ **/
+
+VL_INLINE double
+vl_kdforest_get_component_distance (VlKDForest const * self, double delta)
+{
+  return (self->distance == VlDistanceL1) ? vl_abs_d(delta) : delta * delta ;
+}
+
 /** ------------------------------------------------------------------
  ** @internal @brief
  **/
@@ -689,21 +702,21 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    */
 
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + vl_kdforest_get_component_distance(searcher->forest, delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_get_component_distance(searcher->forest, delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= vl_kdforest_get_component_distance(searcher->forest, delta) ;
     }
   }
 
-- 
2.43.0


From 39faf2f916d2f345a29ffb962f4f7c7fbbaef1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 24/95] fix: drivers: report outputs which could not be written

sift and mser ignored all failures to write or to close their output
files and exited with success although data was lost.
---
 src/generic-driver.h | 15 +++++++++++----
 src/mser.c           | 13 ++++++++++---
 src/sift.c           | 18 +++++++++++++-----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 2d74a44..34273cc 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -140,14 +140,21 @@ vl_file_meta_open (VlFileMeta * self, char const * basename, char const * mode)
 /** @brief Close the file associated to meta information
  **
  ** @param self File meta information.
+ **
+ ** @return error code. The error is ::VL_ERR_IO if any of the
+ ** operations on the file failed, so that some of the data written
+ ** to it may have been lost.
  **/
-static void
+static int
 vl_file_meta_close (VlFileMeta * self)
 {
+  int err = 0 ;
   if (self -> file) {
-    fclose (self -> file) ;
+    if (ferror (self -> file)) err = 1 ;
+    if (fclose (self -> file)) err = 1 ;
     self -> file = 0 ;
   }
+  return err ? VL_ERR_IO : VL_ERR_OK ;
 }
 
 /* ----------------------------------------------------------------- */
@@ -170,7 +177,7 @@ vl_file_meta_put_double (VlFileMeta * self, double x)
   switch (self -> protocol) {
 
   case VL_PROT_ASCII :
-    err = fprintf (self -> file, "%g ", x) ;
+    err = fprintf (self -> file, "%g ", x) < 0 ;
     break ;
 
   case VL_PROT_BINARY :
@@ -205,7 +212,7 @@ vl_file_meta_put_uint8 (VlFileMeta *self, vl_uint8 x)
   switch (self -> protocol) {
 
   case VL_PROT_ASCII :
-    err = fprintf (self -> file, "%d ", x) ;
+    err = fprintf (self -> file, "%d ", x) < 0 ;
     if (err) return VL_ERR_ALLOC ;
     break ;
 
diff --git a/src/mser.c b/src/mser.c
index 61cf75f..9d68444 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -523,9 +523,16 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&piv) ;
-    vl_file_meta_close (&met) ;
+#define CERR(fm)                                                \
+    if (vl_file_meta_close (&fm) && !err) {                     \
+      snprintf(err_msg, sizeof(err_msg),                        \
+               "Could not write '%s'.", fm.name) ;              \
+      err = VL_ERR_IO ;                                         \
+    }
+
+    CERR (frm) ;
+    CERR (piv) ;
+    CERR (met) ;
 
     /* if bad print error message */
     if (err) {
diff --git a/src/sift.c b/src/sift.c
index 1de8f33..cdc4ebf 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -150,7 +150,8 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
       printf("sift: saved gss level to '%s'\n", fm -> name) ;
     }
 
-    vl_file_meta_close (fm) ;
+    err = vl_file_meta_close (fm) ;
+    if (err) goto save_gss_quit ;
   }
 
  save_gss_quit : ;
@@ -814,10 +815,17 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&out) ;
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&dsc) ;
-    vl_file_meta_close (&met) ;
+#define CERR(fm)                                                \
+    if (vl_file_meta_close (&fm) && !err) {                     \
+      snprintf(err_msg, sizeof(err_msg),                        \
+               "Could not write '%s'.", fm.name) ;              \
+      err = VL_ERR_IO ;                                         \
+    }
+
+    CERR (out) ;
+    CERR (frm) ;
+    CERR (dsc) ;
+    CERR (met) ;
     vl_file_meta_close (&gss) ;
     vl_file_meta_close (&ifr) ;
 
-- 
2.43.0


From 88b99ee20b65a34b270d25e901b7698dafb6ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 25/95] fix: sift: detect truncated and unreadable frame files

An input error was taken for the end of the file, an incomplete last
frame was silently dropped and binary files were never accepted, as
their end was reported as an error.
---
 src/generic-driver.h | 13 +++++++------
 src/sift.c           |  4 +---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 34273cc..185ebf9 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -235,8 +235,8 @@ vl_file_meta_put_uint8 (VlFileMeta *self, vl_uint8 x)
  ** @param x   Datum read.
  **
  ** @return error code. The function returns ::VL_ERR_EOF if the
- ** end-of-file is reached and ::VL_ERR_BAD_ARG if the file is
- ** malformed.
+ ** end-of-file is reached, ::VL_ERR_IO if the file cannot be read,
+ ** and ::VL_ERR_BAD_ARG if the file is malformed.
  **/
 
 VL_INLINE int
@@ -249,16 +249,17 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
   switch (self -> protocol) {
 
   case VL_PROT_ASCII :
-    err = fscanf (self -> file, " ") ;
-    if (err == EOF) return VL_ERR_EOF ;
     err = fscanf (self -> file, "%lg", x) ;
+    if (ferror (self -> file)) return VL_ERR_IO ;
     if (err == EOF) return VL_ERR_EOF ;
     if (err <  1  ) return VL_ERR_BAD_ARG ;
     break ;
 
   case VL_PROT_BINARY :
-    n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return VL_ERR_BAD_ARG ;
+    n = fread (&y, 1, sizeof(double), self -> file) ;
+    if (ferror (self -> file)) return VL_ERR_IO ;
+    if (n == 0) return VL_ERR_EOF ;
+    if (n < sizeof(double)) return VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
diff --git a/src/sift.c b/src/sift.c
index cdc4ebf..2594ecb 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -555,9 +555,7 @@ main(int argc, char **argv)
         else QERR ;
         err = vl_file_meta_get_double (&ifr, &y ) ; QERR ;
         err = vl_file_meta_get_double (&ifr, &s ) ; QERR ;
-        err = vl_file_meta_get_double (&ifr, &th) ;
-        if   (err == VL_ERR_EOF) break;
-        else QERR ;
+        err = vl_file_meta_get_double (&ifr, &th) ; QERR ;
 
         /* make enough space */
         if (ikeys_size < nikeys + 1) {
-- 
2.43.0


From 2fb0f6ba3dd9c0ef8681069532ba46f9cc1235a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 26/95] fix: sift: stop at images with an invalid PGM header

The processing continued with the image size undefined if the header
had valid magic numbers but invalid meta information.
---
 src/sift.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 2594ecb..9148f10 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -474,15 +474,15 @@ main(int argc, char **argv)
       case  VL_ERR_PGM_IO :
         snprintf(err_msg, sizeof(err_msg),
                  "Cannot read from '%s'.", name) ;
-        err = VL_ERR_IO ;
         break ;
 
-      case VL_ERR_PGM_INV_HEAD :
+      default :
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
-        err = VL_ERR_IO ;
-        goto done ;
+        break ;
       }
+      err = VL_ERR_IO ;
+      goto done ;
     }
 
     if (verbose)
-- 
2.43.0


From 7cbbacf1d05fa5e1f93ba0858ff0884f1213efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 27/95] fix: drivers: reject 16 bit PGM images

Only images with one byte per pixel are supported, as by
vl_pgm_read_new(); the bytes of larger images were processed as if they
were the pixels of the first half of the image.
---
 src/mser.c | 7 +++++++
 src/sift.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 9d68444..e90efac 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -353,6 +353,13 @@ main(int argc, char **argv)
       goto done ;
     }
 
+    if (vl_pgm_get_bpp (&pim) > 1) {
+      err = VL_ERR_BAD_ARG ;
+      snprintf(err_msg, sizeof(err_msg),
+               "PGM images with more than 8 bits per pixel are not supported.") ;
+      goto done ;
+    }
+
     if (verbose) {
       printf("mser:   image is %" VL_FMT_SIZE " by %" VL_FMT_SIZE " pixels\n",
              pim. width,
diff --git a/src/sift.c b/src/sift.c
index 9148f10..ea6da11 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -485,6 +485,13 @@ main(int argc, char **argv)
       goto done ;
     }
 
+    if (vl_pgm_get_bpp (&pim) > 1) {
+      snprintf(err_msg, sizeof(err_msg),
+               "'%s' has more than 8 bits per pixel.", name) ;
+      err = VL_ERR_BAD_ARG ;
+      goto done ;
+    }
+
     if (verbose)
       printf ("sift: image is %" VL_FMT_SIZE " by %" VL_FMT_SIZE " pixels\n",
               pim. width,
-- 
2.43.0


From 5a74b892330e40bb7d2b8bafcf988a12f7c9e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 28/95] fix: drivers: handle failing allocations before using
 the memory

---
 src/mser.c |  9 +++++----
 src/sift.c | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index e90efac..7436553 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -393,6 +393,7 @@ main(int argc, char **argv)
     filtinv = vl_mser_new (ndims, dims) ;
 
     if (!filt || !filtinv) {
+      err = VL_ERR_ALLOC ;
       snprintf(err_msg, sizeof(err_msg),
               "Could not create an MSER filter.") ;
       goto done ;
@@ -452,10 +453,6 @@ main(int argc, char **argv)
       /* allocate buffer */
       datainv = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
-      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
-        datainv[i] = ~data[i]; /* 255 - data[i] */
-      }
-
       if (!datainv) {
         err = VL_ERR_ALLOC ;
         snprintf(err_msg, sizeof(err_msg),
@@ -463,6 +460,10 @@ main(int argc, char **argv)
         goto done ;
       }
 
+      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
+        datainv[i] = ~data[i]; /* 255 - data[i] */
+      }
+
       vl_mser_process (filtinv, (vl_mser_pix*) datainv) ;
 
       /* Save result  ----------------------------------------------- */
diff --git a/src/sift.c b/src/sift.c
index ea6da11..2222bf2 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -566,8 +566,15 @@ main(int argc, char **argv)
 
         /* make enough space */
         if (ikeys_size < nikeys + 1) {
+          double * more = realloc (ikeys, 4 * sizeof(double) * (ikeys_size + 10000)) ;
+          if (!more) {
+            err = VL_ERR_ALLOC ;
+            snprintf(err_msg, sizeof(err_msg),
+                     "Could not allocate enough memory.") ;
+            goto done ;
+          }
+          ikeys       = more ;
           ikeys_size += 10000 ;
-          ikeys       = realloc (ikeys, 4 * sizeof(double) * ikeys_size) ;
         }
 
         /* add the guy to the buffer */
@@ -612,10 +619,6 @@ main(int argc, char **argv)
 
     filt = vl_sift_new (pim.width, pim.height, O, S, omin) ;
 
-    if (edge_thresh >= 0) vl_sift_set_edge_thresh (filt, edge_thresh) ;
-    if (peak_thresh >= 0) vl_sift_set_peak_thresh (filt, peak_thresh) ;
-    if (magnif      >= 0) vl_sift_set_magnif      (filt, magnif) ;
-
     if (!filt) {
       snprintf (err_msg, sizeof(err_msg),
                 "Could not create SIFT filter.") ;
@@ -623,6 +626,10 @@ main(int argc, char **argv)
       goto done ;
     }
 
+    if (edge_thresh >= 0) vl_sift_set_edge_thresh (filt, edge_thresh) ;
+    if (peak_thresh >= 0) vl_sift_set_peak_thresh (filt, peak_thresh) ;
+    if (magnif      >= 0) vl_sift_set_magnif      (filt, magnif) ;
+
     if (verbose > 1) {
       printf ("sift: filter settings:\n") ;
       printf ("sift:   octaves      (O)     = %d\n",
-- 
2.43.0


From 1e05abd0a3e3d143c15fb6c0aae86bf09a49c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 29/95] fix: sift: do not output undefined descriptors

No descriptor is computed for the frames read from a file which fall
outside of the image, and undefined memory was written instead.
---
 src/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 2222bf2..6faad3a 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -738,7 +738,7 @@ main(int argc, char **argv)
 
         /* for each orientation ................................... */
         for (q = 0 ; q < (unsigned) nangles ; ++q) {
-          vl_sift_pix descr [128] ;
+          vl_sift_pix descr [128] = {0} ;
 
           /* compute descriptor (if necessary) */
           if (out.active || dsc.active) {
-- 
2.43.0


From 3c36ddd5c50133c614c4bf145bffa69327eada24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 30/95] fix: imopv: do not leak the buffer when the image is
 empty

---
 vl/imopv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..22a1330 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -519,13 +519,15 @@ VL_XCAT(vl_imconvcoltri_, SFX)
   vl_bool transp = flags & VL_TRANSPOSE ;
   vl_bool zeropad = (flags & VL_PAD_MASK) == VL_PAD_BY_ZERO ;
   T scale = (T) (1.0 / ((double)filterSize * (double)filterSize)) ;
-  T * buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
-  buffer += filterSize ;
+  T * buffer ;
 
   if (imageHeight == 0) {
     return  ;
   }
 
+  buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
+  buffer += filterSize ;
+
   x = 0 ;
   dheight = (imageHeight - 1) / step + 1 ;
 
-- 
2.43.0


From a0289cbefa602357f5d6b5fb996c2ff7f318d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 31/95] fix: pgm: report input errors that cut a number short

---
 vl/pgm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/pgm.c b/vl/pgm.c
index 53234af..853eeef 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -229,6 +229,9 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     c == ' '  ||
     c == '\r' ;
 
+  /* an input error may have cut a number short */
+  good &= ! ferror(f) ;
+
   if(! good) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
@@ -319,6 +322,8 @@ vl_pgm_extract_data (FILE* f, VlPgmImage const *im, void *data)
         * ((vl_uint16*)  data + i) = (vl_uint16) v ;
       }
     }
+    /* an input error may have cut a number short */
+    good = good && ! ferror(f) ;
   }
 
   if(! good) {
-- 
2.43.0


From 375e9be918a3fcb4350605824bb5af4763f23a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:58 +0000
Subject: [PATCH 32/95] fix: scalespace: do not write past the end when halving
 an odd height

---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 665f060..ab646c6 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -509,7 +509,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From 37a2bf7577475a533ce04359ac609520b570a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:41 +0000
Subject: [PATCH 33/95] fix: scalespace: do not access octaves beyond the last
 one

---
 vl/scalespace.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index ab646c6..93c36bb 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -702,7 +702,7 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
                                         float const *image,
                                         vl_index o)
 {
-  float *level ;
+  float *level = NULL ;
   double sigma, imageSigma ;
   vl_index op ;
 
@@ -716,14 +716,24 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
    * downscaling as needed.
    */
 
-  level = vl_scalespace_get_level(self, VL_MAX(0, o), self->geom.octaveFirstSubdivision) ;
-  copy_and_downsample(level, image, self->geom.width, self->geom.height, VL_MAX(0, o)) ;
+  if (o >= 0) {
+    level = vl_scalespace_get_level(self, o, self->geom.octaveFirstSubdivision) ;
+    copy_and_downsample(level, image, self->geom.width, self->geom.height, o) ;
+  }
 
   for (op = -1 ; op >= o ; --op) {
     VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
-    float *succLevel = vl_scalespace_get_level(self, op + 1, self->geom.octaveFirstSubdivision) ;
-    level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
+    float const *succLevel = (op == -1) ? image : level ;
+    if (op <= self->geom.lastOctave) {
+      level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
+    } else {
+      /* this octave is not part of the scale space */
+      level = vl_malloc(4 * ogeom.width * ogeom.height * sizeof(float)) ;
+    }
     copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+    if (op + 1 < 0 && op + 1 > self->geom.lastOctave) {
+      vl_free((float*) succLevel) ;
+    }
   }
 
   /*
-- 
2.43.0


From 89dbd0a8b9f1d1dd3d8a63b02dec49ecaf9571fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 34/95] fix: kdtree: fall back to the median when the mean is
 below all points of a tree

---
 vl/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index b08440b..ea0836d 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -296,7 +296,7 @@ vl_kdtree_build_recursively
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex + 1 && splitIndex + 1 < dataEnd) break ;
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From 779c75a0732afdd836523750f35567b755bc353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:14 +0000
Subject: [PATCH 35/95] fix: kmeans: copy the energy in vl_kmeans_new_copy()

---
 vl/kmeans.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 97453bd..9900efc 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -453,6 +453,8 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
   self->numTrees = kmeans->numTrees;
   self->maxNumComparisons = kmeans->maxNumComparisons;
 
+  self->energy = kmeans->energy ;
+
   if (kmeans->centers) {
     vl_size dataSize = vl_get_type_size(self->dataType) * self->dimension * self->numCenters ;
     self->centers = vl_malloc(dataSize) ;
-- 
2.43.0


From f168edd5aa7960c6b2e5da14932195f65433a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 36/95] fix: scalespace: compare the same fields in
 vl_scalespacegeometry_is_equal()

---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 93c36bb..401ca51 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From 1fe462412d34936a784b4d4b3fa9f8446895e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 37/95] fix: kmeans: report the energy of the current centers
 in vl_kmeans_get_energy()

---
 vl/kmeans.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 9900efc..30a098a 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -387,6 +387,7 @@ vl_kmeans_reset (VlKMeans * self)
 {
   self->numCenters = 0 ;
   self->dimension = 0 ;
+  self->energy = 0 ;
 
   if (self->centers) vl_free(self->centers) ;
   if (self->centerDistances) vl_free(self->centerDistances) ;
@@ -1994,16 +1995,19 @@ vl_kmeans_refine_centers
 
   switch (self->dataType) {
     case VL_TYPE_FLOAT :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_f
         (self, (float const *)data, numData) ;
+      break ;
     case VL_TYPE_DOUBLE :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_d
         (self, (double const *)data, numData) ;
+      break ;
     default:
       abort() ;
   }
+  return self->energy ;
 }
 
 
@@ -2093,6 +2097,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 4175ccf45d5c2b50f2c53b8962bfcde94563f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 38/95] fix: svm: take the starting iteration number into
 account in SGD

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 69021a7..5e9eab0 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2093,7 +2093,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     scores[i] = inner ;
 
     /* apply update */
-    rate = 1.0 /  (self->lambda * (t + t0)) ;
+    rate = 1.0 /  (self->lambda * (self->iteration + t + t0)) ;
     biasRate = rate * self->biasLearningRate ;
     factor *= (1.0 - self->lambda * rate) ;
     biasFactor *= (1.0 - self->lambda * biasRate) ;
-- 
2.43.0


From 92306283e4f537df0d710251ce97ed80204d8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 39/95] fix: svm: tolerate rounding of the weighted dual
 variables in SDCA

---
 vl/svm.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index 5e9eab0..a36b964 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1630,6 +1630,12 @@ vl_svm_hinge_loss_derivative (double inner, double label)
   }
 }
 
+/* The dual variables of weighted data are stored multiplied by the
+   weights. Dividing by the latter may push a variable past the boundary
+   of the domain of the conjugate loss by a rounding error, which must
+   not be mistaken for an infeasible point. */
+#define VL_SVM_DUAL_TOLERANCE 1e-10
+
 /** @brief SVM hinge loss conjugate
  ** @param u dual variable.
  ** @param label label value.
@@ -1638,7 +1644,7 @@ vl_svm_hinge_loss_derivative (double inner, double label)
 double
 vl_svm_hinge_conjugate_loss (double u, double label) {
   double z = label * u ;
-  if (-1 <= z && z <= 0) {
+  if (-1 - VL_SVM_DUAL_TOLERANCE <= z && z <= VL_SVM_DUAL_TOLERANCE) {
     return label * u ;
   } else {
     return VL_INFINITY_D ;
@@ -1678,7 +1684,7 @@ vl_svm_hinge2_loss_derivative (double inner, double label)
  ** @copydetails vl_svm_hinge_conjugate_loss */
 double
 vl_svm_hinge2_conjugate_loss (double u, double label) {
-  if (label * u <= 0) {
+  if (label * u <= VL_SVM_DUAL_TOLERANCE) {
     return (label + u/4) * u ;
   } else {
     return VL_INFINITY_D ;
@@ -1717,7 +1723,7 @@ vl_svm_l1_loss_derivative (double inner, double label)
  ** @copydetails vl_svm_hinge_conjugate_loss */
 double
 vl_svm_l1_conjugate_loss (double u, double label) {
-  if (vl_abs_d(u) <= 1) {
+  if (vl_abs_d(u) <= 1 + VL_SVM_DUAL_TOLERANCE) {
     return label*u ;
   } else {
     return VL_INFINITY_D ;
@@ -1728,7 +1734,7 @@ vl_svm_l1_conjugate_loss (double u, double label) {
  ** @copydetails VlSvmDcaUpdateFunction */
 double
 vl_svm_l1_dca_update (double alpha, double inner, double norm2, double label) {
-  if (vl_abs_d(alpha) <= 1) {
+  if (vl_abs_d(alpha) <= 1 + VL_SVM_DUAL_TOLERANCE) {
     double palpha = (label - inner) / norm2 + alpha ;
     return VL_MAX(-1.0, VL_MIN(1.0, palpha)) - alpha ;
   } else {
@@ -1801,7 +1807,7 @@ VL_INLINE double xlogx(double x)
 double
 vl_svm_logistic_conjugate_loss (double u, double label) {
   double z = label * u ;
-  if (-1 <= z && z <= 0) {
+  if (-1 - VL_SVM_DUAL_TOLERANCE <= z && z <= VL_SVM_DUAL_TOLERANCE) {
     return xlogx(-z) + xlogx(1+z) ;
   } else {
     return VL_INFINITY_D ;
-- 
2.43.0


From ee123179cbfc1599f20596543018ae7fd97b24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:29 +0000
Subject: [PATCH 40/95] fix: sift: do not write past the octave when
 downsampling an odd height

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c8ace45..c067702 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -841,7 +841,7 @@ copy_and_downsample
   int x, y ;
 
   d = 1 << d ; /* d = 2^d */
-  for(y = 0 ; y < height ; y+=d) {
+  for(y = 0 ; y < height - (d-1) ; y+=d) {
     vl_sift_pix const * srcrowp = src + y * width ;
     for(x = 0 ; x < width - (d-1) ; x+=d) {
       *dst++ = *srcrowp ;
-- 
2.43.0


From df9e44478190188db52c56a5c6a6bdbd86901218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 41/95] fix: toolbox: let the host release memory when
 imsmooth, hog, lbp or imdisttf is abandoned

---
 toolbox/imop/vl_imdisttf.c | 2 ++
 toolbox/imop/vl_imsmooth.c | 2 ++
 toolbox/misc/vl_hog.c      | 2 ++
 toolbox/misc/vl_lbp.c      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/toolbox/imop/vl_imdisttf.c b/toolbox/imop/vl_imdisttf.c
index af53a35..d686cc8 100644
--- a/toolbox/imop/vl_imdisttf.c
+++ b/toolbox/imop/vl_imdisttf.c
@@ -30,6 +30,8 @@ mexFunction(int nout, mxArray *out[],
   double const defaultParam [] = {1.0, 0.0, 1.0, 0.0} ;
   double const * param = defaultParam ;
 
+  VL_USE_MATLAB_ENV ;
+
   /* -----------------------------------------------------------------
    *                                               Check the arguments
    * -------------------------------------------------------------- */
diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 081bca3..6922e3c 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -189,6 +189,8 @@ mexFunction(int nout, mxArray *out[],
   mwSize dims_ [3] ;
   mwSize const * dims ;
 
+  VL_USE_MATLAB_ENV ;
+
   /* -----------------------------------------------------------------
    *                                               Check the arguments
    * -------------------------------------------------------------- */
diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index a2bffdf..6f776de 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -67,6 +67,8 @@ mexFunction(int nout, mxArray *out[],
   enum InputType inputType = Image ;
 
 
+  VL_USE_MATLAB_ENV ;
+
   /* -----------------------------------------------------------------
    *                                               Check the arguments
    * -------------------------------------------------------------- */
diff --git a/toolbox/misc/vl_lbp.c b/toolbox/misc/vl_lbp.c
index 2bf8178..b2a5fc1 100644
--- a/toolbox/misc/vl_lbp.c
+++ b/toolbox/misc/vl_lbp.c
@@ -25,6 +25,8 @@ mexFunction(int nout, mxArray *out[],
   enum {IN_I = 0, IN_CELLSIZE} ;
   enum {OUT_FEATURES = 0} ;
 
+  VL_USE_MATLAB_ENV ;
+
   /* -----------------------------------------------------------------
    *                                               Check the arguments
    * -------------------------------------------------------------- */
-- 
2.43.0


From d9133a95bc897d047f75fbf27e7eb72a9010baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 42/95] fix: toolbox: do not read past the dimensions of an
 array in vlmxIsMatrix

---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..710e74d 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -412,7 +412,7 @@ vlmxIsMatrix (mxArray const * array, vl_index M, vl_index N)
   }
 
   /* ok if any dimension beyond the first two is singleton */
-  for (di = 2 ; ((unsigned)dimensions[di] == 1) && di < numDimensions ; ++ di) ;
+  for (di = 2 ; di < numDimensions && ((unsigned)dimensions[di] == 1) ; ++ di) ;
   return di == numDimensions ;
 }
 
-- 
2.43.0


From 4220c1479a2c57620da08cafa5950395e01c4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:39 +0000
Subject: [PATCH 43/95] fix: toolbox: do not use the text of an error as a
 format string

---
 toolbox/mexutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index 710e74d..6c8ff21 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -273,7 +273,7 @@ static void
 vlmxError (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexErrMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexErrMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @brief Raise a MEX warning with VLFeat format
@@ -288,7 +288,7 @@ static void
 vlmxWarning (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexWarnMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexWarnMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @} */
-- 
2.43.0


From 36042c9fb257678149b1d4657d1a7750e77465dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:39 +0000
Subject: [PATCH 44/95] fix: toolbox: rodr, irodr: make several rotations at
 once work and check the class of the argument

---
 toolbox/geometry/vl_irodr.c | 12 +++++++++---
 toolbox/geometry/vl_rodr.c  |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index 11b6d91..f9e8592 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -44,7 +44,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_R],-1,-1)) {
+  if(!vlmxIsPlainMatrix(in[IN_R],-1,-1)) {
     mexErrMsgTxt("R must be a DOUBLE array") ;
   }
 
@@ -56,7 +56,13 @@ mexFunction(int nout, mxArray *out[],
   R_pt = mxGetPr(in[IN_R]) ;
 
   /* space for output (OM) */
-  out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  if( K == 1 ) {
+    out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  } else {
+    mwSize dims [3] ;
+    dims[0] = 3 ; dims[1] = 1 ; dims[2] = K ;
+    out[OUT_OM] = mxCreateNumericArray(3,dims,mxDOUBLE_CLASS,mxREAL) ;
+  }
   om_pt = mxGetPr(out[OUT_OM]) ;
 
   /* space for optional output (dR) */
@@ -78,7 +84,7 @@ mexFunction(int nout, mxArray *out[],
   for(k = 0 ; k < K ; ++k) {
     vl_irodrigues(om_pt, dom_pt, R_pt) ;
     om_pt  += 3 ;
-    dom_pt += 3*9 ;
+    if (dom_pt) dom_pt += 3*9 ;
     R_pt   += 3*3 ;
   }
 
diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 7f3357a..6236df9 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -42,7 +42,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_OM],-1,-1)) {
+  if(!vlmxIsPlainMatrix(in[IN_OM],-1,-1)) {
     mexErrMsgTxt("OM must be a DOUBLE array") ;
   }
 
@@ -83,6 +83,6 @@ mexFunction(int nout, mxArray *out[],
     vl_rodrigues(R_pt, dR_pt, om_pt) ;
     om_pt += 3 ;
     R_pt  += 3*3 ;
-    dR_pt += 9*3 ;
+    if (dR_pt) dR_pt += 9*3 ;
   }
 }
-- 
2.43.0


From 420044e58506d412230270569b2d3289f9782f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 45/95] fix: toolbox: vlad, fisher: end the tables of options

---
 toolbox/fisher/vl_fisher.c | 3 ++-
 toolbox/vlad/vl_vlad.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index d5233c0..e5f0c65 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Normalized",          0,   opt_normalized               },
   {"SquareRoot",          0,   opt_square_root              },
   {"Improved",            0,   opt_improved                 },
-  {"Fast",                0,   opt_fast                     }
+  {"Fast",                0,   opt_fast                     },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 0cb3bac..650e7b0 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Unnormalized",        0,   opt_unnormalized             },
   {"NormalizeComponents", 0,   opt_normalize_components     },
   {"NormalizeMass",       0,   opt_normalize_mass           },
-  {"SquareRoot",          0,   opt_square_root              }
+  {"SquareRoot",          0,   opt_square_root              },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From 6c7f8946045b902765e06394113b4d1a9883fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:18 +0000
Subject: [PATCH 46/95] fix: toolbox: a sparse array is not a plain array

---
 toolbox/mexutils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index 6c8ff21..e523add 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -154,7 +154,7 @@ mxSetDimensionsOctaveWorkaround(mxArray * array, const mwSize  *dims, int ndims)
    (storage) class, such as @c mxDOUBLE_CLASS.
 
  - <b>Plain scalar, vector, and matrix</b> are a scalar, vector, and
-   matrix arrays which are <em>real</em> and of class @c
+   matrix arrays which are <em>real</em>, not sparse and of class @c
    mxDOUBLE_CLASS.  Use ::vlmxIsPlainScalar, ::vlmxIsPlainVector and
    ::vlmxIsPlainMatrix to check this.
 
@@ -468,7 +468,8 @@ vlmxIsArray (mxArray const * array, vl_index numDimensions, vl_index* dimensions
  {
  return
    vlmxIsReal (array) &&
-   vlmxIsOfClass (array, mxDOUBLE_CLASS) ;
+   vlmxIsOfClass (array, mxDOUBLE_CLASS) &&
+   ! mxIsSparse (array) ;
  }
 
 
-- 
2.43.0


From f2f790a5571e5131e1ec864cd1056ded089f413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:18 +0000
Subject: [PATCH 47/95] fix: toolbox: binsum: check the dimensions of INDEXES,
 empty VALUES and sparse arrays

---
 toolbox/misc/vl_binsum.c   |  6 +++---
 toolbox/misc/vl_binsum.def | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/toolbox/misc/vl_binsum.c b/toolbox/misc/vl_binsum.c
index 42592ad..91e3e39 100644
--- a/toolbox/misc/vl_binsum.c
+++ b/toolbox/misc/vl_binsum.c
@@ -88,13 +88,13 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (!vlmxIsReal(IN(ACCUMULATOR))) {
+  if (!vlmxIsReal(IN(ACCUMULATOR)) || mxIsSparse(IN(ACCUMULATOR))) {
     vlmxError(vlmxErrInvalidArgument, "ACCUMULATOR is not a numeric real array.") ;
   }
-  if (!vlmxIsReal(IN(VALUES))) {
+  if (!vlmxIsReal(IN(VALUES)) || mxIsSparse(IN(VALUES))) {
     vlmxError(vlmxErrInvalidArgument, "VALUES is not a numeric real array.") ;
   }
-  if (!vlmxIsReal(IN(INDEXES))) {
+  if (!vlmxIsReal(IN(INDEXES)) || mxIsSparse(IN(INDEXES))) {
     vlmxError(vlmxErrInvalidArgument, "INDEXES is not a numeric real array.") ;
   }
 
diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 4460c6d..3f12c1b 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -97,7 +97,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
   B_end = B_pt + KB ;
 
-  if ((KX != KB) && (KX > 1)) {
+  if ((KX != KB) && (KX != 1)) {
     vlmxError(vlmxErrInvalidArgument,
               "VALUES and INDEXES do not have the same number of elements nor VALUES is a scalar.") ;
   }
@@ -146,6 +146,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     __INDEX_T__ const * B_nbrk ;
 
     vl_size srd ;
+    vl_size Bdimsd ;
 
     /* We need to check a few more details about the matrices */
     if (d >= HD) {
@@ -163,7 +164,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     if (HD != BD) {
-      if (! (d == HD - 1) && BD == HD - 1) {
+      if (! (d == HD - 1 && BD == HD - 1)) {
         vlmxError(vlmxErrInconsistentData,
                   "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
       }
@@ -179,8 +180,9 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      * dimensions < d. */
 
     srd = 1 ;
+    Bdimsd = (d < BD) ? Bdims[d] : 1 ;
 
-    for(k = 0 ; k < (signed) XD ; ++k) {
+    for(k = 0 ; k < (signed) BD ; ++k) {
       if (KX > 1 &&  Xdims[k] != Bdims[k]) {
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
@@ -232,7 +234,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     KH     = Hdims[d] ;
     B_brk  = B_pt + srd ;              /* next time case (b) */
-    B_nbrk = B_pt + srd * Bdims [d] ;  /* next time case (c) */
+    B_nbrk = B_pt + srd * Bdimsd ;     /* next time case (c) */
 
     while (B_pt < B_end) {
 
@@ -261,7 +263,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         B_brk += srd ;                     /* next time case (b) */
         H_pt  -= srd ;
         if (B_pt == B_nbrk) {              /* case (c) occurs */
-          B_nbrk += srd * Bdims[d] ;       /* next time case (c) */
+          B_nbrk += srd * Bdimsd ;         /* next time case (c) */
           H_pt   += srd * Hdims[d] ;
         }
       }
-- 
2.43.0


From 16f57cfb21c5f0f5e455debebb4269288d2b2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 48/95] fix: toolbox: cummax, localmax: refuse sparse arrays

---
 toolbox/misc/vl_cummax.c   | 2 +-
 toolbox/misc/vl_localmax.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_cummax.c b/toolbox/misc/vl_cummax.c
index 81bbe46..ff9245c 100644
--- a/toolbox/misc/vl_cummax.c
+++ b/toolbox/misc/vl_cummax.c
@@ -78,7 +78,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* get information on the data */
-  if (!mxIsNumeric(IN(X))) {
+  if (!mxIsNumeric(IN(X)) || mxIsSparse(IN(X))) {
     vlmxError(vlmxErrInvalidArgument, "X is not a numeric array.") ;
   }
   classId = mxGetClassID(IN(X)) ;
diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index 39ef7d8..dfb650e 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -49,7 +49,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* The input must be a real matrix. */
-  if (!mxIsDouble(in[F]) || mxIsComplex(in[F])) {
+  if (!mxIsDouble(in[F]) || mxIsComplex(in[F]) || mxIsSparse(in[F])) {
     mexErrMsgTxt("Input must be real matrix.");
   }
 
-- 
2.43.0


From c1e499d18c1c2b69bcf37067857c2efd1892c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:31 +0000
Subject: [PATCH 49/95] fix: toolbox: tpsumx, siftdescriptor: check the class
 of the arguments

---
 toolbox/imop/vl_tpsumx.c         | 4 ++--
 toolbox/sift/vl_siftdescriptor.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/imop/vl_tpsumx.c b/toolbox/imop/vl_tpsumx.c
index 3046437..505c7ce 100644
--- a/toolbox/imop/vl_tpsumx.c
+++ b/toolbox/imop/vl_tpsumx.c
@@ -44,11 +44,11 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if(!vlmxIsMatrix(in[X], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[X], 2, -1)) {
     mexErrMsgTxt("X must be a 2xNP real matrix") ;
   }
 
-  if(!vlmxIsMatrix(in[Y], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[Y], 2, -1)) {
     mexErrMsgTxt("Y must be a 2xNCP real matrix") ;
   }
 
diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index 649fde4..6cf63f0 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -114,7 +114,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("GRAD must be a 2xMxN matrix of class SINGLE.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_FRAMES], 4, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_FRAMES], 4, -1)) {
     mexErrMsgTxt("FRAMES must be a 4xN matrix.") ;
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
-- 
2.43.0


From 4909c3fccca2654ee18685e3d9b5574a53546c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:31 +0000
Subject: [PATCH 50/95] fix: toolbox: quickshift: check that KERNEL_SIZE and
 MAX_DIST are scalars

---
 toolbox/quickshift/vl_quickshift.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 9858bb0..7b9c1b8 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -93,7 +93,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must have at most 3 dimensions.") ;
   }
 
-  if (mxGetClassID(in[IN_I]) != mxDOUBLE_CLASS) {
+  if (! vlmxIsPlain(in[IN_I])) {
     mexErrMsgTxt("I must be DOUBLE.")  ;
   }
 
@@ -102,6 +102,13 @@ mexFunction(int nout, mxArray *out[],
   K = (ndims == 3) ? dims [2] : 1 ;
 
   I     =  mxGetPr (in[IN_I]) ;
+  if (! vlmxIsPlainScalar(in[IN_KERNEL_SIZE])) {
+    mexErrMsgTxt("KERNEL_SIZE must be a scalar.") ;
+  }
+  if (nin > 2 && ! vlmxIsPlainScalar(in[IN_MAX_DIST])) {
+    mexErrMsgTxt("MAX_DIST must be a scalar.") ;
+  }
+
   sigma = *mxGetPr (in[IN_KERNEL_SIZE]) ;
   tau   = 3*sigma;
   if (nin > 2)
-- 
2.43.0


From 98b72e88b792ce4c04f5d2f7cc2d460f6a8763ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:13 +0000
Subject: [PATCH 51/95] fix: sift: give keypoints outside the image a null
 descriptor

---
 vl/sift.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index c067702..70d3275 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1784,6 +1784,9 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(xi    <  0               ||
      xi    >= w               ||
@@ -1791,9 +1794,6 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
      yi    >= h -    1        )
     return ;
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
@@ -1973,9 +1973,15 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* skip if the keypoint octave is not current */
+  if(k->o  != f->o_cur)
+    return ;
+
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
-  if(k->o  != f->o_cur        ||
-     xi    <  0               ||
+  if(xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
      yi    >= h -    1        ||
@@ -1988,9 +1994,6 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
 
   /* VL_PRINTF("W = %d ; magnif = %g ; SBP = %g\n", W,magnif,SBP) ; */
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
-- 
2.43.0


From e80243e4da420db0da21340971189f1b6bf8ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 52/95] fix: toolbox: aib, imintegral: refuse arrays of other
 classes and sparse arrays

---
 toolbox/aib/vl_aib.c         | 2 +-
 toolbox/imop/vl_imintegral.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 33f506b..3c6833b 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -220,7 +220,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Too many output arguments.");
   }
 
-  if (!vlmxIsMatrix(in[IN_PCX], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_PCX], -1, -1) || mxGetN(in[IN_PCX]) < 1) {
     mexErrMsgTxt("PCX must be a real matrix.") ;
   }
 
diff --git a/toolbox/imop/vl_imintegral.c b/toolbox/imop/vl_imintegral.c
index 759cf0c..a9d06f5 100644
--- a/toolbox/imop/vl_imintegral.c
+++ b/toolbox/imop/vl_imintegral.c
@@ -48,7 +48,7 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (! mxIsNumeric(IN(I))) {
+  if (! mxIsNumeric(IN(I)) || mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
               "I is not numeric.") ;
   }
-- 
2.43.0


From 37b05071937e3f0b582c4adeb65c7c6944452a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:57 +0000
Subject: [PATCH 53/95] fix: toolbox: imwbackwardmx: do not read past the last
 row and column, nor an empty image

---
 toolbox/imop/vl_imwbackwardmx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d9e8840..51f1a6a 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -130,6 +130,10 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
+  if (M < 1 || N < 1) {
+    vlmxError(vlmxErrInvalidArgument, "I is empty.") ;
+  }
+
   Xmin = X_pt [0] ;
   Xmax = X_pt [N - 1] ;
   Ymin = Y_pt [0] ;
@@ -215,9 +219,9 @@ mexFunction(int nout, mxArray *out[],
 
 	  /* Weights. */
 	  double x0 = X_pt[j] ;
-	  double x1 = X_pt[j+1] ;
+	  double x1 = (j < N-1) ? X_pt[j+1] : x0 + 1;
 	  double y0 = Y_pt[i] ;
-	  double y1 = Y_pt[i+1] ;
+	  double y1 = (i < M-1) ? Y_pt[i+1] : y0 + 1;
 	  double wx = (x-x0)/(x1-x0) ;
 	  double wy = (y-y0)/(y1-y0) ;
 
-- 
2.43.0


From e2e3736ae373f07c481d45720228ef98908cf158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:15 +0000
Subject: [PATCH 54/95] fix: toolbox: aibhist: check that data are leaves and
 that links go forward; make the mode HIST work

---
 toolbox/aib/vl_aibhist.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 2e604d7..add2e1a 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -53,7 +53,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Too many output arguments.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_DATA], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_DATA], -1, -1)) {
     mexErrMsgTxt ("DATA must be a matrix of DOUBLE");
   }
 
@@ -79,7 +79,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     }
     mxGetString(in[IN_OPT], buf, buflen) ;
     buf [buflen - 1] = 0 ;
-    if (!vlmxCompareStringsI("hist", buf)) {
+    if (vlmxCompareStringsI("hist", buf) != 0) {
       mexErrMsgTxt("OPT must be equal to 'hist'") ;
     }
     histmode = 1 ;
@@ -95,7 +95,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   {
     char buf [1024] ;
     vl_uint32 max_node = 0 ;
-    vl_uint32 min_node = 0 ;
+    vl_uint32 min_node = P + 1 ;
     vl_uint32 last_leaf = 0 ;
     /*vl_uint32 root = 0 ;*/
 
@@ -116,7 +116,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       }
 
       /* check node points to something above him */
-      if ((node != 0) & (node != 1) & (node < i)) {
+      if ((node != 0) & (node != 1) & (node <= i)) {
         snprintf(buf, sizeof(buf),
                  "Backward link PARENTS[%d] = %u < %d", i, node, i) ;
         mexErrMsgTxt (buf) ;
@@ -136,12 +136,12 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
     /* process data */
     for (i = 0 ; i < N ; ++i) {
-      /*int w = 1 ;*/
+      vl_uint32 w = 1 ;
       vl_uint32 x = data [i] ;
 
       if (histmode) {
-        /*w = x ;*/
-        x = i ;
+        w = x ;
+        x = i + 1 ;
       }
 
       if ((x < 1) | (x > last_leaf)) {
@@ -158,7 +158,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       while (VL_TRUE) {
         vl_uint32 x_ = parents [x -1] ;
         /*     mexPrintf("%u : x_=%u, x=%u\n", i, x_, x) ; */
-        ++ tree [x - 1] ;
+        tree [x - 1] += w ;
         if ((x_ == x) | (x_ == 0) | (x_ == 1)) break ;
         x = x_ ;
       }
-- 
2.43.0


From 8005c770002be708ab7111c74903ad3a8ade9c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:15 +0000
Subject: [PATCH 55/95] fix: toolbox: aib: do not write past the tree if all
 the values are null

---
 toolbox/aib/vl_aib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 3c6833b..8027e25 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -66,7 +66,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
     }
   }
 
-  if (nnull == 0) return ;
+  if (nnull == 0 || nnull == nvalues) return ;
 
   /* = : leaves
    * 0 : null leaves
-- 
2.43.0


From 589cde675cd01f35afafd388d1cb3c979a1d11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 56/95] fix: toolbox: covdet: end the table of descriptor types

---
 toolbox/sift/vl_covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..7feeec0 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -93,7 +93,7 @@ const char* vlCovDetDescriptorNames [VL_COVDET_DESC_NUM] =
     "None", "Patch", "SIFT","LIOP"
 } ;
 
-VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM] =
+VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM + 1] =
 {
   {"None" ,   (vl_index)VL_COVDET_DESC_NONE             },
   {"Patch",   (vl_index)VL_COVDET_DESC_PATCH            },
-- 
2.43.0


From 3e790221195ea3d97d7ccb8707ac733b99445ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 57/95] fix: toolbox: erfill: mark the seed as visited

---
 toolbox/mser/vl_erfill.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 3ae1424..4243148 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -119,6 +119,7 @@ mexFunction(int nout, mxArray *out[],
       mexErrMsgTxt(buff) ;
     }
     members_pt [last++] = idx - 1 ;
+    visited_pt [idx - 1] = 1 ;
   }
   value = I_pt[ members_pt[0] ]  ;
 
-- 
2.43.0


From abac8f428fde0b82e076dc69d98b57831de585c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 58/95] fix: toolbox: inthist: use the mass and the labels of
 all the maps; empty and sparse arrays

---
 toolbox/misc/vl_inthist.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bab2143..663e396 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -116,7 +116,7 @@ mexFunction(int nout, mxArray *out[],
         if (mxGetNumberOfDimensions(optArg) != numDims ||
             height != dimsPt [0] ||
             width  != dimsPt [1] ||
-            ((numDims > 2) && numMaps < dimsPt[2])) {
+            ((numDims > 2) && numMaps != dimsPt[2])) {
           mexErrMsgTxt("MASS must have the same dimensions of LABELS.") ;
         }
 
@@ -126,6 +126,9 @@ mexFunction(int nout, mxArray *out[],
             dataClass != mxUINT32_CLASS) {
           mexErrMsgTxt("MASS must be of either class DOUBLE or UINT32.") ;
         }
+        if (mxIsSparse(optArg)) {
+          mexErrMsgTxt("MASS must be a dense array.") ;
+        }
         break ;
       }
 
@@ -147,11 +150,11 @@ mexFunction(int nout, mxArray *out[],
 
   /* If numLabels is not specified, guess it from LABELS */
   if (numLabels == 0) {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       numLabels = VL_MAX(numLabels, labelsPt [k]) ;
     }
   } else {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       if (labelsPt [k] > numLabels) {
         mexErrMsgTxt("LABELS contains an element greater than NUMLABELS.") ;
       }
@@ -189,11 +192,11 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < K ; ++ k) {                                      \
         size_t label = *labelsPt++ ;                                    \
         if (label) dataPt [k + (label - 1) * K]                         \
-                     += ((T*)massPt) [k] ;                              \
+                     += ((T*)massPt) [k + q * K] ;                      \
       }                                                                 \
     }                                                                   \
   }                                                                     \
-  for (k = 0 ; k < numLabels ; ++k) {                                   \
+  for (k = 0 ; K > 0 && k < numLabels ; ++k) {                          \
     INTEGRAL (dataPt + k*K, height,                                     \
               dataPt + k*K, height, width, height) ;                    \
   }
-- 
2.43.0


From 853c4499c0c2ac71488e88b2505c30675798fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 59/95] fix: toolbox: vlad: check the number of columns of
 ASSIGNMENTS

---
 toolbox/vlad/vl_vlad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 650e7b0..e04b3a6 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -111,7 +111,7 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
-  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, -1)) {
+  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
 
-- 
2.43.0


From 9155b749a7b1e79e88f79f6a7fedac5f1f04f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 60/95] fix: toolbox: gmm: check that DATA is a dense matrix

---
 toolbox/gmm/vl_gmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7b9445b..dd38a23 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1) || ! vlmxIsReal (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a real dense matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
-- 
2.43.0


From c86620b52a470ba12c3c8500be0c7cd2316b9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 61/95] fix: toolbox: ubcmatch, alldist2: refuse sparse arrays
 where they are not supported

---
 toolbox/misc/vl_alldist2.c | 4 ++--
 toolbox/sift/vl_ubcmatch.c | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alldist2.c b/toolbox/misc/vl_alldist2.c
index 83bff52..449417c 100644
--- a/toolbox/misc/vl_alldist2.c
+++ b/toolbox/misc/vl_alldist2.c
@@ -316,8 +316,8 @@ mexFunction(int nout, mxArray *out[],
 
   sparse = mxIsSparse(in[IN_S1]) ;
 
-  if (sparse && nin >=2 && mxIsNumeric(in[IN_S2])) {
-    if (! mxIsSparse(in[IN_S2])) {
+  if (nin >=2 && mxIsNumeric(in[IN_S2])) {
+    if (!! mxIsSparse(in[IN_S2]) != !! sparse) {
       mexErrMsgTxt ("X and Y must be either both full or sparse.") ;
     }
   }
diff --git a/toolbox/sift/vl_ubcmatch.c b/toolbox/sift/vl_ubcmatch.c
index 05525eb..00f95a0 100644
--- a/toolbox/sift/vl_ubcmatch.c
+++ b/toolbox/sift/vl_ubcmatch.c
@@ -147,6 +147,10 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("L1 and L2 must be of the same class") ;
   }
 
+  if (mxIsSparse(in[L1]) || mxIsSparse(in[L2])) {
+    mexErrMsgTxt("L1 and L2 must be dense") ;
+  }
+
   L1_pt = mxGetData(in[L1]) ;
   L2_pt = mxGetData(in[L2]) ;
 
-- 
2.43.0


From 4bd86b2724fe7354d96cfcc274757def16138fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 62/95] fix: toolbox: hog: check that there is a descriptor to
 render

---
 toolbox/misc/vl_hog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index 6f776de..ebd32a5 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -90,6 +90,9 @@ mexFunction(int nout, mxArray *out[],
     } else if (vlmxIsEqualToStringI(string_array, "render")) {
       /* image = vl_hog('render', descriptor) */
       mode = Render ;
+      if (nin < 2) {
+        vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
+      }
       descriptor_array = IN(CELLSIZE) ;
       next = 2 ;
       if (! mxIsNumeric(descriptor_array) ||
-- 
2.43.0


From 3dafbfec38f61db2fec8bed69cc7db8098e5b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 63/95] fix: toolbox: sift: check the class of FRAMES

---
 toolbox/sift/vl_sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..55f0b4b 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -238,7 +238,7 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_frames :
-      if (!vlmxIsMatrix(optarg, 4, -1)) {
+      if (!vlmxIsPlainMatrix(optarg, 4, -1)) {
         mexErrMsgTxt("'Frames' must be a 4 x N matrix.") ;
       }
       ikeys_array = mxDuplicateArray (optarg) ;
-- 
2.43.0


From 8665356271851880c68946f5a244afa69a548937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 64/95] fix: toolbox: imsmooth: empty images, negative S

---
 toolbox/imop/vl_imsmooth.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 6922e3c..cf05ddd 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -291,12 +291,23 @@ mexFunction(int nout, mxArray *out[],
   N = dims[1] ;
   K = (ndims > 2) ? dims[2] : 1 ;
 
+  if (! vlmxIsReal(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+             "I must be real and dense.") ;
+  }
+
   sigma = * mxGetPr(IN(S)) ;
+  sigma = VL_MAX(sigma, 0) ;
   if ((sigma < 0.01) && (step == 1)) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
   }
 
+  if (M == 0 || N == 0) {
+    OUT(J) = mxDuplicateArray(IN(I)) ;
+    return ;
+  }
+
   M_ = (M - 1) / step + 1 ;
   N_ = (N - 1) / step + 1 ;
   dims_ [0] = M_ ;
-- 
2.43.0


From 8d502fec33328455e9f3b086ba41d91d9754e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 65/95] fix: toolbox: homkermap: do not assume that arrays have
 at most 20 dimensions

---
 toolbox/misc/vl_homkermap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c7483fc..c8fd29f 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -159,10 +159,11 @@ mexFunction(int nout, mxArray *out[],
     vl_uindex j ;
     vl_size numElements = mxGetNumberOfElements(IN(X)) ;
     VlHomogeneousKernelMap * map = vl_homogeneouskernelmap_new (kernelType, gamma, n, period, windowType) ;
-    mwSize extDimensions [20] ;
+    mwSize * extDimensions = vl_malloc (sizeof(mwSize) * numDimensions) ;
     for (j = 0 ; j < numDimensions ; ++j) extDimensions[j] = dimensions[j] ;
     extDimensions[0] *= 2*n+1 ;
     OUT(V) = mxCreateNumericArray(numDimensions, extDimensions, dataClassId, mxREAL) ;
+    vl_free (extDimensions) ;
     switch (dataClassId) {
       case mxDOUBLE_CLASS :
       {
-- 
2.43.0


From 4bd0feb846761dbd81668dac7e5f1fdebd1b6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 66/95] fix: toolbox: ihashsum, ihashfind: check that K is
 positive

---
 toolbox/misc/vl_ihashfind.c | 3 +++
 toolbox/misc/vl_ihashsum.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 6932e2c..8a9fb9a 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -138,6 +138,9 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
+  if (K < 1) {
+    mexErrMsgTxt("K must be positive") ;
+  }
   if (K > res) {
     mexErrMsgTxt("K cannot be larger then the size of H") ;
   }
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5fb7f09..4a99f05 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -156,6 +156,9 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
+  if (K < 1) {
+    mexErrMsgTxt("K must be positive") ;
+  }
   if (K > res) {
     mexErrMsgTxt("K cannot be larger then the size of H") ;
   }
-- 
2.43.0


From 6c78c21b56c618afee16e6da758d07a49e6782d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 67/95] fix: toolbox: imsmooth: refuse sparse images

---
 toolbox/imop/vl_imsmooth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index cf05ddd..9a65ec0 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -291,9 +291,9 @@ mexFunction(int nout, mxArray *out[],
   N = dims[1] ;
   K = (ndims > 2) ? dims[2] : 1 ;
 
-  if (! vlmxIsReal(IN(I))) {
+  if (mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
-             "I must be real and dense.") ;
+             "I must be dense.") ;
   }
 
   sigma = * mxGetPr(IN(S)) ;
-- 
2.43.0


From c1ad56f22606b84ef051b24cea9ab0cb00c31b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 68/95] fix: toolbox: alldist: do not recognise norms that are
 not implemented

---
 toolbox/misc/vl_alldist.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/toolbox/misc/vl_alldist.c b/toolbox/misc/vl_alldist.c
index 17bf510..28d64ba 100644
--- a/toolbox/misc/vl_alldist.c
+++ b/toolbox/misc/vl_alldist.c
@@ -15,10 +15,8 @@ the terms of the BSD license (see the COPYING file).
 #include <vl/mathop.h>
 
 enum {
-  opt_LINF,
   opt_L2,
   opt_L1,
-  opt_L0,
   opt_CHI2,
   opt_HELL,
   opt_JS,
@@ -31,10 +29,8 @@ enum {
 } ;
 
 vlmxOption  options [] = {
-{"linf",         0,   opt_LINF          },
 {"l2",           0,   opt_L2            },
 {"l1",           0,   opt_L1            },
-{"l0",           0,   opt_L0            },
 {"chi2",         0,   opt_CHI2          },
 {"hell",         0,   opt_HELL          },
 {"js",           0,   opt_JS            },
-- 
2.43.0


From d34d029534f676386898d0e37160c476df63d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 69/95] fix: toolbox: hikmeans: check that there are at least
 two clusters

---
 toolbox/kmeans/vl_hikmeans.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index b18ffce..e219cac 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -148,6 +148,10 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Cannot have more clusters than data.") ;
   }
 
+  if (K < 2) {
+    mexErrMsgTxt ("K must be a scalar not smaller than 2.") ;
+  }
+
   data = (vl_uint8 *) mxGetPr (in[IN_DATA]) ;
 
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
-- 
2.43.0


From 15420ee1241fd837548fdaaf1ed70b28f8e770cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 70/95] fix: toolbox: hikmeanspush: check that DATA and TREE
 are consistent

---
 toolbox/kmeans/vl_hikmeanspush.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index efcbc6c..e6ef97c 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -45,7 +45,7 @@ vlmxOption  options [] = {
  **/
 
 static VlHIKMNode *
-xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
+xcreate (VlHIKMTree *tree, mxArray const *mnode, int i, vl_size depth)
 {
   mxArray const *mcenters, *msub ;
   VlHIKMNode *node ;
@@ -72,6 +72,9 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   if ((vl_size)node_K > tree->K) {
     mexErrMsgTxt("A NODE.CENTERS has more columns than overall clusters TREE.K.") ;
   }
+  if (node_K == 0) {
+    mexErrMsgTxt("A NODE.CENTERS has zero columns.") ;
+  }
   if (tree->M == 0) {
     tree->M = M ;
   } else if (M != tree->M) {
@@ -87,6 +90,10 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   /* has any childer? */
   if (msub) {
 
+    if (depth <= 1) {
+      mexErrMsgTxt("TREE is deeper than TREE.DEPTH.") ;
+    }
+
     /* sanity checks */
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
       mexErrMsgTxt("A NODE.SUB is not a MATLAB structure array.") ;
@@ -97,7 +104,7 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
 
     node->children = mxMalloc (sizeof(VlHIKMNode *) * node_K) ;
     for(k = 0 ; k < node_K ; ++ k) {
-      node->children[k] = xcreate (tree, msub, k) ;
+      node->children[k] = xcreate (tree, msub, k, depth - 1) ;
     }
   }
   return node ;
@@ -143,7 +150,7 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
   tree->K = (vl_size)K ;
   tree->M = 0 ; /* to be initialized later */
   tree->method = method_type ;
-  tree->root = xcreate (tree, mtree, 0) ;
+  tree->root = xcreate (tree, mtree, 0, tree->depth) ;
   return tree ;
 }
 
@@ -223,6 +230,10 @@ void mexFunction (int nout, mxArray * out[],
     tree = matlab_to_hikm (in[IN_TREE], method_type) ;
     depth = vl_hikm_get_depth (tree) ;
 
+    if (mxGetM (in[IN_DATA]) != vl_hikm_get_ndims (tree)) {
+      mexErrMsgTxt("DATA and the centers of TREE must have the same number of rows.") ;
+    }
+
     if (verb) {
       mexPrintf("vl_hikmeanspush: ndims: %d K: %d depth: %d\n",
                 vl_hikm_get_ndims (tree),
-- 
2.43.0


From 036e6ea82d66d90cc65f53865df45b84dd65216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:49 +0000
Subject: [PATCH 71/95] fix: toolbox: kdtree: check that a forest is consistent

---
 toolbox/misc/kdtree.h | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/toolbox/misc/kdtree.h b/toolbox/misc/kdtree.h
index b66f003..89d8767 100644
--- a/toolbox/misc/kdtree.h
+++ b/toolbox/misc/kdtree.h
@@ -231,6 +231,12 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     FOREST.TREES
    */
 
+  if (! mxIsStruct (forest_array) ||
+      mxGetNumberOfElements (forest_array) != 1) {
+    vlmxError (vlmxErrInconsistentData,
+              "FOREST must be a 1 x 1 structure.") ;
+  }
+
   distance_array = mxGetField (forest_array, 0, "distance") ;
   if(distance_array && vlmxIsString (distance_array, -1)){
     if (vlmxCompareToStringI(distance_array, "l1") == 0) {
@@ -246,11 +252,6 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
               "FOREST.DISTANCE must be a string.") ;
   }
 
-  if (! mxIsStruct (forest_array) ||
-      mxGetNumberOfElements (forest_array) != 1) {
-    vlmxError (vlmxErrInconsistentData,
-              "FOREST must be a 1 x 1 structure.") ;
-  }
   dimension_array = mxGetField (forest_array, 0, "dimension") ;
   if (! dimension_array ||
       ! vlmxIsPlainScalar (dimension_array) ||
@@ -266,7 +267,7 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
              "FOREST.NUMDATA must be a poisitve integer.") ;
   }
   trees_array = mxGetField (forest_array, 0, "trees") ;
-  if (! mxIsStruct (trees_array)) {
+  if (! trees_array || ! mxIsStruct (trees_array)) {
     vlmxError(vlmxErrInconsistentData,
              "FOREST.TREES must be a structure array.") ;
   }
@@ -326,7 +327,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     lowerBound_array = mxGetField (nodes_array, 0, "lowerBound") ;
     upperBound_array = mxGetField (nodes_array, 0, "upperBound") ;
 
-    numUsedNodes = mxGetN (lowerChild_array) ;
+    numUsedNodes = lowerChild_array ? mxGetN (lowerChild_array) : 0 ;
+    if (numUsedNodes < 1) {
+      vlmxError(vlmxErrInconsistentData,
+               "FOREST.TREES(%d).NODES is empty.", ti+1) ;
+    }
     maxNumNodes += numUsedNodes ;
 
     if (! lowerChild_array ||
@@ -353,13 +358,13 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.SPLITTHRESHOLD must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! lowerBound_array ||
         ! vlmxIsMatrix (lowerBound_array, 1, numUsedNodes) ||
         mxGetClassID (lowerBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.LOWERBOUND must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! upperBound_array ||
         ! vlmxIsMatrix (upperBound_array, 1, numUsedNodes) ||
         mxGetClassID (upperBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
@@ -407,6 +412,14 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
                     ni+1,d) ;
         }
 
+        /* a node has either two children or a range of data */
+        if ((lc >= 1 && (uc < 1 || d < 1)) ||
+            (lc < 1 && (lc == 0 || uc > lc))) {
+          vlmxError (vlmxErrInconsistentData,
+                     "TREE.NODES(%d) is neither an inner node nor a leaf",
+                     ni+1) ;
+        }
+
         tree->nodes[ni].parent = 0 ;
         tree->nodes[ni].upperChild = (uc >= 1) ? uc-1 : uc ;
         tree->nodes[ni].lowerChild = (lc >= 1) ? lc-1 : lc ;
@@ -421,6 +434,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vl_uindex di ;
       vl_uint32 * dataIndex = mxGetData (dataIndex_array) ;
       for (di = 0 ; di < numData ; ++ di) {
+        if (dataIndex [di] < 1 || dataIndex [di] > numData) {
+          vlmxError (vlmxErrInconsistentData,
+                     "TREE.DATAINDEX(%d)=%d out of bounds",
+                     di+1, dataIndex [di]) ;
+        }
         tree->dataIndex[di].index = dataIndex [di] - 1 ;
       }
     }
-- 
2.43.0


From e83e6977cb0b671eb25f076e00bd1c38fc876066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:28 +0000
Subject: [PATCH 72/95] fix: dsift: do not read past images one pixel wide or
 high

---
 vl/dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..4b5bf0d 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -685,7 +685,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       int bint ;
 
       /* y derivative */
-      if (y == 0) {
+      if (self->imHeight == 1) {
+        gy = 0 ;
+      } else if (y == 0) {
         gy = at(x,y+1) - at(x,y) ;
       } else if (y == self->imHeight - 1) {
         gy = at(x,y) - at(x,y-1) ;
@@ -694,7 +696,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       }
 
       /* x derivative */
-      if (x == 0) {
+      if (self->imWidth == 1) {
+        gx = 0 ;
+      } else if (x == 0) {
         gx = at(x+1,y) - at(x,y) ;
       } else if (x == self->imWidth - 1) {
         gx = at(x,y) - at(x-1,y) ;
-- 
2.43.0


From cbe8306dcaa7cf828db292f15fc313e46f00b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:28 +0000
Subject: [PATCH 73/95] fix: toolbox: homkermap, sampleinthist, kmeans: refuse
 sparse arrays

---
 toolbox/kmeans/vl_kmeans.c      | 5 +++++
 toolbox/misc/vl_homkermap.c     | 4 ++++
 toolbox/misc/vl_sampleinthist.c | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 4976a1b..0c02304 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -97,6 +97,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
               "Too many output arguments.");
   }
 
+  if (! vlmxIsMatrix (IN(DATA), -1, -1) || ! vlmxIsReal (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument,
+               "DATA is not a real dense matrix.") ;
+  }
+
   classID = mxGetClassID (IN(DATA)) ;
   switch (classID) {
     case mxSINGLE_CLASS: dataType = VL_TYPE_FLOAT ; break ;
diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c8fd29f..60fabb4 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -85,6 +85,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument, "X is neither DOUBLE nor SINGLE.") ;
   }
 
+  if (mxIsSparse(IN(X))) {
+    vlmxError(vlmxErrInvalidArgument, "X is not dense.") ;
+  }
+
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
   dimensions = mxGetDimensions(IN(X)) ;
 
diff --git a/toolbox/misc/vl_sampleinthist.c b/toolbox/misc/vl_sampleinthist.c
index b036802..eefebe9 100644
--- a/toolbox/misc/vl_sampleinthist.c
+++ b/toolbox/misc/vl_sampleinthist.c
@@ -81,6 +81,11 @@ mexFunction(int nout, mxArray *out[],
              "INTHIST must be of either class DOUBLE or UINT32.") ;
   }
 
+  if (mxIsSparse(in[IN_INTHIST])) {
+    vlmxError(vlmxErrInvalidArgument,
+             "INTHIST must be a dense array.") ;
+  }
+
   numDims = mxGetNumberOfDimensions(in[IN_INTHIST]) ;
   if (numDims > 3) {
     vlmxError(vlmxErrInvalidArgument,
-- 
2.43.0


From 0faffb833ad95d82554a12f5807d684b5a0b6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:28 +0000
Subject: [PATCH 74/95] fix: toolbox: kdtreebuild, kdtreequery, simdctrl,
 threads: check that scalars are numbers

---
 toolbox/misc/vl_kdtreebuild.c | 2 +-
 toolbox/misc/vl_kdtreequery.c | 4 ++--
 toolbox/misc/vl_simdctrl.c    | 2 +-
 toolbox/misc/vl_threads.c     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 05c9dba..8f42778 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -111,7 +111,7 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_num_trees :
-        if (! vlmxIsScalar(optarg) ||
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg) ||
             (numTrees = mxGetScalar(optarg)) < 1) {
           vlmxError(vlmxErrInvalidOption,
                    "NUMTREES must be not smaller than one") ;
diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 08c5e2b..1ca0527 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -96,7 +96,7 @@ mexFunction(int nout, mxArray *out[],
   while ((opt = vlmxNextOption (in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
       case opt_num_neighs :
-        if (! vlmxIsScalar(optarg) ||
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg) ||
             (numNeighbors = mxGetScalar(optarg)) < 1) {
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
@@ -104,7 +104,7 @@ mexFunction(int nout, mxArray *out[],
         break;
 
       case opt_max_num_comparisons :
-        if (! vlmxIsScalar(optarg)) {
+        if (! vlmxIsScalar(optarg) || ! vlmxIsReal(optarg)) {
           vlmxError(vlmxErrInvalidArgument,
                     "MAXNUMCOMPARISONS must be a scalar.") ;
         }
diff --git a/toolbox/misc/vl_simdctrl.c b/toolbox/misc/vl_simdctrl.c
index 15f0b2f..57fb31f 100644
--- a/toolbox/misc/vl_simdctrl.c
+++ b/toolbox/misc/vl_simdctrl.c
@@ -36,7 +36,7 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
       "At most one argument") ;
   }
-  if (!vlmxIsScalar(IN(ENABLED))) {
+  if (!vlmxIsScalar(IN(ENABLED)) || (!mxIsNumeric(IN(ENABLED)) && !mxIsLogical(IN(ENABLED)))) {
     vlmxError(vlmxErrInvalidArgument,
       "ENABLED must be a scalar") ;
   }
diff --git a/toolbox/misc/vl_threads.c b/toolbox/misc/vl_threads.c
index fd2fba3..4851ec1 100644
--- a/toolbox/misc/vl_threads.c
+++ b/toolbox/misc/vl_threads.c
@@ -37,7 +37,7 @@ mexFunction(int nout VL_UNUSED, mxArray *out[],
     return ;
   }
 
-  if (!vlmxIsScalar(IN(NUM))) {
+  if (!vlmxIsScalar(IN(NUM)) || !mxIsNumeric(IN(NUM))) {
     vlmxError(vlmxErrInvalidArgument, "NUM is not a scalar.") ;
   }
 
-- 
2.43.0


From fc00d468b3486337a10db48c4dfa74965b8f737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:24 +0000
Subject: [PATCH 75/95] fix: toolbox: ihashsum: refuse complex arrays

---
 toolbox/misc/vl_ihashsum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 4a99f05..6781245 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -124,6 +124,10 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("ID and X must havethe same number of rows") ;
   }
 
+  if (mxIsComplex(in[IN_H]) || mxIsComplex(in[IN_ID]) || mxIsComplex(in[IN_NEXT])) {
+    mexErrMsgTxt("H, ID, NEXT must be real") ;
+  }
+
   if(! vlmxIsPlainScalar(in[IN_K])) {
     mexErrMsgTxt("K must be a scalar") ;
   }
-- 
2.43.0


From 3f8a580615c5b06514dfb4146263fbd88beb8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 76/95] fix: toolbox: svmtrain: check that DIAGNOSTICFREQUENCY
 is positive

---
 toolbox/misc/vl_svmtrain.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index e62d9c9..ad7a3f5 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -465,7 +465,11 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       case opt_epsilon: GET_NN_SCALAR(EPSLON, epsilon) ; break ;
       case opt_bias_multiplier: GET_NN_SCALAR(BIASMULTIPLIER, biasMultipler) ; break ;
       case opt_max_num_iterations: GET_NN_SCALAR(MAXNUMITERATIONS, maxNumIterations) ; break ;
-      case opt_diagnostic_frequency: GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
+      case opt_diagnostic_frequency: GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ;
+        if (diagnosticFrequency < 1) {
+          vlmxError(vlmxErrInvalidArgument, "DIAGNOSTICFREQUENCY is not positive.") ;
+        }
+        break ;
       case opt_diagnostic_function:
         if (!mxIsClass(optarg ,"function_handle")) {
           mexErrMsgTxt("DIAGNOSTICSFUNCTION is not a function handle.");
-- 
2.43.0


From 9384d5df444db3cebb8f3224fc7f67d2fecf2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 77/95] fix: toolbox: covdet: do not return undefined scores
 for custom frames

---
 toolbox/sift/vl_covdet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 7feeec0..ce7a4a1 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -507,6 +507,7 @@ mexFunction(int nout, mxArray *out[],
         double const * uframe = userFrames + userFrameDimension * k ;
         double a11, a21, a12, a22 ;
         VlCovDetFeature feature ;
+        memset (&feature, 0, sizeof(feature)) ;
         feature.peakScore = VL_INFINITY_F ;
         feature.edgeScore = 1.0 ;
         feature.frame.x = (float)uframe[1] - 1 ;
-- 
2.43.0


From 0a1ec2876b566e2028b036ce99a11807059228ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 78/95] fix: toolbox: sift: refuse empty images

---
 toolbox/sift/vl_sift.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 55f0b4b..54800b7 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -177,6 +177,10 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must be a matrix of class SINGLE") ;
   }
 
+  if (mxIsEmpty (in[IN_I])) {
+    mexErrMsgTxt("I must not be empty") ;
+  }
+
   data = (vl_sift_pix*) mxGetData (in[IN_I]) ;
   M    = mxGetM (in[IN_I]) ;
   N    = mxGetN (in[IN_I]) ;
-- 
2.43.0


From 70d89e8b7b84b7acdf226192b89df9601a02826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:52 +0000
Subject: [PATCH 79/95] fix: toolbox: covdet, liop: refuse empty images and too
 many LIOP neighbours

---
 toolbox/sift/vl_covdet.c | 8 +++++---
 toolbox/sift/vl_liop.c   | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index ce7a4a1..6ee4e6b 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -249,7 +249,8 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, 0) ;
   }
 
-  if (mxGetNumberOfDimensions(IN(I)) != 2 ||
+  if (mxIsEmpty(IN(I)) ||
+      mxGetNumberOfDimensions(IN(I)) != 2 ||
       mxGetClassID(IN(I)) != mxSINGLE_CLASS){
     vlmxError(vlmxErrInvalidArgument, "I must be a matrix of class SINGLE.") ;
   }
@@ -373,8 +374,9 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_liop_neighbours :
-      if (!vlmxIsPlainScalar(optarg) || (liopNumNeighbours = (vl_int)*mxGetPr(optarg)) <= 0) {
-        vlmxError(vlmxErrInvalidArgument, "number of LIOPNUMNEIGHBOURS is not a positive scalar.") ;
+      if (!vlmxIsPlainScalar(optarg) || (liopNumNeighbours = (vl_int)*mxGetPr(optarg)) <= 0 ||
+          liopNumNeighbours > 12) {
+        vlmxError(vlmxErrInvalidArgument, "number of LIOPNUMNEIGHBOURS is not a positive scalar not larger than 12.") ;
       }
       break ;
 
diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index 1f742ad..9ca49f6 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -107,8 +107,9 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_num_neighbours :
-        if (!vlmxIsPlainScalar(optarg) || (numNeighbours = (int) *mxGetPr(optarg)) < 2) {
-            vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is not a scalar or it is less than two.") ;
+        if (!vlmxIsPlainScalar(optarg) || (numNeighbours = (int) *mxGetPr(optarg)) < 2 ||
+              numNeighbours > 12) {
+            vlmxError(vlmxErrInvalidArgument,"NUMNEIGHBOURS is not a scalar or it is less than two or more than twelve.") ;
         }
         break ;
 
-- 
2.43.0


From 2257dc6cfdf0c79afb2fa3068746458a1af9aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:16 +0000
Subject: [PATCH 80/95] fix: toolbox: imsmooth: refuse a negative SUBSAMPLE

---
 toolbox/imop/vl_imsmooth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 9a65ec0..f6ddd69 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -230,11 +230,11 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be a scalar.") ;
         }
-        step = *mxGetPr(optarg) ;
-        if (step < 1) {
+        if (! (*mxGetPr(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
+        step = *mxGetPr(optarg) ;
         break ;
 
       case opt_kernel :
-- 
2.43.0


From 0565208bd42938885df99aebd84f08964e03e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:26 +0000
Subject: [PATCH 81/95] fix: covdet: refuse degenerate frames when extracting
 patches

---
 vl/covdet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 7ae08d1..376e5cc 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2290,6 +2290,9 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
     for (i = 0 ; i < 4 ; ++i) {
       double x = A[0] * boxx[i] + A[2] * boxy[i] + T[0] ;
       double y = A[1] * boxx[i] + A[3] * boxy[i] + T[1] ;
+      if (vl_is_nan_d(x) || vl_is_nan_d(y)) {
+        return vl_set_last_error(VL_ERR_BAD_ARG, "Degenerate frame.") ;
+      }
       x0 = VL_MIN(x0, x) ;
       x1 = VL_MAX(x1, x) ;
       y0 = VL_MIN(y0, y) ;
-- 
2.43.0


From e33cb91190222d72782507a09935321aaa7ad608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 82/95] fix: toolbox: ihashfind, ihashsum: refuse tables with
 cyclic chains

---
 toolbox/misc/vl_ihashfind.c | 6 +++++-
 toolbox/misc/vl_ihashsum.c  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 8a9fb9a..f877421 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -155,7 +155,7 @@ mexFunction(int nout, mxArray *out[],
   for (i = 0 ; i < N ; ++i) {
     /* hash */
     unsigned int h1, h2 ;
-    unsigned int j, p = 0 ;
+    unsigned int j, p = 0, steps ;
 
     if (is_null (x + i * ndims, ndims)) {
       *sel++ = 0 ;
@@ -175,9 +175,13 @@ mexFunction(int nout, mxArray *out[],
     }
 
     /* handle extended table */
+    steps = 0 ;
     while (! is_null (id + p * ndims,                ndims) &&
            ! is_equal(id + p * ndims, x + i * ndims, ndims)) {
       if (next[p] == 0) break ;
+      if (++ steps > res) {
+        mexErrMsgTxt("NEXT contains a cycle") ;
+      }
       p = next [p] - 1 ;
     }
 
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 6781245..ea39ad1 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -178,7 +178,7 @@ mexFunction(int nout, mxArray *out[],
   for (i = 0 ; i < N ; ++i) {
     /* hash */
     unsigned int h1, h2 ;
-    unsigned int j, p = 0 ;
+    unsigned int j, p = 0, steps ;
 
     /* cannot hash null labels */
     if (is_null (x + i * ndims, ndims)) {
@@ -201,6 +201,7 @@ mexFunction(int nout, mxArray *out[],
     /* if after scanning the K elements in the hash table an empty/matching
       bucket is still
        not found, start using next to go into the overflow table */
+    steps = 0 ;
     while (! is_null (id + p * ndims,                ndims) &&
            ! is_equal(id + p * ndims, x + i * ndims, ndims)) {
       if (next [p] > res) {
@@ -220,6 +221,9 @@ mexFunction(int nout, mxArray *out[],
         }
         next [p] = ++ last ;
       }
+      if (++ steps > res) {
+        mexErrMsgTxt("NEXT contains a cycle") ;
+      }
       p = next [p] - 1 ;
     }
 
-- 
2.43.0


From c5c7aac2384d09a27aae72a38cbdf422aa5acbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:45 +0000
Subject: [PATCH 83/95] fix: toolbox: twister: do not read sparse seeds as full
 ones

---
 toolbox/misc/vl_twister.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 265baab..5aff90a 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -154,6 +154,7 @@ mexFunction(int nout, mxArray *out[],
           for (i = 0 ; i < 624 ; ++i) rand->mt[i] = data[i] ;
           rand->mti = data [624] ;
         } else if (mxIsNumeric(in[1])                    &&
+                   ! mxIsSparse(in[1])                   &&
                    mxGetClassID(in[1]) == mxDOUBLE_CLASS &&
                    mxGetNumberOfElements(in[1]) <= 624) {
           /* TWISTER('state', KEY) */
-- 
2.43.0


From 7f7fed7c1ddd4134caea54cb98606840b2f9c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:45 +0000
Subject: [PATCH 84/95] fix: generic: shift all bits out in VL_SHIFT_LEFT

---
 vl/generic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/generic.h b/vl/generic.h
index 4ef87f2..f81610a 100644
--- a/vl/generic.h
+++ b/vl/generic.h
@@ -194,7 +194,7 @@ VL_EXPORT printf_func_t vl_get_printf_func (void) ;
  ** The macro is equivalent to the builtin @c << operator, but it
  ** supports negative shifts too.
  **/
-#define VL_SHIFT_LEFT(x,n) (((n)>=0)?((x)<<(n)):((x)>>-(n)))
+#define VL_SHIFT_LEFT(x,n) (((n)>=0)?((x)<<(n)):((-(n) < (signed)(8*sizeof(x)))?((x)>>-(n)):0))
 /* @} */
 
 /** ------------------------------------------------------------------
-- 
2.43.0


From fa6eeae51ffd142dbd3e32952eb13686a3c1d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 85/95] fix: toolbox: kdtreequery: do not store distances that
 were not asked for

---
 toolbox/misc/vl_kdtreequery.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 1ca0527..11b6586 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -123,10 +123,12 @@ mexFunction(int nout, mxArray *out[],
   numQueries = mxGetN (query_array) ;
 
   out[OUT_INDEX] = mxCreateNumericMatrix (numNeighbors, numQueries, mxUINT32_CLASS, mxREAL) ;
-  out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
-
   index = mxGetData (out[OUT_INDEX]) ;
-  distance = mxGetData (out[OUT_DISTANCE]) ;
+  distance = NULL ;
+  if (nout > 1) {
+    out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+    distance = mxGetData (out[OUT_DISTANCE]) ;
+  }
 
   if (verbose) {
     VL_PRINTF ("vl_kdforestquery: number of queries: %d\n", numQueries) ;
-- 
2.43.0


From 1a4df16ac605f5b2cf17ab38862b6fe164c65965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 86/95] fix: toolbox: svmtrain: do not store a bias that was
 not asked for

---
 toolbox/misc/vl_svmtrain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index ad7a3f5..f78cab2 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -626,7 +626,9 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
              vl_svm_get_model(svm),
              vl_svm_get_dimension(svm) * sizeof(double)) ;
     }
-    out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    if (nout >= 2) {
+      out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    }
     if (nout >= 3) {
       out[OUT_INFO] = makeInfoStruct(svm) ;
     }
-- 
2.43.0


From 87e8908f3999b27d2413da476586197a9fb71841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 87/95] fix: toolbox: quickshift: do not store results that
 were not asked for

---
 toolbox/quickshift/vl_quickshift.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 7b9c1b8..5c57443 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const  *optarg ;
 
   double const *I ;
-  double *parents, *dists, *density ;
+  double *parents, *dists = NULL, *density = NULL ;
   int *parentsi;
   double sigma ;
   double tau ;
@@ -129,11 +129,15 @@ mexFunction(int nout, mxArray *out[],
   out[OUT_PARENTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
   parents          = mxGetPr (out[OUT_PARENTS]) ;
 
-  out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  dists            = mxGetPr (out[OUT_DISTS]) ;
+  if (nout > 1) {
+    out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    dists            = mxGetPr (out[OUT_DISTS]) ;
+  }
 
-  out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  density          = mxGetPr (out[OUT_DENSITY]) ;
+  if (nout > 2) {
+    out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    density          = mxGetPr (out[OUT_DENSITY]) ;
+  }
 
   if (verb) {
     mexPrintf("quickshift: [N1,N2,K]: [%d,%d,%d]\n", N1,N2,K) ;
@@ -154,8 +158,8 @@ mexFunction(int nout, mxArray *out[],
   parentsi = vl_quickshift_get_parents(q);
   /* Copy results */
   for(i = 0; i < N1*N2; i++) parents[i] = parentsi[i] + 1;
-  memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
-  memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  if (nout > 1) memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
+  if (nout > 2) memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
 
   /* Delete quick shift object */
   vl_quickshift_delete(q);
-- 
2.43.0


From b6f9ab08d3b848ba54901b91ba76705ef713ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 88/95] fix: toolbox: ihashsum: do not store results that were
 not asked for

---
 toolbox/misc/vl_ihashsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index ea39ad1..cdbd539 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -246,6 +246,6 @@ mexFunction(int nout, mxArray *out[],
   mxSetM(id_,   ndims) ;
 
   out[OUT_H]    = h_ ;
-  out[OUT_ID]   = id_ ;
-  out[OUT_NEXT] = next_ ;
+  if (nout > 1) out[OUT_ID]   = id_ ;
+  if (nout > 2) out[OUT_NEXT] = next_ ;
 }
-- 
2.43.0


From 110c2b765ba2b23fd74708218b80703e3a941d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 89/95] fix: toolbox: gmm: do not store results that were not
 asked for

---
 toolbox/gmm/vl_gmm.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index dd38a23..74e29c3 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -340,21 +340,23 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* copy centers */
   OUT(MEANS) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
-  OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
-
   memcpy (mxGetData(OUT(MEANS)),
           vl_gmm_get_means (gmm),
           vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
 
-  memcpy (mxGetData(OUT(COVARIANCES)),
-          vl_gmm_get_covariances (gmm),
-          vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  if (nout > 1) {
+    OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(COVARIANCES)),
+            vl_gmm_get_covariances (gmm),
+            vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
-  memcpy (mxGetData(OUT(PRIORS)),
-          vl_gmm_get_priors (gmm),
-          vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  if (nout > 2) {
+    OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(PRIORS)),
+            vl_gmm_get_priors (gmm),
+            vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
   /* optionally return loglikelihood */
   if (nout > 3) {
@@ -363,6 +365,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* optionally return posterior probabilities */
   if (nout > 4) {
+    OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
     memcpy (mxGetData(OUT(POSTERIORS)),
             vl_gmm_get_posteriors (gmm),
             vl_get_type_size (dataType) * numData * vl_gmm_get_num_clusters(gmm)) ;
-- 
2.43.0


From 2687385efd58371c34e449e0819fa978512d3606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:58 +0000
Subject: [PATCH 90/95] fix: toolbox: dsift: do not store descriptors that were
 not asked for

---
 toolbox/sift/vl_dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index cf3aafc..1065022 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -273,7 +273,9 @@ mexFunction(int nout, mxArray *out[],
       dims [0] = descrSize ;
       dims [1] = numFrames ;
 
-      if (floatDescriptors) {
+      if (nout < 2) {
+        /* the descriptors were not asked for */
+      } else if (floatDescriptors) {
         out[OUT_DESCRIPTORS] = mxCreateNumericArray
         (2, dims, mxSINGLE_CLASS, mxREAL) ;
       } else {
@@ -293,7 +295,7 @@ mexFunction(int nout, mxArray *out[],
     {
       float *tmpDescr = mxMalloc(sizeof(float) * descrSize) ;
       double *outFrameIter = mxGetPr(out[OUT_FRAMES]) ;
-      void *outDescrIter = mxGetData(out[OUT_DESCRIPTORS]) ;
+      void *outDescrIter = (nout > 1) ? mxGetData(out[OUT_DESCRIPTORS]) : NULL ;
       for (k = 0 ; k < numFrames ; ++k) {
         *outFrameIter++ = frames[k].y + 1 ;
         *outFrameIter++ = frames[k].x + 1 ;
@@ -303,6 +305,8 @@ mexFunction(int nout, mxArray *out[],
         if (norm)
           *outFrameIter++ = frames [k].norm ;
 
+        if (nout < 2) continue ;
+
         vl_dsift_transpose_descriptor (tmpDescr,
                                        descrs + descrSize * k,
                                        geom.numBinT,
-- 
2.43.0


From 1528803f4fefa136e45599e335b603c5f784cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 91/95] fix: toolbox: imwbackward: do not store results that
 were not asked for

---
 toolbox/imop/vl_imwbackwardmx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index 51f1a6a..85e8728 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -122,8 +122,10 @@ mexFunction(int nout, mxArray *out[],
 
   if (nout > 1) {
     out[wIx] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
-    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIx_pt = mxGetPr (out[wIx]) ;
+  }
+  if (nout > 2) {
+    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIy_pt = mxGetPr (out[wIy]) ;
   }
 
@@ -263,7 +265,7 @@ mexFunction(int nout, mxArray *out[],
 
 	*(wI_pt  + jp*Mp + ip) = z ;
 	*(wIx_pt + jp*Mp + ip) = zx ;
-	*(wIy_pt + jp*Mp + ip) = zy ;
+	if (wIy_pt) *(wIy_pt + jp*Mp + ip) = zy ;
       }
     }
   }
-- 
2.43.0


From 06ae1f3222f5f9470277bef9d6c62c817c6069a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 92/95] fix: toolbox: kdtreequery: do not read arguments before
 counting them

---
 toolbox/misc/vl_kdtreequery.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 11b6586..efa64f8 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -51,9 +51,9 @@ mexFunction(int nout, mxArray *out[],
   mxArray const *optarg ;
 
   VlKDForest * forest ;
-  mxArray const * forest_array = in[IN_FOREST] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * query_array = in[IN_QUERY] ;
+  mxArray const * forest_array ;
+  mxArray const * data_array ;
+  mxArray const * query_array ;
   void * query ;
   vl_uint32 * index ;
   void * distance ;
@@ -77,6 +77,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
+  forest_array = in[IN_FOREST] ;
+  data_array = in[IN_DATA] ;
+  query_array = in[IN_QUERY] ;
+
   forest = new_kdforest_from_array (forest_array, data_array) ;
 
   dataClass = mxGetClassID (data_array) ;
-- 
2.43.0


From 718ed196c66c861c6b6c617fd9cdf8cb56b27652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:04 +0000
Subject: [PATCH 93/95] fix: toolbox: vlad: do not read arguments before
 counting them

---
 toolbox/vlad/vl_vlad.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e04b3a6..1a6c362 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -45,9 +45,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
   int next = IN_END ;
   mxArray const  *optarg ;
 
-  mxArray const * means_array = in[IN_MEANS] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * assign_array = in[IN_ASSIGNMENTS] ;
+  mxArray const * means_array ;
+  mxArray const * data_array ;
+  mxArray const * assign_array ;
 
   vl_size numClusters ;
   vl_size dimension ;
@@ -77,6 +77,10 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
                "At most one output argument.");
   }
 
+  means_array = in[IN_MEANS] ;
+  data_array = in[IN_DATA] ;
+  assign_array = in[IN_ASSIGNMENTS] ;
+
   if (!vlmxIsMatrix(IN(DATA),-1,-1)) {
     vlmxError (vlmxErrInvalidArgument,
                "DATA is not a dense matrix.") ;
-- 
2.43.0


From 296e8d1635743aaa8d60c6514a7d7b73bf02950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 94/95] fix: covdet: do not read beyond the scale space of a
 small image

---
 vl/covdet.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 376e5cc..5f21282 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1688,7 +1688,8 @@ vl_covdet_append_feature (VlCovDet * self, VlCovDetFeature const * feature)
  ** @return status.
  **
  ** @a width and @a height must be at least one pixel. The function
- ** fails by returing ::VL_ERR_ALLOC if the memory is insufficient.
+ ** fails by returing ::VL_ERR_ALLOC if the memory is insufficient and
+ ** ::VL_ERR_BAD_ARG if the image has no pixels left in the first octave.
  **/
 
 int
@@ -1708,11 +1709,18 @@ vl_covdet_put_image (VlCovDet * self,
   assert (height >= 1) ;
 
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
-  lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
+  lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1), 1.0) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
       lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
   }
 
+  /* small images have a single octave */
+  lastOctave = VL_MAX(lastOctave, self->firstOctave) ;
+  if (self->firstOctave > 0 &&
+      VL_SHIFT_LEFT(VL_MIN(width, height), - self->firstOctave) == 0) {
+    return vl_set_last_error(VL_ERR_BAD_ARG, "The image is too small for the first octave.") ;
+  }
+
   if (self->method == VL_COVDET_METHOD_DOG) {
     octaveFirstSubdivision = -1 ;
     octaveLastSubdivision = self->octaveResolution + 1 ;
@@ -1777,6 +1785,12 @@ _vl_det_hessian_response (float * hessian,
   /* setup output pointer to be centered at 1,1 */
   float *out = hessian + xo + yo;
 
+  /* there is no 3x3 window in a smaller image */
+  if (width < 3 || height < 3) {
+    memset(hessian, 0, width * height * sizeof(float)) ;
+    return ;
+  }
+
   /* move 3x3 window and convolve */
   for (r = 1; r < height - 1; ++r)
   {
@@ -1863,6 +1877,12 @@ _vl_harris_response (float * harris,
   float * LyLy ;
   float * LxLy ;
 
+  /* there is no gradient in a smaller image */
+  if (width < 2 || height < 2) {
+    memset(harris, 0, width * height * sizeof(float)) ;
+    return ;
+  }
+
   LxLx = vl_malloc(sizeof(float) * width * height) ;
   LyLy = vl_malloc(sizeof(float) * width * height) ;
   LxLy = vl_malloc(sizeof(float) * width * height) ;
-- 
2.43.0


From 86d67a492f74e908d39e9f91a5e1fb765a922db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:38 +0000
Subject: [PATCH 95/95] fix: sift, mser: refuse options with an empty argument

sscanf returns EOF, not zero, for an empty string: the option was
silently ignored.
---
 src/mser.c | 14 +++++++-------
 src/sift.c | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 7436553..d9acee3 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,7 +164,7 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0)
+      if (n != 1 || delta < 0)
         ERRF("The argument of '%s' must be a non-negative number.",
             argv [optind - 1]) ;
       break ;
@@ -172,25 +172,25 @@ main(int argc, char **argv)
       /* ........................................................... */
     case opt_max_area :
       n = sscanf (optarg, "%lf", &max_area) ;
-      if (n == 0 || max_area < 0 || max_area > 1)
+      if (n != 1 || max_area < 0 || max_area > 1)
         ERR("max-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_min_area :
       n = sscanf (optarg, "%lf", &min_area) ;
-      if (n == 0 || min_area < 0 || min_area > 1)
+      if (n != 1 || min_area < 0 || min_area > 1)
         ERR("min-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_max_variation :
       n = sscanf (optarg, "%lf", &max_variation) ;
-      if (n == 0 || max_variation < 0)
+      if (n != 1 || max_variation < 0)
         ERR("max-variation argument must be non-negative.") ;
       break ;
 
     case opt_min_diversity :
       n = sscanf (optarg, "%lf", &min_diversity) ;
-      if (n == 0 || min_diversity < 0 || min_diversity > 1)
+      if (n != 1 || min_diversity < 0 || min_diversity > 1)
         ERR("min-diversity argument must be in the [0,1] range.") ;
       break ;
 
@@ -218,13 +218,13 @@ main(int argc, char **argv)
 
     case opt_bright :
       n = sscanf (optarg, "%d", &bright_on_dark) ;
-      if (n == 0 || (bright_on_dark != 0 && bright_on_dark != 1))
+      if (n != 1 || (bright_on_dark != 0 && bright_on_dark != 1))
         ERR("bright_on_dark must be 0 or 1.") ;
       break ;
 
     case opt_dark :
       n = sscanf (optarg, "%d", &dark_on_bright) ;
-      if (n == 0 || (dark_on_bright != 0 && dark_on_bright != 1))
+      if (n != 1 || (dark_on_bright != 0 && dark_on_bright != 1))
         ERR("dark_on_bright must be 0 or 1.") ;
       break ;
 
diff --git a/src/sift.c b/src/sift.c
index 6faad3a..c8d1c8d 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -309,7 +309,7 @@ main(int argc, char **argv)
     case 'O' :
       /* --octaves ............................................... */
       n = sscanf (optarg, "%d", &O) ;
-      if (n == 0 || O < 0)
+      if (n != 1 || O < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -317,7 +317,7 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n == 0 || S < 0)
+      if (n != 1 || S < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -325,7 +325,7 @@ main(int argc, char **argv)
     case opt_first_octave :
       /* --first-octave ......................................... */
       n = sscanf (optarg, "%d", &omin) ;
-      if (n == 0)
+      if (n != 1)
         ERRF("The argument of '%s' must be an integer.",
             argv [optind - 1]) ;
       break ;
@@ -335,7 +335,7 @@ main(int argc, char **argv)
     case opt_edge_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &edge_thresh) ;
-      if (n == 0 || edge_thresh < 1)
+      if (n != 1 || edge_thresh < 1)
         ERRF("The argument of '%s' must be not smaller than 1.",
             argv [optind - 1]) ;
       break ;
@@ -343,7 +343,7 @@ main(int argc, char **argv)
     case opt_peak_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &peak_thresh) ;
-      if (n == 0 || peak_thresh < 0)
+      if (n != 1 || peak_thresh < 0)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
@@ -351,7 +351,7 @@ main(int argc, char **argv)
     case opt_magnif :
       /* --magnif  .............................................. */
       n = sscanf (optarg, "%lf", &magnif) ;
-      if (n == 0 || magnif < 1)
+      if (n != 1 || magnif < 1)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
-- 
2.43.0

