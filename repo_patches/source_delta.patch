From 25dee0c2ea27a298f06c9e74fd97b2c7faabc3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:22 +0000
Subject: [PATCH 01/81] fix: select a single day when both ends of DOY_RANGE
 are equal

A range such as DOY_RANGE = 100 100 was treated like a range that wraps
around the new year and selected every day of the year.
---
 src/modules/higher-level/param-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 604a62f..0a70279 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1053,7 +1053,7 @@ double tol = 5e-3;
        phl->doy_range[_MIN_] > 0 && 
        phl->doy_range[_MAX_] > 0){
 
-    if (phl->doy_range[_MIN_] < phl->doy_range[_MAX_]){
+    if (phl->doy_range[_MIN_] <= phl->doy_range[_MAX_]){
       for (d=phl->doy_range[_MIN_]; d<=phl->doy_range[_MAX_]; d++) phl->date_doys[d] = true;
     } else {
       for (d=1; d<=phl->doy_range[_MAX_];   d++) phl->date_doys[d] = true;
-- 
2.43.0


From a6a77322f3d3cef4dfe28adc5fe2217bf00adcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:24 +0000
Subject: [PATCH 02/81] fix: update only the queue line of the processed image

The path of the image was used as an unanchored regular expression, thus
lines of other images could be changed as well, e.g. those whose path
ends with the path of the processed image.
---
 bash/force-level2.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index c065e7b..d441e9a 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -262,8 +262,10 @@ function process_this_image(){
   fi
 
   # update queue status; queue must be locked and unlocked
+  # match the line of this very image only, i.e. take its path literally
+  REGEX_IMAGE=$(printf '%s' "$FILE_IMAGE" | sed 's:[][\/.^$*+?(){}|]:\\&:g')
   $LOCK_CREATE_EXE "$FILE_QUEUE"
-  sed -i.tmp -E "s+($FILE_IMAGE) .*+\1 $STATUS+" "$FILE_QUEUE"
+  sed -i.tmp -E "s/^($REGEX_IMAGE) .*/\1 $STATUS/" "$FILE_QUEUE"
   chmod --reference "$FILE_QUEUE.tmp" "$FILE_QUEUE"
   rm "$FILE_QUEUE.tmp"
   $LOCK_REMOVE_EXE "$FILE_QUEUE"
-- 
2.43.0


From bfaad6ce5e063a70c699111ca7b4fb8d806e9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:24 +0000
Subject: [PATCH 03/81] fix: identify queued images by their status only

Images with the word QUEUED somewhere in the path were processed again,
and the word was cut out of the path.
---
 bash/force-level2.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index d441e9a..9972fe8 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -358,7 +358,7 @@ sed -i -E 's/^ //' "$FILE_QUEUE"
 sed -i -E 's/ $//' "$FILE_QUEUE"
 
 # get queued files
-QUEUE=$(grep 'QUEUED' "$FILE_QUEUE" | sed 's/QUEUED//g')
+QUEUE=$(grep ' QUEUED$' "$FILE_QUEUE" | sed 's/ QUEUED$//')
 
 # count input
 NUM=$(echo "$QUEUE" | wc -w)
-- 
2.43.0


From d61b1ebcb46523b14f457c93cdd5cc4ec755802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:24 +0000
Subject: [PATCH 04/81] fix: lock the file queue while it is cleaned

Entries that were appended by another program in the meantime got lost.
---
 bash/force-level2.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bash/force-level2.sh b/bash/force-level2.sh
index 9972fe8..d173a96 100755
--- a/bash/force-level2.sh
+++ b/bash/force-level2.sh
@@ -350,7 +350,8 @@ if is_lt "$TIMEOUT_ZIP" 0; then
 fi
 
 
-# do some cleaning in the queue
+# do some cleaning in the queue; queue must be locked and unlocked
+$LOCK_CREATE_EXE "$FILE_QUEUE"
 $UNIX_EOL_EXE -q "$FILE_QUEUE"
 sed -i -E 's/\t/ /g' "$FILE_QUEUE"
 sed -i -E 's/ +/ /g' "$FILE_QUEUE"
@@ -359,6 +360,7 @@ sed -i -E 's/ $//' "$FILE_QUEUE"
 
 # get queued files
 QUEUE=$(grep ' QUEUED$' "$FILE_QUEUE" | sed 's/ QUEUED$//')
+$LOCK_REMOVE_EXE "$FILE_QUEUE"
 
 # count input
 NUM=$(echo "$QUEUE" | wc -w)
-- 
2.43.0


From 29b9a382f2b2fcaed724290ff21b5ed89b437b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:46 +0000
Subject: [PATCH 05/81] fix: keep the poorer illumination state when merging
 quality words

---
 src/modules/cross-level/quality-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/quality-cl.c b/src/modules/cross-level/quality-cl.c
index 40ba25c..28bd740 100755
--- a/src/modules/cross-level/quality-cl.c
+++ b/src/modules/cross-level/quality-cl.c
@@ -413,7 +413,7 @@ void merge_qai_from_values(brick_t *qai, int p, short qai_1, short qai_2){
 
   // Merge illumination flag
   set_illumination(qai, p, 
-    (get_illumination_from_value(qai_1) < get_illumination_from_value(qai_2)) ? 
+    (get_illumination_from_value(qai_1) > get_illumination_from_value(qai_2)) ? 
      get_illumination_from_value(qai_1) : get_illumination_from_value(qai_2));
 
   // Merge slope flag
-- 
2.43.0


From 53ce4b055ce6dd6162014ae889129965f3ed8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:36 +0000
Subject: [PATCH 06/81] fix: a saturated band no longer hides a later band
 without data

---
 src/modules/lower-level/read-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 846ee97..478ec25 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -196,7 +196,7 @@ int tvalid = 0;
         if (b != b_cirrus && dn_[b][p] == 0){ off_[p] = true; break;}
 
         // if any (non-temp) layer saturated
-        if (b != b_temp && dn_[b][p] >= meta->sat){ set_saturation(qai, p, true); break;}
+        if (b != b_temp && dn_[b][p] >= meta->sat) set_saturation(qai, p, true);
 
         // if temperature has any non-0 value
         if (b == b_temp) tvalid++;
-- 
2.43.0


From 2771d7bf1176db362792fd7a25772bfff76681b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:49 +0000
Subject: [PATCH 07/81] fix: fill chunks that are never written with nodata

---
 src/modules/cross-level/brick_io-cl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 33a57fb..99ba702 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -333,6 +333,14 @@ int write_brick(brick_t *brick){
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
           printf("Error creating file %s. ", fname); return FAILURE;}
+        // chunks that will never be written need to be nodata
+        if (brick->open == OPEN_CHUNK && brick->dim_chunk.cells > 1){
+          for (b=0; b<nbands; b++){
+            band = GDALGetRasterBand(fp, bands[_FILE_][f][b]);
+            GDALSetRasterNoDataValue(band, brick->nodata[bands[_brick_][f][b]]);
+            GDALFillRaster(band, brick->nodata[bands[_brick_][f][b]], 0);
+          }
+        }
       }
         
       if (brick->open == OPEN_CHUNK){
-- 
2.43.0


From 08b30e5e75b814f1d3584bc892c1bc028ca9af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:49 +0000
Subject: [PATCH 08/81] fix: sum up the bytes of all chunks without streaming

---
 src/modules/higher-level/tasks-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 5cf6e91..97e344b 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -116,7 +116,7 @@ off_t bytes = 0;
   }
 
 
-  *ibytes = bytes;
+  *ibytes += bytes;
 
   measure_progress(pro, _TASK_INPUT_, _CLOCK_TOCK_);
 
@@ -317,7 +317,7 @@ int o;
   free((void*)OUTPUT[pu]);
   OUTPUT[pu] = NULL;
 
-  *obytes = bytes;
+  *obytes += bytes;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
-- 
2.43.0


From 4890a13a61bc98a94761d2df8f8f52b6faf7e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:06 +0000
Subject: [PATCH 09/81] fix: report products that could not be written with a
 failure status

---
 src/main/higher-level/force-higher-level.c | 12 +++++++++---
 src/modules/higher-level/tasks-hl.c        | 10 +++++++---
 src/modules/higher-level/tasks-hl.h        |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/higher-level/force-higher-level.c b/src/main/higher-level/force-higher-level.c
index 25e2ebc..3ead522 100755
--- a/src/main/higher-level/force-higher-level.c
+++ b/src/main/higher-level/force-higher-level.c
@@ -141,6 +141,7 @@ int         *nprod    = NULL;
 GDALDriverH driver;
 progress_t  pro;
 off_t ibytes = 0, obytes = 0;
+int         failed    = 0;
 int         exit_code = SUCCESS;
 
 
@@ -217,7 +218,7 @@ int         exit_code = SUCCESS;
 
     if (phl->stream){
 
-      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes) default(none)
+      #pragma omp parallel num_threads(3) shared(ARD1,ARD2,MASK,OUTPUT,aux,nprod,nt1,nt2,pro,cube,phl) reduction(+: ibytes, obytes, failed) default(none)
       {
 
         if (omp_get_thread_num() == 0){
@@ -225,7 +226,7 @@ int         exit_code = SUCCESS;
         } else if (omp_get_thread_num() == 1){
           compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
         } else {
-          output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+          output_higher_level(&pro, &obytes, OUTPUT, nprod, phl, &failed);
         }
 
       }
@@ -234,7 +235,7 @@ int         exit_code = SUCCESS;
 
       read_higher_level(&pro, &ibytes, MASK, ARD1, ARD2, nt1, nt2, cube, phl);
       compute_higher_level(&pro, MASK, ARD1, ARD2, nt1, nt2, cube, phl, aux, OUTPUT, nprod);
-      output_higher_level(&pro, &obytes, OUTPUT, nprod, phl);
+      output_higher_level(&pro, &obytes, OUTPUT, nprod, phl, &failed);
 
     }
 
@@ -242,6 +243,11 @@ int         exit_code = SUCCESS;
 
   exit_code = handle_no_io(ibytes, obytes, phl);
 
+  if (failed > 0){
+    printf("Error: %d product(s) could not be written.\n", failed);
+    exit_code = FAILURE;
+  }
+
   cite_push(phl->d_higher);
 
 
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index 97e344b..c2f1c86 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -249,14 +249,16 @@ bool error = false;
 --- OUTPUT:   OUTPUT bricks
 --- nproduct: number of output bricks
 --- phl:      HL parameters
+--- failed:   number of bricks that could not be written
 +++ Return:   void
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl){
+void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl, int *failed){
 char dname[NPOW_10]; 
 int nchar;
 char *lock = NULL;
 bool error = false;
 off_t bytes = 0;
+int nfail = 0;
 int o;
 
 
@@ -278,6 +280,7 @@ int o;
   if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
     error = true;
+    nfail++;
   }
 
   if (!error){
@@ -288,7 +291,7 @@ int o;
 
     omp_set_num_threads(phl->othread);
   
-    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes) default(none)
+    #pragma omp parallel shared(OUTPUT,pu,nprod,phl) reduction(+: bytes, nfail) default(none)
     {
 
       CPLPushErrorHandler(CPLQuietErrorHandler);
@@ -298,7 +301,7 @@ int o;
       for (o=0; o<nprod[pu]; o++){
         if (phl->radius > 0) OUTPUT[pu][o] = crop_brick(
           OUTPUT[pu][o], phl->radius);
-        write_brick(OUTPUT[pu][o]);
+        if (write_brick(OUTPUT[pu][o]) != SUCCESS){ nfail++; continue;}
         if (OUTPUT[pu][o] != NULL && 
             get_brick_open(OUTPUT[pu][o]) != OPEN_FALSE){
             bytes += get_brick_size(OUTPUT[pu][o]);
@@ -318,6 +321,7 @@ int o;
   OUTPUT[pu] = NULL;
 
   *obytes += bytes;
+  *failed += nfail;
 
   measure_progress(pro, _TASK_OUTPUT_, _CLOCK_TOCK_);
 
diff --git a/src/modules/higher-level/tasks-hl.h b/src/modules/higher-level/tasks-hl.h
index a571e7e..ab929be 100755
--- a/src/modules/higher-level/tasks-hl.h
+++ b/src/modules/higher-level/tasks-hl.h
@@ -62,7 +62,7 @@ extern "C" {
 
 void read_higher_level (progress_t *pro, off_t *ibytes, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl);
 void compute_higher_level (progress_t *pro, brick_t **MASK, ard_t **ARD1, ard_t **ARD2, int *nt1, int *nt2, cube_t *cube, par_hl_t *phl, aux_t *aux, brick_t ***OUTPUT, int *nprod);
-void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl);
+void output_higher_level (progress_t *pro, off_t *obytes, brick_t ***OUTPUT, int *nprod, par_hl_t *phl, int *failed);
 int handle_no_io(off_t ibytes, off_t obytes, par_hl_t *phl);
 
 #ifdef __cplusplus
-- 
2.43.0


From b71bd7540a4591a463cf478e6cbdfedc2a4532ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:44 +0000
Subject: [PATCH 10/81] fix: Python plug-ins no longer crash with STREAMING =
 TRUE

---
 src/modules/higher-level/param-hl.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 0a70279..2b9612f 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1286,6 +1286,12 @@ double tol = 5e-3;
       copy_string(phl->tsa.rsp.f_code, NPOW_10, "NULL");
       printf("Warning: R code provided, but OUTPUT_RSP = FALSE. Ignore R UDF plug-in. Proceed.\n");}
 
+    // the interpreter can only be used by the thread that initialized it
+    if (phl->tsa.pyp.out && phl->stream){
+      phl->stream = false;
+      printf("Warning: python code provided. STREAMING is forced to FALSE. Proceed.\n");
+    }
+
     if (phl->tsa.rsp.out && phl->stream){
       phl->stream = false;
       printf("Warning: R code provided. STREAMING is forced to FALSE. Proceed.\n");
@@ -1311,6 +1317,12 @@ double tol = 5e-3;
       copy_string(phl->udf.rsp.f_code, NPOW_10, "NULL");
       printf("Warning: R code provided, but OUTPUT_RSP = FALSE. Ignore R UDF plug-in. Proceed.\n");}
 
+    // the interpreter can only be used by the thread that initialized it
+    if (phl->udf.pyp.out && phl->stream){
+      phl->stream = false;
+      printf("Warning: python code provided. STREAMING is forced to FALSE. Proceed.\n");
+    }
+
     if (phl->udf.rsp.out && phl->stream){
       phl->stream = false;
       printf("Warning: R code provided. STREAMING is forced to FALSE. Proceed.\n");
-- 
2.43.0


From 5943143bbd4dc4ccd21d58b600498b0ab4716fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:38 +0000
Subject: [PATCH 11/81] fix: read the right part of the chunk to the left

---
 src/modules/higher-level/read-ard-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index 3d7f226..eab44c2 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -997,7 +997,7 @@ double tol = 5e-3;
 
   if (fabs(partial_x) > tol){
     width = fabs(partial_x);
-    if (partial_x < 0) x_offset = chunk_size[_X_]+partial_x;
+    if (partial_x < 0) x_offset = x_offset+chunk_size[_X_]+partial_x;
   }
   
   if (fabs(partial_y) > tol){
-- 
2.43.0


From 8292cf7d13a9adb6454ebf83b7fdb966ebc2292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:42 +0000
Subject: [PATCH 12/81] fix: read a wider margin for compound morphological
 operations

---
 src/modules/higher-level/param-hl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 2b9612f..67edbaa 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -1095,6 +1095,8 @@ double tol = 5e-3;
 
   if (phl->type == _HL_TXT_){
     phl->radius = phl->txt.radius*phl->txt.iter;
+    // compound operations apply the kernel twice
+    if (phl->txt.oopn || phl->txt.ocls || phl->txt.otht || phl->txt.obht) phl->radius *= 2;
     phl->txt.radius = (int)(phl->txt.radius/phl->res);
   } else if (phl->type == _HL_LSM_){
     phl->radius = phl->lsm.radius;
-- 
2.43.0


From 45feb1281665d59062d503ede958e02bcfcc90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:24 +0000
Subject: [PATCH 13/81] fix: clear-sky observations cover the last month of
 DATE_RANGE

---
 src/modules/higher-level/cso-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index 61eb151..e3349ec 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -244,7 +244,7 @@ bool alloc_q_array = false;
   month = phl->date_range[_MIN_].month;
   
   while (year < phl->date_range[_MAX_].year ||
-        (year <= phl->date_range[_MAX_].year && month < phl->date_range[_MAX_].month)){
+        (year <= phl->date_range[_MAX_].year && month <= phl->date_range[_MAX_].month)){
     nw++;
     if ((month += phl->cso.step) > 12){ year++; month -= 12;}
   }
-- 
2.43.0


From ec7139e2c7116dce6f05b61752f1e888f81b41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:24 +0000
Subject: [PATCH 14/81] fix: derive clear-sky statistics from all time
 differences of a window

---
 src/modules/higher-level/cso-hl.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modules/higher-level/cso-hl.c b/src/modules/higher-level/cso-hl.c
index e3349ec..103ca59 100755
--- a/src/modules/higher-level/cso-hl.c
+++ b/src/modules/higher-level/cso-hl.c
@@ -357,13 +357,15 @@ bool alloc_q_array = false;
         } else {
 
           minimum = maximum = mean = cs.d_cso[w+1].ce-cs.d_cso[w].ce;
+          if (alloc_q_array) q_array[k] = mean;
+          k++;
 
         }
 
 
-        if (n > 0){
-          skewscaled = skewness(var, skew, n)*1000;
-          kurtscaled = (kurtosis(var, kurt, n)-3)*1000;
+        if (k > 1){
+          skewscaled = skewness(var, skew, k)*1000;
+          kurtscaled = (kurtosis(var, kurt, k)-3)*1000;
           if (skewscaled < -30000) skewscaled = -30000;
           if (skewscaled >  30000) skewscaled =  30000;
           if (kurtscaled < -30000) kurtscaled = -30000;
@@ -374,21 +376,21 @@ bool alloc_q_array = false;
         if (phl->cso.sta.max > -1) cs.cso_[phl->cso.sta.max][w][p] = maximum;
         if (phl->cso.sta.rng > -1) cs.cso_[phl->cso.sta.rng][w][p] = maximum-minimum;
         if (phl->cso.sta.avg > -1) cs.cso_[phl->cso.sta.avg][w][p] = (short)mean;
-        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, n);
+        if (phl->cso.sta.std > -1) cs.cso_[phl->cso.sta.std][w][p] = (short)standdev(var, k);
         if (phl->cso.sta.skw > -1) cs.cso_[phl->cso.sta.skw][w][p] = (short)skewscaled;
         if (phl->cso.sta.krt > -1) cs.cso_[phl->cso.sta.krt][w][p] = (short)kurtscaled;
 
         if (phl->cso.sta.quantiles){
           for (q=0; q<phl->cso.sta.nquantiles; q++){
-            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, n, phl->cso.sta.q[q]);
+            cs.cso_[phl->cso.sta.qxx[q]][w][p] = (short)quantile(q_array, k, phl->cso.sta.q[q]);
             if (phl->cso.sta.q[q] == 0.25) q25_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
             if (phl->cso.sta.q[q] == 0.75) q75_ = cs.cso_[phl->cso.sta.qxx[q]][w][p];
           }
         }
 
         if (phl->cso.sta.iqr > -1){
-          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, n, 0.25);
-          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, n, 0.75);
+          if (q25_ == SHRT_MIN) q25_ = (short)quantile(q_array, k, 0.25);
+          if (q75_ == SHRT_MIN) q75_ = (short)quantile(q_array, k, 0.75);
           cs.cso_[phl->cso.sta.iqr][w][p] = q75_-q25_;
         }
 
-- 
2.43.0


From b5b02ab55965a602161657aa87e25a459adb977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:36 +0000
Subject: [PATCH 15/81] fix: masked pixels of composites are nodata

---
 src/modules/higher-level/level3-hl.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modules/higher-level/level3-hl.c b/src/modules/higher-level/level3-hl.c
index a59e7a0..8e65fd4 100755
--- a/src/modules/higher-level/level3-hl.c
+++ b/src/modules/higher-level/level3-hl.c
@@ -227,7 +227,7 @@ level3_t l3;
 brick_t **LEVEL3;
 small *mask_ = NULL;
 int nprod = 0;
-int p, nx, ny, nc, nb;
+int b, p, nx, ny, nc, nb;
 double res;
 short nodata;
 short lsp_nodata = SHRT_MIN;
@@ -308,7 +308,7 @@ bool water;
     #endif
   }
 
-  #pragma omp parallel private(tdist,score,cor,hmean,hsd,water) firstprivate(target) shared(ard,lsp,l3,nt,nb,nc,lsp_nodata,nodata,mask_,phl,LEVEL3) default(none)
+  #pragma omp parallel private(b,tdist,score,cor,hmean,hsd,water) firstprivate(target) shared(ard,lsp,l3,nt,nb,nc,lsp_nodata,nodata,mask_,phl,LEVEL3) default(none)
   {
 
     if (phl->bap.w.r > 0) alloc_2D((void***)&cor, nt, nt, sizeof(float));
@@ -322,7 +322,12 @@ bool water;
     for (p=0; p<nc; p++){
 
       // skip pixels that are masked
-      if (mask_ != NULL && !mask_[p]) continue;
+      if (mask_ != NULL && !mask_[p]){
+        if (l3.bap != NULL){ for (b=0; b<nb; b++) l3.bap[b][p] = nodata;}
+        if (l3.inf != NULL){ for (b=0; b<_INF_LENGTH_; b++) l3.inf[b][p] = nodata;}
+        if (l3.scr != NULL){ for (b=0; b<_SCR_LENGTH_; b++) l3.scr[b][p] = nodata;}
+        continue;
+      }
       
       if (phl->bap.pac.lsp) target = compile_target_adaptive(&phl->bap, lsp, p, lsp_nodata);
 
-- 
2.43.0


From 095bc1470625502fe4a0eddf1c08fae4eeafc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:36 +0000
Subject: [PATCH 16/81] fix: masked pixels of downscaled fields are nodata

---
 src/modules/higher-level/cf-improphe-hl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 371e522..77bb38b 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -344,7 +344,10 @@ bool is_empty;
 
         p = i*nx+j;
 
-        if (cf_[0][p] == cf_nodata) continue;
+        if (cf_[0][p] == cf_nodata){
+          for (f=0; f<ncf; f++) cfi.imp_[f][y][p] = cf_nodata;
+          continue;
+        }
 
         improphe(ard_, ard_tex_, cf_, cf_tex_, pred_, KDIST, ard_nodata, cf_nodata, i, j, p, 
           nx, ny, phl->imp.ksize, npc, ncf, nk, mink);
-- 
2.43.0


From d0ffd1caa5a822cc4794bdfed19a04593c28933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:36 +0000
Subject: [PATCH 17/81] fix: masked pixels of polar coordinates are nodata

---
 src/modules/higher-level/polar-hl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index b4db061..e04f8da 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -357,6 +357,9 @@ float green_val, base_val;
           for (y=0; y<pol->ny; y++) ts->pol_[l][y][p] = nodata;
         }
       }
+      if (pol->opct){
+        for (i=0; i<ni; i++) ts->pcx_[i][p] = ts->pcy_[i][p] = nodata;
+      }
       
       if (mask_ != NULL && !mask_[p]) continue;
 
@@ -416,8 +419,8 @@ float green_val, base_val;
         polar_coords(r, v, ts->d_tsi[i].year-year_min, &polar[i]);
 
         
-        if (pol->opct) ts->pcx_[i][p] = (short)polar[i].pcx;
-        if (pol->opct) ts->pcy_[i][p] = (short)polar[i].pcy;
+        if (pol->opct && valid) ts->pcx_[i][p] = (short)polar[i].pcx;
+        if (pol->opct && valid) ts->pcy_[i][p] = (short)polar[i].pcy;
 
         mean_window[_ALPHA_][_X_] += polar[i].pcx;
         mean_window[_ALPHA_][_Y_] += polar[i].pcy;
-- 
2.43.0


From d105e28bafa8a2b848e76f6b595b22e57408d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:36 +0000
Subject: [PATCH 18/81] fix: masked pixels of textures are nodata

---
 src/modules/higher-level/texture-hl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/higher-level/texture-hl.c b/src/modules/higher-level/texture-hl.c
index ecd0c10..35dd0ac 100755
--- a/src/modules/higher-level/texture-hl.c
+++ b/src/modules/higher-level/texture-hl.c
@@ -218,7 +218,7 @@ short nodata;
                      Point(phl->txt.radius, phl->txt.radius));
 
 
-  #pragma omp parallel private(i,j,p) shared(nf,nx,ny,morph_elem,features,txt,phl,nodata) default(none)
+  #pragma omp parallel private(i,j,p) shared(mask_,nf,nx,ny,morph_elem,features,txt,phl,nodata) default(none)
   {
 
     #pragma omp for
@@ -244,7 +244,7 @@ short nodata;
       for (i=0, p=0; i<ny; i++){
       for (j=0; j<nx; j++, p++){
         
-        if (!features[f].msk[p] && phl->ftr.exclude){
+        if ((mask_ != NULL && !mask_[p]) || (!features[f].msk[p] && phl->ftr.exclude)){
           
           if (phl->txt.oero) txt.ero_[f][p] = nodata;
           if (phl->txt.odil) txt.dil_[f][p] = nodata;
-- 
2.43.0


From 947943d1f031a7393c3a1068eaec558f33dd99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:03 +0000
Subject: [PATCH 19/81] fix: masked pixels of unmixing residuals are nodata

---
 src/modules/higher-level/index-compute-hl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 4750307..192d6c4 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -575,7 +575,10 @@ gsl_vector *a   =  NULL;
     for (p=0; p<nc; p++){
 
       if (mask_ != NULL && !mask_[p]){
-        for (t=0; t<nt; t++) ts->tss_[t][p] = nodata;
+        for (t=0; t<nt; t++){
+          ts->tss_[t][p] = nodata;
+          if (sma->orms) ts->rms_[t][p] = nodata;
+        }
         continue;
       }
       
-- 
2.43.0


From 9d80c783228314c876509a12c7269665efeb8a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:03 +0000
Subject: [PATCH 20/81] fix: near-real time residuals are nodata where no model
 was fitted

---
 src/modules/higher-level/interpolate-hl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/higher-level/interpolate-hl.c b/src/modules/higher-level/interpolate-hl.c
index 9296e96..23de5f4 100755
--- a/src/modules/higher-level/interpolate-hl.c
+++ b/src/modules/higher-level/interpolate-hl.c
@@ -532,6 +532,10 @@ bool model_terms[_TERM_LEN_];
     #pragma omp for
     for (p=0; p<nc; p++){
 
+      if (tsi->onrt){
+        for (k=0; k<nr; k++) ts->nrt_[k][p] = nodata;
+      }
+
       if (mask_ != NULL && !mask_[p]){
         for (i=0; i<ni; i++) ts->tsi_[i][p] = nodata;
         continue;
-- 
2.43.0


From 3fd05764039eec83dd2b15edf1d55c4c7f7feb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:29 +0000
Subject: [PATCH 21/81] fix: objects keep the top-left pixel of the image

---
 src/modules/cross-level/imagefuns-cl.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index d43baa3..29f53f2 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -636,9 +636,6 @@ int id, nc, p, no;
 
   alloc((void**)&CCL, nc, sizeof(int));
 
-  // to ensure that 1st object gets ID=1
-  image[0] = false;
-
   if ((no = connectedcomponents_(image, CCL, nx, ny)) > 0){
 
     alloc((void**)&CCS, no, sizeof(int));
-- 
2.43.0


From d9ea9a4d09ef18da5e14bc7f0b2b250cf01ec8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:29 +0000
Subject: [PATCH 22/81] fix: majority filling does not depend on the order of
 pixels and threads

---
 src/modules/cross-level/imagefuns-cl.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index 29f53f2..69f251d 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -239,9 +239,15 @@ int nx, ny;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int majorfill_(small *image, int nx, int ny){
 int i, j, ii, jj, ni, nj, p, k;
+int nc = nx*ny;
+small *tmp = NULL;
 
 
-  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image) default(none) 
+  // count in the unchanged image
+  alloc((void**)&tmp, nc, sizeof(small));
+  memmove(tmp, image, nc*sizeof(small));
+
+  #pragma omp parallel private(j, p, ii, jj, ni, nj, k) shared(nx, ny, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
@@ -250,7 +256,7 @@ int i, j, ii, jj, ni, nj, p, k;
       
       p = i*nx+j;
 
-      if (image[p]) continue;
+      if (tmp[p]) continue;
 
       k = 0;
 
@@ -261,7 +267,7 @@ int i, j, ii, jj, ni, nj, p, k;
         ni = i+ii; nj = j+jj;
         if (ni < 0 || ni >= ny || nj < 0 || nj >= nx) continue;
 
-        k += image[ni*nx+nj];
+        k += tmp[ni*nx+nj];
 
       }
       }
@@ -272,7 +278,8 @@ int i, j, ii, jj, ni, nj, p, k;
     }
     
   }
-  
+
+  free((void*)tmp);
 
   return SUCCESS;
 }
-- 
2.43.0


From 7a433e308d713352cbf6742395d0e5f226d5af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:29 +0000
Subject: [PATCH 23/81] fix: buffering keeps the pixels near the image border

---
 src/modules/cross-level/imagefuns-cl.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/modules/cross-level/imagefuns-cl.c b/src/modules/cross-level/imagefuns-cl.c
index 69f251d..4416f81 100755
--- a/src/modules/cross-level/imagefuns-cl.c
+++ b/src/modules/cross-level/imagefuns-cl.c
@@ -152,6 +152,7 @@ int nx, ny;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int buffer_(small *image, int nx, int ny, int r){
 int i, j, k, p, d, x, y;
+int kmin, kmax;
 int nc = nx*ny;
 small *tmp = NULL;
 
@@ -160,15 +161,14 @@ small *tmp = NULL;
 
   alloc((void**)&tmp, nc, sizeof(small));
 
-  // do for every pixel, except boundary
-  // boundary width is determined by buffer radius
+  // do for every pixel, buffers are cut at the image boundary
 
-  #pragma omp parallel private(j, p, k, x, y, d) shared(nx, ny, r, image, tmp) default(none) 
+  #pragma omp parallel private(j, p, k, x, y, d, kmin, kmax) shared(nx, ny, r, image, tmp) default(none) 
   {
 
     #pragma omp for schedule(guided)
-    for (i=r; i<(ny-r); i++){
-    for (j=r; j<(nx-r); j++){
+    for (i=0; i<ny; i++){
+    for (j=0; j<nx; j++){
 
       p = nx*i+j;
 
@@ -182,8 +182,16 @@ small *tmp = NULL;
       while (x <= y){
 
         // draw buffer with radius around point
-        for (k=i-y; k<=i+y; k++){ tmp[nx*k+j+x] = true; tmp[nx*k+j-x] = true; }
-        for (k=i-x; k<=i+x; k++){ tmp[nx*k+j+y] = true; tmp[nx*k+j-y] = true; }
+        kmin = (i-y < 0) ? 0 : i-y; kmax = (i+y >= ny) ? ny-1 : i+y;
+        for (k=kmin; k<=kmax; k++){
+          if (j+x < nx) tmp[nx*k+j+x] = true;
+          if (j-x >= 0) tmp[nx*k+j-x] = true;
+        }
+        kmin = (i-x < 0) ? 0 : i-x; kmax = (i+x >= ny) ? ny-1 : i+x;
+        for (k=kmin; k<=kmax; k++){
+          if (j+y < nx) tmp[nx*k+j+y] = true;
+          if (j-y >= 0) tmp[nx*k+j-y] = true;
+        }
 
         if (d < 0){
           d = d + (4 * x) + 6;
-- 
2.43.0


From 3ab6cb4c92532c4d4e06be0d6f83a329e3f73085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:38 +0000
Subject: [PATCH 24/81] fix: column minimum and maximum of tables with large
 values

---
 src/modules/cross-level/table-cl.c | 2 +-
 src/modules/cross-level/table-cl.h | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/table-cl.c b/src/modules/cross-level/table-cl.c
index f6cfda4..a49564b 100755
--- a/src/modules/cross-level/table-cl.c
+++ b/src/modules/cross-level/table-cl.c
@@ -190,7 +190,7 @@ double minimum, maximum;
   for (col=0; col<table.ncol; col++){
 
     mx = vx = k = sum = 0;
-    minimum = SHRT_MAX; maximum = SHRT_MIN;
+    minimum = DBL_MAX; maximum = -DBL_MAX;
 
     for (row=0; row<table.nrow; row++){
 
diff --git a/src/modules/cross-level/table-cl.h b/src/modules/cross-level/table-cl.h
index 60efc4b..446def6 100755
--- a/src/modules/cross-level/table-cl.h
+++ b/src/modules/cross-level/table-cl.h
@@ -31,6 +31,7 @@ Handle tables (csv-styled)
 #include <stdio.h>   // core input and output functions
 #include <stdlib.h>  // standard general utilities library
 #include <stdbool.h> // boolean data type
+#include <float.h>   // macro constants of the floating-point library
 
 #include "../cross-level/const-cl.h"
 #include "../cross-level/alloc-cl.h"
-- 
2.43.0


From 7be5b4ce98041a3110674db4599611265f4c2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:38 +0000
Subject: [PATCH 25/81] fix: refuse tables with an empty first line

---
 src/modules/cross-level/table-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/table-cl.c b/src/modules/cross-level/table-cl.c
index a49564b..9974ec3 100755
--- a/src/modules/cross-level/table-cl.c
+++ b/src/modules/cross-level/table-cl.c
@@ -140,7 +140,7 @@ double minimum, maximum;
     }
 
     // number of cols in 1st row
-    if (row == 0) table.ncol = col;
+    if (line == 0) table.ncol = col;
     if (!has_col_names || line > 0) row++;
 
     // table is regular?
-- 
2.43.0


From f31e8167b81f0cd8b8cbf9dc5b0446d129a615e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:39 +0000
Subject: [PATCH 26/81] fix: only one process at a time can hold a lock file

The lock was tested and created in two separate steps, such that two
processes that arrive at the same time could both obtain it.
---
 src/modules/cross-level/brick_io-cl.cpp | 12 ++++----
 src/modules/cross-level/lock-cl.c       | 38 +++++++++++++++++++++----
 src/modules/higher-level/tasks-hl.c     |  4 +--
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 99ba702..af3b057 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -221,11 +221,11 @@ int write_brick(brick_t *brick){
   
   
     // output path
-    if ((lock = (char*)CPLLockFile(brick->dname.string, 60)) == NULL){
+    if ((lock = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
     createdir(brick->dname.string);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
   
     // provenance file
@@ -251,7 +251,7 @@ int write_brick(brick_t *brick){
   
       timeout = lock_timeout(get_brick_size(brick));
   
-      if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
+      if ((lock = lock_file(fname, timeout)) == NULL){
         printf("Unable to lock file %s (timeout: %fs, nx/ny: %d/%d). ", fname, timeout, brick->nx, brick->ny);
         return FAILURE;}
   
@@ -473,14 +473,14 @@ int write_brick(brick_t *brick){
       GDALClose(fp);
   
     
-      CPLUnlockFile(lock);
+      unlock_file(lock);
     
       // write provenance info
       if (brick->provenance.number > 0 && 
           brick->chunk[_X_] <= 0 && 
           brick->chunk[_Y_] <= 0){
   
-        if ((lock = (char*)CPLLockFile(provname, timeout)) == NULL){
+        if ((lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
           return FAILURE;}
   
@@ -509,7 +509,7 @@ int write_brick(brick_t *brick){
 
         fclose(fprov);
   
-        CPLUnlockFile(lock);
+        unlock_file(lock);
   
       }
     
diff --git a/src/modules/cross-level/lock-cl.c b/src/modules/cross-level/lock-cl.c
index 34eb795..93ebb64 100755
--- a/src/modules/cross-level/lock-cl.c
+++ b/src/modules/cross-level/lock-cl.c
@@ -27,8 +27,11 @@ This file contains a public interface for locking files
 
 #include "lock-cl.h"
 
-/** Geospatial Data Abstraction Library (GDAL) **/
-#include "cpl_multiproc.h" // CPL Multi-Threading
+#include <string.h>  // string handling functions
+#include <math.h>    // common mathematical functions
+#include <errno.h>   // error numbers
+#include <fcntl.h>   // file control options
+#include <unistd.h>  // standard symbolic constants and types
 
 
 /** Lock a file
@@ -38,10 +41,31 @@ This file contains a public interface for locking files
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 char *lock_file(char *fname, int timeout){
 char *lock = NULL;
+size_t size = strlen(fname) + strlen(".lock") + 1;
+int fd;
+double waited = 0;
 
-  if ((lock = (char*)CPLLockFile(fname, timeout)) == NULL){
-    printf("Unable to lock file (timeout: %ds): %s\n", timeout, fname); 
+  if ((lock = (char*)malloc(size)) == NULL){
+    printf("Unable to allocate memory for lockfile: %s\n", fname);
+    return NULL;
   }
+  snprintf(lock, size, "%s.lock", fname);
+
+  // creation is exclusive: only one process or thread can hold the lock
+  while ((fd = open(lock, O_WRONLY | O_CREAT | O_EXCL, 0666)) < 0){
+
+    if (errno != EEXIST || waited >= timeout){
+      printf("Unable to lock file (timeout: %ds): %s\n", timeout, fname); 
+      free((void*)lock);
+      return NULL;
+    }
+
+    usleep(100000);
+    waited += 0.1;
+
+  }
+
+  close(fd);
 
   return lock;
 }
@@ -53,7 +77,11 @@ char *lock = NULL;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void unlock_file(char *lock){
 
-  CPLUnlockFile(lock);
+  if (lock == NULL) return;
+
+  unlink(lock);
+  free((void*)lock);
+
   return;
 }
 
diff --git a/src/modules/higher-level/tasks-hl.c b/src/modules/higher-level/tasks-hl.c
index c2f1c86..87abb39 100755
--- a/src/modules/higher-level/tasks-hl.c
+++ b/src/modules/higher-level/tasks-hl.c
@@ -277,7 +277,7 @@ int o;
   if (nchar < 0 || nchar >= NPOW_10){ 
     printf("Buffer Overflow in assembling filename\n"); exit(1);}
 
-  if ((lock = (char*)CPLLockFile(dname, 60)) == NULL){
+  if ((lock = lock_file(dname, 60)) == NULL){
     printf("Unable to lock directory %s (timeout: %ds). ", dname, 60);
     error = true;
     nfail++;
@@ -286,7 +286,7 @@ int o;
   if (!error){
 
     createdir(dname);
-    CPLUnlockFile(lock);
+    unlock_file(lock);
     lock = NULL;
 
     omp_set_num_threads(phl->othread);
-- 
2.43.0


From d55afc95ac0c79c785497d9f117ff62653e368b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:14 +0000
Subject: [PATCH 27/81] fix: the datacube definition is created once and
 completely

Processes that start at the same time could overwrite each other's
definition, and readers could see an incomplete file.
---
 src/modules/cross-level/cube-cl.c | 23 +++++++++++++++++------
 src/modules/cross-level/cube-cl.h |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/modules/cross-level/cube-cl.c b/src/modules/cross-level/cube-cl.c
index e2ba358..328c12a 100755
--- a/src/modules/cross-level/cube-cl.c
+++ b/src/modules/cross-level/cube-cl.c
@@ -240,17 +240,20 @@ double tol = 5e-3;
 +++ Return:  SUCCESS/FAILURE
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int write_datacube_def(cube_t *cube){
-char *lock = NULL;
+char temp_path[NPOW_10];
+int nchar;
 FILE *fp = NULL;
 
   concat_string_2(cube->def_path, NPOW_10, cube->dir_path, "datacube-definition.prj", "/");
 
   if (!fileexist(cube->def_path)){
 
-    if ((lock = (char*)lock_file(cube->def_path, 60)) == NULL) return FAILURE;
+    nchar = snprintf(temp_path, NPOW_10, "%s.%d", cube->def_path, (int)getpid());
+    if (nchar < 0 || nchar >= NPOW_10){ 
+      printf("Buffer Overflow in assembling filename\n"); return FAILURE;}
 
-    if ((fp = fopen(cube->def_path, "w")) == NULL){
-      printf("Unable to open %s. ", cube->def_path); return FAILURE;}
+    if ((fp = fopen(temp_path, "w")) == NULL){
+      printf("Unable to open %s. ", temp_path); return FAILURE;}
 
     fprintf(fp, "PROJECTION = %s\n", cube->projection);
     fprintf(fp, "ORIGIN_GEO_X = %f\n", cube->origin_geo.x);
@@ -260,9 +263,17 @@ FILE *fp = NULL;
     fprintf(fp, "TILE_SIZE_X = %f\n", cube->tile_size[_X_]);
     fprintf(fp, "TILE_SIZE_Y = %f\n", cube->tile_size[_Y_]);
 
-    fclose(fp);
+    if (fclose(fp) != 0){
+      printf("Unable to write %s. ", temp_path); unlink(temp_path); return FAILURE;}
 
-    unlock_file(lock);
+    // publish the complete file; this fails if another process was faster.
+    // renaming is for file systems without hard links
+    if (link(temp_path, cube->def_path) != 0 && !fileexist(cube->def_path)){
+      if (rename(temp_path, cube->def_path) != 0){
+        printf("Unable to create %s. ", cube->def_path); unlink(temp_path); return FAILURE;}
+    }
+
+    unlink(temp_path);
 
   }
 
diff --git a/src/modules/cross-level/cube-cl.h b/src/modules/cross-level/cube-cl.h
index ebb84ae..8b7621b 100755
--- a/src/modules/cross-level/cube-cl.h
+++ b/src/modules/cross-level/cube-cl.h
@@ -32,6 +32,7 @@ Datacube header
 #include <stdlib.h>  // standard general utilities library
 #include <string.h>  // string handling functions
 #include <math.h>    // common mathematical functions
+#include <unistd.h>  // standard symbolic constants and types 
 
 #include "../cross-level/const-cl.h"
 #include "../cross-level/string-cl.h"
-- 
2.43.0


From f9c49f7ae7cc18894dee65a4b9bf229824017fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:14 +0000
Subject: [PATCH 28/81] fix: read projections that contain blanks

The value of a tag and value pair was cut at its first blank, such that
the definition of GLANCE7 datacubes, for example, could not be read.
---
 src/modules/cross-level/read-cl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/read-cl.c b/src/modules/cross-level/read-cl.c
index 96b5c84..70850cc 100755
--- a/src/modules/cross-level/read-cl.c
+++ b/src/modules/cross-level/read-cl.c
@@ -41,6 +41,7 @@ const char *separator = " =";
 char ***tagval = NULL;
 int n = 0;
 int n_buf = 1;
+size_t len;
 
 
 
@@ -69,7 +70,12 @@ int n_buf = 1;
       copy_string(tagval[n][_TV_TAG_], NPOW_10, ptr);
     }
 
-    if ((ptr = strtok_r(NULL, separator, &saveptr)) == NULL){
+    // value is the remainder of the line, it may include the separators
+    ptr = saveptr + strspn(saveptr, separator);
+    len = strlen(ptr);
+    while (len > 0 && ptr[len-1] == ' ') ptr[--len] = '\0';
+
+    if (len == 0){
       printf("could not read tag/value pair from:\n  %s\n", fname);
       free_3D((void***)tagval, n_buf, _TV_LENGTH_);
       fclose(fp);
-- 
2.43.0


From 1a98f69770020a54734b3d4c279f25c2400eec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:33 +0000
Subject: [PATCH 29/81] fix: importing and masking read current datacube
 definitions

force-cube, and thus force-tile-extent, and force-procmask only
understood the deprecated line-based datacube definition.
---
 bash/force-cube.sh         | 44 +++++++++++++++++++-------------------
 bash/force-procmask.sh     | 10 ++++-----
 misc/force-bash-library.sh | 20 +++++++++++++++++
 3 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 171fc19..9e175e1 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -104,15 +104,15 @@ function cubethis(){
   x=$1
   y=$2
 
-  debug "$x $y $ORIGX $ORIGY $TILESIZE $CHUNKSIZE $RES $FINP $DOUT $COUT"
+  debug "$x $y $ORIGX $ORIGY $TILESIZEX $TILESIZEY $RES $FINP $DOUT $COUT"
 
-  ULX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - $2*$3}')
-  LRX=$(echo "$ORIGX" "$x" "$TILESIZE" | awk '{printf "%f",  $1 + ($2+1)*$3}')
-  LRY=$(echo "$ORIGY" "$y" "$TILESIZE" | awk '{printf "%f",  $1 - ($2+1)*$3}')
+  ULX=$(echo "$ORIGX" "$x" "$TILESIZEX" | awk '{printf "%f",  $1 + $2*$3}')
+  ULY=$(echo "$ORIGY" "$y" "$TILESIZEY" | awk '{printf "%f",  $1 - $2*$3}')
+  LRX=$(echo "$ORIGX" "$x" "$TILESIZEX" | awk '{printf "%f",  $1 + ($2+1)*$3}')
+  LRY=$(echo "$ORIGY" "$y" "$TILESIZEY" | awk '{printf "%f",  $1 - ($2+1)*$3}')
   TILE=$(printf "X%04d_Y%04d" "$x" "$y")
-  XBLOCK=$(echo "$TILESIZE"  "$RES" | awk '{print int($1/$2)}')
-  YBLOCK=$(echo "$CHUNKSIZE" "$RES" | awk '{print int($1/$2)}')
+  XBLOCK=$(echo "$TILESIZEX" "$RES" | awk '{print int($1/$2)}')
+  YBLOCK=$(echo "$TILESIZEY" "$RES" | awk '{print int($1/$2)}')
   debug "$ULX $ULY $LRX $LRY $TILE $XBLOCK $YBLOCK"
 
   mkdir -p "$DOUT/$TILE"
@@ -322,12 +322,12 @@ for i in "$@"; do
   debug "tempfile: $FTMP"
 
   # datacube parameters
-  WKT=$(head -n 1 "$DCDEF")
-  ORIGX=$(head -n 4 "$DCDEF"  | tail -1 )
-  ORIGY=$(head -n 5 "$DCDEF" | tail -1 )
-  TILESIZE=$(head -n 6 "$DCDEF" | tail -1 )
-  CHUNKSIZE=$(head -n 7 "$DCDEF" | tail -1 )
-  debug "$WKT $ORIGX $ORIGY $TILESIZE $CHUNKSIZE"
+  WKT=$(datacube_item "$DCDEF" "PROJECTION")
+  ORIGX=$(datacube_item "$DCDEF" "ORIGIN_MAP_X")
+  ORIGY=$(datacube_item "$DCDEF" "ORIGIN_MAP_Y")
+  TILESIZEX=$(datacube_item "$DCDEF" "TILE_SIZE_X")
+  TILESIZEY=$(datacube_item "$DCDEF" "TILE_SIZE_Y")
+  debug "$WKT $ORIGX $ORIGY $TILESIZEX $TILESIZEY"
 
   # nodata value
   if [ "$RASTER" == "true" ]; then
@@ -382,26 +382,26 @@ for i in "$@"; do
   debug "$XMIN $YMAX $XMAX $YMIN"
 
   # 1st tile, and ulx/uly of 1st tile
-  TXMIN=$(echo "$XMIN" "$ORIGX" "$TILESIZE" | awk '{f=($1-$2)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
-  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZE" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
-  ULX=$(echo "$ORIGX" "$TXMIN" "$TILESIZE" | awk '{printf "%f", $1 + $2*$3}')
-  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZE" | awk '{printf "%f", $1 - $2*$3}')
+  TXMIN=$(echo "$XMIN" "$ORIGX" "$TILESIZEX" | awk '{f=($1-$2)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
+  TYMIN=$(echo "$YMAX" "$ORIGY" "$TILESIZEY" | awk '{f=($2-$1)/$3;i=int(f);print(i==f||f>0)?i:i-1}')
+  ULX=$(echo "$ORIGX" "$TXMIN" "$TILESIZEX" | awk '{printf "%f", $1 + $2*$3}')
+  ULY=$(echo "$ORIGY" "$TYMIN" "$TILESIZEY" | awk '{printf "%f", $1 - $2*$3}')
   debug "UL grid $ULX $ULY"
 
   # step a tile to the west, and check if image is in tile, find last tile
   TXMAX="$TXMIN"
-  ULX=$(echo "$ULX" "$TILESIZE" | awk '{printf "%f",  $1+$2}')
+  ULX=$(echo "$ULX" "$TILESIZEX" | awk '{printf "%f",  $1+$2}')
   while is_lt "$ULX" "$XMAX"; do
     TXMAX=$(echo "$TXMAX" | awk '{print $1+1}')
-    ULX=$(echo "$ULX" "$TILESIZE" | awk '{printf "%f",  $1+$2}')
+    ULX=$(echo "$ULX" "$TILESIZEX" | awk '{printf "%f",  $1+$2}')
   done
 
   # step a tile to the south, and check if image is in tile, find last tile
   TYMAX=$TYMIN
-  ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f", $1-$2}')
+  ULY=$(echo "$ULY" "$TILESIZEY" | awk '{printf "%f", $1-$2}')
   while is_lt "$YMIN" "$ULY"; do
     TYMAX=$(echo "$TYMAX" | awk '{print $1+1}')
-    ULY=$(echo "$ULY" "$TILESIZE" | awk '{printf "%f",  $1-$2}')
+    ULY=$(echo "$ULY" "$TILESIZEY" | awk '{printf "%f",  $1-$2}')
   done
   debug "X_TILE_RANGE = $TXMIN $TXMAX"
   debug "Y_TILE_RANGE = $TYMIN $TYMAX"
@@ -411,7 +411,7 @@ for i in "$@"; do
   MEMORY=$(LANG="C"; free --mega | awk '/^Mem/ { printf("%.0fM\n", $2 * 0.05) }')
 
   # cube the file, spawn multiple jobs for each tile
-  export WKT ORIGX ORIGY TILESIZE CHUNKSIZE RES 
+  export WKT ORIGX ORIGY TILESIZEX TILESIZEY RES 
   export FINP DOUT COUT INODATA ONODATA RESAMPLE RASTER DATATYPE ATTRIBUTE
   $PARALLEL_EXE -j "$NJOB" --memsuspend "$MEMORY" cubethis {1} {2} ::: $(seq "$TXMIN" "$TXMAX") ::: $(seq "$TYMIN" "$TYMAX")
 
diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index 7cbc841..ea40028 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -200,13 +200,13 @@ if [ $(cat "$TEMP" | wc -l) -lt 1 ]; then
   help
 fi
 
-# tile /chunk size
-TILESIZE=$(head -n 6 $DOUT/datacube-definition.prj | tail -1 )
-CHUNKSIZE=$(head -n 7 $DOUT/datacube-definition.prj | tail -1 )
+# tile size
+TILESIZEX=$(datacube_item "$DOUT/datacube-definition.prj" "TILE_SIZE_X")
+TILESIZEY=$(datacube_item "$DOUT/datacube-definition.prj" "TILE_SIZE_Y")
 
 # block size
-XBLOCK=$(echo $TILESIZE  $RES | awk '{print int($1/$2)}')
-YBLOCK=$(echo $CHUNKSIZE $RES | awk '{print int($1/$2)}')
+XBLOCK=$(echo $TILESIZEX $RES | awk '{print int($1/$2)}')
+YBLOCK=$(echo $TILESIZEY $RES | awk '{print int($1/$2)}')
 
 export DOUT=$DOUT
 export FOUT=$FOUT
diff --git a/misc/force-bash-library.sh b/misc/force-bash-library.sh
index 3c45f5d..2446fe5 100644
--- a/misc/force-bash-library.sh
+++ b/misc/force-bash-library.sh
@@ -160,3 +160,23 @@ is_integer(){
   if [[ "$1" =~ ^-?[0-9]+$ ]]; then return 0; else return 1; fi
 }
 export -f is_integer
+
+# print an item of a datacube definition: file, tag
+# handles tag and value notation, and the deprecated line-based notation
+datacube_item(){
+  if grep -q "^PROJECTION *=" "$1"; then
+    sed -n "s/\r//g; s/^$2 *= *//p" "$1" | head -n 1
+  else
+    case "$2" in
+      PROJECTION)              line=1 ;;
+      ORIGIN_GEO_X)            line=2 ;;
+      ORIGIN_GEO_Y)            line=3 ;;
+      ORIGIN_MAP_X)            line=4 ;;
+      ORIGIN_MAP_Y)            line=5 ;;
+      TILE_SIZE_X|TILE_SIZE_Y) line=6 ;;
+      *) return 1 ;;
+    esac
+    sed -n "s/\r//g; ${line}p" "$1"
+  fi
+}
+export -f datacube_item
-- 
2.43.0


From 908fef7384c70e45665a210169b39aeb056b852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:33 +0000
Subject: [PATCH 30/81] fix: force-cube takes the layer name of each input, and
 its long options

The layer name of the first vector file was used for all further files,
and --attribute, --layer, --nodata and --datatype were ignored.
---
 bash/force-cube.sh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bash/force-cube.sh b/bash/force-cube.sh
index 9e175e1..21f5ff9 100755
--- a/bash/force-cube.sh
+++ b/bash/force-cube.sh
@@ -205,7 +205,7 @@ NJOB="100%"
 ATTRIBUTE="DEFAULT"
 DATATYPE="Byte"
 ONODATA=255
-LAYER="DEFAULT"
+LAYEROPT="DEFAULT"
 
 while :; do
   case "$1" in
@@ -214,10 +214,10 @@ while :; do
     -i|--info) echo "Ingestion of auxiliary data into datacube format"; exit 0;;
     -r|--resample) RESAMPLE="$2"; shift ;;
     -s|--resolution) RES="$2"; shift ;;
-    -a|attribute) ATTRIBUTE="$2"; shift;;
-    -l|layer) LAYER="$2"; shift;;
-    -n|nodata) ONODATA="$2"; shift;;
-    -t|datatype) DATATYPE="$2"; shift;;
+    -a|--attribute) ATTRIBUTE="$2"; shift;;
+    -l|--layer) LAYEROPT="$2"; shift;;
+    -n|--nodata) ONODATA="$2"; shift;;
+    -t|--datatype) DATATYPE="$2"; shift;;
     -o|--output) DOUT="$2"; shift ;;
     -b|--basename) BASE="$2"; shift ;;
     -j|--jobs) NJOB="$2"; shift ;;
@@ -290,8 +290,10 @@ for i in "$@"; do
     COUT="$BASE" # corename from user parameters
   fi
 
-  if [ "$LAYER" == "DEFAULT" ]; then
+  if [ "$LAYEROPT" == "DEFAULT" ]; then
     LAYER="$CINP"  # layername from input file
+  else
+    LAYER="$LAYEROPT" # layername from user parameters
   fi
 
   debug "input  file:      $FINP"
-- 
2.43.0


From 7949ecccf56ec3d7f53690a7187872e706a5cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:33 +0000
Subject: [PATCH 31/81] fix: force-tile-extent handles tile number zero

The range of tiles was wrong when tiles with number 0000 were included.
The allow-list's own directory is used for temporary files.
---
 bash/force-tile-extent.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bash/force-tile-extent.sh b/bash/force-tile-extent.sh
index 3581fc8..9963546 100755
--- a/bash/force-tile-extent.sh
+++ b/bash/force-tile-extent.sh
@@ -108,7 +108,7 @@ debug "allow-list:   $FILE_ALLOW"
 debug "AOI:          $FILE_AOI"
 debug "njobs:        $NJOB"
 
-DIR_ALLOW=$(dirname "FILE_ALLOW")
+DIR_ALLOW=$(dirname "$FILE_ALLOW")
 FILE_CUBE="$DIR_CUBE/datacube-definition.prj"
 
 # checks
@@ -160,8 +160,8 @@ for i in "${TILES_MASK[@]}"; do
   X=${i:1:4}
   Y=${i:7:4}
 
-  X=$(echo $X | sed 's/^0*//')
-  Y=$(echo $Y | sed 's/^0*//')
+  X=$(echo "$X" | awk '{print $1+0}')
+  Y=$(echo "$Y" | awk '{print $1+0}')
 
   is_gt "$X" "$XMAX" && XMAX="$X"
   is_lt "$X" "$XMIN" && XMIN="$X"
-- 
2.43.0


From b851007aa7606df6f2c7e669558ac6f7e211a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:36 +0000
Subject: [PATCH 32/81] fix: the exported grid covers areas with curved borders

Only the corners of the bounding box were projected, such that tiles in
the middle of its sides could be missing.
---
 src/main/aux-level/force-tabulate-grid.c | 36 +++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/main/aux-level/force-tabulate-grid.c b/src/main/aux-level/force-tabulate-grid.c
index f970479..aec312f 100755
--- a/src/main/aux-level/force-tabulate-grid.c
+++ b/src/main/aux-level/force-tabulate-grid.c
@@ -47,7 +47,6 @@ cessing grid + the bounding box of each tile in projected coordinates
 #endif
 
 enum { _bottom_, _top_, _left_, _right_ };
-enum { _ll_, _lr_, _ul_, _ur_ };
 
 
 typedef struct {
@@ -190,7 +189,8 @@ int main(int argc, char *argv[]){
 args_t args;
 char tile_id[NPOW_10];
 int nchar;
-int px, py, x0, y0, x1, y1, c;
+int px, py, x0, y0, x1, y1, c, s;
+int nstep = 25; // number of steps per side
 double left, right, top, bottom;
 char *wkt = NULL;
 OGRSFDriverH driver;
@@ -200,7 +200,7 @@ OGRLayerH layer;
 OGRFieldDefnH field;
 OGRFeatureH feature;
 OGRGeometryH poly, ring;
-coord_t geo[4], map[4], min, max, tile;
+coord_t geo[4], map, min, max, tile;
 cube_t *cube = NULL;
 
 
@@ -208,11 +208,6 @@ cube_t *cube = NULL;
 
   OGRRegisterAll();
 
-  // get geographic coords
-  geo[_ll_].x = args.bbox[_left_];  geo[_ll_].y = args.bbox[_bottom_];
-  geo[_lr_].x = args.bbox[_right_]; geo[_lr_].y = args.bbox[_bottom_];
-  geo[_ul_].x = args.bbox[_left_];  geo[_ul_].y = args.bbox[_top_];
-  geo[_ur_].x = args.bbox[_right_]; geo[_ur_].y = args.bbox[_top_];
   min.x = INT_MAX; min.y = INT_MAX; max.x = INT_MIN; max.y = INT_MIN; 
 
 
@@ -227,14 +222,23 @@ cube_t *cube = NULL;
   wkt = cube->projection;
 
   // get border coordinates in target css coordinates
-  for (c=0; c<4; c++){
-    if ((warp_geo_to_any(geo[c].x,  geo[c].y, &map[c].x, &map[c].y, 
-                     cube->projection)) == FAILURE){
-      printf("Computing bbox coordinates in dst_srs failed!\n"); return FAILURE;}
-    if (map[c].x < min.x) min.x = map[c].x;
-    if (map[c].y < min.y) min.y = map[c].y;
-    if (map[c].x > max.x) max.x = map[c].x;
-    if (map[c].y > max.y) max.y = map[c].y;
+  // the borders of the bounding box can be curved: walk along each side
+  for (c=0; c<=nstep; c++){
+    left   = args.bbox[_left_]   + (args.bbox[_right_] - args.bbox[_left_])   * c / nstep;
+    bottom = args.bbox[_bottom_] + (args.bbox[_top_]   - args.bbox[_bottom_]) * c / nstep;
+    geo[0].x = left;               geo[0].y = args.bbox[_bottom_];
+    geo[1].x = left;               geo[1].y = args.bbox[_top_];
+    geo[2].x = args.bbox[_left_];  geo[2].y = bottom;
+    geo[3].x = args.bbox[_right_]; geo[3].y = bottom;
+    for (s=0; s<4; s++){
+      if ((warp_geo_to_any(geo[s].x,  geo[s].y, &map.x, &map.y, 
+                       cube->projection)) == FAILURE){
+        printf("Computing bbox coordinates in dst_srs failed!\n"); return FAILURE;}
+      if (map.x < min.x) min.x = map.x;
+      if (map.y < min.y) min.y = map.y;
+      if (map.x > max.x) max.x = map.x;
+      if (map.y > max.y) max.y = map.y;
+    }
   }
 
   // find the UL and LR tile
-- 
2.43.0


From cab9115880c116494c210da932231d957cc560da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:36 +0000
Subject: [PATCH 33/81] fix: rows of an image are counted to the south

The Y coordinate of a row was computed north of the image. Sampling did
not find any point, and cropped Sentinel-2 images as well as the sun and
view geometry were displaced.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index 72e26d6..a2cec22 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -1657,7 +1657,7 @@ double get_brick_uly(brick_t *brick){
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 double get_brick_y(brick_t *brick, int i){
 
-  return (brick->geotran[_GT_ULY_] + i*brick->geotran[_GT_RES_]);
+  return (brick->geotran[_GT_ULY_] - i*brick->geotran[_GT_RES_]);
 }
 
 
-- 
2.43.0


From 415dc273fe2b5996764b253b41bd2f5c9dc6d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:59 +0000
Subject: [PATCH 34/81] fix: expressions of force-procmask may contain blanks

---
 bash/force-procmask.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-procmask.sh b/bash/force-procmask.sh
index ea40028..28f9193 100755
--- a/bash/force-procmask.sh
+++ b/bash/force-procmask.sh
@@ -90,7 +90,7 @@ function mask(){
     -A $FILE \
     --A_band=$LAYER \
     --outfile=$DOUT/$TILE/$FOUT \
-    --calc=$CALC \
+    --calc="$CALC" \
     --NoDataValue=255 \
     --type=Byte \
     --format='GTiff' \
-- 
2.43.0


From 4f22ff793095a8d370f386f88eaa9fc2aac709bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:37 +0000
Subject: [PATCH 35/81] fix: continental GLANCE7 grids can be chosen by their
 name

---
 src/modules/lower-level/glance7-ll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/lower-level/glance7-ll.c b/src/modules/lower-level/glance7-ll.c
index af5d3cf..eb844b3 100755
--- a/src/modules/lower-level/glance7-ll.c
+++ b/src/modules/lower-level/glance7-ll.c
@@ -42,7 +42,7 @@ static char name7[7][NPOW_10] = {
 
 // projection name of continental cube
 static char projname7[7][NPOW_10] = {
-  "GLANCE-AF", "GLANCE-AN", "GLANCE-AS", "GLANCE-EU", "GLANCE-NA", "GLANCE-OC", "GLANCE-SA" };
+  "GLANCE7-AF", "GLANCE7-AN", "GLANCE7-AS", "GLANCE7-EU", "GLANCE7-NA", "GLANCE7-OC", "GLANCE7-SA" };
 
 
 // abbreviation of continental cube
-- 
2.43.0


From d4f57df0f93124932c534c3cf28d39a57617b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:37 +0000
Subject: [PATCH 36/81] fix: sampling finds geographic points in grids that are
 turned against the meridians

---
 src/modules/higher-level/sample-hl.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/modules/higher-level/sample-hl.c b/src/modules/higher-level/sample-hl.c
index f78d979..417deda 100755
--- a/src/modules/higher-level/sample-hl.c
+++ b/src/modules/higher-level/sample-hl.c
@@ -95,6 +95,7 @@ double **smp_response = NULL;
 coord_t geo_ul, geo_ur, geo_lr, geo_ll;
 coord_t geo_upper, geo_lower, geo_left, geo_right;
 double minx, maxx, miny, maxy; 
+double edge_minx, edge_maxx, edge_miny, edge_maxy;
 
 
   // if no sample is left, skip all
@@ -147,11 +148,11 @@ double minx, maxx, miny, maxy;
     get_brick_geo(features[0].DAT, chunk[_X_]*cx,     (chunk[_Y_]+1)*cy, &geo_ll.x, &geo_ll.y);
     get_brick_geo(features[0].DAT, (chunk[_X_]+1)*cx, (chunk[_Y_]+1)*cy, &geo_lr.x, &geo_lr.y);
 
-    // min/max coordinates
-    minx = MIN(geo_ul.x, geo_ll.x);
-    maxx = MAX(geo_ur.x, geo_lr.x);
-    miny = MIN(geo_ll.y, geo_lr.y);
-    maxy = MAX(geo_ul.y, geo_ur.y);
+    // min/max coordinates, the grid may be turned against the meridians
+    minx = MIN(MIN(geo_ul.x, geo_ur.x), MIN(geo_ll.x, geo_lr.x));
+    maxx = MAX(MAX(geo_ul.x, geo_ur.x), MAX(geo_ll.x, geo_lr.x));
+    miny = MIN(MIN(geo_ul.y, geo_ur.y), MIN(geo_ll.y, geo_lr.y));
+    maxy = MAX(MAX(geo_ul.y, geo_ur.y), MAX(geo_ll.y, geo_lr.y));
 
     // edge coordinates of chunk
     get_brick_geo(features[0].DAT, chunk[_X_]*cx + cx/2, chunk[_Y_]*cy,        &geo_upper.x, &geo_upper.y);
@@ -160,10 +161,14 @@ double minx, maxx, miny, maxy;
     get_brick_geo(features[0].DAT, (chunk[_X_]+1)*cx,    chunk[_Y_]*cy + cy/2, &geo_right.x, &geo_right.y);
 
     // if edge coordinates are outside of corner min/max, expand the box a bit
-    if (geo_left.x  < minx) minx -= 2*fabs(geo_left.x -minx);
-    if (geo_right.x > maxx) maxx += 2*fabs(geo_right.x-maxx);
-    if (geo_lower.y < miny) miny -= 2*fabs(geo_lower.y-miny);
-    if (geo_upper.y > maxy) maxy += 2*fabs(geo_upper.y-maxy);
+    edge_minx = MIN(MIN(geo_upper.x, geo_lower.x), MIN(geo_left.x, geo_right.x));
+    edge_maxx = MAX(MAX(geo_upper.x, geo_lower.x), MAX(geo_left.x, geo_right.x));
+    edge_miny = MIN(MIN(geo_upper.y, geo_lower.y), MIN(geo_left.y, geo_right.y));
+    edge_maxy = MAX(MAX(geo_upper.y, geo_lower.y), MAX(geo_left.y, geo_right.y));
+    if (edge_minx < minx) minx -= 2*fabs(edge_minx-minx);
+    if (edge_maxx > maxx) maxx += 2*fabs(edge_maxx-maxx);
+    if (edge_miny < miny) miny -= 2*fabs(edge_miny-miny);
+    if (edge_maxy > maxy) maxy += 2*fabs(edge_maxy-maxy);
 
   }
 
-- 
2.43.0


From b42163518730bc3e38de28f67059df4732fa0c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 37/81] fix: a mosaic holds the tiles of its own product only

---
 bash/force-mosaic.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bash/force-mosaic.sh b/bash/force-mosaic.sh
index cc943d6..e440451 100755
--- a/bash/force-mosaic.sh
+++ b/bash/force-mosaic.sh
@@ -80,7 +80,7 @@ function mosaic_this(){
   debug "output name: $ONAME"
 
   # file list
-  grep "$prd" force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
+  prd="$prd" awk -F '/' '$NF == ENVIRON["prd"]' force-mosaic_all-files.txt 1> "$LIST" 2> /dev/null
 
   # file list exists?
   if [ ! -f "$LIST" ]; then
@@ -178,7 +178,7 @@ dir_not_found "$FINP"
 
 # output directory for mosaics
 if [ -z "$MOSAIC" ]; then
-  DOUT="$FINP/$MOSAIC"
+  DOUT="$FINP/mosaic"
 else 
   DOUT="$MOSAIC"
 fi
-- 
2.43.0


From 48e6df87f8f26819b16f6487342de10b85175eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 38/81] fix: template values are taken literally, vectors may
 have a single value

---
 bash/force-magic-parameters.sh | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/bash/force-magic-parameters.sh b/bash/force-magic-parameters.sh
index 6428533..fc1f065 100755
--- a/bash/force-magic-parameters.sh
+++ b/bash/force-magic-parameters.sh
@@ -109,6 +109,9 @@ fi
 
 # main thing -----------------------------------------------------------------------------
 
+# values are taken literally, no filename expansion
+set -f
+
 # detect replacement vectors
 KEYS=$(sed -e '/^+/q' $FINP | grep '%:' | sed 's/^%//g' | sed 's/%:.*$//g' )
 NKEYS=$(echo $KEYS | wc -w)
@@ -125,14 +128,19 @@ fi
 if [ "$COMB" = "all" ]; then 
 
   # combine values
+  combis=("")
   for k in $KEYS; do
-    VALUES={$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //' | sed 's/ /,/g' )}
-    #echo $VALUES
-    combis="$combis%$VALUES"
-    #echo $combis
+    VALUES=$(grep "%$k%:" $FINP | sed 's/^.*%: //' | tr -s ' ' | sed 's/^ //')
+    extended=()
+    for c in "${combis[@]}"; do
+      for v in $VALUES; do
+        extended+=("$c%$v")
+      done
+    done
+    combis=("${extended[@]}")
   done
 
-  COMBS=$(eval "echo "$combis"")
+  COMBS=${combis[*]}
   #echo $COMBS
 
 elif [ "$COMB" = "paired" ]; then 
@@ -190,7 +198,8 @@ for comb in $COMBS; do
   n=0
   for k in $KEYS; do
     #echo "replace {%$k%} with ${v[n]}"
-    sed -i "s+{%$k%}+${v[n]}+g" $FOUT
+    value=$(printf '%s' "${v[n]}" | sed 's/[&+\\]/\\&/g')
+    sed -i "s+{%$k%}+$value+g" $FOUT
     ((n++))
   done
 
-- 
2.43.0


From 57f0dda98e7c1a25ec80a698397fe5130d8dc44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 39/81] fix: overwriting virtual data cubes does not swallow
 the next option

---
 bash/force-virtual-datacube.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bash/force-virtual-datacube.sh b/bash/force-virtual-datacube.sh
index 9514936..a229c0d 100755
--- a/bash/force-virtual-datacube.sh
+++ b/bash/force-virtual-datacube.sh
@@ -101,7 +101,7 @@ while :; do
     -v|--version) force_version; exit 0;;
     -i|--info) echo "Display the size of your datacube"; exit 0;;
     -p|--pattern) PATTERN="$2"; shift ;;
-    -w|-overwrite) OVERWRITE=TRUE; shift ;;
+    -w|--overwrite) OVERWRITE=TRUE ;;
     -j|--jobs) NJOB="$2"; shift ;;
     
     -- ) shift; break ;;
-- 
2.43.0


From 6c14c4a6b806c0eeb5a355af97546e76a02f4a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 40/81] fix: stacks keep nodata and may be given by relative
 paths

---
 src/main/aux-level/force-stack.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/main/aux-level/force-stack.c b/src/main/aux-level/force-stack.c
index 114b742..2d5148a 100755
--- a/src/main/aux-level/force-stack.c
+++ b/src/main/aux-level/force-stack.c
@@ -84,6 +84,29 @@ void usage(char *exe, int exit_code){
 }
 
 
+/** This function makes a path absolute, such that it stays valid when the
++++ working directory changes.
+--- path: file path (modified)
++++ Return: void
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+void absolute_path(char *path){
+char dname[NPOW_10];
+char bname[NPOW_10];
+char *resolved = NULL;
+
+
+  directoryname(path, dname, NPOW_10);
+  basename_with_ext(path, bname, NPOW_10);
+
+  if ((resolved = realpath(dname, NULL)) != NULL){
+    concat_string_2(path, NPOW_10, resolved, bname, "/");
+    free((void*)resolved);
+  }
+
+  return;
+}
+
+
 void parse_args(int argc, char *argv[], args_t *args){
 int opt, i;
 bool o;
@@ -106,6 +129,7 @@ bool o;
         exit(SUCCESS);
       case 'o':
         copy_string(args->fdst, NPOW_10, optarg);
+        absolute_path(args->fdst);
         directoryname(args->fdst, args->ddst, NPOW_10);
         extension(args->fdst,     args->edst, NPOW_10);
         o = true;
@@ -137,6 +161,7 @@ bool o;
       alloc_2D((void***)&args->fsrc, args->n, NPOW_10, sizeof(char));
       for (i=0; i<args->n; i++){
         copy_string(args->fsrc[i], NPOW_10, argv[optind++]);
+        absolute_path(args->fsrc[i]);
       }
     } else {
       fprintf(stderr, "at least two input files need to be given.\n");
@@ -158,6 +183,7 @@ int b, nb;
 int k;
 int nx = 0, ny = 0;
 int nodata;
+int has_nodata;
 GDALDriverH     driver = NULL;
 GDALDatasetH    src    = NULL;
 GDALDatasetH    dst    = NULL;
@@ -304,7 +330,7 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
     bsrc = GDALGetRasterBand(src, out[b].b);
     bmeta = GDALGetMetadata(bsrc, "FORCE");
     bname = GDALGetDescription(bsrc);
-    nodata = (int)GDALGetRasterNoDataValue(bsrc, NULL);
+    nodata = (int)GDALGetRasterNoDataValue(bsrc, &has_nodata);
 
     // add new band
     GDALAddBand(dst, GDT_Int16, NULL);
@@ -325,6 +351,7 @@ enum { _BYFILE_, _BYBAND_, _INTERLEN_ };
     GDALSetMetadataItem(bdst, "source_0", source, "new_vrt_sources");
     GDALSetMetadata(bdst, bmeta, "FORCE");
     GDALSetDescription(bdst, bname);
+    if (has_nodata) GDALSetRasterNoDataValue(bdst, nodata);
 
     GDALClose(src);
 
-- 
2.43.0


From 0b2f68d7d9a1979df2c80ef915713a4b9a13c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:15 +0000
Subject: [PATCH 41/81] fix: output formats of force-stratified-sample, no
 points of classes without size

---
 src/main/aux-level/force-stratified-sample.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/aux-level/force-stratified-sample.c b/src/main/aux-level/force-stratified-sample.c
index 46f1901..cd5b243 100644
--- a/src/main/aux-level/force-stratified-sample.c
+++ b/src/main/aux-level/force-stratified-sample.c
@@ -115,6 +115,7 @@ bool o, f;
         exit(SUCCESS);
       case 'o':
         copy_string(args->file_output, NPOW_10, optarg);
+        o = true;
         break;
       case 'f':
         copy_string(args->format, NPOW_10, optarg);
@@ -161,7 +162,7 @@ bool o, f;
     usage(argv[0], FAILURE);
   }
 
-  if ((!o && f) || (!f && o)){
+  if (!o && f){
     fprintf(stderr, "If -f is given, -o need to be given, too.\n"); usage(argv[0], FAILURE);
   }
 
@@ -294,7 +295,7 @@ OGRGeometryH point;
 
       probability = (double)rand()/(double)RAND_MAX;
 
-      if (dictionary[line[j] + offset][_DICT_PROBABILITY_] >= probability){
+      if (dictionary[line[j] + offset][_DICT_PROBABILITY_] > probability){
         dictionary[line[j] + offset][_DICT_COUNT_]++;
         //printf("%d samples pre-selected (row %d, col %d)\n", count, i, j);
 
-- 
2.43.0


From d1fb7a34fdf9ad77697a385dd8feaf7277addfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:26:23 +0000
Subject: [PATCH 42/81] fix: level-1 download does not join its queue entry to
 an unterminated last line

A queue file edited by hand may lack the final newline. The new entry was
then glued to the last entry and both scenes were lost.
---
 bash/force-level1-csd.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bash/force-level1-csd.sh b/bash/force-level1-csd.sh
index 651b8ba..6e35e40 100755
--- a/bash/force-level1-csd.sh
+++ b/bash/force-level1-csd.sh
@@ -652,6 +652,7 @@ EOF
       gsutil -m -q cp -R $URL "$TILEPATH"
 
       lockfile-create $QUEUE
+      if [ -s $QUEUE ] && [ -n "$(tail -c 1 $QUEUE)" ]; then echo >> $QUEUE; fi
       echo "$SCENEPATH QUEUED" >> $QUEUE
       lockfile-remove $QUEUE
 
-- 
2.43.0


From d928285e394e086c17fb3e2c837a401e5882f927 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:33 +0000
Subject: [PATCH 43/81] fix: terminate the separator string of the parameter
 log

The separator was printed as a string without a terminating zero.
---
 src/modules/cross-level/param-cl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index d6ee773..199acd2 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -925,7 +925,7 @@ const char *separator = " =";
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 void print_parameter(params_t *params){
 int i, n;
-char eol[1];
+char eol[2] = "";
 
 
   printf("Parameter printout:\n");
@@ -1019,7 +1019,7 @@ void log_parameter(params_t *params){
 int i, n;
 char *cur = params->log;
 char *const end = params->log + NPOW_14;
-char eol[1];
+char eol[2] = "";
 
 
   for (i=0; i<params->n; i++){
-- 
2.43.0


From 0fc08f6562bd287f047b1b787ca83e13ef9ac3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:33 +0000
Subject: [PATCH 44/81] fix: parameter values that are no number or date are
 refused, values may contain an equal sign

Text was read as 0, trailing characters and fractions were dropped, and
months or days out of range were accepted. Values were cut at an equal sign.
NULL is still accepted for numbers that are not needed.
---
 src/modules/cross-level/param-cl.c | 105 ++++++++++++++++++++++++++---
 src/modules/cross-level/param-cl.h |   5 ++
 2 files changed, 99 insertions(+), 11 deletions(-)

diff --git a/src/modules/cross-level/param-cl.c b/src/modules/cross-level/param-cl.c
index 199acd2..bdf3b94 100755
--- a/src/modules/cross-level/param-cl.c
+++ b/src/modules/cross-level/param-cl.c
@@ -36,9 +36,8 @@ This file contains functions for parsing parameter files
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int length_par(const char *buf){
 char buffer[NPOW_16];
-char *ptr = NULL;
 const char *separator = " =";
-int n = -1; // start at -1 to ignore tag
+int n = 0;
 
 
   copy_string(buffer, NPOW_16, buf);
@@ -46,12 +45,10 @@ int n = -1; // start at -1 to ignore tag
   buffer[strcspn(buffer, "\r\n#")] = 0;
 
   char *saveptr = NULL;
-  ptr = strtok_r(buffer, separator, &saveptr);
+  if (strtok_r(buffer, separator, &saveptr) == NULL) return n;
+  saveptr += strspn(saveptr, separator);
 
-  while (ptr != NULL){
-    ptr = strtok_r(NULL, separator, &saveptr);
-    n++;
-  }
+  while (strtok_r(NULL, " ", &saveptr) != NULL) n++;
 
   #ifdef FORCE_DEBUG
   printf("%d elements in parameter vector\n", n);
@@ -130,6 +127,66 @@ int e;
 }
 
 
+/** This function tests whether a string is a number (in full)
+--- str:     string
+--- integer: must be an integer?
++++ Return:  true/false
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+bool is_number(const char *str, bool integer){
+char *end = NULL;
+double value;
+
+
+  value = strtod(str, &end);
+
+  if (end == str || *end != '\0' || !isfinite(value)) return false;
+  if (integer && (value < INT_MIN || value > INT_MAX || value != (int)value)) return false;
+
+  return true;
+}
+
+
+/** This function tests whether a string is a date in YYYY-MM-DD notation
+--- str:    string
++++ Return: true/false
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+bool is_date(const char *str){
+int y, m, d, n = 0;
+
+
+  if (sscanf(str, "%4d%*c%2d%*c%2d%n", &y, &m, &d, &n) != 3 || str[n] != '\0') return false;
+  if (m < 1 || m > 12 || d < 1 || d > 31) return false;
+
+  return true;
+}
+
+
+/** This function tests whether a string can be a value of a parameter
+--- par:    parameter
+--- str:    string
++++ Return: true/false
++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
+bool is_value(par_t *par, const char *str){
+
+
+  // numbers that are not needed may be NULL (read as 0)
+  if (strcmp(str, "NULL") == 0) return par->type != _PAR_DATE_;
+
+  switch (par->type){
+    case _PAR_INT_:
+      return is_number(str, true);
+    case _PAR_FLOAT_:
+    case _PAR_DOUBLE_:
+      return is_number(str, false);
+    case _PAR_DATE_:
+      return is_date(str);
+    default:
+      return true;
+  }
+
+}
+
+
 /** This function allocates the parsed parameters
 +++ Return: parsed parameters (must be freed with free_params)
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
@@ -322,6 +379,7 @@ void register_int_par(params_t *params, const char *name, int min, int max, int
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].int_range[_MIN_] = min;
   params->par[params->n].int_range[_MAX_] = max;
@@ -353,6 +411,7 @@ void register_enum_par(params_t *params, const char *name, const tagged_enum_t *
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].n_enums = n_enums;
   alloc((void**)&params->par[params->n].enums, n_enums, sizeof(tagged_enum_t));
@@ -385,6 +444,7 @@ void register_float_par(params_t *params, const char *name, float min, float max
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].float_range[_MIN_] = min;
   params->par[params->n].float_range[_MAX_] = max;
@@ -416,6 +476,7 @@ void register_double_par(params_t *params, const char *name, double min, double
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].double_range[_MIN_] = min;
   params->par[params->n].double_range[_MAX_] = max;
@@ -445,6 +506,7 @@ void register_bool_par(params_t *params, const char *name, int *ptr){
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].n_enums = 2;
   alloc((void**)&params->par[params->n].enums, 2, sizeof(tagged_enum_t));
@@ -484,6 +546,7 @@ char cmax[NPOW_10];
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   copy_string(cmin, NPOW_10, min);
   copy_string(cmax, NPOW_10, max);
@@ -517,6 +580,7 @@ void register_char_par(params_t *params, const char *name, int char_test, char *
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].char_test = char_test;
 
@@ -550,6 +614,7 @@ void register_intvec_par(params_t *params, const char *name, int min, int max, i
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].int_range[_MIN_] = min;
   params->par[params->n].int_range[_MAX_] = max;
@@ -586,6 +651,7 @@ void register_enumvec_par(params_t *params, const char *name, const tagged_enum_
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].n_enums = n_enums;
   alloc((void**)&params->par[params->n].enums, n_enums, sizeof(tagged_enum_t));
@@ -624,6 +690,7 @@ void register_floatvec_par(params_t *params, const char *name, float min, float
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].float_range[_MIN_] = min;
   params->par[params->n].float_range[_MAX_] = max;
@@ -660,6 +727,7 @@ void register_doublevec_par(params_t *params, const char *name, double min, doub
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].double_range[_MIN_] = min;
   params->par[params->n].double_range[_MAX_] = max;
@@ -694,6 +762,7 @@ void register_boolvec_par(params_t *params, const char *name, int expected_lengt
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].n_enums = 2;
   alloc((void**)&params->par[params->n].enums, 2, sizeof(tagged_enum_t));
@@ -739,6 +808,7 @@ char cmax[NPOW_10];
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   copy_string(cmin, NPOW_10, min);
   copy_string(cmax, NPOW_10, max);
@@ -777,6 +847,7 @@ void register_charvec_par(params_t *params, const char *name, int char_test, int
   copy_string(params->par[params->n].name, NPOW_10, name);
 
   params->par[params->n].set = false;
+  params->par[params->n].invalid = false;
 
   params->par[params->n].char_test = char_test;
   
@@ -828,16 +899,19 @@ const char *separator = " =";
 
     if (strcmp(tag, params->par[i].name) == 0){
 
-      if ((ptr = strtok_r(NULL, separator, &saveptr)) == NULL) return;
+      saveptr += strspn(saveptr, separator);
+      if ((ptr = strtok_r(NULL, " ", &saveptr)) == NULL) return;
 
       params->par[i].set = true;
 
       // scalar
       if (params->par[i].length == NULL){
 
+        if (!is_value(&params->par[i], ptr)) params->par[i].invalid = true;
+
         switch (params->par[i].type){
           case _PAR_INT_:
-            *params->par[i].int_ = atoi(ptr);
+            *params->par[i].int_ = strtod(ptr, NULL);
             break;
           case _PAR_ENUM_:
             *params->par[i].int_ = parse_enum(ptr, params->par[i].enums, params->par[i].n_enums);
@@ -873,14 +947,17 @@ const char *separator = " =";
 
         ptr = strtok_r(buffer, separator, &saveptr);
         tag = ptr;
+        saveptr += strspn(saveptr, separator);
 
         n = 0;
 
-        while ((ptr = strtok_r(NULL, separator, &saveptr)) != NULL){
+        while ((ptr = strtok_r(NULL, " ", &saveptr)) != NULL){
+
+          if (!is_value(&params->par[i], ptr)) params->par[i].invalid = true;
 
           switch (params->par[i].type){
             case _PAR_INT_:
-              params->par[i].int_vec_[0][n] = atoi(ptr);
+              params->par[i].int_vec_[0][n] = strtod(ptr, NULL);
               break;
             case _PAR_ENUM_:
               params->par[i].int_vec_[0][n] = parse_enum(ptr, params->par[i].enums, params->par[i].n_enums);
@@ -1398,6 +1475,12 @@ int error = 0, i;
       continue;
     }
 
+    if (params->par[i].invalid){
+      printf("parameter %s is not a valid number or date.\n", params->par[i].name);
+      error++;
+      continue;
+    }
+
     if (params->par[i].length != NULL && *params->par[i].length == 0){
       printf("parameter %s was incorrectly parsed.\n", params->par[i].name);
       error++;
diff --git a/src/modules/cross-level/param-cl.h b/src/modules/cross-level/param-cl.h
index 3e448a0..9e602eb 100755
--- a/src/modules/cross-level/param-cl.h
+++ b/src/modules/cross-level/param-cl.h
@@ -32,6 +32,7 @@ Parsing parameter header
 #include <stdlib.h>  // standard general utilities library
 #include <stdbool.h> // boolean data type
 #include <string.h>  // string handling functions
+#include <math.h>    // common mathematical functions
 #include <limits.h>  // macro constants of the integer types
 
 #include "../cross-level/const-cl.h"
@@ -48,6 +49,7 @@ extern "C" {
 typedef struct {
   char   name[NPOW_10];
   bool   set;
+  bool   invalid;
   int    type;
   int    *length;
   int    *int_,    **int_vec_;
@@ -75,6 +77,9 @@ typedef struct {
 int length_par(const char *buf);
 date_t parse_date(char *str);
 int parse_enum(char *str, tagged_enum_t *enums, int n_enums);
+bool is_number(const char *str, bool integer);
+bool is_date(const char *str);
+bool is_value(par_t *par, const char *str);
 params_t *allocate_params();
 void reallocate_params(params_t *params);
 void free_params(params_t *params);
-- 
2.43.0


From dca8e7c102a6e0063e6af6e6a3f4b2805ca8eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:33 +0000
Subject: [PATCH 45/81] fix: invalid INPUT_FEATURE entries are refused

The result of the feature check was ignored. Band numbers smaller than one,
entries without a band and bands that are no number are refused as well.
---
 src/modules/higher-level/param-hl.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/modules/higher-level/param-hl.c b/src/modules/higher-level/param-hl.c
index 67edbaa..f6ace06 100755
--- a/src/modules/higher-level/param-hl.c
+++ b/src/modules/higher-level/param-hl.c
@@ -546,7 +546,12 @@ int i, j, k;
 
   ftr->nfeature = 0;
 
-  for (i=0; i<ftr->ntags; i++) ftr->nfeature += ftr->ifeature[i]-1;
+  for (i=0; i<ftr->ntags; i++){
+    if (ftr->ifeature[i] < 2){
+      printf("parameter %s needs at least one band number.\n", "INPUT_FEATURE");
+      return FAILURE;}
+    ftr->nfeature += ftr->ifeature[i]-1;
+  }
   
   #ifdef FORCE_DEBUG
   printf("number of tag / features %d / %d\n", ftr->ntags, ftr->nfeature);
@@ -559,6 +564,9 @@ int i, j, k;
     for (j=1; j<ftr->ifeature[i]; j++, k++){
 
       copy_string(ftr->bname[k], NPOW_10, ftr->cfeature[i][0]);
+      if (!is_number(ftr->cfeature[i][j], true)){
+        printf("parameter %s includes a band number that is not an integer.\n", "INPUT_FEATURE");
+        return FAILURE;}
       ftr->band[k] = atoi(ftr->cfeature[i][j]);
 
       #ifdef FORCE_DEBUG
@@ -574,7 +582,7 @@ int i, j, k;
     if (strstr(ftr->bname[i], ".") == NULL){
       printf("parameter %s does not have a basename. No file extension detected.\n", "INPUT_FEATURE");
       return FAILURE;}
-    if (ftr->band[i] < 0){ printf("parameter %s includes a negative band number.\n", "INPUT_FEATURE");
+    if (ftr->band[i] < 1){ printf("parameter %s includes a band number smaller than 1.\n", "INPUT_FEATURE");
       return FAILURE;}
   }
 
@@ -1007,7 +1015,7 @@ double tol = 5e-3;
   
   if (phl->type == _HL_LSM_) parse_lsm(&phl->lsm);
 
-  if (phl->input_level1 == _INP_FTR_) parse_ftr(&phl->ftr);
+  if (phl->input_level1 == _INP_FTR_ && parse_ftr(&phl->ftr) == FAILURE) return FAILURE;
 
   if (phl->input_level1 == _INP_ARD_ ||
       phl->input_level1 == _INP_QAI_) parse_quality(&phl->qai);
-- 
2.43.0


From 1d436de4565e317655b55a3794b57a62bcf4e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:07:09 +0000
Subject: [PATCH 46/81] fix: the first written chunk of a run starts the
 product and its provenance entry

A product file was only started, and its provenance only recorded, by chunk
(0,0). If that chunk was skipped (e.g. masked), the provenance entry was
missing, and a file of a former run was updated instead of replaced.
---
 src/modules/cross-level/brick_io-cl.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index af3b057..8538acd 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -38,6 +38,9 @@ This file contains functions for organizing bricks in memory, and output
 #include "ogr_spatialref.h" // coordinate systems services
 #endif
 
+#include <set>              // ordered sets
+#include <string>           // C++ strings
+
 
 /** This function outputs a brick
 --- brick:  brick
@@ -80,6 +83,8 @@ int write_brick(brick_t *brick){
   
   char c_update[2][NPOW_10] = { "create", "update" };
   bool update;
+  bool first;
+  static std::set<std::string> started; // files that this run has started
   
   
   char **fp_meta = NULL;
@@ -325,9 +330,17 @@ int write_brick(brick_t *brick){
       }
   
   
+      // the first chunk that is written in this run starts the file
+      first = true;
+      if (brick->open == OPEN_CHUNK){
+        #pragma omp critical (write_brick_started)
+        {
+          first = started.insert(fname).second;
+        }
+      }
+
       // open for chunk mode or write from scratch
-      if (brick->open == OPEN_CHUNK && fileexist(fname) && 
-         (brick->chunk[_X_] > 0 || brick->chunk[_Y_] > 0)){
+      if (brick->open == OPEN_CHUNK && fileexist(fname) && !first){
         if ((fp = GDALOpen(fname, GA_Update)) == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
       } else {
@@ -476,9 +489,7 @@ int write_brick(brick_t *brick){
       unlock_file(lock);
     
       // write provenance info
-      if (brick->provenance.number > 0 && 
-          brick->chunk[_X_] <= 0 && 
-          brick->chunk[_Y_] <= 0){
+      if (brick->provenance.number > 0 && first){
   
         if ((lock = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
-- 
2.43.0


From d864d5bec2a8a47cdd7edf708d01b88297a45be9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:07:09 +0000
Subject: [PATCH 47/81] fix: provenance names all features and quality images

Only the first feature and the first quality image were recorded for products
that are derived from several of them.
---
 src/modules/higher-level/read-ard-hl.c | 32 +++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/read-ard-hl.c b/src/modules/higher-level/read-ard-hl.c
index eab44c2..ae7bdb4 100755
--- a/src/modules/higher-level/read-ard-hl.c
+++ b/src/modules/higher-level/read-ard-hl.c
@@ -567,7 +567,7 @@ int n = 0;
 +++ Return: ARD
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 ard_t *read_features(off_t *ibytes, int *nt, int tile[], int chunk[], cube_t *cube, par_hl_t *phl){
-int f, p;
+int f, p, n;
 char fname[NPOW_10];
 int nchar;
 ard_t *features = NULL;
@@ -649,6 +649,27 @@ off_t bytes = 0;
     return NULL;
   }
 
+  // copy all provenance to 1st feature, bands of the same image only once
+  for (f=1, n=1; f<phl->ftr.nfeature; f++){
+    for (p=0; p<f; p++){
+      if (strcmp(phl->ftr.bname[p], phl->ftr.bname[f]) == 0) break;
+    }
+    if (p == f) n++;
+  }
+  if (n > 1){
+    get_brick_provenance(features[0].DAT, 0, fname, NPOW_10);
+    set_brick_nprovenance(features[0].DAT, n);
+    set_brick_provenance(features[0].DAT, 0, fname);
+    for (f=1, n=1; f<phl->ftr.nfeature; f++){
+      for (p=0; p<f; p++){
+        if (strcmp(phl->ftr.bname[p], phl->ftr.bname[f]) == 0) break;
+      }
+      if (p < f) continue;
+      get_brick_provenance(features[f].DAT, 0, fname, NPOW_10);
+      set_brick_provenance(features[0].DAT, n++, fname);
+    }
+  }
+
   #ifdef FORCE_CLOCK
   proctime_print("read features", TIME);
   #endif
@@ -920,6 +941,15 @@ off_t bytes = 0;
       set_brick_provenance(ard[0].DAT, t, temp);
     }
   }
+  if (phl->prd.qai && !phl->prd.ref){
+    get_brick_provenance(ard[0].QAI, 0, temp, NPOW_10);
+    set_brick_nprovenance(ard[0].QAI, dir.n);
+    set_brick_provenance(ard[0].QAI, 0, temp);
+    for (t=1; t<dir.n; t++){
+      get_brick_provenance(ard[t].QAI, 0, temp, NPOW_10);
+      set_brick_provenance(ard[0].QAI, t, temp);
+    }
+  }
 
   free_2D((void**)dir.list, dir.N); dir.list = NULL;
   free_2D((void**)dir.LIST, dir.N); dir.LIST = NULL;
-- 
2.43.0


From 04fd0c6c5e00e29d83e2254f07eee0835f0414ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:18:38 +0000
Subject: [PATCH 48/81] fix: fill new products before their first chunk is
 written

Drivers that write past the block cache (ENVI) wrote the cached nodata values
after the first chunk, which was lost.
---
 src/modules/cross-level/brick_io-cl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 8538acd..a546ce2 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -352,6 +352,7 @@ int write_brick(brick_t *brick){
             band = GDALGetRasterBand(fp, bands[_FILE_][f][b]);
             GDALSetRasterNoDataValue(band, brick->nodata[bands[_brick_][f][b]]);
             GDALFillRaster(band, brick->nodata[bands[_brick_][f][b]], 0);
+            GDALFlushRasterCache(band);
           }
         }
       }
-- 
2.43.0


From 5b8683ad6cb76129e87a6dffb054d8f0ad084fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:20:09 +0000
Subject: [PATCH 49/81] fix: products of several chunks can be written as COG

Such files cannot be updated, so that every chunk but the first one was lost.
---
 src/modules/cross-level/brick_io-cl.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index a546ce2..15c2bd0 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -341,7 +341,14 @@ int write_brick(brick_t *brick){
 
       // open for chunk mode or write from scratch
       if (brick->open == OPEN_CHUNK && fileexist(fname) && !first){
-        if ((fp = GDALOpen(fname, GA_Update)) == NULL){
+        if (create){
+          fp = GDALOpen(fname, GA_Update);
+        } else if ((fo = GDALOpen(fname, GA_ReadOnly)) != NULL){
+          // such files cannot be updated, add the chunk to a copy in memory
+          fp = GDALCreateCopy(driver_memory, "", fo, FALSE, NULL, NULL, NULL);
+          GDALClose(fo);
+        } else fp = NULL;
+        if (fp == NULL){
           printf("Unable to open %s. ", fname); return FAILURE;}
       } else {
         if ((fp = GDALCreate(driver_create, fname, brick->nx, brick->ny, nbands, file_datatype, options)) == NULL){
-- 
2.43.0


From 7bfca8aa4bd3fabe248fac3fdf621468c95eef3f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:20:35 +0000
Subject: [PATCH 50/81] fix: class probabilities have distinct band names

With one file per band, the probabilities of all classes were written into the
same file.
---
 src/modules/higher-level/ml-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/ml-hl.c b/src/modules/higher-level/ml-hl.c
index 3fd44eb..31829fa 100755
--- a/src/modules/higher-level/ml-hl.c
+++ b/src/modules/higher-level/ml-hl.c
@@ -95,7 +95,9 @@ short ***ptr[5] = { &ml->mlp_, &ml->mli_, &ml->mlu_, &ml->rfp_, &ml->rfm_ };
                   if (nchar < 0 || nchar >= NPOW_10){ 
                     printf("Buffer Overflow in assembling domain\n"); error++;}
                 } else { 
-                  copy_string(domain, NPOW_10, bname);
+                  nchar = snprintf(domain, NPOW_10, "%s_CLASS-%03d", bname, c+1);
+                  if (nchar < 0 || nchar >= NPOW_10){ 
+                    printf("Buffer Overflow in assembling domain\n"); error++;}
                 }
                 set_brick_domain(ML[o],   sc, domain);
                 set_brick_bandname(ML[o], sc, domain);
-- 
2.43.0


From 6bbb7dc64db0f3092c3f11161794534822e0edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:24:31 +0000
Subject: [PATCH 51/81] fix: custom output options may consist of driver and
 extension only

---
 src/modules/cross-level/gdalopt-cl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/cross-level/gdalopt-cl.c b/src/modules/cross-level/gdalopt-cl.c
index 2883b2c..02641c3 100644
--- a/src/modules/cross-level/gdalopt-cl.c
+++ b/src/modules/cross-level/gdalopt-cl.c
@@ -140,8 +140,10 @@ bool b_ext = false;
     nchar[1] = (strlen(tagval[i][_TV_VAL_]) > nchar[_TV_VAL_]) ? strlen(tagval[i][_TV_VAL_]) : nchar[_TV_VAL_];
   }
 
-  alloc_string_vector(&gdalopt->options[_TV_TAG_],  nrows - 2, nchar[_TV_TAG_]);
-  alloc_string_vector(&gdalopt->options[_TV_VAL_],  nrows - 2, nchar[_TV_VAL_]);
+  if (nrows > 2){
+    alloc_string_vector(&gdalopt->options[_TV_TAG_],  nrows - 2, nchar[_TV_TAG_]);
+    alloc_string_vector(&gdalopt->options[_TV_VAL_],  nrows - 2, nchar[_TV_VAL_]);
+  }
 
   for (int i=0, o=0; i<nrows; i++){
 
-- 
2.43.0


From d72ff89791304c6b45161bba396b7519a23089b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 52/81] fix: locks are released when a product cannot be
 written

---
 src/modules/cross-level/brick_io-cl.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/modules/cross-level/brick_io-cl.cpp b/src/modules/cross-level/brick_io-cl.cpp
index 15c2bd0..d10781d 100755
--- a/src/modules/cross-level/brick_io-cl.cpp
+++ b/src/modules/cross-level/brick_io-cl.cpp
@@ -41,6 +41,13 @@ This file contains functions for organizing bricks in memory, and output
 #include <set>              // ordered sets
 #include <string>           // C++ strings
 
+// lock on a file, released on every way out of a function
+typedef struct held_lock {
+  char *name = NULL;
+  void release(){ unlock_file(name); name = NULL; }
+  ~held_lock(){ release(); }
+} held_lock_t;
+
 
 /** This function outputs a brick
 --- brick:  brick
@@ -50,7 +57,7 @@ int write_brick(brick_t *brick){
   int f, b, b_;
   int b_brick, b_file, nbands, nfiles;
   int ***bands = NULL;
-  char *lock = NULL;
+  held_lock_t lock;
   double timeout;
   GDALDatasetH fp_copy = NULL;
   GDALDatasetH fp_finish = NULL;
@@ -226,12 +233,11 @@ int write_brick(brick_t *brick){
   
   
     // output path
-    if ((lock = lock_file(brick->dname.string, 60)) == NULL){
+    if ((lock.name = lock_file(brick->dname.string, 60)) == NULL){
       printf("Unable to lock directory %s (timeout: %ds). ", brick->dname.string, 60);
       return FAILURE;}
     createdir(brick->dname.string);
-    unlock_file(lock);
-    lock = NULL;
+    lock.release();
   
     // provenance file
     current_date(&today);
@@ -256,7 +262,7 @@ int write_brick(brick_t *brick){
   
       timeout = lock_timeout(get_brick_size(brick));
   
-      if ((lock = lock_file(fname, timeout)) == NULL){
+      if ((lock.name = lock_file(fname, timeout)) == NULL){
         printf("Unable to lock file %s (timeout: %fs, nx/ny: %d/%d). ", fname, timeout, brick->nx, brick->ny);
         return FAILURE;}
   
@@ -494,12 +500,12 @@ int write_brick(brick_t *brick){
       GDALClose(fp);
   
     
-      unlock_file(lock);
+      lock.release();
     
       // write provenance info
       if (brick->provenance.number > 0 && first){
   
-        if ((lock = lock_file(provname, timeout)) == NULL){
+        if ((lock.name = lock_file(provname, timeout)) == NULL){
           printf("Unable to lock file %s (timeout: %fs). ", provname, timeout);
           return FAILURE;}
   
@@ -528,7 +534,7 @@ int write_brick(brick_t *brick){
 
         fclose(fprov);
   
-        unlock_file(lock);
+        lock.release();
   
       }
     
-- 
2.43.0


From a42aae7889a063be899877dc72c13407b50b9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:00:00 +0000
Subject: [PATCH 53/81] fix: maximum of patches with negative values

---
 src/modules/higher-level/lsm-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index 1af37c2..10ac3e3 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -378,7 +378,7 @@ float unit_perim = 0;
               var_recurrence(features[f].dat[0][np], &mx, &vx, validDataPixels);
             }
 
-            if (maxVal < features[f].dat[0][np]) maxVal = features[f].dat[0][np];
+            if (validDataPixels == 1 || maxVal < features[f].dat[0][np]) maxVal = features[f].dat[0][np];
 
           }
 
-- 
2.43.0


From 80dbc66a5761c420f5d793a691b5b01f70b8189f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:00:05 +0000
Subject: [PATCH 54/81] fix: landscape metrics of all pixels where a chunk has
 no patch

---
 src/modules/higher-level/lsm-hl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/lsm-hl.c b/src/modules/higher-level/lsm-hl.c
index 10ac3e3..29939c9 100755
--- a/src/modules/higher-level/lsm-hl.c
+++ b/src/modules/higher-level/lsm-hl.c
@@ -306,7 +306,12 @@ float unit_perim = 0;
 
     // make objects and delete small ones
     binary_to_objects(newFeatures, nx, ny, minPatchSize, &CCL, &SIZE, &nobj);
-    if (nobj < 1) continue;
+    if (nobj < 1){
+      if (!phl->lsm.allpx) continue;
+      // background pixels have metrics, too
+      alloc((void**)&CCL, nc, sizeof(int));
+      SIZE = NULL;
+    }
 
 
     #pragma omp parallel firstprivate(kernelSize,numberOfuniquePatches) private(p,u,uniquePatches,ccl,patchperimeters,patchAreas,totalClassArea,totaledgelength,sumFractalDims,mx,vx,validDataPixels,maxVal,logSum,logCounter,ii,jj,ni,nj,np,exists,t,share,kj,ki,sumarea,sumshare,unit_area,unit_perim) shared(ny,nx,nobj,f,nodata,lsm,mask_,CCL,features,phl,newFeatures,KDIST,kfraction,sqkfraction) default(none)
-- 
2.43.0


From e59a8d758dd935613a6ab1b23dc5f2d640793d6e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:02:35 +0000
Subject: [PATCH 55/81] fix: the NDVIre1n index can be computed

---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 192d6c4..af3e4f8 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -1104,7 +1104,7 @@ int tsa_spectral_index(ard_t *ard, tsa_t *ts, small *mask_, int nc, int nt, int
           band_for_index(ard[0].DAT, index->band_names[idx][0]), 
           band_for_index(ard[0].DAT, index->band_names[idx][1]), 
           nc, nt, nodata);
-      } else if (strcmp(index->names[idx], "NDVIren") == 0){
+      } else if (strcmp(index->names[idx], "NDVIre1n") == 0){
         cite_me(_CITE_NDVIre1n_);
         check_nbands_for_index(index->names[idx], 2, index->n_bands[idx]);
         index_differenced(ard, mask_, ts, 
-- 
2.43.0


From 6f2e46b11f0184c4ab5dc16dca32aaf1b9c0e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:02:35 +0000
Subject: [PATCH 56/81] fix: values of resistance indices that cannot be stored
 are nodata

---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index af3e4f8..2c50519 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -400,7 +400,7 @@ float tmp, x = 0, nir, red, blue, ind, scale = 10000.0;
           red -= x*(blue-red);
           tmp = nir+f2*red-f3*blue+f4*scale;
           ind = f1*(nir-red)/tmp;
-          if (tmp == 0){// || ind < -1 || ind > 1){
+          if (tmp == 0 || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
             ts->tss_[t][p] = nodata;
           } else {
             ts->tss_[t][p] = (short)(ind*scale);
-- 
2.43.0


From 55d886bc5727dddc73f5630613efeaff6029b900 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:02:35 +0000
Subject: [PATCH 57/81] fix: modified simple ratio indices are nodata where
 their root is undefined

---
 src/modules/higher-level/index-compute-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/index-compute-hl.c b/src/modules/higher-level/index-compute-hl.c
index 2c50519..1ad835f 100755
--- a/src/modules/higher-level/index-compute-hl.c
+++ b/src/modules/higher-level/index-compute-hl.c
@@ -282,7 +282,7 @@ float upper, lower, ind, scale = 10000.0;
             upper = (ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) - 1.0;
             lower = sqrt((ard[t].dat[b1][p] / (float)ard[t].dat[b2][p]) + 1.0);
             ind = upper/lower;
-            if (lower == 0 || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
+            if (!(lower > 0) || ind*scale > SHRT_MAX || ind*scale < SHRT_MIN){
               ts->tss_[t][p] = nodata;
             } else {
               ts->tss_[t][p] = (short)(ind*scale);
-- 
2.43.0


From 04174c83ad3c739649112283ba792019c260c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:11:09 +0000
Subject: [PATCH 58/81] fix: composites of pixels without phenology do not
 depend on other pixels

The regression of the phenology was not initialised for pixels without any
value, and the scores of the previously processed pixel were kept.
---
 src/modules/higher-level/bap-hl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 7504e01..30cf6d2 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -233,6 +233,7 @@ float *lsp_;
 
     // linear regression parameters
     mx = my = vx = vy = cv = n = 0.0;
+    slope = intercept = 0.0;
 
     for (y=0, yr=y0; y<ny; y++, yr++){
 
@@ -507,6 +508,10 @@ float vz;
 
   for (t=0; t<nt; t++){
 
+    // do not carry over anything from the previous pixel
+    memset(&score[t], 0, sizeof(par_scr_t));
+    tdist[t] = 0;
+
     if (bap->combine == _SCR_COMB_ADD_){
       score[t].t = 0;
     } else if (bap->combine == _SCR_COMB_MUL_){
@@ -532,7 +537,10 @@ float vz;
     // if target is corrupt, skip pixel
     if (target[y].ce[0] < 1900*365 || 
         target[y].ce[1] < 1900*365 || 
-        target[y].ce[2] < 1900*365) continue;
+        target[y].ce[2] < 1900*365){
+      score[t].t = 0;
+      continue;
+    }
 
     // difference between acquisition and target year
     dy = abs(get_brick_year(ard[t].DAT, 0) - bap->Yt);
-- 
2.43.0


From 7bbacd544c3ebd550f1383174eb142588febfd1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:11:09 +0000
Subject: [PATCH 59/81] fix: weighted composites without the composite itself
 do not crash

---
 src/modules/higher-level/bap-hl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/higher-level/bap-hl.c b/src/modules/higher-level/bap-hl.c
index 30cf6d2..771e24d 100755
--- a/src/modules/higher-level/bap-hl.c
+++ b/src/modules/higher-level/bap-hl.c
@@ -900,7 +900,9 @@ double sum_r = 0, sum_v = 0;
 
   }
 
-  for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  if (l3->bap != NULL){
+    for (b=0; b<nb; b++) l3->bap[b][p] = (short)sum_reflection[b];
+  }
 
   free((void*)sum_reflection);
 
-- 
2.43.0


From 00ec2da582cd3e2779d38548fc39927948043108 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:16:32 +0000
Subject: [PATCH 60/81] fix: masked pixels hold nodata in the products of
 Python pixel plug-ins

---
 src/modules/higher-level/py-udf-hl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/higher-level/py-udf-hl.c b/src/modules/higher-level/py-udf-hl.c
index a3244d9..10557ec 100755
--- a/src/modules/higher-level/py-udf-hl.c
+++ b/src/modules/higher-level/py-udf-hl.c
@@ -562,6 +562,15 @@ short* return_  = NULL;
   // copy to output brick
   return_ = (short*)PyArray_DATA(py_return);
 
+  // masked pixels do not hold data
+  if (udf->type == _UDF_PIXEL_ && mask_ != NULL){
+    for (b=0; b<udf->nb; b++){
+      for (p=0; p<nc; p++){
+        if (!mask_[p]) return_[(size_t)b*nc+p] = nodata;
+      }
+    }
+  }
+
   if (submodule == _HL_UDF_){
 
     for (b=0; b<udf->nb; b++){
-- 
2.43.0


From 6d4f04ee6748c85e95dec91eb917ea0df23a66af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:49:31 +0000
Subject: [PATCH 61/81] fix: residuals of the noise filter refer to the line
 between the neighbours

---
 src/modules/higher-level/quality-hl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/quality-hl.c b/src/modules/higher-level/quality-hl.c
index 93f5b2d..460c1b7 100755
--- a/src/modules/higher-level/quality-hl.c
+++ b/src/modules/higher-level/quality-hl.c
@@ -257,11 +257,11 @@ small *mask_ = NULL;
 
           if (ce[t_right] == ce[t_left]){
             y_hat = fabs(ard[t_mid].dat[b][p] - 
-                        (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                        (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
           } else {
             y_hat = fabs(ard[t_mid].dat[b][p] - 
                         (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                        (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                        (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                         ard[t_left].dat[b][p]);
           }
           t_max = t_mid;
@@ -337,11 +337,11 @@ small *mask_ = NULL;
 
         if (ce[t_right] == ce[t_left]){
           y_hat = fabs(ard[t_mid].dat[b][p] - 
-                      (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 2.0);
+                      (ard[t_right].dat[b][p]+ard[t_left].dat[b][p]) / 2.0);
         } else {
           y_hat = fabs(ard[t_mid].dat[b][p] - 
                       (ard[t_right].dat[b][p]-ard[t_left].dat[b][p]) / 
-                      (ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
+                      (float)(ce[t_right]-ce[t_left]) * (ce[t_mid]-ce[t_left]) - 
                       ard[t_left].dat[b][p]);
         }
 
-- 
2.43.0


From d72d39f091586a716e9bb27f4c9b0deb8db881bd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:06:46 +0000
Subject: [PATCH 62/81] fix: classification margin is zero when the best
 classes tie

---
 src/modules/higher-level/ml-hl.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/higher-level/ml-hl.c b/src/modules/higher-level/ml-hl.c
index 31829fa..e121b9f 100755
--- a/src/modules/higher-level/ml-hl.c
+++ b/src/modules/higher-level/ml-hl.c
@@ -383,11 +383,14 @@ bool valid;
           
           if (ml.rfm_ != NULL){
             max_prob = max2_prob  = 0;
-            for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max_prob) max_prob = mean_prob[c];
+            for (c=0, win_class=-1; c<phl->mcl.nclass[s]; c++){
+              if (mean_prob[c] > max_prob){
+                max_prob = mean_prob[c];
+                win_class = c;
+              }
             }
             for (c=0; c<phl->mcl.nclass[s]; c++){
-              if (mean_prob[c] > max2_prob && mean_prob[c] < max_prob) max2_prob = mean_prob[c];
+              if (c != win_class && mean_prob[c] > max2_prob) max2_prob = mean_prob[c];
             }
             ml.rfm_[s][p] = max_prob-max2_prob;
           }
-- 
2.43.0


From cc5dcd870c7afa84a26dd170a207a6d0dfd4950d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:18:01 +0000
Subject: [PATCH 63/81] fix: polar coordinates are computed when no
 polarmetrics are requested

---
 src/modules/higher-level/polar-hl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index e04f8da..09cd16c 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -308,7 +308,7 @@ int p;
 int i, i_, i0;
 int s, y;
 float r, v;
-bool valid;
+bool valid, metrics;
 float ce_left, ce_right, ce;
 float v_left, v_right;
 
@@ -336,12 +336,14 @@ float green_val, base_val;
     if (ts->pol_[l] != NULL) valid = true;
   }
 
-  if (!valid) return CANCEL;
+  metrics = valid;
 
+  if (!metrics && !pol->opct) return CANCEL;
 
 
 
-  #pragma omp parallel private(l,i,i0,i_,ce_left,ce_right,v_left,v_right,valid,ce,v,s,y,r,timing,vector,mean_window,n_window,max_rate,mean_rate,rate,recurrence,integral,polar,theta0,green_val,base_val) shared(mask_,ts,nc,ni,year_min,nodata,pol,tsi) default(none)
+
+  #pragma omp parallel private(l,i,i0,i_,ce_left,ce_right,v_left,v_right,valid,ce,v,s,y,r,timing,vector,mean_window,n_window,max_rate,mean_rate,rate,recurrence,integral,polar,theta0,green_val,base_val) shared(mask_,ts,nc,ni,year_min,nodata,pol,tsi,metrics) default(none)
   {
 
     // allocate
@@ -427,7 +429,7 @@ float green_val, base_val;
 
       }
 
-      if (!valid) continue;
+      if (!valid || !metrics) continue;
 
 
       // mean of polar coordinates
-- 
2.43.0


From e08645013829babb8b70cdc5a1b79ab77c312b78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:22:25 +0000
Subject: [PATCH 64/81] fix: phenometrics of complete seasons when the series
 starts after the start of the phenological year

---
 src/modules/higher-level/polar-hl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/higher-level/polar-hl.c b/src/modules/higher-level/polar-hl.c
index 09cd16c..6cb46a5 100755
--- a/src/modules/higher-level/polar-hl.c
+++ b/src/modules/higher-level/polar-hl.c
@@ -128,6 +128,12 @@ int i, s = -1, y = 0;
 
     theta->ce = doy2ce(theta->doy, y);
 
+    // phenological years that started before the time series
+    while (i == 0 && polar[i].ce-theta->ce > istep){
+      s++; y++;
+      theta->ce = doy2ce(theta->doy, y);
+    }
+
     if (polar[i].ce >= theta->ce && 
         polar[i].ce-theta->ce <= istep){ s++; y++;}
 
@@ -543,6 +549,9 @@ float green_val, base_val;
         }
 
 
+        // no season in this phenological year
+        if (timing[_LEFT_].cum == 0) continue;
+
         mean_window[_GROW_][_X_]  /= n_window[_GROW_];
         mean_window[_GROW_][_Y_]  /= n_window[_GROW_];
         mean_window[_EARLY_][_X_] /= n_window[_EARLY_];
-- 
2.43.0


From c9ea161c22c2d77f3aae8b92481ee8e041557568 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:29:49 +0000
Subject: [PATCH 65/81] fix: the penalty on changes that do not last compares
 penalised changes

The penalised change of a candidate was compared with the unpenalised change of
the best candidate so far, so later candidates could hardly win.
---
 src/modules/higher-level/trend-hl.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index b64ecb7..dc3f5b8 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -218,7 +218,7 @@ double mae, rmse;
 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++**/
 int cat(short **fld_, date_t *d_fld, small *mask_, int nc, int nf, short **cat_, short nodata, int by, bool in_ce, par_trd_t *trd){
 int p, f, f_pre, f_post, f_change, f_min[3], f_max[3], f_len[3];
-float change, change_now, change_real;
+float change, change_now, change_real, change_max;
 int x, b, part, sig;
 double mx, my, vx, vy, cv, k;
 double off, slp, rsq, yhat;
@@ -231,7 +231,7 @@ double mae, rmse;
   if (cat_ == NULL) return CANCEL;
 
 
-  #pragma omp parallel private(b,part,f,f_pre,f_post,f_change,f_min,f_max,f_len,change,change_now,change_real,x,mx,my,vx,vy,cv,k,ssqe,sae,sxsq,maxe,seb,mae,rmse,off,slp,rsq,yhat,e,sig) shared(mask_,fld_,d_fld,cat_,nc,nf,by,nodata,in_ce,trd) default(none)
+  #pragma omp parallel private(b,part,f,f_pre,f_post,f_change,f_min,f_max,f_len,change,change_now,change_real,change_max,x,mx,my,vx,vy,cv,k,ssqe,sae,sxsq,maxe,seb,mae,rmse,off,slp,rsq,yhat,e,sig) shared(mask_,fld_,d_fld,cat_,nc,nf,by,nodata,in_ce,trd) default(none)
   {
 
     #pragma omp for
@@ -244,7 +244,7 @@ double mae, rmse;
 
 
       f_change = 0;
-      change = SHRT_MIN;
+      change = change_max = SHRT_MIN;
 
       // find largest change
       for (f=1; f<nf; f++){
@@ -267,7 +267,8 @@ double mae, rmse;
 
         }
 
-        if (change_now > change){
+        if (change_now > change_max){
+          change_max = change_now;
           change = change_real;
           f_change = f;
         }
-- 
2.43.0


From 500a5d95a5c9dd056803314dad2a5c4342359d72 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:29:49 +0000
Subject: [PATCH 66/81] fix: the part before a change includes the last value
 before it

The upper limit of a part is exclusive, so the value right before the change
belonged to neither of the two parts.
---
 src/modules/higher-level/trend-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index dc3f5b8..4fa7a71 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -305,7 +305,7 @@ double mae, rmse;
 
       // split the time series into three parts
       f_min[_PART_TOTAL_]  = 0;        f_max[_PART_TOTAL_]  = nf;         // complete
-      f_min[_PART_BEFORE_] = 0;        f_max[_PART_BEFORE_] = f_change-1; // before
+      f_min[_PART_BEFORE_] = 0;        f_max[_PART_BEFORE_] = f_change;   // before
       f_min[_PART_AFTER_]  = f_change; f_max[_PART_AFTER_]  = nf;         // after
 
       f_len[_PART_TOTAL_]  = f_max[_PART_TOTAL_]  - f_min[_PART_TOTAL_];  // complete
-- 
2.43.0


From bd6a5d983d8316825494543ec01b4eed4d066f48 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:32:35 +0000
Subject: [PATCH 67/81] fix: mean date of phenometrics in trends when years are
 missing

The mean position of the years that were used is subtracted, not the middle of
the complete series.
---
 src/modules/higher-level/trend-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index 4fa7a71..0954aba 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -158,7 +158,7 @@ double mae, rmse;
 
       // account for values given in continuous days
       if (in_ce){
-        my  -= 365*(nf-1)/2;
+        my  -= 365*mx;
         slp -= 365;
       }
 
-- 
2.43.0


From 8d6be88f7c7571949c70616a1708848f07d37424 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:32:35 +0000
Subject: [PATCH 68/81] fix: changes of phenometric dates are described like
 their trends

Mean and offset of the parts were in days since the first year or off by a
thousand-fold slope, and the significance was that of a thousand-fold slope.
---
 src/modules/higher-level/trend-hl.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modules/higher-level/trend-hl.c b/src/modules/higher-level/trend-hl.c
index 0954aba..2b14ba3 100755
--- a/src/modules/higher-level/trend-hl.c
+++ b/src/modules/higher-level/trend-hl.c
@@ -352,7 +352,8 @@ double mae, rmse;
 
         if (k < 1) continue;
 
-        cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_MEAN_][p] = (short)my;
+        // account for values given in continuous days
+        cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_MEAN_][p] = (short)(in_ce ? my-365*mx : my);
         cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_NUM_][p]  = (short)k;
         cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_LEN_][p]  = (short)f_len[part];
 
@@ -402,22 +403,22 @@ double mae, rmse;
         }
 
 
+        // offset of segment
+        linreg_predict(f_min[part], slp, off, &yhat);
+
         // account for values given in continuous days
-        if (in_ce){
-          my  -= 365*(nf-1)/2;
-          slp -= 365; slp *= 1000;
-        }
+        if (in_ce) slp -= 365;
 
         // standard error of slope, and significance of slope
         seb = sqrt(1.0/(k-2)*ssqe)/sqrt(sxsq);
         sig = slope_significant(1-trd->conf, trd->tail, k, slp, 0.0, seb);
 
+        // account for values given in continuous days
+        if (in_ce) slp *= 1000;
+
         rmse = sqrt(ssqe/k);
         mae = sae/k;
 
-        // offset of segment
-        linreg_predict(f_min[part], slp, off, &yhat);
-
         cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_OFFSET_][p]   = (short)yhat;
         cat_[_CAT_YEAR_+1+_TRD_LENGTH_*part+_TRD_SLOPE_][p]    = (short)slp;
         if (yhat > 0){
-- 
2.43.0


From 2091cd0054742851a257d24d14a755f5c62da4ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:41:09 +0000
Subject: [PATCH 69/81] fix: synthetic mixtures of three or more members no
 longer stop because of rounding

The shares of a mixture add up to one except for floating point rounding.
The exact comparison stopped the program at random.
---
 python/force-synthmix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index b361dca..c47bc01 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -106,7 +106,7 @@ def synthMixCore(
                 fraction = np.random.random() * (1. - sum(drawnFractions))
             drawnFractions.append(fraction)
         drawnFractions.append(1. - sum(drawnFractions))
-        assert sum(drawnFractions) == 1.
+        assert abs(sum(drawnFractions) - 1.) < 1e-9
 
         # mix
         mixedProfile = list(np.sum(features[drawnIndices] * np.reshape(drawnFractions, (-1, 1)), axis=0))
-- 
2.43.0


From a90a0ec0e715df6ead8d9285c8bd6ca5ae31e308 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:41:09 +0000
Subject: [PATCH 70/81] fix: proportional class likelihoods of synthetic
 mixtures use the counts of the selected classes

The counts of all classes were paired with the list of selected classes,
so a subset or another order got the likelihoods of other classes.
---
 python/force-synthmix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/force-synthmix.py b/python/force-synthmix.py
index c47bc01..3800f07 100755
--- a/python/force-synthmix.py
+++ b/python/force-synthmix.py
@@ -51,13 +51,12 @@ def synthMixCore(
     assert isinstance(response, np.ndarray) and response.ndim == 1
     assert isinstance(classes, list)
     assert len(features) == len(response)
-    _classIds, counts = np.unique(response, return_counts=True)
     classIds = classes
     if classLikelihood is None:
         classLikelihood = 'proportional'
     if isinstance(classLikelihood, str):
         if classLikelihood.lower() == 'proportional':
-            classLikelihood = {classId: float(count) / len(response) for classId, count in zip(classIds, counts)}
+            classLikelihood = {classId: float(np.sum(response == classId)) / len(response) for classId in classIds}
         elif classLikelihood.lower() == 'equalized':
             classLikelihood = {classId: 1. / len(classIds) for classId in classIds}
     assert isinstance(mixingLikelihood, dict)
-- 
2.43.0


From a46cc406dffcacd32203a4239beedabe75563316 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:02:13 +0000
Subject: [PATCH 71/81] fix: a year without Level 2 data no longer blanks the
 following years of improved fields

The coarse values were copied for such a year, and then processing stopped.
All years listed after it were written as 0. The copy also ignored the
processing mask.
---
 src/modules/higher-level/cf-improphe-hl.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index 77bb38b..cf37fd7 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -265,15 +265,21 @@ bool is_empty;
     if (is_empty){
 
       for (f=0; f<ncf; f++){
-        #pragma omp parallel shared(cfi,cf,nc,y,f,b_cf) default(none)
+        #pragma omp parallel shared(mask_,cfi,cf,nc,y,f,b_cf,cf_nodata) default(none)
         {
           #pragma omp for
-          for (p=0; p<nc; p++) cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+          for (p=0; p<nc; p++){
+            if (mask_ != NULL && !mask_[p]){
+              cfi.imp_[f][y][p] = cf_nodata;
+            } else {
+              cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
+            }
+          }
         }
       }
 
-      *nproduct = nprod;
-      return CFI;
+      free_2D((void**)seasonal_avg_, phl->imp.nwin*nb_ard);
+      continue;
 
     }
 
-- 
2.43.0


From c572ccbf8b2c008adfd242b0d1739a9c223ec8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:02:13 +0000
Subject: [PATCH 72/81] fix: fields are no longer improved to 0 where another
 field has no data

A pixel is only predicted when all coarse fields are available. Where one was
missing, the other fields were written as 0. They keep the coarse value now.
---
 src/modules/higher-level/cf-improphe-hl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index cf37fd7..f66fa3b 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -327,6 +327,7 @@ bool is_empty;
             //cfi.imp_[f][y][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf_nodata;
           } else {
+            pred_[f][p] = cf[f].dat[b_cf][p];
             cf_[f][p] = cf[f].dat[b_cf][p];
           }
         }
-- 
2.43.0


From e03b2d2179472f4c45389b7681d3453d2b933dac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:02:13 +0000
Subject: [PATCH 73/81] fix: years before the first year of the coarse fields
 are refused

Only years after the last band were refused. Earlier years read outside of
the bands.
---
 src/modules/higher-level/cf-improphe-hl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/higher-level/cf-improphe-hl.c b/src/modules/higher-level/cf-improphe-hl.c
index f66fa3b..6a6728b 100755
--- a/src/modules/higher-level/cf-improphe-hl.c
+++ b/src/modules/higher-level/cf-improphe-hl.c
@@ -215,7 +215,7 @@ bool is_empty;
   ny_cf = get_brick_nbands(cf[0].DAT);
 
   for (y=0; y<phl->cfi.nyears; y++){
-    if ((b_cf = phl->cfi.years[y]-phl->cfi.y0) >= ny_cf){
+    if ((b_cf = phl->cfi.years[y]-phl->cfi.y0) < 0 || b_cf >= ny_cf){
       printf("requested years and number of bands in file do not match.\n");
       *nproduct = 0;
       return NULL;
-- 
2.43.0


From 93ace924a34d112924305151731180335362baba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:02:13 +0000
Subject: [PATCH 74/81] fix: seasonal windows across the turn of the year use
 one winter only

A window that starts before and ends after the turn of the year extends to
the previous year if it comes first, and to the next year if it comes last.
Both winters were averaged in either case, whatever the position of the
window.
---
 src/modules/higher-level/improphe-hl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/higher-level/improphe-hl.c b/src/modules/higher-level/improphe-hl.c
index 5a26b30..9a3fcb9 100755
--- a/src/modules/higher-level/improphe-hl.c
+++ b/src/modules/higher-level/improphe-hl.c
@@ -338,14 +338,14 @@ short **seasonal_avg_ = NULL;
               doy >= dwin[w] && doy < dwin[w+1] && (year == ywin || ywin < 0)){
             ok = true; break;}
 
-          // window extends to previous year
-          if (dwin[w] > dwin[w+1] &&
+          // window extends to previous year (unless it is the last window)
+          if (dwin[w] > dwin[w+1] && (w < nwin-1 || nwin == 1) &&
               ((doy >= dwin[w] && doy <= 365 && (year == ywin-1 || ywin < 0)) ||
                (doy < dwin[w+1] && (year == ywin || ywin < 0)))){
             ok = true; break;}
               
-          // window extends to next year
-          if (dwin[w] > dwin[w+1] &&
+          // last window extends to next year
+          if (dwin[w] > dwin[w+1] && w == nwin-1 &&
               ((doy >= dwin[w] && doy <= 365 && (year == ywin || ywin < 0)) ||
                (doy < dwin[w+1] && (year == ywin+1 || ywin < 0)))){
             ok = true; break;}
-- 
2.43.0


From a2fc0f96ebe5aaaa506f2d833411bfea88fc390f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:17:28 +0000
Subject: [PATCH 75/81] fix: images without provenance can be released

Releasing such an image ended the program with an error. force-import-modis
always failed after it had written its products.
---
 src/modules/cross-level/brick_base-cl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/cross-level/brick_base-cl.c b/src/modules/cross-level/brick_base-cl.c
index a2cec22..ded781c 100755
--- a/src/modules/cross-level/brick_base-cl.c
+++ b/src/modules/cross-level/brick_base-cl.c
@@ -219,7 +219,7 @@ void free_brick(brick_t *brick){
   brick->wavelength  = NULL;
   brick->date        = NULL;
 
-  free_string_vector(&brick->provenance);
+  if (brick->provenance.number > 0) free_string_vector(&brick->provenance);
 
   free_string_vector(&brick->unit);
   free_string_vector(&brick->domain);
-- 
2.43.0


From 96fc9f05d07fc9a8203a712ea672ecafca08aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:17:28 +0000
Subject: [PATCH 76/81] fix: importing MODIS images reports products that could
 not be written

---
 src/main/lower-level/force-import-modis.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/lower-level/force-import-modis.c b/src/main/lower-level/force-import-modis.c
index 4598076..2b65e61 100755
--- a/src/main/lower-level/force-import-modis.c
+++ b/src/main/lower-level/force-import-modis.c
@@ -418,8 +418,8 @@ short nodata = -9999;
   //print_brick_info(BOA);
   //print_brick_info(QAI);
 
-  write_brick(BOA);
-  write_brick(QAI);
+  if (write_brick(BOA) == FAILURE || write_brick(QAI) == FAILURE){
+    printf("unable to write products for %s\n\n", args.fimg); return FAILURE;}
   write_modcube(args.dout, proj);
 
   free_brick(BOA);
-- 
2.43.0


From e54376eb5a142d21ab3a8587e33f71f486a21451 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:41:15 +0000
Subject: [PATCH 77/81] fix: impulse noise is judged by the two most variable
 visible bands

---
 src/modules/lower-level/read-ll.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modules/lower-level/read-ll.c b/src/modules/lower-level/read-ll.c
index 478ec25..6ec066d 100755
--- a/src/modules/lower-level/read-ll.c
+++ b/src/modules/lower-level/read-ll.c
@@ -305,9 +305,13 @@ ushort **dn_  = NULL;
 
       for (b=0; b<nb; b++) sd[b] = standdev(varx[b], k);
 
-      max2sd = maxsd = sd[0];
-      for (b=1; b<nb; b++){
-        if (sd[b] > maxsd){ max2sd = maxsd; maxsd = sd[b];}
+      max2sd = maxsd = 0;
+      for (b=0; b<nb; b++){
+        if (sd[b] > maxsd){
+          max2sd = maxsd; maxsd = sd[b];
+        } else if (sd[b] > max2sd){
+          max2sd = sd[b];
+        }
       }
       if ((maxsd-max2sd) > 15){ set_off(QAI, p, true); count++;}
 
-- 
2.43.0


From a7561cfcd7663822b3d2ab57a86f03e3b83083f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:55:05 +0000
Subject: [PATCH 78/81] fix: strict water vapour refuses climatologies, and
 missing climatologies are not used as water vapour

---
 src/modules/lower-level/gas-ll.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modules/lower-level/gas-ll.c b/src/modules/lower-level/gas-ll.c
index 4cd7bc6..d90e349 100755
--- a/src/modules/lower-level/gas-ll.c
+++ b/src/modules/lower-level/gas-ll.c
@@ -707,11 +707,11 @@ int year, month, day;
           // only use fairly near estimates (less than 1.5�)
           if (dist < min_dist && dist < 1.5){
             min_dist = dist;
-            wvp = atof(tokenptr);
             if (k == 0){
-              avg = wvp;
+              avg = atof(tokenptr);
               copy_string(source, NPOW_10, "AVG");
             } else {
+              wvp = atof(tokenptr);
               tokenptr = strtok_r(NULL, separator, &saveptr);
               copy_string(source, NPOW_10, tokenptr);
             }
@@ -725,12 +725,16 @@ int year, month, day;
 
     }
 
+    // values beyond 10 are nodata
+    if (wvp > 10) wvp = -1;
+    if (avg > 10) avg = -1;
+
     // if daily value has nodata, and strict checking is enabled
     if (wvp < 0 && pl2->wvp_strict){
       printf("no daily wvp value available\n"); return -1;}
 
     // if daily value has nodata, use average value
-    if (wvp < 0 || wvp > 10) wvp = avg;
+    if (wvp < 0) wvp = avg;
 
     #ifdef FORCE_DEBUG
     printf("Use wvp from LUT: %.2f, avg: %.2f, src: %s, diff to scene center: %.2f\n", 
-- 
2.43.0


From 0361690d9a9eb34a31a56733f8f1b76ae1b1f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:59:13 +0000
Subject: [PATCH 79/81] fix: aerosol tables are used when aerosols are not
 estimated

---
 src/modules/lower-level/aod-ll.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/lower-level/aod-ll.c b/src/modules/lower-level/aod-ll.c
index f6d3702..0573b81 100755
--- a/src/modules/lower-level/aod-ll.c
+++ b/src/modules/lower-level/aod-ll.c
@@ -1743,6 +1743,10 @@ dark_t dark;
   if ((aod_lut = aodfileread(pl2, atc)) == NULL) return FAILURE;
 
   if (!pl2->doaod){
+    // no dark targets: AOD is almost flat
+    dark.kwat = dark.kshd = dark.kveg = 0;
+    dark.nwat = dark.nshd = dark.nveg = 0;
+    aod_elev_dependency(atc, &dark, green);
     for (b=0; b<nb; b++) atc->aod[b] = aod_lut[b];
     free((void*)aod_lut);
     return SUCCESS;
-- 
2.43.0


From f5d9078817fc674cf071954cea0361a31fb98ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:59:13 +0000
Subject: [PATCH 80/81] fix: empty lines in aerosol tables are skipped

---
 src/modules/lower-level/aod-ll.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/lower-level/aod-ll.c b/src/modules/lower-level/aod-ll.c
index 0573b81..083d4e9 100755
--- a/src/modules/lower-level/aod-ll.c
+++ b/src/modules/lower-level/aod-ll.c
@@ -104,8 +104,10 @@ float *aod_lut = NULL;
   // process line by line
   while (fgets(buffer, NPOW_10, fp) != NULL){
 
+    buffer[strcspn(buffer, "\r\n")] = 0;
+
     char *saveptr = NULL;
-    tokenptr = strtok_r(buffer, separator, &saveptr);
+    if ((tokenptr = strtok_r(buffer, separator, &saveptr)) == NULL) continue;
 
     site_x = atof(tokenptr); tokenptr = strtok_r(NULL, separator, &saveptr);
     site_y = atof(tokenptr); tokenptr = strtok_r(NULL, separator, &saveptr);
-- 
2.43.0


From 5c065e24079404f8e376abb8ef7716ddb9ab1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:13:08 +0000
Subject: [PATCH 81/81] fix: regression based resolution merge does not read
 bands it has already overwritten

---
 src/modules/lower-level/resmerge-ll.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/lower-level/resmerge-ll.c b/src/modules/lower-level/resmerge-ll.c
index 89a3ab7..44811e8 100755
--- a/src/modules/lower-level/resmerge-ll.c
+++ b/src/modules/lower-level/resmerge-ll.c
@@ -97,6 +97,7 @@ gsl_vector *x, **y, **c;
 gsl_multifit_linear_workspace **work;
 double chisq, est, err;
 short **toa_ = NULL;
+short **obs_ = NULL;
 
 
   #ifdef FORCE_CLOCK
@@ -123,8 +124,12 @@ short **toa_ = NULL;
   // kernel size
   w = r*2+1; nw = w*w;
 
+  // keep the original 20m bands, as they are overwritten during regression
+  alloc_2D((void***)&obs_, nb, nx*ny, sizeof(short));
+  for (b=0; b<nb; b++) memcpy(obs_[b], toa_[bands[b]], nx*ny*sizeof(short));
 
-  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,bands,green,red,bnir) default(none)
+
+  #pragma omp parallel private(k,b,j,p,ii,jj,ni,nj,np,X,x,y,c,cov,work,chisq,est,err) shared(r,w,nb,nw,nv,ny,nx,QAI,toa_,obs_,bands,green,red,bnir) default(none)
   {
 
     /** initialize and allocate
@@ -187,7 +192,7 @@ short **toa_ = NULL;
         gsl_matrix_set(X, k, 2, toa_[red][np]/10000.0);
         gsl_matrix_set(X, k, 3, toa_[bnir][np]/10000.0);
         
-        for (b=0; b<nb; b++) gsl_vector_set(y[b], k, toa_[bands[b]][np]/10000.0);
+        for (b=0; b<nb; b++) gsl_vector_set(y[b], k, obs_[b][np]/10000.0);
 
         k++;
 
@@ -228,6 +233,8 @@ short **toa_ = NULL;
 
   }
 
+  free_2D((void**)obs_, nb);
+
   #ifdef FORCE_DEBUG
   set_brick_filename(TOA, "TOA-RESMERGED");
   print_brick_info(TOA); set_brick_open(TOA, OPEN_CREATE); write_brick(TOA);
-- 
2.43.0

