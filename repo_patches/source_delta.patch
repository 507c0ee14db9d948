From bd406d14b617ad70509e171530a2ab54fe42cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 01/57] fix: report an error instead of writing past the
 caller's record array

---
 src/cxx/cold.c  | 37 +++++++++++++------------------------
 src/cxx/s_ccd.c | 11 +++++++++++
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..42423f0 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3756,18 +3756,9 @@ int stand_procedure
                     *num_fc = *num_fc + 1;
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is owned by the caller and has room for NUM_FC curves only */
+                        RETURN_ERROR("The number of curves exceeds NUM_FC",
+                                     FUNC_NAME, FAILURE);
                     }
                 }
             } /* end of initializing model */
@@ -4355,18 +4346,9 @@ int stand_procedure
 
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is owned by the caller and has room for NUM_FC curves only */
+                        RETURN_ERROR("The number of curves exceeds NUM_FC",
+                                     FUNC_NAME, FAILURE);
                     }
 
                     /**********************************************/
@@ -5769,6 +5751,13 @@ int obcold_reconstruction_procedure
                 }
             }
 
+            if (*num_fc >= NUM_FC)
+            {
+                /* rec_cg is owned by the caller and has room for NUM_FC curves only */
+                RETURN_ERROR ("The number of curves exceeds NUM_FC",
+                              FUNC_NAME, FAILURE);
+            }
+
             rec_cg[*num_fc].t_start = clrx[i_last_break];
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..176be31 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1972,6 +1972,12 @@ int step2_KF_ChangeDetection(
             tmp = MAX_SHORT;
         *norm_cm_scale100 = tmp;
 
+        if (*num_curve >= NUM_FC)
+        {
+            /* rec_cg is owned by the caller and has room for NUM_FC curves only */
+            RETURN_ERROR("The number of curves exceeds NUM_FC", FUNC_NAME, ERROR);
+        }
+
         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
         {
             rec_cg[*num_curve].rmse[i_b] = sqrtf((float)rmse_band[i_b]);
@@ -2855,6 +2861,11 @@ int sccd_standard(
                                               t_start, b_pinpoint, rec_cg_pinpoint, num_fc_pinpoint, gate_tcg,
                                               &norm_cm_scale100, &cm_angle_scale100, CM_outputs, T_MAX_CG_SCCD);
 
+            if (status == ERROR)
+            {
+                RETURN_ERROR("Calling step2_KF_ChangeDetection", FUNC_NAME, FAILURE);
+            }
+
             if (status == CHANGEDETECTED)
             {
                 /**********************************************/
-- 
2.43.0


From a0975346dbbd47f1982ac01ce991a975b128e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 02/57] fix: keep the pinpoint records within the observation
 window and their array

---
 src/cxx/s_ccd.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 176be31..e4d8d2b 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1841,6 +1841,12 @@ int step2_KF_ChangeDetection(
             if (break_mag > CM_outputs[current_CM_n])
             // if ((*num_fc_pinpoint == 0) | (clrx[cur_i] - rec_cg_pinpoint[*num_fc_pinpoint - 1].t_break > AVE_DAYS_IN_A_YEAR))// must has a gap of 1 year with the last pinpoint break
             {
+                if (current_pinpoint >= NUM_FC)
+                {
+                    /* rec_cg_pinpoint is owned by the caller and has room for NUM_FC records only */
+                    RETURN_ERROR("The number of pinpoint breaks exceeds NUM_FC", FUNC_NAME, ERROR);
+                }
+
                 for (conse_last = 1; conse_last <= conse; conse_last++)
                 {
                     v_diff_tmp = (float **)allocate_2d_array(NUM_LASSO_BANDS, conse_last, sizeof(float)); // used to calculate angle
@@ -1877,6 +1883,13 @@ int step2_KF_ChangeDetection(
                     rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = (short int)min_cm;
                     for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
                     {
+                        if (k >= conse)
+                        { // only conse observations are in the window; leave the remaining slots empty
+                            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                                rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = 0;
+                            rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = 0;
+                            continue;
+                        }
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
                             rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
-- 
2.43.0


From 37981657b9066aeec157aab866b9b528c9e998f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 03/57] fix: do not load the empty slots of an S-CCD model as
 observations

---
 src/cxx/s_ccd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index e4d8d2b..bf13aa3 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -167,6 +167,10 @@ int sccd(
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
         for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
         {
+            // only the first conse slots hold observations (dates ascend); the remaining slots are empty
+            if ((*nrt_mode != NRT_MONITOR_SNOW) && (k > 0) &&
+                (nrt_model->obs_date_since1982[k] <= nrt_model->obs_date_since1982[k - 1]))
+                break;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
                 clry[i_b][k] = nrt_model->obs[i_b][k];
@@ -176,6 +180,11 @@ int sccd(
         }
     }
 
+    if ((*nrt_mode % 10 == NRT_MONITOR_STANDARD) && (n_clr < conse))
+    {
+        RETURN_ERROR("The nrt model was produced with a smaller conse", FUNC_NAME, ERROR);
+    }
+
     n_clr_record = n_clr;
 
     /**************************************************************/
-- 
2.43.0


From fd25c1f7a2ef9605a78b1b1cc5d4c7dd2da5d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 04/57] fix: keep the latest observation when the S-CCD queue
 is full

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index bf13aa3..7a81828 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2534,7 +2534,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From ba1b2254373e0461354e3bd84f8cbc5fec381b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 05/57] fix: reject a conse longer than the S-CCD maximum in
 online updates

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..c71bac4 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -460,6 +460,9 @@ cpdef _sccd_update(sccd_pack,
     # allocate memory for rec_cg
     # cdef int num_fc = 0
     # cdef int num_nrt_queue = 0
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int nrt_mode = sccd_pack.nrt_mode
 
     if nrt_mode != 0 and nrt_mode % 10 != 1 and nrt_mode % 10 != 2 and nrt_mode != 3 and nrt_mode != 4 and nrt_mode != 5:
-- 
2.43.0


From 5006ad1023fbec37e09c9a493d40252d894d794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 06/57] fix: do not write the updated rmse into the pack passed
 to an S-CCD update

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index c71bac4..c327ecc 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -487,7 +487,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 97fc742a6ecdea527e66dfe3e4a676f3018ddee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 07/57] fix: reject change-magnitude windows that do not cover
 the inputted dates

---
 src/python/pycold/_colds_cython.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index c327ecc..e3aaada 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -193,6 +193,10 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
            starting_date = dates[0]
         if n_cm == 0:
            n_cm = math.ceil((dates[valid_num_scenes-1] - starting_date + 1) / cm_output_interval) + 1
+        # every observation must fall into one of the n_cm intervals counted from starting_date
+        if (cm_output_interval < 0 or dates.min() < starting_date
+                or (dates.max() - starting_date) // cm_output_interval >= n_cm):
+            raise ValueError("starting_date, cm_output_interval and n_cm do not cover the inputted dates for pos = {}".format(pos))
         cm_outputs = np.full(n_cm, -9999, dtype=np.short)
         cm_outputs_date = np.full(n_cm, -9999, dtype=np.short)
     # set the length to 1 to save memory, as they won't be assigned values
-- 
2.43.0


From 8c432a73649e0f393feb1f78f454a2cdfe99a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 08/57] fix: store the thermal values of a pixel with few clear
 observations per observation

---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 42423f0..2e75620 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5165,10 +5165,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From 012b6dd7e703e694cb4c2ae3c91229b554932c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 09/57] fix: do not reorder the green band of a pixel with few
 clear observations

---
 src/cxx/cold.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 2e75620..fcc1508 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5188,8 +5188,11 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        /* sort a copy: the green values have to stay with their dates */
+        for (i = 0; i < end; i++)
+            temp_v_dif[1][i] = clry[1][i];
+        quick_sort_float(temp_v_dif[1], 0, end - 1);
+        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From f7a9f4fba7391557fb94f941dd0d18d68914aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 10/57] fix: keep the observation dates when fitting persistent
 snow with saturated bands

---
 src/cxx/cold.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index fcc1508..c18e114 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4850,6 +4850,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_band;                  /* dates of the unsaturated snow observations of a band */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -4984,6 +4985,12 @@ int inefficientobs_procedure
 
         i_start = 1; /* the first observation for TSFit */
 
+        clrx_band = malloc(n_sn * sizeof(int));
+        if (clrx_band == NULL)
+        {
+            RETURN_ERROR("ERROR allocating clrx_band memory", FUNC_NAME, FAILURE);
+        }
+
         /**********************************************************/
         /*                                                        */
         /* Treat saturated and unsaturated pixels differently.    */
@@ -5000,7 +5007,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5013,7 +5020,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5029,13 +5036,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5051,6 +5058,8 @@ int inefficientobs_procedure
         /*                                                        */
         /**********************************************************/
 
+        free(clrx_band);
+
         rec_cg[*num_fc].t_start = clrx[i_start-1];
         rec_cg[*num_fc].t_end = clrx[end-1];
 
-- 
2.43.0


From 5ea9357a278c2564ea1f4f59e81d46f965956c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 11/57] fix: locate the columns of change-magnitude blocks by
 the number of blocks per row

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From e2c48d9d78e2dc607ede90bba75120787d3542e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 12/57] fix: leave the pixels of an unreadable change-magnitude
 block empty

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..110d8d3 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 80450101cf1c5a5a9cc2071f07a08900bb3c06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 13/57] fix: assemble tiles whose block numbers differ between
 the two axes

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..662acbc 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -578,7 +578,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -604,7 +604,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 110d8d3..486d66c 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From f841f6b3facddc539e15a2cde5aad59a25aa75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 14/57] fix: create output images with the width and height of
 the tile

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 662acbc..807de01 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -586,7 +586,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -612,7 +612,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -637,7 +637,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -655,7 +655,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 486d66c..6143287 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -523,7 +523,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From b4530751964041f116004f8e076b81ff801d15cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 15/57] fix: save classification maps to the requested output
 path

---
 src/python/pycold/pyclassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..21b0ba7 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -364,7 +364,7 @@ class PyClassifierHPC(PyClassifier):
         if output_path is None:
             self.output_path = join(record_path, "feature_maps")  # default path
         else:
-            self.output_path = self.tmp_path
+            self.output_path = output_path
 
         self.n_features = band_num * len(feature_outputs)
 
-- 
2.43.0


From 0fadcfc1cf5e3f2c02f997a35844c0ea65a3627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 16/57] fix: report the time of a pixel failure instead of
 aborting the block

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..73947bf 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -534,7 +534,7 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
                     except Exception:
-- 
2.43.0


From 68758c67e175514391733577f3d7376809a89718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 17/57] fix: do not reuse the change magnitudes of the previous
 pixel for a failed pixel

---
 src/python/pycold/imagetool/tile_processing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 73947bf..84234bd 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -493,6 +493,9 @@ def main(
                     original_row, original_col = get_rowcol_intile(
                         pos, dataset_info.block_width, dataset_info.block_height, block_x, block_y
                     )
+                    if method == "OBCOLD":  # kept for the pixels that fail
+                        CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                        CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     try:
                         if method == "OBCOLD":
                             [cold_result, CM, CM_date] = cold_detect(
@@ -538,9 +541,7 @@ def main(
                             )
                         )
                     except Exception:
-                        if method == "OBCOLD":
-                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
-                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
+                        pass
                     else:
                         result_collect.append(cold_result)
                     finally:
-- 
2.43.0


From 8463b500109f65f883250b0886bb1688c9f07afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 18/57] fix: assemble the change dates when fewer than 16 cores
 are used

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 84234bd..79c2f05 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -634,7 +634,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From eb65c2b6559929993646d21148f5020928de1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 19/57] fix: skip empty blocks when reconstructing change
 records

---
 src/python/pycold/imagetool/tile_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 79c2f05..b6a2aff 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -733,6 +733,8 @@ def main(
             img_tstack, img_dates_sorted = get_stack_date(
                 dataset_info, block_x, block_y, stack_path
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
-- 
2.43.0


From 0803450e68e31533d3aee3293d406d8bf52ec300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 20/57] fix: do not fail on a block without reconstructed
 change records

---
 src/python/pycold/ob_analyst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..197f1b6 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1147,6 +1147,8 @@ class ObjectAnalystHPC:
     def save_obcoldrecords(self, block_id, result_collect):
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
+        if len(result_collect) == 0:  # no pixel of the block has a record
+            return
         np.save(
             join(
                 self.obcold_recg_path, "record_change_x{}_y{}_obcold.npy".format(block_x, block_y)
-- 
2.43.0


From 226d715362be51223d663fc4f1b3e8de8d3c8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 21/57] fix: read stack data with the size of a block

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 197f1b6..63198d3 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1106,7 +1106,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From 53cebe87c59349e67f844043b8b0e1a2067caafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 22/57] fix: use the floodfill ratio requested for the object
 analysis

---
 src/python/pycold/ob_analyst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 63198d3..24e33dd 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -930,7 +930,8 @@ class ObjectAnalystHPC:
                             cmname_fromdate(date - cm_output_interval) + ".npy",
                         )
                     ),
-                    date_array_last
+                    date_array_last,
+                    floodfill_ratio=floodfill_ratio,
                 )
             elif method == "slic":
                 [object_map_s1, cm_date_array_updated, object_map_s2, s1_info] = segmentation_slic(
-- 
2.43.0


From 850d32e1f38d19a3862bd657151e7f86e3409016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 23/57] fix: report no disturbance for an S-CCD state without a
 model

---
 src/python/pycold/colds.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..f87cc81 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -507,6 +507,7 @@ def sccd_identify(
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
+        or len(sccd_pack.nrt_model) == 0
     ):
         return sccd_pack, 0
 
-- 
2.43.0


From 2b759963bc84f517d2099f070d1864f4171ff4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 24/57] fix: identify disturbances in S-CCD states of any conse

---
 src/python/pycold/colds.py |  4 ++--
 src/python/pycold/utils.py | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index f87cc81..19d5556 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -9,7 +9,7 @@ from ._param_validation import (
     check_consistent_length,
     check_1d,
 )
-from .utils import calculate_sccd_cm
+from .utils import calculate_sccd_cm, count_sccd_obs
 from .app import defaults
 
 _parameter_constraints: dict = {
@@ -534,7 +534,7 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    count_sccd_obs(sccd_pack) - sccd_pack.nrt_model[0]["conse_last"]
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 6143287..1d0deec 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -533,6 +533,19 @@ def generate_rowcolimage(ref_image_path, out_path):
     del ref_image
 
 
+def count_sccd_obs(sccd_pack):
+    """
+    Parameters
+    ----------
+    sccd_pack
+
+    Returns
+    -------
+    the number of the latest observations kept in the model, i.e., the conse it was produced with
+    """
+    return int(np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"]))
+
+
 def calculate_sccd_cm(sccd_pack):
     """
     Parameters
@@ -543,7 +556,8 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    n_obs = count_sccd_obs(sccd_pack)
+    start_index = n_obs - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
@@ -558,7 +572,7 @@ def calculate_sccd_cm(sccd_pack):
         ]
     )
     cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
+        sccd_pack.nrt_model[0]["obs"][:, start_index:n_obs] - pred_ref
     )
     return np.median(cm, axis=1)
 
-- 
2.43.0


From 9e5f9967a3edf7b89889dd679ba859ff32caa18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 25/57] fix: read S-CCD packs in the layout the package writes
 them

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 807de01..f90635a 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 816bbb5fab23f802ffe358715aa1baea8300465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 26/57] fix: export the S-CCD breaks of the last pixel of a
 block

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index f90635a..7f68387 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -453,7 +453,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:
                         continue
 
                     i_col = (
-- 
2.43.0


From 1cd63517af9e65db5a9a7e22faa1fd248cd55ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 27/57] fix: write the maps of the S-CCD change records

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 7f68387..9e9e776 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -557,15 +557,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From 8e8087de0cae3a46d46bfe4c85d8dbddcb28e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 28/57] fix: export coefficients when a block has no change
 records

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 9e9e776..a25f288 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -431,6 +431,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From 09c36387664335c01e805245a69d73eae5300b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 29/57] fix: classify the last break of a pixel without the
 records of the next pixel

---
 .../pycold/imagetool/export_change_map.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a25f288..4ef771b 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -191,6 +191,13 @@ def index_sccdpack(sccd_pack_single):
     return sccd_pack_single
 
 
+def has_next_segment(cold_plot, i_curve):
+    """whether the next record is a segment of the same pixel"""
+    return (
+        i_curve + 1 < len(cold_plot) and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+    )
+
+
 def getcategory_cold(cold_plot, i_curve):
     t_c = -200
     if (
@@ -199,7 +206,8 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -218,7 +226,8 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -499,11 +508,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From 8e2cec440bc58b8a92a2ac9aefbc07541bb35f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 30/57] fix: decode pixels flagged as fill as fill whatever
 their other flags

---
 src/python/pycold/imagetool/prepare_ard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..ee95abd 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -127,6 +127,7 @@ def qabitval_array(packedint_array: np.ndarray):
     unpacked[QA_SNOW_unpacked > 0] = QA_SNOW
     unpacked[QA_SHADOW_unpacked > 0] = QA_SHADOW
     unpacked[QA_CLOUD_unpacked > 0] = QA_CLOUD
+    unpacked[geek.bitwise_and(packedint_array, 1 << 0) > 0] = QA_FILL
     return unpacked
 
 
@@ -156,6 +157,7 @@ def qabitval_array_c2(packedint_array: np.ndarray):
     unpacked[QA_SHADOW_unpacked > 0] = QA_SHADOW
     unpacked[QA_CLOUD_unpacked > 0] = QA_CLOUD
     unpacked[QA_DILATED_unpacked > 0] = QA_CLOUD
+    unpacked[geek.bitwise_and(packedint_array, 1 << 0) > 0] = QA_FILL
 
     return unpacked
 
-- 
2.43.0


From 56ace681d32eee5695cfc5e52d73c8e65e66a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 31/57] fix: leave unlabelled pixels out of the training
 samples

---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 21b0ba7..adc4177 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -113,7 +113,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From 2c8374c68478c727a7525159022fb8c462d9ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 32/57] fix: accept spaces in the list of exported coefficients

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 4ef771b..c152c71 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -327,7 +327,7 @@ def main(
     if coefs is not None:
         try:
             coefs = list(coefs.split(","))
-            coefs = [str(coef) for coef in coefs]
+            coefs = [str(coef).strip() for coef in coefs]
         except ValueError:
             print(
                 "Illegal coefs inputs: example, --coefs='a0, c1, a1, b1, a2, b2, a3, b3, cv, rmse'"
-- 
2.43.0


From ebbd411150e65af479a0f9cac59378aa5cfbc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 33/57] fix: scale the shortwave infrared and thermal bands of
 collection 2 with their own factors

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index ee95abd..c87a90e 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1011,8 +1011,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1493,8 +1493,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From 730c85ee510a5a0429df1ee38441bfb4e4337be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 34/57] fix: treat a block without images in the date range as
 empty

---
 src/python/pycold/imagetool/tile_processing.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index b6a2aff..adb3e80 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,13 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
+    files_date_zip = sorted(zip(img_dates, img_files))
     if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
+        files_date_zip = [x for x in files_date_zip if x[0] >= low_datebound]
     if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+        files_date_zip = [x for x in files_date_zip if x[0] <= high_datebound]
+    if len(files_date_zip) == 0:
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From 596297cd2b45d32130f292abdb4e15ec387768e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 35/57] fix: process every block of a tile when no rank is
 given

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index adb3e80..9357400 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -259,7 +259,7 @@ def get_stack_date(
 
 
 @click.command()
-@click.option("--rank", type=int, default=0, help="the rank id")
+@click.option("--rank", type=int, default=1, help="the rank id")
 @click.option("--n_cores", type=int, default=1, help="the total cores assigned")
 @click.option("--stack_path", type=str, help="the path for stack data")
 @click.option("--result_path", type=str, help="the path for storing results")
-- 
2.43.0


From baa06b99676feab12094f25a566ca1e716403906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 36/57] fix: reconstruct change records from the observations
 the detection used

---
 src/python/pycold/imagetool/tile_processing.py | 3 ++-
 src/python/pycold/ob_analyst.py                | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 9357400..44f4ce6 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -729,7 +729,7 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
             if img_tstack is None:  # empty block
                 continue
@@ -738,6 +738,7 @@ def main(
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 24e33dd..6d557ca 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1081,6 +1081,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1089,6 +1090,8 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            conse: consecutive observation number
+            b_c2: whether thermal bands are left out of the observation selection
         Returns:
             change records
         """
@@ -1133,6 +1136,7 @@ class ObjectAnalystHPC:
                     img_stack[pos, 7, :].astype(np.int64),
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
+                    b_c2=b_c2,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
                 )
             except RuntimeError:
-- 
2.43.0


From a0621e9980f2f36c9c830ca349d2e71a7efd3858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 37/57] fix: read the Sentinel-2 images of a block too

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 1d0deec..0a88dec 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -318,7 +318,7 @@ def assemble_array(array_list, n_block_x):
 
 
 def read_blockdata(block_folder, total_pixels, total_bands):
-    img_files = [f for f in os.listdir(block_folder) if f.startswith("L")]
+    img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 45ccf3567aeb3a561c54ca73a0a8a6b9e5793dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 38/57] fix: report a block without images as empty

---
 src/python/pycold/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 0a88dec..b09cf39 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -319,6 +319,8 @@ def assemble_array(array_list, n_block_x):
 
 def read_blockdata(block_folder, total_pixels, total_bands):
     img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
+    if len(img_files) == 0:
+        return None, None
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 646281be527799e2df53f4a26a9055d04ca7df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 39/57] fix: find changes to a constant level whose
 observations are parallel

---
 src/cxx/misc.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..bf506e8 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -3030,7 +3030,13 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            /* rounding may lift the cosine of parallel vectors above one */
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3071,7 +3077,13 @@ float MeanAngl_float_selective
                 norm1 += v_diff[lasso_bands[j]][i] * v_diff[lasso_bands[j]][i];
                 norm2 += v_diff[lasso_bands[j]][i+1] * v_diff[lasso_bands[j]][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            /* rounding may lift the cosine of parallel vectors above one */
+            if (tmp > 1)
+                tmp = 1;
+            else if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
-- 
2.43.0


From aca4c32b844c665cd883d5d09d0993f5b740b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 40/57] fix: compute the snow share of a pixel whose records
 are reconstructed

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c18e114..0d71b06 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5495,6 +5495,8 @@ int obcold_reconstruction_procedure
         RETURN_ERROR("Error for preprocessing.", FUNC_NAME, ERROR);
     }
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     for (i = 0; i < valid_num_scenes; i++)
     {
         if ((fmask_buf[i] < 2) && (id_range[i] == 1))
-- 
2.43.0


From 08b2ed57cfe69e54366075ba894bc9a7a7e6787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 41/57] fix: reconstruct collection 2 records without thermal
 values as the detection does

---
 src/cxx/cold.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 0d71b06..e930482 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5522,8 +5522,12 @@ int obcold_reconstruction_procedure
                         clry[k][n_clr] = (float)buf_s1[i];
                     else if (k == 5)
                         clry[k][n_clr] = (float)buf_s2[i];
-                    else if (k == 6)
-                        clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    else if (k == 6){
+                        if ((b_c2 == TRUE) && (buf_t[i] == 0))
+                            clry[k][n_clr] = 0;
+                        else
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
+                    }
                     //printf("%3.2f\n", clry[k][n_clr]);
                 }
                 n_clr++;
-- 
2.43.0


From f7d327c181c8339af6ac4f77f7e3e0aff044f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 42/57] fix: reject S-CCD input whose dates are not in
 ascending order

---
 src/cxx/s_ccd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 7a81828..8b2c2c0 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -95,6 +95,13 @@ int sccd(
         RETURN_ERROR("Invalid nrt_mode", FUNC_NAME, ERROR);
     }
 
+    // check if valid_date_array is sorted
+    for (i = 0; i < valid_num_scenes - 1; i++)
+        if (valid_date_array[i] > valid_date_array[i + 1])
+        {
+            RETURN_ERROR("The inputted data does not follow an ascending order!", FUNC_NAME, ERROR);
+        }
+
     // mode update condition 1: replace NRT_MONITOR2QUEUE with NRT_QUEUE_STANDARD as input
     // if (*nrt_mode % 10 == NRT_MONITOR2QUEUE)
     //     *nrt_mode = 10 + NRT_QUEUE_STANDARD;
-- 
2.43.0


From 3f8c37b71367dbb7942e3bdda89ea59d6bcf1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 43/57] fix: skip observations an S-CCD state already covers

---
 src/cxx/s_ccd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 8b2c2c0..d2c886e 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -211,8 +211,8 @@ int sccd(
         {
             if ((fmask_buf[i] < 2) && (id_range[i] == 1))
             {
-                // remain the first element for replicated date
-                if ((n_clr > 0) && (valid_date_array[i] == clrx[n_clr - 1]))
+                // remain the first element for replicated date, and skip what the state already covers
+                if ((n_clr > 0) && (valid_date_array[i] <= clrx[n_clr - 1]))
                     continue;
                 else
                 {
@@ -271,8 +271,8 @@ int sccd(
         {
             if ((fmask_buf[i] == CFMASK_SNOW) || (fmask_buf[i] < 2))
             {
-                // remain the first element for replicated date
-                if ((n_clr > 0) && (valid_date_array[i] == clrx[n_clr - 1]))
+                // remain the first element for replicated date, and skip what the state already covers
+                if ((n_clr > 0) && (valid_date_array[i] <= clrx[n_clr - 1]))
                     continue;
                 else
                 {
-- 
2.43.0


From 6a21d228d15af89d388626f5a1ad6e7309b03712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 44/57] fix: keep the magnitude of a short first S-CCD segment
 within its observations

---
 src/cxx/s_ccd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index d2c886e..00e6935 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1360,7 +1360,8 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        // a short first segment may have fewer observations than conse
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From 602a39bb155209b387d041040e006d1200d066e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 45/57] fix: persistent-snow pixels without thermal values
 crashed the thermal fit

---
 src/cxx/cold.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index e930482..6f456ef 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5042,12 +5042,19 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
+                if (i_span < MIN_NUM_C){
+                    for(i = 0; i < MAX_NUM_C; i++)
+                        fit_cft[k][i] = 0; // no thermal values to fit
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
 
               }
         }
-- 
2.43.0


From 0397210c7e532f845770b65f96188bc10a698323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 46/57] fix: count a repeated date once in a persistent-snow
 pixel

---
 src/cxx/cold.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 6f456ef..67eeb87 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4940,13 +4940,17 @@ int inefficientobs_procedure
 //           //printf("clry: %f\n", (float)clry[k][i]);
 //        }
 
-//        /**************************************************************/
-//        /*                                                            */
-//        /* Remove repeated ids.                                       */
-//        /*                                                            */
-//        /**************************************************************/
+        /**************************************************************/
+        /*                                                            */
+        /* Remove repeated ids.                                       */
+        /*                                                            */
+        /**************************************************************/
 
-//        matlab_unique(clrx, clry, n_clr, &end);
+        if (n_sn > 0)
+        {
+            matlab_unique(clrx, clry, n_sn, &end);
+            n_sn = end;
+        }
 
         if (n_sn < N_TIMES * MIN_NUM_C) // not enough snow pixels
         {
-- 
2.43.0


From 72c1db69f01eb5ba430bbcbfd337371ca7878f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 47/57] fix: export change maps with a pandas whose timestamps
 do not accept dates

---
 src/python/pycold/imagetool/export_change_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index c152c71..bdc3ef7 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -492,7 +492,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - datetime.date(break_year, 1, 1).toordinal()
                         + 1
                     )
         else:
@@ -501,7 +501,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -538,7 +538,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - datetime.date(break_year, 1, 1).toordinal()
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
-- 
2.43.0


From 2778e5722da5220465a859f02b079fbac33af7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 48/57] fix: segment a single-band map with slic

---
 src/python/pycold/ob_analyst.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 6d557ca..c61d1be 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -544,6 +544,7 @@ def segmentation_slic(
             mask=mask,
             n_segments=n_segments,
             compactness=0.01,
+            channel_axis=None,
             min_size_factor=n_segments / cm_stack.shape[0] / cm_stack.shape[1],
         )
 
-- 
2.43.0


From dffe01785b6bd4f7ec1df1019821df885576a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 49/57] fix: let any worker of a tile create the result folder

---
 src/python/pycold/imagetool/tile_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 44f4ce6..997bcd5 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -369,9 +369,9 @@ def main(
             exit()
 
     # logging and folder preparation
+    # (any worker may come first)
+    os.makedirs(result_path, exist_ok=True)
     if rank == 1:
-        if not os.path.exists(result_path):
-            os.makedirs(result_path)
         if method == "OBCOLD":
             if not os.path.exists(join(result_path, "cm_maps")):
                 os.makedirs(join(result_path, "cm_maps"))
-- 
2.43.0


From 11c138cd43e28a3e5acef488cf2a9a79896f2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 50/57] fix: write maps and models that signal completion under
 a temporary name first

---
 src/python/pycold/pyclassifier.py | 17 ++++++++++++++---
 src/python/pycold/utils.py        | 18 +++++++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index adc4177..a058d4e 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,14 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import (
+    get_block_y,
+    get_block_x,
+    get_col_index,
+    get_row_index,
+    assemble_array,
+    save_complete,
+)
 from pycold.common import DatasetInfo
 
 
@@ -440,7 +447,10 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        # (the other workers take the existence of the file for its completion)
+        tmp_path = "{}.part".format(rf_path)
+        joblib.dump(rf_model, tmp_path, compress=3)
+        os.replace(tmp_path, rf_path)
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -466,7 +476,8 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        # (the other workers take the existence of the file for its completion)
+        save_complete(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
             full_yearlyclass_array,
         )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index b09cf39..c42859b 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -70,6 +70,21 @@ def get_row_index(pos, n_cols, current_block_y, block_height):
     return int((pos - 1) / n_cols) - (current_block_y - 1) * block_height
 
 
+def save_complete(outfile, array):
+    """
+    save an array such that the file appears under its name only once it is complete
+    Parameters
+    ----------
+    outfile: string
+        the path of the .npy file
+    array: array
+    """
+    tmpfile = "{}.part".format(outfile)
+    with open(tmpfile, "wb") as f:
+        np.save(f, array)
+    os.replace(tmpfile, outfile)
+
+
 def assemble_cmmaps(
     dataset_info: DatasetInfo,
     result_path: str,
@@ -165,7 +180,8 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        # (the other workers take the existence of the file for its completion)
+        save_complete(outfile, cm_map)
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
-- 
2.43.0


From fa4a133544211d556ab44a385842cd1a03553735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 51/57] fix: leave the finished blocks and dates alone when
 tile processing is restarted

---
 .../pycold/imagetool/tile_processing.py       | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 997bcd5..2002708 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -203,6 +203,26 @@ def is_finished_assemble_cmmaps(cmmap_path, n_cm, starting_date, cm_interval):
     return True
 
 
+def is_finished_classifier_step(pyclassifier, marker, block_id):
+    """
+    check if a step of the classifier is finished for a block; after a restart, other workers may be
+    using its results already
+    Parameters
+    ----------
+    pyclassifier: PyClassifierHPC
+    marker: the name of the file that marks the step as finished
+    block_id: the block
+
+    Returns: boolean
+    -------
+        True -> finished
+    """
+    # the marker first: it may only be gone because the maps are finished
+    return os.path.exists(join(pyclassifier.tmp_path, marker.format(block_id))) or (
+        pyclassifier.is_finished_step4_assemble()
+    )
+
+
 def get_stack_date(
     dataset_info: DatasetInfo,
     block_x: int,
@@ -664,6 +684,10 @@ def main(
                     for i in range(nblock_eachcore):
                         if n_cores * i + rank > dataset_info.n_block_x * dataset_info.n_block_y:
                             break
+                        if is_finished_classifier_step(
+                            pyclassifier, "tmp_step1_predict_{}_finished.txt", n_cores * i + rank
+                        ):
+                            continue
                         pyclassifier.step1_feature_generation(block_id=n_cores * i + rank)
 
                 if rank == 1:  # serial mode for producing rf
@@ -677,6 +701,12 @@ def main(
                 for i in range(nblock_eachcore):
                     if n_cores * i + rank > dataset_info.n_block_x * dataset_info.n_block_y:
                         break
+                    if is_finished_classifier_step(
+                        pyclassifier,
+                        "tmp_step3_classification_{}_finished.txt",
+                        n_cores * i + rank,
+                    ):
+                        continue
                     pyclassifier.step3_classification(block_id=n_cores * i + rank)
 
                 if rank == 1:  # serial mode for assemble
@@ -703,6 +733,8 @@ def main(
                 if starting_date + (rank - 1 + i * n_cores) * cm_output_interval > max_date:
                     break
                 date = starting_date + (rank - 1 + i * n_cores) * cm_output_interval
+                if ob_analyst.is_finished_object_analysis([date]):
+                    continue  # (other workers may be reading its results already)
                 ob_analyst.obia_execute(date, cm_output_interval=cm_output_interval)
 
             while not ob_analyst.is_finished_object_analysis(
-- 
2.43.0


From 94688d4dba4fb319b99036261e78580243a7eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 52/57] fix: replace the path map of a tile in one step when
 stacking is restarted

---
 src/python/pycold/imagetool/prepare_ard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index c87a90e..d4f9cfb 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1917,9 +1917,12 @@ def main(
                 )
 
                 out_fpath = join(out_dir, "singlepath_landsat_tile.tif")
-                dst = gdal.Warp(out_fpath, conus_image, options=params)
+                # (after a restart, other workers may be reading the file of the first run)
+                tmp_fpath = join(tmp_path, "singlepath_landsat_tile.tif")
+                dst = gdal.Warp(tmp_fpath, conus_image, options=params)
                 # must close the dst
                 dst = None  # NOQA
+                os.replace(tmp_fpath, out_fpath)
                 out_img = None  # NOQA
                 shutil.rmtree(join(tmp_path, folder_list[0]), ignore_errors=True)
 
-- 
2.43.0


From caac86fdb2061919b22d3e474e589dcb63f5409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 53/57] fix: divide the images among the stacking workers in an
 order all of them agree on

---
 src/python/pycold/imagetool/prepare_ard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index d4f9cfb..4ed7135 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1845,6 +1845,9 @@ def main(
     elif collection == "HLS14":
         folder_list = [y for x in os.walk(source_dir) for y in glob(os.path.join(x[0], "*.hdf"))]
 
+    # all workers must divide the images in the same way, in whatever order the folder is listed
+    folder_list.sort()
+
     tmp_path = join(out_dir, "tmp{}".format(rank))
 
     tz = timezone("US/Eastern")
-- 
2.43.0


From b0021c34779ccb36307f71bfc86a061a61c2ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 54/57] fix: the variogram of fewer than two observations left
 all bands but the first unset

For a single observation only the first band was written, the minimum RMSE of
the others was whatever the stack held; it stays in the S-CCD state from then on.
---
 src/cxx/misc.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index bf506e8..836864e 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -104,23 +104,16 @@ int adjust_median_variogram
 //        }
 
 //    }
-    if (dim2_len == 0)
-    {
-       for(i = 0; i < dim1_len; i++)
-       {
-           output_array[i] = 0;
-       *date_vario = 0;
-       return (SUCCESS);
-       }
-    }
-    if (dim2_len == 1)
+    /* without two observations there is no difference between neighbours */
+    if (dim2_len <= 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
-            output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
+            output_array[i] = 0;
         }
+        *date_vario = 0;
+        *max_neighdate_diff = 0;
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From 95355dc5ac8574a88442e1313dde3ca0c08ec483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 55/57] fix: the row-column image of a multi-band reference had
 the shape of its bands

ReadAsArray of more than one band is (bands, rows, cols): the index image was too large to be written or left pixels at 0.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index c42859b..ae88105 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -537,7 +537,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     cols = ref_image.RasterXSize
     rows = ref_image.RasterYSize
 
-    i, j = np.indices(ref_image.ReadAsArray().shape[:2])
+    i, j = np.indices((rows, cols))
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-- 
2.43.0


From 34ae6a3310901ce220e3da0e56cc38ffbb03681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 56/57] fix: date2matordinal failed for every date

pandas.Timestamp.toordinal is no longer the method of datetime.date.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index ae88105..8d0f229 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -368,7 +368,7 @@ def read_data(path):
 
 
 def date2matordinal(year, month, day):
-    return pd.Timestamp.toordinal(dt.date(year, month, day))
+    return dt.date(year, month, day).toordinal()
 
 
 def matordinal2date(ordinal):
-- 
2.43.0


From 978bee8d8aa665c1c6f4d5b11ecfc119fdcca933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 57/57] fix: pinpoint result of a pixel without observations
 had no SccdReccgPinpoint

The second element was a bare array there, not the named tuple with position and records of all other modes.
---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index e3aaada..a5361ba 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -411,7 +411,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0

