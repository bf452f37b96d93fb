From e7ea801fabf6bd7c029f6cdcb7ce878350bf6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 01/22] fix: copy IVISERR column, not RVISERR, when duplicating
 OI_VIS table

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..30d9fe6 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1335,7 +1335,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 300f218992bea30f246a6b5278eb001186c5cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:24 +0000
Subject: [PATCH 02/22] fix: read OI_INSPOL Jones matrix columns as complex
 values

---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From 149e501a3736abad55341946c047925aaed3f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:13 +0000
Subject: [PATCH 03/22] fix: keep target CATEGORY values when merging

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..d298f3d 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -237,6 +237,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
+  pOutTab->usecategory = FALSE;
   pOutTab->ntarget = 0;
   pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
@@ -246,6 +247,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     pInTab = &((oi_fits *)link->data)->targets;
     if (pInTab->revision > pOutTab->revision)
       pOutTab->revision = pInTab->revision;
+    if (pInTab->usecategory) pOutTab->usecategory = TRUE;
     for (i = 0; i < pInTab->ntarget; i++)
     {
       if (!g_hash_table_lookup(targetIdHash, pInTab->targ[i].target))
@@ -257,6 +259,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (!pInTab->usecategory)
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 8c59fc84bf59e244d650bfe72eb102e0c9296a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 04/22] fix: do not abort when merged dataset has 100 or more
 targets, or none

---
 src/oifitslib/oimerge.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index d298f3d..fbad721 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -229,17 +229,22 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
+
+  /* Output table cannot have more targets than all the inputs together */
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->usecategory = FALSE;
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  pOutTab->targ = NULL;
+  if (maxTarget > 0) pOutTab->targ = chkmalloc(maxTarget * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -254,7 +259,6 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
@@ -265,7 +269,8 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
+  if (maxTarget > 0)
+    pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From e947dd7aa3d231ad71a40d7ca54d7b059293e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:32 +0000
Subject: [PATCH 05/22] fix: rename clashing tables to names that are unique in
 the merged dataset

---
 src/oifitslib/oimerge.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index fbad721..14e152a 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -290,6 +290,7 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -313,14 +314,15 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing ARRNAME if it clashes */
         pOutTab = dup_oi_array(pInTab);
         upgrade_oi_array(pOutTab);
-        if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
+        suffix = pOutput->numArray;
+        while (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
         {
           /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
+          if (strlen(pInTab->arrname) < (FLEN_VALUE - 5))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->arrname,
+                       ++suffix);
           else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
+            g_snprintf(newName, FLEN_VALUE, "array%03d", ++suffix);
           g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
@@ -351,6 +353,7 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -374,16 +377,16 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing INSNAME if it clashes */
         pOutTab = dup_oi_wavelength(pInTab);
         upgrade_oi_wavelength(pOutTab);
-        if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
+        suffix = pOutput->numWavelength;
+        while (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
             NULL)
         {
           /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
+          if (strlen(pInTab->insname) < (FLEN_VALUE - 5))
+            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->insname,
+                       ++suffix);
           else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
+            g_snprintf(newName, FLEN_VALUE, "ins%03d", ++suffix);
           g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
         }
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
@@ -415,6 +418,7 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
   char newName[FLEN_VALUE];
+  int suffix;
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -435,14 +439,15 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
 
       /* Add copy of pInTab to output, changing CORRNAME if it clashes */
       pOutTab = dup_oi_corr(pInTab);
-      if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
+      suffix = pOutput->numCorr;
+      while (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
       {
         /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
+        if (strlen(pInTab->corrname) < (FLEN_VALUE - 5))
+          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pInTab->corrname,
+                     ++suffix);
         else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
+          g_snprintf(newName, FLEN_VALUE, "ins%03d", ++suffix);
         g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
       }
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
-- 
2.43.0


From 03583c7f1b00348aab7c0d3a25d4e987518d437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:52 +0000
Subject: [PATCH 06/22] fix: ignore DATE-OBS values outside the range of
 date2mjd() when merging, rather than aborting

---
 src/oifitslib/oimerge.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 14e152a..e9af234 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -147,6 +147,7 @@ static long files_min_mjd(const GList *list)
   {
     pHeader = &((oi_fits *)link->data)->header;
     if (sscanf(pHeader->date_obs, "%4ld-%2ld-%2ld", &year, &month, &day) == 3 &&
+        year >= 1901 && year <= 2099 && /* range supported by date2mjd() */
         (mjd = date2mjd(year, month, day)) < minMjd)
       minMjd = mjd;
 
-- 
2.43.0


From 3c74cc2d465cbd853a13e8c87af8f4d23e0e1cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:17 +0000
Subject: [PATCH 07/22] fix: keep target CATEGORY when filtering on TARGET_ID

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..f6f0b48 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -624,6 +624,7 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
+    pOutTargets->usecategory = pInTargets->usecategory;
     pOutTargets->ntarget = 0;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
-- 
2.43.0


From a73ba33cca647551e3d9731dfd80cb6c84b328aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 08/22] fix: do not abort when filtering a dataset that has no
 targets

---
 src/oifitslib/oifilter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index f6f0b48..ade953e 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -640,8 +640,11 @@ void filter_oi_target(const oi_target *pInTargets,
   {
     /* Copy input table */
     memcpy(pOutTargets, pInTargets, sizeof(*pInTargets));
-    MEMDUP(pOutTargets->targ, pInTargets->targ,
-           pInTargets->ntarget * sizeof(pInTargets->targ[0]));
+    if (pInTargets->ntarget > 0)
+      MEMDUP(pOutTargets->targ, pInTargets->targ,
+             pInTargets->ntarget * sizeof(pInTargets->targ[0]));
+    else
+      pOutTargets->targ = NULL;
   }
 }
 
-- 
2.43.0


From 99deafba726485f578aea4ebdd8f69c87f5c3a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:19 +0000
Subject: [PATCH 09/22] fix: make every OI_ARRAY, OI_WAVELENGTH and OI_CORR
 table read from a file available to lookups by name

---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 30d9fe6..16c327d 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -731,6 +731,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     fits_write_errmark();
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
     ++pOi->numArray;
   }
   free(pArray);
@@ -748,6 +750,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_wavelength(fptr, pWave, pStatus))
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
     ++pOi->numWavelength;
   }
   free(pWave);
@@ -777,6 +781,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       continue;
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
     ++pOi->numCorr;
   }
 
-- 
2.43.0


From 01e3cd2b461f758a000d15add24047c87e69a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 10/22] fix: do not take an image or ASCII table HDU for the
 table requested by name

---
 src/oifitslib/read_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..eec11bc 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -351,8 +351,8 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
       }
       if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
         continue; /* next HDU */
+      break; /* current HDU matches */
     }
-    break; /* current HDU matches */
   }
   if (ihdu > nhdu)
   {
-- 
2.43.0


From 8c6a66692152641fd4ff84a7501b7ac03ead18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 11/22] fix: report missing mandatory columns of OI_VIS and
 OI_FLUX tables that lack optional columns

---
 src/oifitslib/read_fits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index eec11bc..bdc115a 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1144,6 +1144,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus;
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
@@ -1607,6 +1608,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_get_colnum(fptr, CASEINSEN, "FLAG", &colnum, pStatus);
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
+    if (*pStatus) goto except;
     /* read optional columns */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
-- 
2.43.0


From caa15eb719b3cc5411cf912e6fac5fba22313959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:03 +0000
Subject: [PATCH 12/22] fix: give correct OI_INSPOL table number in check
 results

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..ad41014 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -627,7 +627,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -741,7 +741,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
+                 g_list_position(pOi->inspolList, link) + 1);
       set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
     }
     link = link->next;
-- 
2.43.0


From d4a6f35e0e685f89abeabc49245b665a8df5a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:30 +0000
Subject: [PATCH 13/22] fix: do not abort when one check finds two kinds of
 breach

---
 src/oifitslib/oicheck.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index ad41014..5b960db 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -62,10 +62,15 @@ static void set_result(oi_check_result *pResult, oi_breach_level level,
                        const char *description, const char *location)
 {
   if (level > pResult->level) pResult->level = level;
+  if (pGStr == NULL) pGStr = g_string_sized_new(256);
   if (pResult->description == NULL)
     pResult->description = g_string_chunk_insert(pResult->chunk, description);
-  else
-    g_assert_cmpstr(description, ==, pResult->description);
+  else if (strstr(pResult->description, description) == NULL)
+  {
+    /* breaches of more than one kind found by same check */
+    g_string_printf(pGStr, "%s; %s", pResult->description, description);
+    pResult->description = g_string_chunk_insert(pResult->chunk, pGStr->str);
+  }
   if (++pResult->numBreach < MAX_REPORT)
   {
     pResult->location[pResult->numBreach - 1] =
@@ -715,7 +720,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
   oi_t3 *pT3;
   oi_flux *pFlux;
   const char desc[] = "Reference to missing array element";
-  const char desc2[] = "ARRNAME missing"; //:BUG:
+  const char desc2[] = "ARRNAME missing";
   char location[FLEN_VALUE];
 
   init_check_result(pResult);
-- 
2.43.0


From 747826e38ba850930281e2c471efbc3ab8b56396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 14/22] fix: do not abort when writing tables with 10000 or
 more spectral channels

---
 src/oifitslib/write_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..26f2440 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -54,7 +54,7 @@ char **make_tform(const char **template, int n, int value)
   {
     if (template[i][0] == '?')
     {
-      size = strlen(template[i]) + 4; /* allow for extra digits + \0 */
+      size = strlen(template[i]) + 11; /* allow for extra digits + \0 */
       tform[i] = chkmalloc(size);
       needed = snprintf(tform[i], size, "%d%s", value, &template[i][1]);
       assert(needed < size); /* fails if string was truncated */
-- 
2.43.0


From 58c49e569f22d0ff1896b98bd943c95accac4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 15/22] fix: print usage when oifits-upgrade INSMODE argument
 missing

---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From d79eaa3112dea8f3151134758ecb6721e9afc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:03 +0000
Subject: [PATCH 16/22] fix: initialise complexunit when reading revision 1
 OI_VIS table

---
 src/oifitslib/read_fits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index bdc115a..4986fde 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1121,6 +1121,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
     pVis->phiorder = -1;
     pVis->usevisrefmap = FALSE;
     pVis->usecomplex = FALSE;
+    pVis->complexunit[0] = '\0';
     return *pStatus;
   }
 
-- 
2.43.0


From 3f93fcdeaec9cd350b70ac353de96e5f75058d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:05 +0000
Subject: [PATCH 17/22] fix: print nothing for a check that found no breach

---
 src/oifitslib/oicheck.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 5b960db..556c452 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -125,6 +125,7 @@ char *format_check_result(oi_check_result *pResult)
  */
 void print_check_result(oi_check_result *pResult)
 {
+  if (pResult->level == OI_BREACH_NONE) return;
   printf("%s", format_check_result(pResult));
 }
 
-- 
2.43.0


From bbb7504acde761ba2e7adea82cfbfea0b4d6ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:09 +0000
Subject: [PATCH 18/22] fix: read OI_TARGET table with no rows, as written
 after filtering out all targets

---
 src/oifitslib/alloc_fits.c | 2 +-
 src/oifitslib/read_fits.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/alloc_fits.c b/src/oifitslib/alloc_fits.c
index c826dcd..6d5c4aa 100644
--- a/src/oifitslib/alloc_fits.c
+++ b/src/oifitslib/alloc_fits.c
@@ -50,7 +50,7 @@ void alloc_oi_array(oi_array *pArray, int nelement)
  */
 void alloc_oi_target(oi_target *pTargets, int ntarget)
 {
-  pTargets->targ = chkmalloc(ntarget * sizeof(target));
+  pTargets->targ = (ntarget > 0) ? chkmalloc(ntarget * sizeof(target)) : NULL;
   pTargets->ntarget = ntarget;
 }
 
diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 4986fde..7262538 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -798,7 +798,7 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   }
 
   /* Read optional column */
-  if (pTargets->revision >= 2)
+  if (pTargets->revision >= 2 && pTargets->ntarget > 0)
   {
     pTargets->usecategory = read_col_string(
         fptr, TRUE, "CATEGORY", 3, 1, pTargets->targ[0].category, pStatus);
@@ -811,7 +811,7 @@ STATUS read_oi_target(fitsfile *fptr, oi_target *pTargets, STATUS *pStatus)
   }
   else
   {
-    /* ignore CATEGORY column in revision 1 table */
+    /* ignore CATEGORY column in revision 1 table or table with no rows */
     pTargets->usecategory = FALSE;
   }
 
-- 
2.43.0


From 26889c1b85b90348c81df045ccbd242e3b09232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:07 +0000
Subject: [PATCH 19/22] fix: copy OI_TARGET table with no rows instead of
 aborting

---
 src/oifitslib/oifile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 16c327d..24710ec 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1210,8 +1210,9 @@ oi_target *dup_oi_target(const oi_target *pInTab)
   oi_target *pOutTab;
 
   MEMDUP(pOutTab, pInTab, sizeof(*pInTab));
-  MEMDUP(pOutTab->targ, pInTab->targ,
-         pInTab->ntarget * sizeof(pInTab->targ[0]));
+  if (pInTab->ntarget > 0)
+    MEMDUP(pOutTab->targ, pInTab->targ,
+           pInTab->ntarget * sizeof(pInTab->targ[0]));
   return pOutTab;
 }
 /**
-- 
2.43.0


From 939be10570078fd3d4541d9e01392d4eef4d28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:46 +0000
Subject: [PATCH 20/22] fix: divide OI_INSPOL table if filter accepts different
 numbers of channels

---
 src/oifitslib/oifilter.c | 70 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 8 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index ade953e..b6cf3d7 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -810,9 +810,33 @@ void filter_all_oi_corr(const oi_fits *pInput, const oi_filter_spec *pFilter,
   }
 }
 
+/**
+ * Count accepted wavelength channels
+ *
+ * @param useWave  boolean array giving accepted wavelength channels
+ * @param nwave    length of @a useWave
+ *
+ * @return Number of channels accepted
+ */
+static int count_use_wave(const char *useWave, int nwave)
+{
+  int i, n;
+
+  n = 0;
+  for (i = 0; i < nwave; i++)
+  {
+    if (useWave[i]) ++n;
+  }
+  return n;
+}
+
 /**
  * Filter all OI_INSPOL tables
  *
+ * The records of an OI_INSPOL table have a common number of channels,
+ * hence an input table gives rise to one output table for each number
+ * of accepted channels.
+ *
  * @param pInput       pointer to input dataset
  * @param pFilter      pointer to filter specification
  * @param useWaveHash  hash table with INSAME values as keys and char[]
@@ -823,7 +847,10 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
                           GHashTable *useWaveHash, oi_fits *pOutput)
 {
   GList *link;
+  GHashTable *subHash;
   oi_inspol *pInTab, *pOutTab;
+  char *useWave, *done;
+  int i, j, n, nout;
 
   /* Filter OI_INSPOL tables in turn */
   link = pInput->inspolList;
@@ -835,18 +862,45 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
     /* If applicable, check whether ARRNAME matches */
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
 
-    pOutTab = chkmalloc(sizeof(oi_inspol));
-    filter_oi_inspol(pInTab, pFilter, useWaveHash, pOutTab);
-    if (pOutTab->nwave > 0 && pOutTab->numrec > 0)
+    /* Mark numbers of accepted channels done so far */
+    done = chkmalloc((pInTab->nwave + 1) * sizeof(done[0]));
+    memset(done, FALSE, (pInTab->nwave + 1) * sizeof(done[0]));
+    nout = 0;
+    for (i = 0; i < pInTab->numrec; i++)
     {
-      pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
-      ++pOutput->numInspol;
+      useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
+      if (useWave == NULL) continue; /* INSNAME filtered out */
+      n = count_use_wave(useWave, pInTab->nwave);
+      if (done[n]) continue;
+      done[n] = TRUE;
+
+      /* Select INSNAMEs with this number of accepted channels */
+      subHash = g_hash_table_new(g_str_hash, g_str_equal);
+      for (j = i; j < pInTab->numrec; j++)
+      {
+        useWave = g_hash_table_lookup(useWaveHash, pInTab->record[j].insname);
+        if (useWave != NULL && count_use_wave(useWave, pInTab->nwave) == n)
+          g_hash_table_insert(subHash, pInTab->record[j].insname, useWave);
+      }
+      pOutTab = chkmalloc(sizeof(oi_inspol));
+      filter_oi_inspol(pInTab, pFilter, subHash, pOutTab);
+      g_hash_table_destroy(subHash);
+      if (pOutTab->nwave > 0 && pOutTab->numrec > 0)
+      {
+        pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
+        ++pOutput->numInspol;
+        ++nout;
+      }
+      else
+      {
+        free(pOutTab);
+      }
     }
-    else
+    free(done);
+    if (nout == 0)
     {
       g_warning("Empty OI_INSPOL table removed from filter output");
-      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pOutTab->arrname);
-      free(pOutTab);
+      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pInTab->arrname);
     }
   }
 }
-- 
2.43.0


From 56dc09f43b0c3d536cfc2112ab2cf04714e932f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 21/22] fix: list correct CORRNAME for OI_VIS2 tables in
 oitable-demo

---
 src/oifitslib/oitable-demo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index d279b76..8036505 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -541,7 +541,7 @@ void demo_read(void)
   {
     if (read_next_oi_vis2(fptr, &vis2, &status)) break; /* no more OI_VIS2 */
     printf("Read OI_VIS2     with  ARRNAME=%s INSNAME=%s CORRNAME=%s\n",
-           vis2.arrname, vis2.insname, vis.corrname);
+           vis2.arrname, vis2.insname, vis2.corrname);
     if (strlen(vis2.arrname) > 0)
     {
       /* if ARRNAME specified, read corresponding OI_ARRAY */
-- 
2.43.0


From 690bcf0d5cbcbe4983e3bcf0037ea91ff1468aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:46 +0000
Subject: [PATCH 22/22] fix: list OI_VIS tables that precede OI_TARGET in
 oitable-demo

---
 src/oifitslib/oitable-demo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 8036505..a318c1b 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -504,6 +504,7 @@ void demo_read(void)
 
   /* Read all OI_VIS tables & corresponding
      OI_ARRAY/OI_CORR/OI_WAVELENGTH tables */
+  fits_movabs_hdu(fptr, 1, &hdutype, &status); /* back to start */
   while (TRUE)
   {
     if (read_next_oi_vis(fptr, &vis, &status)) break; /* no more OI_VIS */
-- 
2.43.0

