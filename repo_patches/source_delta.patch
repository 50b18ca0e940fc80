From a5fd66679ab8933986ea90b8e0e0d51e841fc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 01/33] fix: read OI_INSPOL Jones matrix columns as complex
 values

The columns are complex (TFORM 'C') and the destination is float complex,
but they were read as double, delivering garbage to the caller.
---
 src/oifitslib/read_fits.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index ab3255f..d5e797c 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -634,16 +634,16 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TDOUBLE, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].mjd_end, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JXY", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jxy, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "JYX", &colnum, pStatus);
-    fits_read_col(fptr, TDOUBLE, colnum, irow, 1, pInspol->nwave, NULL,
+    fits_read_col(fptr, TCOMPLEX, colnum, irow, 1, pInspol->nwave, NULL,
                   pInspol->record[irow - 1].jyx, &anynull, pStatus);
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
-- 
2.43.0


From cf21299e9378ccf62d1d7cadd2a4a2a95f7422bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:51 +0000
Subject: [PATCH 02/33] fix: report errors flushing data when writing a file

CFITSIO ignores errors from the final flush to disk and from flushes
implied by a seek, so write_oi_fits() returned success for a file
truncated e.g. by a full disk. Verify the file after closing it.
---
 src/oifitslib/oifile.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 43e1152..404e061 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -615,6 +615,36 @@ void set_oi_header(oi_fits *pOi)
   g_strlcpy(pOi->header.insmode, "UNKNOWN", FLEN_VALUE);
 }
 
+/**
+ * Verify that file just written is complete and has correct checksums
+ *
+ * @param filename  name of file
+ * @param nhdu      number of HDUs written
+ * @param pStatus   pointer to status variable
+ *
+ * @return On error, returns non-zero cfitsio error code (also assigned to
+ *         *pStatus)
+ */
+static STATUS verify_file(const char *filename, int nhdu, STATUS *pStatus)
+{
+  fitsfile *fptr = NULL;
+  int ihdu, dataok, hduok;
+
+  fits_open_diskfile(&fptr, filename, READONLY, pStatus);
+  for (ihdu = 1; !*pStatus && ihdu <= nhdu; ihdu++)
+  {
+    fits_movabs_hdu(fptr, ihdu, NULL, pStatus);
+    fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+    if (!*pStatus && (dataok != 1 || hduok != 1))
+    {
+      *pStatus = WRITE_ERROR;
+      fits_write_errmsg("File was not stored correctly");
+    }
+  }
+  if (fptr) fits_close_file(fptr, pStatus);
+  return *pStatus;
+}
+
 /**
  * Write OIFITS tables to new FITS file
  *
@@ -629,6 +659,8 @@ STATUS write_oi_fits(const char *filename, oi_fits oi, STATUS *pStatus)
 {
   const char function[] = "write_oi_fits";
   fitsfile *fptr = NULL;
+  char urltype[FLEN_FILENAME] = "", name[FLEN_FILENAME];
+  int nhdu;
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
@@ -661,8 +693,15 @@ STATUS write_oi_fits(const char *filename, oi_fits oi, STATUS *pStatus)
   WRITE_OI_LIST(fptr, oi.t3List, oi_t3, write_oi_t3, pStatus);
   WRITE_OI_LIST(fptr, oi.fluxList, oi_flux, write_oi_flux, pStatus);
 
+  fits_url_type(fptr, urltype, pStatus);
+  fits_file_name(fptr, name, pStatus);
+  fits_get_hdu_num(fptr, &nhdu);
+
 except:
   if (fptr) fits_close_file(fptr, pStatus);
+  /* CFITSIO ignores errors from flushing data to disk, so check the result */
+  if (!*pStatus && strcmp(urltype, "file://") == 0)
+    verify_file(name, nhdu, pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From c4b58e583e03f608e7e9b71b3380c1c76dcf269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 03/33] fix: do not skip tables on I/O errors when reading a
 file

An I/O error while reading OI_CORR, OI_INSPOL or a data table made
read_oi_fits() drop the table and return success, or try forever to get
past it. Only skip malformed tables.
---
 src/oifitslib/oifile.c | 62 ++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 404e061..bd81cb5 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -710,6 +710,35 @@ except:
   return *pStatus;
 }
 
+/**
+ * Skip table that could not be read, unless the failure is not specific to
+ * the table (I/O error) or there is no way past it
+ *
+ * @param fptr     see cfitsio documentation
+ * @param extname  EXTNAME of table
+ * @param pBadHdu  number of last HDU skipped, updated on return
+ * @param pStatus  pointer to status variable, reset if table was skipped
+ *
+ * @return Zero if table was skipped, otherwise non-zero cfitsio error code
+ */
+static STATUS skip_bad_table(fitsfile *fptr, const char *extname, int *pBadHdu,
+                             STATUS *pStatus)
+{
+  char desc[FLEN_STATUS];
+  int hdunum;
+
+  /* CFITSIO error codes below 200 are file access and memory errors */
+  if (*pStatus < 200) return *pStatus;
+  fits_get_hdu_num(fptr, &hdunum);
+  if (hdunum == *pBadHdu) return *pStatus; /* stuck at same HDU */
+
+  fits_get_errstatus(*pStatus, desc);
+  fprintf(stderr, "\nSkipping bad %s (%s)\n", extname, desc);
+  *pBadHdu = hdunum;
+  *pStatus = 0;
+  return *pStatus;
+}
+
 /**
  * Read all OIFITS tables from FITS file
  *
@@ -723,9 +752,8 @@ except:
 STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
 {
   const char function[] = "read_oi_fits";
-  char desc[FLEN_STATUS];
   fitsfile *fptr = NULL;
-  int hdutype;
+  int hdutype, badHdu;
   oi_array *pArray;
   oi_wavelength *pWave;
   oi_corr *pCorr;
@@ -796,6 +824,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
 
   /* Read all OI_CORR tables, skipping over failed tables */
   pOi->numCorr = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -810,9 +839,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_CORR */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_CORR (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_CORR", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
@@ -821,6 +848,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
 
   /* Read all OI_INSPOL tables, skipping over failed tables */
   pOi->numInspol = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -835,9 +863,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_INSPOL */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_INSPOL (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_INSPOL", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->inspolList = g_list_append(pOi->inspolList, pInspol);
@@ -847,6 +873,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_VIS, hash-tabling corresponding array, wavelength and
    * corr tables, skipping over failed tables */
   pOi->numVis = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -861,9 +888,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_VIS (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_VIS", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->visList = g_list_append(pOi->visList, pVis);
@@ -888,6 +913,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_VIS2, hash-tabling corresponding array, wavelength
    * and corr tables, skipping over failed tables */
   pOi->numVis2 = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -902,9 +928,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_VIS2 */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_VIS2 (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_VIS2", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->vis2List = g_list_append(pOi->vis2List, pVis2);
@@ -929,6 +953,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_T3, hash-tabling corresponding array, wavelength and
    * corr tables, skipping over failed tables */
   pOi->numT3 = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -943,9 +968,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_T3 */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_T3 (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_T3", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->t3List = g_list_append(pOi->t3List, pT3);
@@ -970,6 +993,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   /* Read all OI_FLUX, hash-tabling corresponding array & wavelength
    * tables, skipping over failed tables */
   pOi->numFlux = 0;
+  badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
   while (TRUE)
   {
@@ -984,9 +1008,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
         *pStatus = 0;
         break; /* no more OI_FLUX */
       }
-      fits_get_errstatus(*pStatus, desc);
-      fprintf(stderr, "\nSkipping bad OI_FLUX (%s)\n", desc);
-      *pStatus = 0;
+      if (skip_bad_table(fptr, "OI_FLUX", &badHdu, pStatus)) goto except;
       continue;
     }
     pOi->fluxList = g_list_append(pOi->fluxList, pFlux);
-- 
2.43.0


From 9bc746f70d3dc42edbabb757c873b5fd882bfb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:48 +0000
Subject: [PATCH 04/33] fix: do not mistake other HDU types for the named table

Reading a table by name stopped at the first HDU that is not a binary
table.
---
 src/oifitslib/read_fits.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index d5e797c..99d2010 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -338,20 +338,18 @@ static STATUS specific_named_hdu(fitsfile *fptr, const char *reqName,
   {
     fits_movabs_hdu(fptr, ihdu, &hdutype, pStatus);
     if (*pStatus) return *pStatus;
-    if (hdutype == BINARY_TBL)
+    if (hdutype != BINARY_TBL) continue; /* next HDU */
+    fits_write_errmark();
+    fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
+    fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
+    if (*pStatus)
     {
-      fits_write_errmark();
-      fits_read_key(fptr, TSTRING, "EXTNAME", extname, NULL, pStatus);
-      fits_read_key(fptr, TSTRING, keyword, value, NULL, pStatus);
-      if (*pStatus)
-      {
-        *pStatus = 0;
-        fits_clear_errmark();
-        continue; /* next HDU */
-      }
-      if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
-        continue; /* next HDU */
+      *pStatus = 0;
+      fits_clear_errmark();
+      continue; /* next HDU */
     }
+    if (strcmp(extname, reqName) != 0 || strcmp(value, reqVal) != 0)
+      continue; /* next HDU */
     break; /* current HDU matches */
   }
   if (ihdu > nhdu)
-- 
2.43.0


From 13da70547f48fe5343f0b1ffb0c67c7ae946889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:15 +0000
Subject: [PATCH 05/33] fix: do not abort merging files with an unsupported
 DATE-OBS year

A file without data tables gets a DATE-OBS in the year 2132 when it is
read, which made date2mjd() fail its assertion. Skip such dates.
---
 src/oifitslib/oimerge.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index f1c4e91..556feb1 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -146,7 +146,9 @@ static long files_min_mjd(const GList *list)
   while (link != NULL)
   {
     pHeader = &((oi_fits *)link->data)->header;
+    /* ignore dates that date2mjd() cannot convert */
     if (sscanf(pHeader->date_obs, "%4ld-%2ld-%2ld", &year, &month, &day) == 3 &&
+        year >= 1901 && year <= 2099 &&
         (mjd = date2mjd(year, month, day)) < minMjd)
       minMjd = mjd;
 
-- 
2.43.0


From 6066d23bb371de672c34b59fbfb7c947e47eb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:29 +0000
Subject: [PATCH 06/33] fix: copy IVISERR values when duplicating an OI_VIS
 table

---
 src/oifitslib/oifile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index bd81cb5..0c1821c 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -1396,7 +1396,7 @@ oi_vis *dup_oi_vis(const oi_vis *pInTab)
              pInTab->nwave * sizeof(pInRec->rviserr[0]));
       MEMDUP(pOutRec->ivis, pInRec->ivis,
              pInTab->nwave * sizeof(pInRec->ivis[0]));
-      MEMDUP(pOutRec->iviserr, pInRec->rviserr,
+      MEMDUP(pOutRec->iviserr, pInRec->iviserr,
              pInTab->nwave * sizeof(pInRec->iviserr[0]));
     }
   }
-- 
2.43.0


From 3ca226439b400ac72dc5ef2f3d51f968f89ae245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:31 +0000
Subject: [PATCH 07/33] fix: look up tables that no data table refers to

oi_fits_lookup_array(), _wavelength() and _corr() found only tables that had
been referenced by OI_VIS, OI_VIS2 or OI_T3 tables when reading the file.
---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 0c1821c..69bffaf 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -799,6 +799,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     if (read_next_oi_array(fptr, pArray, pStatus)) break; /* no more OI_ARRAY */
     pOi->arrayList = g_list_append(pOi->arrayList, pArray);
     ++pOi->numArray;
+    if (!g_hash_table_lookup(pOi->arrayHash, pArray->arrname))
+      g_hash_table_insert(pOi->arrayHash, pArray->arrname, pArray);
   }
   free(pArray);
   if (*pStatus != END_OF_FILE) goto except;
@@ -816,6 +818,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
       break; /* no more OI_WAVELENGTH */
     pOi->wavelengthList = g_list_append(pOi->wavelengthList, pWave);
     ++pOi->numWavelength;
+    if (!g_hash_table_lookup(pOi->wavelengthHash, pWave->insname))
+      g_hash_table_insert(pOi->wavelengthHash, pWave->insname, pWave);
   }
   free(pWave);
   if (*pStatus != END_OF_FILE) goto except;
@@ -844,6 +848,8 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
     }
     pOi->corrList = g_list_append(pOi->corrList, pCorr);
     ++pOi->numCorr;
+    if (!g_hash_table_lookup(pOi->corrHash, pCorr->corrname))
+      g_hash_table_insert(pOi->corrHash, pCorr->corrname, pCorr);
   }
 
   /* Read all OI_INSPOL tables, skipping over failed tables */
-- 
2.43.0


From 4cd34bf61aeb7cd9e16ccaf2da98792126417430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 08/33] fix: keep target CATEGORY values when filtering by
 TARGET_ID

---
 src/oifitslib/oifilter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index d88c7c6..a2bde98 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -625,6 +625,7 @@ void filter_oi_target(const oi_target *pInTargets,
     /* New oi_target containing single record. TARGET_ID is set to 1 */
     pOutTargets->revision = pInTargets->revision;
     pOutTargets->ntarget = 0;
+    pOutTargets->usecategory = pInTargets->usecategory;
     for (i = 0; i < pInTargets->ntarget; i++)
     {
       if (pInTargets->targ[i].target_id == pFilter->target_id)
-- 
2.43.0


From 9fef70b2c2d36d90c6e143af41decd6102491e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 09/33] fix: keep target CATEGORY values when merging datasets

---
 src/oifitslib/oimerge.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 556feb1..4c0706c 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -259,6 +259,10 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
         pOutTab->targ[pOutTab->ntarget - 1].target_id = pOutTab->ntarget;
+        if (pInTab->usecategory)
+          pOutTab->usecategory = TRUE;
+        else
+          pOutTab->targ[pOutTab->ntarget - 1].category[0] = '\0';
       }
     }
     link = link->next;
-- 
2.43.0


From 88481fada081b1bde88b529c57d9d99769435fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:11 +0000
Subject: [PATCH 10/33] fix: do not abort merging 100 or more targets

---
 src/oifitslib/oimerge.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 4c0706c..c2fa914 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -231,16 +231,18 @@ void merge_oi_header(const GList *inList, oi_fits *pOutput)
  */
 GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
 {
-#define MAX_TARGET 100
   GHashTable *targetIdHash;
   const GList *link;
   oi_target *pInTab, *pOutTab;
-  int i, *pValue;
+  int i, maxTarget, *pValue;
 
   pOutTab = &pOutput->targets;
   pOutTab->revision = OI_REVN_V2_TARGET;
   pOutTab->ntarget = 0;
-  pOutTab->targ = chkmalloc(MAX_TARGET * sizeof(target));
+  maxTarget = 0;
+  for (link = inList; link != NULL; link = link->next)
+    maxTarget += ((oi_fits *)link->data)->targets.ntarget;
+  pOutTab->targ = chkmalloc(MAX(maxTarget, 1) * sizeof(target));
   targetIdHash = g_hash_table_new_full(g_str_hash, g_str_equal, NULL, free);
   link = inList;
   while (link != NULL)
@@ -254,7 +256,7 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
       {
         pValue = chkmalloc(sizeof(int));
         *pValue = ++pOutTab->ntarget;
-        g_assert_cmpint(pOutTab->ntarget, <, MAX_TARGET);
+        g_assert_cmpint(pOutTab->ntarget, <=, maxTarget);
         g_hash_table_insert(targetIdHash, pInTab->targ[i].target, pValue);
         memcpy(&pOutTab->targ[pOutTab->ntarget - 1], &pInTab->targ[i],
                sizeof(target));
-- 
2.43.0


From c5ead2f46de1f07445a88792d5e5f9652f5f4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:35 +0000
Subject: [PATCH 11/33] fix: do not reuse a table name when renaming merged
 tables

The name made by appending the table number could already be in use, so that
data tables ended up referring to the wrong OI_ARRAY, OI_WAVELENGTH or OI_CORR.
---
 src/oifitslib/oimerge.c | 66 +++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index c2fa914..4cc88ac 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -158,6 +158,31 @@ static long files_min_mjd(const GList *list)
   return minMjd;
 }
 
+/**
+ * Modify name of table if needed to differ from all keys of hash table.
+ *
+ * @param hash     hash table indexed by name
+ * @param altName  alternative start of new name, if name is too long
+ * @param num      number to try as suffix first
+ * @param name     name to modify, maximum length FLEN_VALUE - 1
+ */
+static void make_unique_name(GHashTable *hash, const char *altName, int num,
+                             char name[FLEN_VALUE])
+{
+  char newName[FLEN_VALUE];
+
+  g_strlcpy(newName, name, FLEN_VALUE);
+  while (g_hash_table_lookup(hash, newName) != NULL)
+  {
+    /* Avoid truncation at FLEN_VALUE - 1 */
+    if (strlen(name) < (FLEN_VALUE - 5))
+      g_snprintf(newName, FLEN_VALUE, "%s_%03d", name, num++);
+    else
+      g_snprintf(newName, FLEN_VALUE, "%s%03d", altName, num++);
+  }
+  g_strlcpy(name, newName, FLEN_VALUE);
+}
+
 /*
  * Public functions
  */
@@ -288,7 +313,6 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
   const GList *arrayList, *ilink, *jlink;
   GHashTable *hash;
   oi_array *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   arrnameHashList = NULL;
   g_assert(pOutput->arrayList == NULL);
@@ -312,16 +336,8 @@ GList *merge_all_oi_array(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing ARRNAME if it clashes */
         pOutTab = dup_oi_array(pInTab);
         upgrade_oi_array(pOutTab);
-        if (g_hash_table_lookup(pOutput->arrayHash, pOutTab->arrname) != NULL)
-        {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->arrname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->arrname,
-                       pOutput->numArray + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "array%03d", pOutput->numArray + 1);
-          g_strlcpy(pOutTab->arrname, newName, FLEN_VALUE);
-        }
+        make_unique_name(pOutput->arrayHash, "array", pOutput->numArray + 1,
+                         pOutTab->arrname);
         g_hash_table_insert(pOutput->arrayHash, pOutTab->arrname, pOutTab);
         pOutput->arrayList = g_list_append(pOutput->arrayList, pOutTab);
         ++pOutput->numArray;
@@ -349,7 +365,6 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
   const GList *waveList, *ilink, *jlink;
   GHashTable *hash;
   oi_wavelength *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   insnameHashList = NULL;
   g_assert(pOutput->wavelengthList == NULL);
@@ -373,18 +388,8 @@ GList *merge_all_oi_wavelength(const GList *inList, oi_fits *pOutput)
         /* Add copy of pInTab to output, changing INSNAME if it clashes */
         pOutTab = dup_oi_wavelength(pInTab);
         upgrade_oi_wavelength(pOutTab);
-        if (g_hash_table_lookup(pOutput->wavelengthHash, pOutTab->insname) !=
-            NULL)
-        {
-          /* Avoid truncation at FLEN_VALUE - 1 */
-          if (strlen(pOutTab->insname) < (FLEN_VALUE - 5))
-            g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->insname,
-                       pOutput->numWavelength + 1);
-          else
-            g_snprintf(newName, FLEN_VALUE, "ins%03d",
-                       pOutput->numWavelength + 1);
-          g_strlcpy(pOutTab->insname, newName, FLEN_VALUE);
-        }
+        make_unique_name(pOutput->wavelengthHash, "ins", pOutput->numWavelength + 1,
+                         pOutTab->insname);
         g_hash_table_insert(pOutput->wavelengthHash, pOutTab->insname, pOutTab);
         pOutput->wavelengthList =
             g_list_append(pOutput->wavelengthList, pOutTab);
@@ -413,7 +418,6 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   const GList *corrList, *ilink, *jlink;
   GHashTable *hash;
   oi_corr *pInTab, *pOutTab;
-  char newName[FLEN_VALUE];
 
   corrnameHashList = NULL;
   g_assert(pOutput->corrList == NULL);
@@ -434,16 +438,8 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
 
       /* Add copy of pInTab to output, changing CORRNAME if it clashes */
       pOutTab = dup_oi_corr(pInTab);
-      if (g_hash_table_lookup(pOutput->corrHash, pOutTab->corrname) != NULL)
-      {
-        /* Avoid truncation at FLEN_VALUE - 1 */
-        if (strlen(pOutTab->corrname) < (FLEN_VALUE - 5))
-          g_snprintf(newName, FLEN_VALUE, "%s_%03d", pOutTab->corrname,
-                     pOutput->numCorr + 1);
-        else
-          g_snprintf(newName, FLEN_VALUE, "ins%03d", pOutput->numCorr + 1);
-        g_strlcpy(pOutTab->corrname, newName, FLEN_VALUE);
-      }
+      make_unique_name(pOutput->corrHash, "ins", pOutput->numCorr + 1,
+                       pOutTab->corrname);
       g_hash_table_insert(pOutput->corrHash, pOutTab->corrname, pOutTab);
       pOutput->corrList = g_list_append(pOutput->corrList, pOutTab);
       ++pOutput->numCorr;
-- 
2.43.0


From e41ce1c77c9e75085a406e39c307091a1e144988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:36 +0000
Subject: [PATCH 12/33] fix: do not crash merging data with a missing target
 record

---
 src/oifitslib/oimerge.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index 4cc88ac..c74f95a 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -486,13 +486,20 @@ GList *merge_all_oi_corr(const GList *inList, oi_fits *pOutput)
   do                                                                           \
   {                                                                            \
     int ii;                                                                    \
+    target *pTarget;                                                           \
     for (ii = 0; ii < (pTab)->numrec; ii++)                                    \
     {                                                                          \
+      pTarget = oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id);    \
+      if (pTarget == NULL)                                                     \
+      {                                                                        \
+        g_warning("Missing target record with TARGET_ID=%d",                   \
+                  (pTab)->record[ii].target_id);                               \
+        (pTab)->record[ii].target_id = 0; /* merged IDs start from 1 */        \
+        continue;                                                              \
+      }                                                                        \
       /* hash table is indexed by target name */                               \
-      (pTab)->record[ii].target_id = *((int *)g_hash_table_lookup(             \
-          targetIdHash,                                                        \
-          oi_fits_lookup_target(pInOi, (pTab)->record[ii].target_id)           \
-              ->target));                                                      \
+      (pTab)->record[ii].target_id =                                           \
+          *((int *)g_hash_table_lookup(targetIdHash, pTarget->target));        \
     }                                                                          \
   } while (0)
 
-- 
2.43.0


From a4e1fed04f650b922d17665623f6b1a4cb694c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 13/33] fix: require all arguments of oifits-upgrade

---
 src/util/oifits-upgrade.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/oifits-upgrade.c b/src/util/oifits-upgrade.c
index 7a05c34..0bfdbb9 100644
--- a/src/util/oifits-upgrade.c
+++ b/src/util/oifits-upgrade.c
@@ -36,7 +36,7 @@ int main(int argc, char *argv[])
   int status;
 
   /* Parse command-line */
-  if (argc < 5)
+  if (argc < 6)
   {
     printf("Usage:\n%s INFILE OUTFILE ORIGIN OBSERVER INSMODE\n", argv[0]);
     exit(2); /* standard unix behaviour */
-- 
2.43.0


From 6a8e48a07d03d2a61e3e9160a5a81b05998a980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:55 +0000
Subject: [PATCH 14/33] fix: report the position of the OI_INSPOL table with a
 breach

---
 src/oifitslib/oicheck.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index 55a2164..ad41014 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -627,7 +627,7 @@ oi_breach_level check_arrname(const oi_fits *pOi, oi_check_result *pResult)
       if (strlen(pInspol->arrname) == 0)
       {
         g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                   g_list_position(pOi->visList, link) + 1);
+                   g_list_position(pOi->inspolList, link) + 1);
         set_result(pResult, OI_BREACH_NOT_OIFITS, desc, location);
       }
       link = link->next;
@@ -741,7 +741,7 @@ oi_breach_level check_elements_present(const oi_fits *pOi,
     else
     {
       g_snprintf(location, FLEN_VALUE, "OI_INSPOL #%d",
-                 g_list_position(pOi->visList, link) + 1);
+                 g_list_position(pOi->inspolList, link) + 1);
       set_result(pResult, OI_BREACH_NOT_OIFITS, desc2, location);
     }
     link = link->next;
-- 
2.43.0


From f1fae35059bd1522daaa770bb2d9ea567054ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 15/33] fix: do not abort when one check finds two kinds of
 breach

---
 src/oifitslib/oicheck.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oicheck.c b/src/oifitslib/oicheck.c
index ad41014..b748ab6 100644
--- a/src/oifitslib/oicheck.c
+++ b/src/oifitslib/oicheck.c
@@ -61,11 +61,17 @@ void init_check_result(oi_check_result *pResult)
 static void set_result(oi_check_result *pResult, oi_breach_level level,
                        const char *description, const char *location)
 {
+  char text[2 * FLEN_VALUE];
+
   if (level > pResult->level) pResult->level = level;
   if (pResult->description == NULL)
     pResult->description = g_string_chunk_insert(pResult->chunk, description);
-  else
-    g_assert_cmpstr(description, ==, pResult->description);
+  else if (strcmp(description, pResult->description) != 0)
+  {
+    /* Not the first kind of breach found by this check */
+    g_snprintf(text, sizeof(text), "%s: %s", description, location);
+    location = text;
+  }
   if (++pResult->numBreach < MAX_REPORT)
   {
     pResult->location[pResult->numBreach - 1] =
-- 
2.43.0


From 1bb52f30d463a2e31942493236a249248a29eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:25 +0000
Subject: [PATCH 16/33] fix: filter OI_INSPOL records with differing numbers of
 channels

Records of one OI_INSPOL table can refer to several OI_WAVELENGTH tables, for
which the filter may accept different numbers of channels. The number accepted
for the first record was assumed to apply to all, so later records were written
beyond the end of their arrays, or padded with uninitialised values.
---
 src/oifitslib/oifilter.c | 55 +++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index a2bde98..a720432 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -820,7 +820,9 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
                           GHashTable *useWaveHash, oi_fits *pOutput)
 {
   GList *link;
-  oi_inspol *pInTab, *pOutTab;
+  oi_inspol *pInTab, *pOutTab, subTab;
+  char *useWave;
+  int i, j, n, nout, *nchan;
 
   /* Filter OI_INSPOL tables in turn */
   link = pInput->inspolList;
@@ -832,25 +834,60 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
     /* If applicable, check whether ARRNAME matches */
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
 
-    pOutTab = chkmalloc(sizeof(oi_inspol));
-    filter_oi_inspol(pInTab, pFilter, useWaveHash, pOutTab);
-    if (pOutTab->nwave > 0 && pOutTab->numrec > 0)
+    /* Count accepted wavelength channels for each record */
+    nchan = chkmalloc(pInTab->numrec * sizeof(nchan[0]));
+    for (i = 0; i < pInTab->numrec; i++)
     {
-      pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
-      ++pOutput->numInspol;
+      nchan[i] = 0;
+      useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
+      for (j = 0; useWave != NULL && j < pInTab->nwave; j++)
+        if (useWave[j]) ++nchan[i];
     }
-    else
+
+    /* All records in a table must have the same number of channels, so make
+       an output table for each distinct number */
+    memcpy(&subTab, pInTab, sizeof(oi_inspol));
+    subTab.record = chkmalloc(pInTab->numrec * sizeof(oi_inspol_record));
+    nout = 0;
+    for (i = 0; i < pInTab->numrec; i++)
+    {
+      if (nchan[i] == 0) continue; /* INSNAME filtered out, or already done */
+      n = nchan[i];
+      subTab.numrec = 0;
+      for (j = i; j < pInTab->numrec; j++)
+      {
+        if (nchan[j] != n) continue;
+        subTab.record[subTab.numrec++] = pInTab->record[j];
+        nchan[j] = 0;
+      }
+      pOutTab = chkmalloc(sizeof(oi_inspol));
+      filter_oi_inspol(&subTab, pFilter, useWaveHash, pOutTab);
+      if (pOutTab->nwave > 0 && pOutTab->numrec > 0)
+      {
+        pOutput->inspolList = g_list_append(pOutput->inspolList, pOutTab);
+        ++pOutput->numInspol;
+        ++nout;
+      }
+      else
+      {
+        free(pOutTab);
+      }
+    }
+    if (nout == 0)
     {
       g_warning("Empty OI_INSPOL table removed from filter output");
-      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pOutTab->arrname);
-      free(pOutTab);
+      g_debug("Removed empty OI_INSPOL with ARRNAME=%s", pInTab->arrname);
     }
+    free(subTab.record);
+    free(nchan);
   }
 }
 
 /**
  * Filter an OI_INSPOL table by TARGET_ID, INSNAME, and MJD
  *
+ * The number of accepted wavelength channels must be the same for all records.
+ *
  * @param pInTab   pointer to input oi_inspol
  * @param pFilter  pointer to filter specification
  * @param useWaveHash  hash table with INSAME values as keys and char[]
-- 
2.43.0


From 9369277717e97a851c88284310491a18d8217320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:03 +0000
Subject: [PATCH 17/33] fix: do not exceed length of FITS keyword when renaming
 merged tables

---
 src/oifitslib/oimerge.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index c74f95a..ef06d68 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -174,8 +174,8 @@ static void make_unique_name(GHashTable *hash, const char *altName, int num,
   g_strlcpy(newName, name, FLEN_VALUE);
   while (g_hash_table_lookup(hash, newName) != NULL)
   {
-    /* Avoid truncation at FLEN_VALUE - 1 */
-    if (strlen(name) < (FLEN_VALUE - 5))
+    /* Avoid truncation, maximum length of a FITS keyword string is 68 */
+    if (strlen(name) <= 64)
       g_snprintf(newName, FLEN_VALUE, "%s_%03d", name, num++);
     else
       g_snprintf(newName, FLEN_VALUE, "%s%03d", altName, num++);
-- 
2.43.0


From 14516ff7036b7e830dc853ade5cf0e513c9ab706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:40 +0000
Subject: [PATCH 18/33] fix: report failure to reallocate memory when filtering
 and merging

---
 src/oifitslib/oifilter.c | 37 ++++++++++++++++++++++++++-----------
 src/oifitslib/oimerge.c  |  4 +++-
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index a720432..21f1a8e 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -94,6 +94,16 @@ static GOptionEntry filterEntries[] = {
  * Private functions
  */
 
+/**
+ * Change size of allocated array, freeing it if new size is zero
+ */
+static void *shrink_array(void *ptr, size_t size)
+{
+  if (size > 0) return chkrealloc(ptr, size);
+  free(ptr);
+  return NULL;
+}
+
 /**
  * Callback function invoked prior to parsing filter command-line options
  */
@@ -768,9 +778,9 @@ void filter_oi_wavelength(const oi_wavelength *pInWave,
   }
   if (pOutWave->nwave < pInWave->nwave)
   {
-    pOutWave->eff_wave = realloc(
+    pOutWave->eff_wave = shrink_array(
         pOutWave->eff_wave, pOutWave->nwave * sizeof(pInWave->eff_wave[0]));
-    pOutWave->eff_band = realloc(
+    pOutWave->eff_band = shrink_array(
         pOutWave->eff_band, pOutWave->nwave * sizeof(pInWave->eff_band[0]));
   }
 }
@@ -953,19 +963,20 @@ void filter_oi_inspol(const oi_inspol *pInTab, const oi_filter_spec *pFilter,
       /* For 1st output record, length of vectors wasn't known when
          originally allocated, so reallocate */
       pOutTab->nwave = k;
-      pOutTab->record[nrec].jxx = realloc(
+      pOutTab->record[nrec].jxx = shrink_array(
           pOutTab->record[nrec].jxx, k * sizeof(pOutTab->record[0].jxx[0]));
-      pOutTab->record[nrec].jyy = realloc(
+      pOutTab->record[nrec].jyy = shrink_array(
           pOutTab->record[nrec].jyy, k * sizeof(pOutTab->record[0].jyy[0]));
-      pOutTab->record[nrec].jxy = realloc(
+      pOutTab->record[nrec].jxy = shrink_array(
           pOutTab->record[nrec].jxy, k * sizeof(pOutTab->record[0].jxy[0]));
-      pOutTab->record[nrec].jyx = realloc(
+      pOutTab->record[nrec].jyx = shrink_array(
           pOutTab->record[nrec].jyx, k * sizeof(pOutTab->record[0].jyx[0]));
     }
     ++nrec;
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_inspol_record));
+  pOutTab->record =
+      shrink_array(pOutTab->record, nrec * sizeof(oi_inspol_record));
 }
 
 /**
@@ -1205,7 +1216,8 @@ void filter_oi_vis(const oi_vis *pInTab, const oi_filter_spec *pFilter,
                          pInTab->usecomplex, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis_record));
+  pOutTab->record =
+      shrink_array(pOutTab->record, nrec * sizeof(oi_vis_record));
 }
 
 /**
@@ -1396,7 +1408,8 @@ void filter_oi_vis2(const oi_vis2 *pInTab, const oi_filter_spec *pFilter,
                           &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_vis2_record));
+  pOutTab->record =
+      shrink_array(pOutTab->record, nrec * sizeof(oi_vis2_record));
 }
 
 /**
@@ -1656,7 +1669,8 @@ void filter_oi_t3(const oi_t3 *pInTab, const oi_filter_spec *pFilter,
                         &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_t3_record));
+  pOutTab->record =
+      shrink_array(pOutTab->record, nrec * sizeof(oi_t3_record));
 }
 
 /**
@@ -1790,7 +1804,8 @@ void filter_oi_flux(const oi_flux *pInTab, const oi_filter_spec *pFilter,
                           pOutTab->nwave, &pOutTab->record[nrec++]);
   }
   pOutTab->numrec = nrec;
-  pOutTab->record = realloc(pOutTab->record, nrec * sizeof(oi_flux_record));
+  pOutTab->record =
+      shrink_array(pOutTab->record, nrec * sizeof(oi_flux_record));
 }
 
 /**
diff --git a/src/oifitslib/oimerge.c b/src/oifitslib/oimerge.c
index ef06d68..67682f4 100644
--- a/src/oifitslib/oimerge.c
+++ b/src/oifitslib/oimerge.c
@@ -294,7 +294,9 @@ GHashTable *merge_oi_target(const GList *inList, oi_fits *pOutput)
     }
     link = link->next;
   }
-  pOutTab->targ = realloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
+  if (pOutTab->ntarget > 0)
+    pOutTab->targ =
+        chkrealloc(pOutTab->targ, pOutTab->ntarget * sizeof(target));
   return targetIdHash;
 }
 
-- 
2.43.0


From c3d673aff83cfdb4b5b67db7ca25b8446d69abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:00 +0000
Subject: [PATCH 19/33] fix: do not use undefined checksum status after a read
 error

---
 src/oifitslib/read_fits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 99d2010..60d0afe 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -240,7 +240,7 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
-  fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+  if (fits_verify_chksum(fptr, &dataok, &hduok, pStatus)) return *pStatus;
   if (dataok == -1 || hduok == -1)
   {
     fits_get_hdu_num(fptr, &hdunum);
-- 
2.43.0


From c5d603d77b48452eb10e02c508f2a8de7ba6b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:05 +0000
Subject: [PATCH 20/33] fix: do not use undefined column type after a read
 error

---
 src/oifitslib/read_fits.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 60d0afe..7d6fe7b 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -145,7 +145,9 @@ static bool read_col_string(fitsfile *fptr, bool optional, char *colname,
   }
   else
   {
-    fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus);
+    if (fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL,
+                         pStatus))
+      return FALSE;
     if (typecode != TSTRING)
     {
       *pStatus = BAD_BTABLE_FORMAT;
@@ -199,7 +201,9 @@ static bool read_col_string_truncate(fitsfile *fptr, bool optional,
   }
   else
   {
-    fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL, pStatus);
+    if (fits_get_coltype(fptr, colnum, &typecode, &actualRepeat, NULL,
+                         pStatus))
+      return FALSE;
     if (typecode != TSTRING)
     {
       *pStatus = BAD_BTABLE_FORMAT;
-- 
2.43.0


From 759342576e2df4571fb4be025fdc2256ae6fbcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:37 +0000
Subject: [PATCH 21/33] fix: do not crash iterating over data without
 wavelengths

---
 src/oifitslib/oiiter.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oifitslib/oiiter.c b/src/oifitslib/oiiter.c
index 5c975fe..382aeeb 100644
--- a/src/oifitslib/oiiter.c
+++ b/src/oifitslib/oiiter.c
@@ -213,6 +213,10 @@ static bool oi_t3_iter_accept_record(oi_t3_iter *pIter)
   return true;
 }
 
+/** Is the wavelength of the current channel known? */
+#define HAVE_WAVELENGTH(pIter)                                                 \
+  ((pIter)->pWave != NULL && (pIter)->iwave < (pIter)->pWave->nwave)
+
 #define ACCEPT_ARRNAME(pTable, pFilter)                                        \
   ((pFilter)->arrname_pttn == NULL ||                                          \
    g_pattern_match_string((pFilter)->arrname_pttn, (pTable)->arrname))
@@ -415,7 +419,7 @@ bool oi_vis_iter_next(oi_vis_iter *pIter, int *const pExtver, oi_vis **ppTable,
           NEXT_TABLE(pIter, oi_vis)))
       goto finally;
   } while (!(oi_vis_iter_accept_table(pIter) &&
-             oi_vis_iter_accept_record(pIter) &&
+             oi_vis_iter_accept_record(pIter) && HAVE_WAVELENGTH(pIter) &&
              oi_vis_iter_accept_channel(pIter)));
 
   /* Return new current data point */
@@ -477,7 +481,7 @@ bool oi_vis2_iter_next(oi_vis2_iter *pIter, int *const pExtver,
           NEXT_TABLE(pIter, oi_vis2)))
       goto finally;
   } while (!(oi_vis2_iter_accept_table(pIter) &&
-             oi_vis2_iter_accept_record(pIter) &&
+             oi_vis2_iter_accept_record(pIter) && HAVE_WAVELENGTH(pIter) &&
              oi_vis2_iter_accept_channel(pIter)));
 
   /* Return new current data point */
@@ -538,7 +542,7 @@ bool oi_t3_iter_next(oi_t3_iter *pIter, int *const pExtver, oi_t3 **ppTable,
           NEXT_TABLE(pIter, oi_t3)))
       goto finally;
   } while (!(oi_t3_iter_accept_table(pIter) &&
-             oi_t3_iter_accept_record(pIter) &&
+             oi_t3_iter_accept_record(pIter) && HAVE_WAVELENGTH(pIter) &&
              oi_t3_iter_accept_channel(pIter)));
 
   /* Return new current data point */
-- 
2.43.0


From 7258b8163f58f18d1d7986593c3a998f47e3f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:55 +0000
Subject: [PATCH 22/33] fix: do not read beyond wavelength table when filtering

---
 src/oifitslib/oifilter.c | 47 +++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/oifitslib/oifilter.c b/src/oifitslib/oifilter.c
index 21f1a8e..824b606 100644
--- a/src/oifitslib/oifilter.c
+++ b/src/oifitslib/oifilter.c
@@ -703,7 +703,7 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
                                      oi_fits *pOutput)
 {
   GHashTable *useWaveHash;
-  oi_wavelength *pInWave, *pOutWave;
+  oi_wavelength *pInWave, *pOutWave, *pWave;
   char *useWave;
   GList *link;
 
@@ -724,11 +724,15 @@ GHashTable *filter_all_oi_wavelength(const oi_fits *pInput,
         ++pOutput->numWavelength;
         g_hash_table_insert(pOutput->wavelengthHash, pOutWave->insname,
                             pOutWave);
-        g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), useWave);
+        /* INSNAME should be unique, but use channels of referenced table */
+        pWave = oi_fits_lookup_wavelength(pInput, pInWave->insname);
+        if (pWave == NULL || pWave == pInWave)
+          g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), useWave);
+        else
+          free(useWave);
       }
       else
       {
-        g_hash_table_insert(useWaveHash, g_strdup(pInWave->insname), NULL);
         g_warning("Empty tables with INSNAME=%s removed from filter output",
                   pInWave->insname);
         free(useWave);
@@ -817,6 +821,28 @@ void filter_all_oi_corr(const oi_fits *pInput, const oi_filter_spec *pFilter,
   }
 }
 
+/**
+ * Get accepted wavelength channels for data with specified INSNAME
+ *
+ * @return Boolean array giving accepted channels, or NULL if INSNAME filtered
+ *         out or OI_WAVELENGTH doesn't have @a nwave channels
+ */
+static char *get_use_wave(const oi_fits *pInput, GHashTable *useWaveHash,
+                          const char *insname, int nwave)
+{
+  oi_wavelength *pWave;
+
+  pWave = oi_fits_lookup_wavelength(pInput, insname);
+  if (pWave != NULL && pWave->nwave < nwave)
+  {
+    g_warning("Data with %d channels but INSNAME=%s has %d -> removed from "
+              "filter output",
+              nwave, insname, pWave->nwave);
+    return NULL;
+  }
+  return g_hash_table_lookup(useWaveHash, insname);
+}
+
 /**
  * Filter all OI_INSPOL tables
  *
@@ -849,7 +875,8 @@ void filter_all_oi_inspol(const oi_fits *pInput, const oi_filter_spec *pFilter,
     for (i = 0; i < pInTab->numrec; i++)
     {
       nchan[i] = 0;
-      useWave = g_hash_table_lookup(useWaveHash, pInTab->record[i].insname);
+      useWave = get_use_wave(pInput, useWaveHash, pInTab->record[i].insname,
+                             pInTab->nwave);
       for (j = 0; useWave != NULL && j < pInTab->nwave; j++)
         if (useWave[j]) ++nchan[i];
     }
@@ -1010,7 +1037,8 @@ void filter_all_oi_vis(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
-    useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
+    useWave =
+        get_use_wave(pInput, useWaveHash, pInTab->insname, pInTab->nwave);
     if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_vis));
@@ -1252,7 +1280,8 @@ void filter_all_oi_vis2(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
-    useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
+    useWave =
+        get_use_wave(pInput, useWaveHash, pInTab->insname, pInTab->nwave);
     if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_vis2));
@@ -1443,7 +1472,8 @@ void filter_all_oi_t3(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
-    useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
+    useWave =
+        get_use_wave(pInput, useWaveHash, pInTab->insname, pInTab->nwave);
     if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_t3));
@@ -1703,7 +1733,8 @@ void filter_all_oi_flux(const oi_fits *pInput, const oi_filter_spec *pFilter,
     if (!ACCEPT_ARRNAME(pInTab, pFilter)) continue;
     if (!ACCEPT_CORRNAME(pInTab, pFilter)) continue;
 
-    useWave = g_hash_table_lookup(useWaveHash, pInTab->insname);
+    useWave =
+        get_use_wave(pInput, useWaveHash, pInTab->insname, pInTab->nwave);
     if (useWave != NULL)
     {
       pOutTab = chkmalloc(sizeof(oi_flux));
-- 
2.43.0


From 9650cdb9dcb4e98e3621cc3684227f02f3b03260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:35 +0000
Subject: [PATCH 23/33] fix: do not ignore a missing mandatory column when
 optional columns are absent

---
 src/oifitslib/read_fits.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 7d6fe7b..26dc56b 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -1146,6 +1146,7 @@ static STATUS read_oi_vis_opt(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                     &pVis->record[irow - 1].corrindx_visphi, &anynull, pStatus);
     }
   }
+  if (*pStatus) return *pStatus; /* don't ignore missing column */
   fits_write_errmark();
   fits_get_colnum(fptr, CASEINSEN, "VISREFMAP", &colnum, pStatus);
   if (*pStatus == COL_NOT_FOUND)
@@ -1610,6 +1611,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
     fits_read_col(fptr, TLOGICAL, colnum, irow, 1, pFlux->nwave, NULL,
                   pFlux->record[irow - 1].flag, &anynull, pStatus);
     /* read optional columns */
+    if (*pStatus) break; /* don't ignore missing column */
     fits_write_errmark();
     fits_get_colnum(fptr, CASEINSEN, "STA_INDEX", &colnum, pStatus);
     if (*pStatus == COL_NOT_FOUND)
-- 
2.43.0


From 7d211bddca94887805136166b4250ee61d616718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 24/33] fix: free storage of a table that is skipped because it
 could not be read

---
 src/oifitslib/read_fits.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index 26dc56b..b39c2c0 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -573,6 +573,7 @@ static STATUS read_oi_corr_chdu(fitsfile *fptr, oi_corr *pCorr,
   fits_get_colnum(fptr, CASEINSEN, "CORR", &colnum, pStatus);
   fits_read_col(fptr, TDOUBLE, colnum, 1, 1, pCorr->ncorr, NULL, pCorr->corr,
                 &anynull, pStatus);
+  if (*pStatus) free_oi_corr(pCorr);
   return *pStatus;
 }
 
@@ -651,6 +652,7 @@ static STATUS read_oi_inspol_chdu(fitsfile *fptr, oi_inspol *pInspol,
     fits_read_col(fptr, TINT, colnum, irow, 1, 1, NULL,
                   &pInspol->record[irow - 1].sta_index, &anynull, pStatus);
   }
+  if (*pStatus) free_oi_inspol(pInspol);
   return *pStatus;
 }
 
@@ -1268,6 +1270,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
                   pVis->record[irow - 1].flag, &anynull, pStatus);
   }
   read_oi_vis_opt(fptr, pVis, pStatus);
+  if (*pStatus) free_oi_vis(pVis);
 
 except:
   if (*pStatus && !oi_hush_errors)
@@ -1382,6 +1385,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_vis2(pVis2);
 
 except:
   if (*pStatus && !oi_hush_errors)
@@ -1512,6 +1516,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
                     &pT3->record[irow - 1].corrindx_t3phi, &anynull, pStatus);
     }
   }
+  if (*pStatus) free_oi_t3(pT3);
 
 except:
   if (*pStatus && !oi_hush_errors)
@@ -1633,6 +1638,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
                     pStatus);
     }
   }
+  if (*pStatus) free_oi_flux(pFlux);
 
 except:
   if (*pStatus && !oi_hush_errors)
-- 
2.43.0


From 7ae3d7930e244fb1de2b7d4abaae4507c955f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 25/33] fix: file cut short inside a table was read as if it
 had no more tables

---
 src/oifitslib/read_fits.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/oifitslib/read_fits.c b/src/oifitslib/read_fits.c
index b39c2c0..7f0ed7d 100644
--- a/src/oifitslib/read_fits.c
+++ b/src/oifitslib/read_fits.c
@@ -268,6 +268,16 @@ static STATUS verify_chksum(fitsfile *fptr, STATUS *pStatus)
   return *pStatus;
 }
 
+/**
+ * Treat end of file within a table as a read error.
+ *
+ * END_OF_FILE is reserved for there being no more tables to read.
+ */
+static void check_truncated(STATUS *pStatus)
+{
+  if (*pStatus == END_OF_FILE) *pStatus = READ_ERROR;
+}
+
 /**
  * Move to next binary table HDU with specified EXTNAME.
  *
@@ -879,6 +889,7 @@ STATUS read_next_oi_array(fitsfile *fptr, oi_array *pArray, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_array_chdu(fptr, pArray, NULL, pStatus);
 
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -939,6 +950,7 @@ STATUS read_next_oi_wavelength(fitsfile *fptr, oi_wavelength *pWave,
   verify_chksum(fptr, pStatus);
   read_oi_wavelength_chdu(fptr, pWave, NULL, pStatus);
 
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -998,6 +1010,7 @@ STATUS read_next_oi_corr(fitsfile *fptr, oi_corr *pCorr, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_corr_chdu(fptr, pCorr, NULL, pStatus);
 
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1027,6 +1040,7 @@ STATUS read_next_oi_inspol(fitsfile *fptr, oi_inspol *pInspol, STATUS *pStatus)
   verify_chksum(fptr, pStatus);
   read_oi_inspol_chdu(fptr, pInspol, pStatus);
 
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1273,6 +1287,7 @@ STATUS read_next_oi_vis(fitsfile *fptr, oi_vis *pVis, STATUS *pStatus)
   if (*pStatus) free_oi_vis(pVis);
 
 except:
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1388,6 +1403,7 @@ STATUS read_next_oi_vis2(fitsfile *fptr, oi_vis2 *pVis2, STATUS *pStatus)
   if (*pStatus) free_oi_vis2(pVis2);
 
 except:
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "FITSIO error in %s:\n", function);
@@ -1519,6 +1535,7 @@ STATUS read_next_oi_t3(fitsfile *fptr, oi_t3 *pT3, STATUS *pStatus)
   if (*pStatus) free_oi_t3(pT3);
 
 except:
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
@@ -1641,6 +1658,7 @@ STATUS read_next_oi_flux(fitsfile *fptr, oi_flux *pFlux, STATUS *pStatus)
   if (*pStatus) free_oi_flux(pFlux);
 
 except:
+  check_truncated(pStatus);
   if (*pStatus && !oi_hush_errors)
   {
     fprintf(stderr, "CFITSIO error in %s:\n", function);
-- 
2.43.0


From 1e557d56bef210e92cc8fe3008361eddb7db6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 26/33] fix: header keywords went to a second HDU when the
 client had created the primary one

---
 src/oifitslib/write_fits.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/write_fits.c b/src/oifitslib/write_fits.c
index bdd8cb4..371a1b9 100644
--- a/src/oifitslib/write_fits.c
+++ b/src/oifitslib/write_fits.c
@@ -100,13 +100,16 @@ void free_tform(char **tform, int n)
 STATUS write_oi_header(fitsfile *fptr, oi_header header, STATUS *pStatus)
 {
   const char function[] = "write_oi_header";
-  int nhdu;
+  int nhdu, nkey;
 
   if (*pStatus) return *pStatus; /* error flag set - do nothing */
 
   /* Move to primary HDU */
   fits_get_num_hdus(fptr, &nhdu, pStatus);
-  if (nhdu == 0)
+  nkey = 0;
+  if (nhdu == 0) /* an HDU that was only just created is not counted */
+    fits_get_hdrspace(fptr, &nkey, NULL, pStatus);
+  if (nhdu == 0 && nkey == 0)
   {
     /* primary HDU doesn't exist, so create it */
     fits_create_img(fptr, 16, 0, NULL, pStatus);
-- 
2.43.0


From 8ca35dd3bce78ff6892adb4772aad46f9b622bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 27/33] fix: read_oi_fits lost all tables of a kind if going
 back to the start of the file failed

---
 src/oifitslib/oifile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oifitslib/oifile.c b/src/oifitslib/oifile.c
index 69bffaf..eeec2b4 100644
--- a/src/oifitslib/oifile.c
+++ b/src/oifitslib/oifile.c
@@ -830,6 +830,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numCorr = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pCorr = chkmalloc(sizeof(oi_corr));
@@ -856,6 +857,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numInspol = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pInspol = chkmalloc(sizeof(oi_inspol));
@@ -881,6 +883,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numVis = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pVis = chkmalloc(sizeof(oi_vis));
@@ -921,6 +924,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numVis2 = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pVis2 = chkmalloc(sizeof(oi_vis2));
@@ -961,6 +965,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numT3 = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pT3 = chkmalloc(sizeof(oi_t3));
@@ -1001,6 +1006,7 @@ STATUS read_oi_fits(const char *filename, oi_fits *pOi, STATUS *pStatus)
   pOi->numFlux = 0;
   badHdu = 0;
   fits_movabs_hdu(fptr, 1, &hdutype, pStatus); /* back to start */
+  if (*pStatus) goto except;
   while (TRUE)
   {
     pFlux = chkmalloc(sizeof(oi_flux));
-- 
2.43.0


From 301faab86d89345bd8ee9225b6f4926a25eb83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 28/33] fix: oitable-demo lost the start of the keyword after
 an omitted optional one

fscanf() consumes the characters that match before a mismatch: with phityp
(or amptyp) omitted, phiorder (amporder) was cut short, and with fov
omitted so was fovtype, and everything after that was read wrongly.
---
 src/oifitslib/oitable-demo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index d279b76..8d6bc44 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -31,8 +31,11 @@
 
 static bool scan_opt_string(FILE *fp, const char *format, char *dest)
 {
+  long pos = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    fseek(fp, pos, SEEK_SET); /* part of another keyword may have matched */
     dest[0] = '\0';
     printf("Optional %s not specified - set to \"\"\n", format);
     return FALSE;
@@ -42,8 +45,11 @@ static bool scan_opt_string(FILE *fp, const char *format, char *dest)
 
 static bool scan_opt_int(FILE *fp, const char *format, int *dest, int nullval)
 {
+  long pos = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    fseek(fp, pos, SEEK_SET); /* part of another keyword may have matched */
     *dest = nullval;
     printf("Optional %s not specified - set to %d\n", format, nullval);
     return FALSE;
@@ -54,8 +60,11 @@ static bool scan_opt_int(FILE *fp, const char *format, int *dest, int nullval)
 static bool scan_opt_double(FILE *fp, const char *format, double *dest,
                             double nullval)
 {
+  long pos = ftell(fp);
+
   if (fscanf(fp, format, dest) < 1)
   {
+    fseek(fp, pos, SEEK_SET); /* part of another keyword may have matched */
     *dest = nullval;
     printf("Optional %s not specified - set to %lf\n", format, nullval);
     return FALSE;
-- 
2.43.0


From d2950081abd5486fe7cc6667fbc523504429562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 29/33] fix: oitable-demo listed the CORRNAME of the last
 OI_VIS table with OI_VIS2 tables

---
 src/oifitslib/oitable-demo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 8d6bc44..e168680 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -550,7 +550,7 @@ void demo_read(void)
   {
     if (read_next_oi_vis2(fptr, &vis2, &status)) break; /* no more OI_VIS2 */
     printf("Read OI_VIS2     with  ARRNAME=%s INSNAME=%s CORRNAME=%s\n",
-           vis2.arrname, vis2.insname, vis.corrname);
+           vis2.arrname, vis2.insname, vis2.corrname);
     if (strlen(vis2.arrname) > 0)
     {
       /* if ARRNAME specified, read corresponding OI_ARRAY */
-- 
2.43.0


From fc68efae71cb028d0091c5e1082c4b2bfeb527fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 30/33] fix: oitable-demo crashed if the text file could not be
 opened

---
 src/oifitslib/oitable-demo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index e168680..c6ca5a8 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -100,6 +100,11 @@ void demo_write(void)
   filename[strlen(filename) - 1] = '\0'; /* zap newline */
 
   fp = fopen(filename, "r");
+  if (fp == NULL)
+  {
+    perror(filename);
+    exit(EXIT_FAILURE);
+  }
 
   /* Read info for OI_ARRAY table */
   fscanf(fp, "OI_ARRAY arrname %70s ", array.arrname);
-- 
2.43.0


From eb3488fff6aac6086b63bb2c7f9e0286fef944e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:24 +0000
Subject: [PATCH 31/33] fix: oitable-demo ignored a failure to close the file
 it had written

---
 src/oifitslib/oitable-demo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index c6ca5a8..5cd486c 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -457,6 +457,11 @@ void demo_write(void)
   else
   {
     fits_close_file(fptr, &status);
+    if (status)
+    {
+      fits_report_error(stderr, status);
+      exit(EXIT_FAILURE);
+    }
   }
 
   /* Free storage */
-- 
2.43.0


From f38eddd21d58a0c739dbbe20fd3f9d84f9a2878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 32/33] fix: oitable-demo did not list OI_VIS tables that
 precede OI_TARGET in the file

---
 src/oifitslib/oitable-demo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index 5cd486c..db246ac 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -523,6 +523,7 @@ void demo_read(void)
 
   /* Read all OI_VIS tables & corresponding
      OI_ARRAY/OI_CORR/OI_WAVELENGTH tables */
+  fits_movabs_hdu(fptr, 1, &hdutype, &status); /* back to start */
   while (TRUE)
   {
     if (read_next_oi_vis(fptr, &vis, &status)) break; /* no more OI_VIS */
-- 
2.43.0


From cca2dfd5dcfbbb36a8f3f79f235ce3fcbd216acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:56 +0000
Subject: [PATCH 33/33] fix: oitable-demo did not notice that the file it wrote
 was not stored completely

CFITSIO ignores errors from flushing data to disk, so check the result as
write_oi_fits() does.
---
 src/oifitslib/oitable-demo.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/oifitslib/oitable-demo.c b/src/oifitslib/oitable-demo.c
index db246ac..6b15681 100644
--- a/src/oifitslib/oitable-demo.c
+++ b/src/oifitslib/oitable-demo.c
@@ -72,6 +72,26 @@ static bool scan_opt_double(FILE *fp, const char *format, double *dest,
   return TRUE;
 }
 
+/**
+ * Verify that file just written is complete and has correct checksums.
+ *
+ * CFITSIO ignores errors from flushing data to disk.
+ */
+static void verify_file(const char *filename, int nhdu, int *pStatus)
+{
+  fitsfile *fptr = NULL;
+  int ihdu, dataok, hduok;
+
+  fits_open_diskfile(&fptr, filename, READONLY, pStatus);
+  for (ihdu = 1; !*pStatus && ihdu <= nhdu; ihdu++)
+  {
+    fits_movabs_hdu(fptr, ihdu, NULL, pStatus);
+    fits_verify_chksum(fptr, &dataok, &hduok, pStatus);
+    if (!*pStatus && (dataok != 1 || hduok != 1)) *pStatus = WRITE_ERROR;
+  }
+  if (fptr) fits_close_file(fptr, pStatus);
+}
+
 /**
  * Read data from a user-specified text file and write out in OIFITS format.
  */
@@ -87,9 +107,9 @@ void demo_write(void)
   oi_vis2 vis2;
   oi_t3 t3;
   oi_flux flux;
-  char filename[FLEN_FILENAME];
+  char filename[FLEN_FILENAME], urltype[FLEN_FILENAME], name[FLEN_FILENAME];
   FILE *fp;
-  int i, irec, iwave, itarg, status, nrows;
+  int i, irec, iwave, itarg, status, nrows, nhdu;
   long numrec;
   float real, imag;
   fitsfile *fptr;
@@ -456,7 +476,12 @@ void demo_write(void)
   }
   else
   {
+    fits_url_type(fptr, urltype, &status);
+    fits_file_name(fptr, name, &status);
+    fits_get_hdu_num(fptr, &nhdu);
     fits_close_file(fptr, &status);
+    if (!status && strcmp(urltype, "file://") == 0)
+      verify_file(name, nhdu, &status);
     if (status)
     {
       fits_report_error(stderr, status);
-- 
2.43.0

