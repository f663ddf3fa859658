From f63a96ff457c0b11f19f1caa559bfdb14eeacf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 01/75] fix: mppnccombine -r removes only the input files that
 were combined

Without -e the removal loop ran one past the last file of the set, and with -e
it removed files of the range beyond the complete set, which had not been
combined.
---
 src/mpp-nccombine/mppnccombine.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 240521a..eef23ee 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -257,6 +257,7 @@ main (int argc, char *argv[])
   unsigned char removein = 0; /* Remove the ".####" decomposed input files? */
   int nstart = 0;             /* PE number of the first input netCDF file */
   int nend = (-1);            /* PE number of the last input netCDF file */
+  int nlast = (-1);           /* PE number of the last input file combined */
   int force = 0;         /* Allows combining of incomplete input file set */
   int headerpad = 16384; /* Additional padding at the end of the header */
   int format = NC_NOCLOBBER; /* Format of new netCDF output file */
@@ -533,6 +534,7 @@ main (int argc, char *argv[])
                 if (infileerror)
                   infileerrors = 1;
                 appendnc = 1;
+                nlast = a;
                 f++;
                 if (f == nfiles || a == nend)
                   {
@@ -631,6 +633,7 @@ main (int argc, char *argv[])
                   if (a == nstart && nfiles > 0)
                     nend = nstart + nfiles;
                   appendnc = 1;
+                  nlast = a;
                   f++;
                   if (f == nfiles || a == (nend - 1))
                     {
@@ -745,7 +748,8 @@ main (int argc, char *argv[])
           if (inputarg == (-1))
             {
               f = 0;
-              for (a = nstart; a <= nend; a++)
+              /* only the files that were combined */
+              for (a = nstart; a <= nlast; a++)
                 {
                   // commenting line below, as it's a bug
                   // occasionally nfiles may be wrongly set to zero,
-- 
2.43.0


From 9d9281bd274fa98a7fdf4f9621b299dc4f2eaafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 02/75] fix: mppnccombine combines the unsigned and 64-bit
 integer types

Decomposed variables of these netCDF-4/CDF-5 types were silently written as
zeros with exit status 0.
---
 src/mpp-nccombine/mppnccombine.c | 38 ++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index eef23ee..28e1ad7 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1534,16 +1534,19 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                   {
                   case NC_BYTE:
                   case NC_CHAR:
+                  case NC_UBYTE:
                     for (s = 0; s < recfullsize; s++)
                       *((unsigned char *)(varbuf[(r % (*bf))][v]) + s)
                           = *((unsigned char *)(ncoutfile->varmissval[v]));
                     break;
                   case NC_SHORT:
+                  case NC_USHORT:
                     for (s = 0; s < recfullsize; s++)
                       *((short *)(varbuf[(r % (*bf))][v]) + s)
                           = *((short *)(ncoutfile->varmissval[v]));
                     break;
                   case NC_INT:
+                  case NC_UINT:
                     for (s = 0; s < recfullsize; s++)
                       *((int *)(varbuf[(r % (*bf))][v]) + s)
                           = *((int *)(ncoutfile->varmissval[v]));
@@ -1558,6 +1561,12 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                       *((double *)(varbuf[(r % (*bf))][v]) + s)
                           = *((double *)(ncoutfile->varmissval[v]));
                     break;
+                  case NC_INT64:
+                  case NC_UINT64:
+                    for (s = 0; s < recfullsize; s++)
+                      *((long long *)(varbuf[(r % (*bf))][v]) + s)
+                          = *((long long *)(ncoutfile->varmissval[v]));
+                    break;
                   }
             }
           if (varbuf[(r % (*bf))][v] == NULL)
@@ -1678,6 +1687,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
             {
             case NC_BYTE:
             case NC_CHAR:
+            case NC_UBYTE:
               if (verbose > 1)
                 printf ("      start copying byte/char\n");
               b = 0;
@@ -1696,6 +1706,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                 printf ("      end copying byte/char\n");
               break;
             case NC_SHORT:
+            case NC_USHORT:
               if (verbose > 1)
                 printf ("      start copying short\n");
               b = 0;
@@ -1714,6 +1725,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                 printf ("      end copying short\n");
               break;
             case NC_INT:
+            case NC_UINT:
               if (verbose > 1)
                 printf ("      start copying int\n");
               b = 0;
@@ -1767,6 +1779,32 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
               if (verbose > 1)
                 printf ("      end copying double\n");
               break;
+            case NC_INT64:
+            case NC_UINT64:
+              if (verbose > 1)
+                printf ("      start copying int64\n");
+              b = 0;
+              for (l = 0; l < lmax; l++)
+                for (k = 0; k < kmax; k++)
+                  for (j = 0; j < jmax; j++)
+                    for (i = 0; i < imax; i++)
+                      {
+                        offset = (i + ioffset) + (j + joffset) * imaxfull
+                                 + (k + koffset) * imaxjmaxfull
+                                 + (l + loffset) * imaxjmaxkmaxfull;
+                        *((long long *)(varbuf[(r % (*bf))][v]) + offset)
+                            = *((long long *)values + (b++));
+                      }
+              if (verbose > 1)
+                printf ("      end copying int64\n");
+              break;
+            default:
+              fprintf (stderr,
+                       "Error: variable \"%s\" has an unsupported data "
+                       "type!\n",
+                       ncinfile->varname[v]);
+              free (values);
+              return (1);
             }
         }
 
-- 
2.43.0


From 4dbda83586d719127e59b86c27791589e6219504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 03/75] fix: mppnccombine handles an empty record dimension

With zero records the blocking factor became 0 and the tool divided by it, or
gave up reading the record variables, losing the non-record ones.
---
 src/mpp-nccombine/mppnccombine.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 28e1ad7..4754099 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1290,6 +1290,7 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
   long long recfullsize; /* Non-decomposed size of one record of a variable */
   int varrecdim;         /* Variable's record dimension */
   static unsigned char first = 1; /* First time reading variables? */
+  static int firstrecs = (-1);    /* Number of records in the first file */
   int imax, jmax, kmax, lmax;
   long long int imaxfull, jmaxfull, kmaxfull, lmaxfull;
   long long int imaxjmaxfull, imaxjmaxkmaxfull;
@@ -1303,6 +1304,19 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
     recdimsize = 1;
   else
     recdimsize = ncinfile->dimsize[ncinfile->recdim];
+  if (firstrecs == (-1))
+    firstrecs = recdimsize;
+  if (recdimsize != firstrecs)
+    {
+      fprintf (
+          stderr,
+          "Error: different number of records than the first input file!\n");
+      return (1);
+    }
+  /* Without any records there still are the non-record variables: go through
+     them as the first record; the record variables are skipped below */
+  if (recdimsize < 1)
+    recdimsize = 1;
 
   /* Check the number of records */
   if (*nrecs == 1)
@@ -1428,6 +1442,10 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                     instart[d], outstart[d], count[d]);
         }
 
+      /* There is nothing to read when the file has no records */
+      if (varrecdim != (-1) && ncinfile->dimsize[ncinfile->recdim] < 1)
+        continue;
+
       /* Prevent unnecessary reads/writes */
       if (r > 0)
         {
@@ -1859,6 +1877,9 @@ flush_decomp (struct fileinfo *ncoutfile, int nfiles, int r, int bf,
         outstart[varrecdim] = r;
       if (varrecdim == (-1) && r > 0)
         continue;
+      /* Record variables have no buffer when there are no records */
+      if (varrecdim != (-1) && varbuf[(r % bf)][v] == NULL)
+        continue;
       if (verbose > 1)
         printf ("      writing to disk\n");
       if (ncvarput (ncoutfile->ncfid, v, outstart, count, varbuf[(r % bf)][v])
-- 
2.43.0


From 958f52c8479f95221424cdf93bf890e9d21527bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:41 +0000
Subject: [PATCH 04/75] fix: mppnccombine -e skips the numbers before the first
 file in every block

With more than one block of records, a range starting before the first
existing file was accepted in the first block and rejected in the second.
---
 src/mpp-nccombine/mppnccombine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 4754099..ddb42df 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -481,6 +481,7 @@ main (int argc, char *argv[])
             if (verbose)
               printf ("block = %d\n", block);
             f = 0;
+            peWidth = -1; /* every block starts at the same first file */
             for (a = nstart; a <= nend; a++)
               {
                 if (peWidth < 0)
-- 
2.43.0


From 68acf811bb957fd80ddddb41e2d76f529bbe3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 05/75] fix: mppncscatter -p no longer overwrites the -s start
 index

---
 src/mpp-ncscatter/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/opt.c b/src/mpp-ncscatter/opt.c
index 8d165b2..d658d42 100644
--- a/src/mpp-ncscatter/opt.c
+++ b/src/mpp-ncscatter/opt.c
@@ -126,6 +126,7 @@ int getmnsopts(int argc, char** argv, mnsopts* popts)
         len = strlen(optarg);
         popts->prefix = (char*)malloc(len+1);
         strcpy(popts->prefix, optarg);
+				break;
 
 			case 's':
 				popts->start = atoi(optarg);
-- 
2.43.0


From 02ffe2d90f85138476aab85779abb1092b2145b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 06/75] fix: mppncscatter axis detection does not reuse the
 previous dimension's units

---
 src/mpp-ncscatter/mppncscatter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 0ad2aa8..455fbd4 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -299,6 +299,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
      Coordvar is x/y based on metadata, and shares dim name. */
   for(dimid=0; dimid < ndims; ++dimid) {
     scatter_type = NOSCATTER;
+    foundunits = 0;
     dimlen = 0;
     ndiv = 0;
 
@@ -343,6 +344,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable units attribute isn't char type for variable %s.  Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
       }
+      memset(att, 0, sizeof(att));
       status = nc_get_att_text(nc, varid, "units", att);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load units attribute for variable %s. Checking for \"cartesian_axis\" instead.\n", name);
@@ -380,6 +382,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable \"cartesian_axis\" attribute isn't char type for variable %s.\n", name);
 	exit(-1);
       }
+      memset(att, 0, sizeof(att));
       status = nc_get_att_text(nc, varid, "cartesian_axis", att);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load \"cartesian_axis\" attribute for variable %s.\n", name);
-- 
2.43.0


From b93e9db950b805c3c1a37f470536fdcd989e44a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 07/75] fix: mppncscatter does not treat scalars as record
 variables

---
 src/mpp-ncscatter/mppncscatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 455fbd4..2b5fdad 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1014,7 +1014,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       }
 
       /* Skip nonrecord var. */
-      if ( (dimids[0] != recid) )
+      if ( (ndimvar < 1) || (dimids[0] != recid) )
 	continue;
       ndimvar2 = ndimvar-1;
       if (ndimvar > 1) {
-- 
2.43.0


From ef8664b695272fce02d6d92b7df8d4a310ccf680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 08/75] fix: mppncscatter copies all of a 4-D variable without
 record dimension

---
 src/mpp-ncscatter/mppncscatter.c | 53 ++++----------------------------
 1 file changed, 6 insertions(+), 47 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 2b5fdad..676cbe8 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -213,53 +213,12 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
     }
     break;
   case 4:
-    i0 = start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
-      start[2]*dimlen[dimids[3]] +
-      start[3];
-    stridek = dimlen[dimids[2]]*dimlen[dimids[3]];
-    stridej = dimlen[dimids[3]];
-
-    switch(type) {
-    case NC_BYTE: case NC_CHAR:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(t+offset, ti+i0+k*stridek+j*stridej, count[3]*sizeof(char));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_SHORT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(s+offset, si+i0+k*stridek+j*stridej, count[3]*sizeof(short));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_INT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(i+offset, ii+i0+k*stridek+j*stridej, count[3]*sizeof(int));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_FLOAT:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(f+offset, fi+i0+k*stridek+j*stridej, count[3]*sizeof(float));
-	  offset += count[3];
-	}
-      }
-      break;
-    case NC_DOUBLE:
-      for(k=0; k < count[1]; ++k) {
-	for(j=0; j < count[2]; ++j) {
-	  memcpy(d+offset, di+i0+k*stridek+j*stridej, count[3]*sizeof(double));
-	  offset += count[3];
-	}
-      }
-      break;
+    /* A run of 3-D copies, one for each index of the leading dimension. */
+    i0 = dimlen[dimids[1]]*dimlen[dimids[2]]*dimlen[dimids[3]];
+    offset = count[1]*count[2]*count[3];
+    for(k=0; k < count[0]; ++k) {
+      j = (start[0]+k)*i0;
+      hyperslabcopy(type, dimlen, dimids+1, start+1, count+1, 3, ti+j, si+j, ii+j, fi+j, di+j, t+k*offset, s+k*offset, i+k*offset, f+k*offset, d+k*offset);
     }
     break;
   }
-- 
2.43.0


From 2c9766a2071efd8df2898a65540412e6c5875b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:37 +0000
Subject: [PATCH 09/75] fix: mppncscatter handles byte variables

---
 src/mpp-ncscatter/mppncscatter.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 676cbe8..86c952d 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -790,7 +790,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
     switch(type) {
     case NC_BYTE: case NC_CHAR:
-      status = nc_get_var_text(nc, varid, tp);
+      status = nc_get_var(nc, varid, tp);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	exit(-1);
@@ -870,7 +870,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+            status = nc_put_vara(ncids[i], varid, outstart, count, otp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put var \"%s\" char data into output file %d.\n", varname, i);
               handle_error(status);
@@ -908,7 +908,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
         } else { /* Scalar variable. */
           switch(type) {
           case NC_BYTE: case NC_CHAR:
-            status = nc_put_var_text(ncids[i], varid, tp);
+            status = nc_put_var(ncids[i], varid, tp);
             if (status != NC_NOERR) {
               fprintf(stderr, "Error. Failed to put scalar var \"%s\" text data into output file %d.\n", varname, i);
               exit(-1);
@@ -993,7 +993,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
       switch(type) {
       case NC_BYTE: case NC_CHAR:
-	status = nc_get_vara_text(nc, varid, instart, count, tp);
+	status = nc_get_vara(nc, varid, instart, count, tp);
 	if (status != NC_NOERR) {
 	  fprintf(stderr, "Error. Failed to get var %s char data from input file.\n", varname);
 	  exit(-1);
@@ -1079,7 +1079,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 
 	  switch(type) {
 	  case NC_BYTE: case NC_CHAR:
-	    status = nc_put_vara_text(ncids[i], varid, outstart, count, otp);
+	    status = nc_put_vara(ncids[i], varid, outstart, count, otp);
 	    if (status != NC_NOERR) {
 	      fprintf(stderr, "Error. Failed to put var %s data into output file %d.\n", varname, i);
 	      exit(-1);
-- 
2.43.0


From b010cfab14973ddbca23e5367c35b1d6f82763e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:05 +0000
Subject: [PATCH 10/75] fix: mppncscatter scatters variables with more than
 four dimensions

---
 src/mpp-ncscatter/mppncscatter.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 86c952d..9a3b3f3 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -212,13 +212,17 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
       break;
     }
     break;
-  case 4:
-    /* A run of 3-D copies, one for each index of the leading dimension. */
-    i0 = dimlen[dimids[1]]*dimlen[dimids[2]]*dimlen[dimids[3]];
-    offset = count[1]*count[2]*count[3];
+  default:
+    /* A run of copies of one dimension less, one for each index of the leading dimension. */
+    i0 = 1;
+    offset = 1;
+    for(k=1; k < ndim; ++k) {
+      i0 *= dimlen[dimids[k]];
+      offset *= count[k];
+    }
     for(k=0; k < count[0]; ++k) {
       j = (start[0]+k)*i0;
-      hyperslabcopy(type, dimlen, dimids+1, start+1, count+1, 3, ti+j, si+j, ii+j, fi+j, di+j, t+k*offset, s+k*offset, i+k*offset, f+k*offset, d+k*offset);
+      hyperslabcopy(type, dimlen, dimids+1, start+1, count+1, ndim-1, ti+j, si+j, ii+j, fi+j, di+j, t+k*offset, s+k*offset, i+k*offset, f+k*offset, d+k*offset);
     }
     break;
   }
@@ -669,9 +673,9 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
 {
   int varid, xi, yi, i, j, status, varidnew, natt, ndimvar, recid, reci, dimi;
   size_t dimlen[NC_MAX_DIMS], size;
-  size_t instart[4];
-  size_t outstart[4] = {0,0,0,0};
-  size_t count[4], newlen;
+  size_t instart[NC_MAX_VAR_DIMS] = {0};
+  size_t outstart[NC_MAX_VAR_DIMS] = {0};
+  size_t count[NC_MAX_VAR_DIMS], newlen;
   size_t nrec = 0;
 
   size_t maxsize[5] = {0,0,0,0,0}; /* Array of maxsizes for each datatype. */
@@ -951,7 +955,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
   /* Process recvars. */
   for(reci=0; reci < nrec; ++reci) {
     int  ndimvar2;
-    size_t instart2[4], count2[4];
+    size_t instart2[NC_MAX_VAR_DIMS], count2[NC_MAX_VAR_DIMS];
     int dimids2[NC_MAX_DIMS];
 
     instart[0] = reci;
@@ -959,12 +963,10 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
     count[0] = 1;
 
     for(varid=0; varid < nvars; ++varid) {
-      instart[1] = 0;
-      instart[2] = 0;
-      instart[3] = 0;
-      instart2[0] = 0;
-      instart2[1] = 0;
-      instart2[2] = 0;
+      for(dimi=1; dimi < NC_MAX_VAR_DIMS; ++dimi) {
+	instart[dimi] = 0;
+	instart2[dimi-1] = 0;
+      }
 
       status = nc_inq_var(nc, varid, varname, &type, &ndimvar, dimids, &natt);
       if (status != NC_NOERR) {
-- 
2.43.0


From f2517fbb0382289835384f9f392cee699a026fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:05 +0000
Subject: [PATCH 11/75] fix: mppncscatter fails on variables of a type it
 cannot scatter

---
 src/mpp-ncscatter/mppncscatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 9a3b3f3..3b0a0a3 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -757,7 +757,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       break;
     default:
       fprintf(stderr, "Error. Unknown data type for var %s.\n", varname);
-      break;
+      exit(-1);
     }
   }
 
-- 
2.43.0


From 6597b2d837076350d86ab12538e02c696a9da491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:31 +0000
Subject: [PATCH 12/75] fix: mppncscatter fails when a dimension has fewer
 points than divisions

---
 src/mpp-ncscatter/mppncscatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 3b0a0a3..91258bf 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1211,9 +1211,11 @@ void mpp_compute_extent(size_t isg, size_t ieg, size_t ndivs, size_t* start, siz
 
     if (ie < iss) {
       fprintf(stderr, "Error: %s/%d: domain extents must be positive definite. \"ie\"=%zu, \"iss\"=%zu\n", __FILE__, __LINE__, ie, iss);
+      exit(1);
     }
     if ( (ndiv == (ndivs-1)) && (end[ndiv] != ieg) ) {
       fprintf(stderr, "Error: %s/%d: domain extents do not span space completely.\n", __FILE__, __LINE__);
+      exit(1);
     }
 
     iss = ie + 1;
-- 
2.43.0


From 18fa3dc4965ecbdcf31a8142217e01e5f176f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 13/75] fix: mppnccombine combines variables with more than
 four dimensions besides the record

---
 src/mpp-nccombine/mppnccombine.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index ddb42df..d3a928a 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1660,6 +1660,25 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
             }
           else
             lmaxfull = 1;
+          /* Further leading dimensions are counted with the fourth last one, */
+          /* which is possible as long as none of these is decomposed */
+          for (d = 0; d < ncinfile->varndims[v] - 4; d++)
+            {
+              dimid = ncinfile->vardim[v][d];
+              if (dimid == ncinfile->recdim)
+                continue;
+              if (ncinfile->dimsize[dimid] != ncinfile->dimfullsize[dimid]
+                  || lmax != lmaxfull)
+                {
+                  fprintf (stderr,
+                           "Error: cannot combine variable \"%s\" with so many "
+                           "dimensions!\n",
+                           ncinfile->varname[v]);
+                  return (1);
+                }
+              lmax *= ncinfile->dimsize[dimid];
+              lmaxfull *= ncinfile->dimfullsize[dimid];
+            }
           if (verbose > 1)
             printf ("      imaxfull=%lld  jmaxfull=%lld  kmaxfull=%lld  "
                     "lmaxfull=%lld\n",
-- 
2.43.0


From d1f01e6822e77b0deb2c055f5904a845e1945964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:39 +0000
Subject: [PATCH 14/75] fix: decompress-ncc: fill value of short and byte
 variables without missing_value

The value put into cells without data (and into missing_value with -m) was
whatever the previous variable had left behind, or undefined.
---
 src/land_utils/decompress-ncc.F90 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/land_utils/decompress-ncc.F90 b/src/land_utils/decompress-ncc.F90
index 95c526f..b5ab550 100644
--- a/src/land_utils/decompress-ncc.F90
+++ b/src/land_utils/decompress-ncc.F90
@@ -137,6 +137,10 @@ program decompress
               missing = NF_FILL_FLOAT
            case(NF_INT)
               missing = NF_FILL_INT
+           case(NF_SHORT)
+              missing = NF_FILL_SHORT
+           case(NF_BYTE)
+              missing = NF_FILL_BYTE
            end select
            ! and add it to the output variable
            CHECK_NF_ERRSTAT(nf_put_att_double(ncid,varid1,'missing_value',xtype,1,missing))
@@ -196,6 +200,10 @@ program decompress
            missing = NF_FILL_FLOAT
         case(NF_INT)
            missing = NF_FILL_INT
+        case(NF_SHORT)
+           missing = NF_FILL_SHORT
+        case(NF_BYTE)
+           missing = NF_FILL_BYTE
         end select
      endif
      ! fill the buffer with the missing value
-- 
2.43.0


From 77517978667ee51a45cea44e3b14de4654934428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:02 +0000
Subject: [PATCH 15/75] fix: decompress-ncc: ocean_fillvalue overwrote the data
 of all but the last input file

---
 lib/libnfu/nfu_compress.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/libnfu/nfu_compress.F90 b/lib/libnfu/nfu_compress.F90
index 4d05980..871cdff 100644
--- a/lib/libnfu/nfu_compress.F90
+++ b/lib/libnfu/nfu_compress.F90
@@ -200,6 +200,9 @@ function nfu_get_compressed_var_r8(ncid,varid,data,mask,start,count,ocean,ocean_
   if (isOcean) then
      do i=1,size(ocean_index)
           if (ocean_index(i) .eq. 0) then
+             if (present(mask)) then
+                if (mask(i)) cycle ! value was given by another file
+             endif
              data(i)=ocean_value
           endif
      enddo
-- 
2.43.0


From 55d11db2bf4161f758231b5e3d8e292a0363d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 16/75] fix: combine_restarts -n removed existing combined
 files

---
 src/combine-restarts/combine_restarts.in | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index 5e63acb..e47ea47 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -186,7 +186,12 @@ do
             if [ -e ${f} ]
             then
                 # Remove exising output file
-                \rm -f ${f}
+                if [ $dryrun -gt 0 ]
+                then
+                    echo rm -f ${f}
+                else
+                    \rm -f ${f}
+                fi
             fi
             mppnccombine_cmd="mppnccombine $mppCombOpts ${f} ${inputFiles}"
             if [ ${verbose} -gt 1 ]
-- 
2.43.0


From b64a7eaf2d1e4cb6f5ce1b8493c56f1113c077b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:32 +0000
Subject: [PATCH 17/75] fix: combine_restarts took dots in a file name as
 wildcards

Pieces of another file (a_res.nc.0000 for a.res.nc) were combined, and with -r
removed, together with those of the file.
---
 src/combine-restarts/combine_restarts.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combine-restarts/combine_restarts.in b/src/combine-restarts/combine_restarts.in
index e47ea47..d2dd0f5 100755
--- a/src/combine-restarts/combine_restarts.in
+++ b/src/combine-restarts/combine_restarts.in
@@ -119,7 +119,9 @@ do
     then
         echoerr "debug1: processing for combined file '${f}'"
     fi
-    inputFiles=$( ls -1 | @EGREP@ "^${f}${patternGrepTail}" | xargs )
+    # the file name is not a pattern, escape what grep would interpret
+    fPattern=$( echo "${f}" | @SED@ -e 's/[][().*+?^${}|\\]/\\&/g' )
+    inputFiles=$( ls -1 | @EGREP@ "^${fPattern}${patternGrepTail}" | xargs )
     if [ $( echo ${inputFiles} | wc -w ) -gt 0 ]
     then
         # Check if file is a compressed file
-- 
2.43.0


From e88248801f6fc49bc08d42317d1cfdeb712f7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 18/75] fix: list_ncvars read outside of dimids for scalars and
 of the name for short names

---
 src/list-ncvars/list_ncvars.f90 | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.f90 b/src/list-ncvars/list_ncvars.f90
index e68fefd..df8822d 100644
--- a/src/list-ncvars/list_ncvars.f90
+++ b/src/list-ncvars/list_ncvars.f90
@@ -73,14 +73,21 @@ program list_ncvars
 
       !--- skip names ending in _T1, _T2, _DT  ---
       nc = len_trim(name)
-      if (name(nc-2:nc) == '_T1' .or. name(nc-2:nc) == '_T2' .or. &
-         name(nc-2:nc) == '_DT' .or. name(nc-6:nc) == '_NITEMS') cycle
+      if (nc >= 3) then
+         if (name(nc-2:nc) == '_T1' .or. name(nc-2:nc) == '_T2' .or. &
+            name(nc-2:nc) == '_DT') cycle
+      endif
+      if (nc >= 7) then
+         if (name(nc-6:nc) == '_NITEMS') cycle
+      endif
 
       !--- is there a record dimension ---
       static = .true.
-      if (dimids(ndim) == recdim) then
-         static = .false.
-         ndim = ndim-1
+      if (ndim > 0) then
+         if (dimids(ndim) == recdim) then
+            static = .false.
+            ndim = ndim-1
+         endif
       endif
 
       if (.not.list_nonstatic .and. .not.static) cycle
-- 
2.43.0


From e858ddbb2be73d2def7ad66c28ce13cbaaf8fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 19/75] fix: list_ncvars.sh: misspelled tests let a request
 without -s/-t or without -0..-4 pass; -V

---
 src/list-ncvars/list_ncvars.sh.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/list-ncvars/list_ncvars.sh.in b/src/list-ncvars/list_ncvars.sh.in
index 8494262..2d99199 100644
--- a/src/list-ncvars/list_ncvars.sh.in
+++ b/src/list-ncvars/list_ncvars.sh.in
@@ -95,7 +95,7 @@ do
             exit 0
             ;;
         V)
-            $pgk_libexec_dir/print_version $script_name
+            $pkg_libexec_dir/print_version $script_name
             exit 0
             ;;
         \?)
@@ -124,14 +124,14 @@ do
 done
 
 # Check that the user requested something
-if [ $static = ".false" -a $nonstatic = ".false." ]
+if [ $static = ".false." -a $nonstatic = ".false." ]
 then
     echoerr "${script_name}: Must request at least one of -s or -t"
     exit 1
 fi
 if [ $var0d = ".false." -a $var1d = ".false." \
-     -a $var2d = ".false" -a $var3d = ".false." \
-     -a $var4d = ".false" ]
+     -a $var2d = ".false." -a $var3d = ".false." \
+     -a $var4d = ".false." ]
 then
     echoerr "${script_name}: Must request at least one -0, -1, -2, -3 or -4"
     exit 1
-- 
2.43.0


From aa6a7ff617c9bc98eb672d68a886fde723653cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:51 +0000
Subject: [PATCH 20/75] fix: list_ncvars.sh exited 0 when a file could not be
 read

---
 src/list-ncvars/list_ncvars.sh.in | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/list-ncvars/list_ncvars.sh.in b/src/list-ncvars/list_ncvars.sh.in
index 2d99199..901f813 100644
--- a/src/list-ncvars/list_ncvars.sh.in
+++ b/src/list-ncvars/list_ncvars.sh.in
@@ -141,6 +141,7 @@ fi
 nml_name=$(mktemp nml.XXXXXX)
 
 # loop thru netcdf files
+status=0
 for file in $*
 do
     cat > $nml_name << EOF
@@ -157,8 +158,9 @@ do
 EOF
 
     # run the Fortran application
-    $pkg_libexec_dir/list_ncvars < $nml_name
+    $pkg_libexec_dir/list_ncvars < $nml_name || status=1
 done
 
 # clean up
 rm -f $nml_name
+exit $status
-- 
2.43.0


From 28b13d5e0ddda9b0b1e027d7595e4282da6cb6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:59 +0000
Subject: [PATCH 21/75] fix: split_ncvars --cmip: calendar taken from
 calendar_type was empty

---
 src/split_ncvars/split_ncvars.pl.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index 3765783..e1b6f6d 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -842,7 +842,7 @@ sub cleanup_dim_atts {
         push @opts, "-a calendar,$dim,m,c,\"$calc\"" if ( $cal ne $calc );
     }
     elsif ($calt) {
-        my $calc = lc($cal);
+        my $calc = lc($calt);
         push @opts, "-a calendar,$dim,c,c,\"$calc\"";
     }
     push @opts, "-a calendar_type,$dim,d,," if $calt;
-- 
2.43.0


From 2ec4836683ee8493c5039389fb511e7e81644b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:05 +0000
Subject: [PATCH 22/75] fix: split_ncvars --cmip lost all attribute changes
 when a dimension has no variable or is renamed

---
 src/split_ncvars/split_ncvars.pl.in | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index e1b6f6d..c639006 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -458,10 +458,12 @@ foreach my $file (@ifiles) {
                     # rename vertical dimensions (plev## -> plev, levhalf -> lev)
                     foreach my $dim ( get_vertical_dimensions( $vdump, $var ) ) {
                         if ( $dim =~ /^plev\d+/ ) {
+                            s/^(-a \w+),$dim,/$1,plev,/ for @ncatted_opts;
                             print "ncrename -h -d $dim,plev -v $dim,plev $tmp_var_filename\n";
                             system("ncrename -h -d $dim,plev -v $dim,plev $tmp_var_filename");
                         }
                         elsif ( $dim eq "levhalf" ) {
+                            s/^(-a \w+),$dim,/$1,lev,/ for @ncatted_opts;
                             print "ncrename -h -d $dim,lev -v $dim,lev $tmp_var_filename\n";
                             system("ncrename -h -d $dim,lev -v $dim,lev $tmp_var_filename");
 
@@ -824,6 +826,9 @@ sub cleanup_dim_atts {
     my $dim  = shift;
     my @opts;
 
+    # a dimension without a variable has no attributes to correct
+    return @opts if ( $dump !~ /\t\w+ $dim\(.+\)/ );
+
     # correct (dimension) attribute "cartesian_axis -> axis"
     my $cart_axis = get_variable_att( $dump, $dim, "cartesian_axis" );
     if ($cart_axis) {
-- 
2.43.0


From d07bea3c2e3c96a1e4203fe3098e0f00624ff4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:05 +0000
Subject: [PATCH 23/75] fix: split_ncvars took the dimensions of a variable
 whose name ends like the requested one

---
 src/split_ncvars/split_ncvars.pl.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/split_ncvars/split_ncvars.pl.in b/src/split_ncvars/split_ncvars.pl.in
index c639006..58da52c 100755
--- a/src/split_ncvars/split_ncvars.pl.in
+++ b/src/split_ncvars/split_ncvars.pl.in
@@ -592,7 +592,7 @@ sub get_variable_dimensions {
     }
 
     # Compare the cartesian coords to those of the variables
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         @var_dims{ split /,\s/, $1 } = ();
         @coords = grep { exists $cartesian_coords{$_} } keys %var_dims;
     }
@@ -607,7 +607,7 @@ sub get_vertical_dimensions {
     my $dump = shift;
     my $var  = shift;
     my @vdims;
-    if ( $dump =~ /\t.*$var\((.+)\)/ ) {
+    if ( $dump =~ /\t\w+ $var\((.+)\)/ ) {
         foreach my $dim ( split /,\s/, $1 ) {
             if ( $dump =~ /\t\w+ $dim\(.+\)/ ) {
                 push @vdims, $dim if ( $dump =~ /\t\t$dim:(axis|cartesian_axis) = "Z" ;/ );
-- 
2.43.0


From 1e56d033f689e7a86ccd693335f2cea4ab0634b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 24/75] fix: timavg took the time bounds of the output from an
 unset value when the bounds variable comes first

---
 src/timeavg/time_average.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 6272f46..79de924 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -726,6 +726,7 @@ program time_average
       ! find the first avg field
       first = .true.
       do ivar = 1, nvar
+         if (trim(Vars(ivar)%name) == trim(name_time_bounds)) cycle
          if (Vars(ivar)%do_avg) then
             time_bounds(1:3) = Vars(ivar)%tavg(1:3)
             first = .false.
-- 
2.43.0


From 9e8f3d8016920444e9038096195afaa0c4f58055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 25/75] fix: timavg -b crashed on files without time bounds

---
 src/timeavg/time_average.f90 | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 79de924..2a371f9 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -587,7 +587,6 @@ program time_average
          ivar = nvar_out
          Vars(ivar)%data_sum = 0.0
          Vars(ivar)%tavg(3)  = 0.0
-         Vars(ivar)%data_wt  = 0.0
          Vars(ivar)%data_wt_max = 1.
       endif
 
-- 
2.43.0


From 3cb6ec50822bf6892c05efa577cf46e984a59635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 26/75] fix: timavg wrote 1 as average time and time bounds for
 files without time bounds

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 2a371f9..3a4df91 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -1055,7 +1055,7 @@ contains
       !--- get time average info for non-static variables ----
       Var%do_avg = .false.
       if (.not.Var%static) then
-         Var%do_avg = .true.
+         Var%do_avg = do_avg  ! time bounds available
       endif
    end subroutine init_variable_type
 
-- 
2.43.0


From aa47fd5bf24b42a500b1c2a8cce4afb4f84fc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 27/75] fix: timavg averaged missing values when the first of
 several files has one record

---
 src/timeavg/time_average.f90 | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 3a4df91..0cbee35 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -697,7 +697,9 @@ program time_average
 
             !---------- SUM FIELDS ----------
 
-            if (Vars(ivar)%use_data_wt) then
+            if (numtime == 1) then
+               Vars(ivar)%data_sum = ddata(1:ix,1:jy,1:kz,1:mt)
+            else if (Vars(ivar)%use_data_wt) then
                if (Vars(ivar)%do_missval) then
                   where (ddata(1:ix,1:jy,1:kz,1:mt) .ne. Vars(ivar)%missval)
                      Vars(ivar)%data_sum = Vars(ivar)%data_sum+tavg(3)*ddata(1:ix,1:jy,1:kz,1:mt)
@@ -709,12 +711,8 @@ program time_average
                endif
                Vars(ivar)%data_wt_max = Vars(ivar)%data_wt_max+tavg(3)
             else
-               if (numtime == 1) then
-                  Vars(ivar)%data_sum = ddata(1:ix,1:jy,1:kz,1:mt)
-               else
-                  Vars(ivar)%data_sum = Vars(ivar)%data_sum+tavg(3)*ddata(1:ix,1:jy,1:kz,1:mt)
-                  Vars(ivar)%data_wt_max = Vars(ivar)%data_wt_max+tavg(3)
-               endif
+               Vars(ivar)%data_sum = Vars(ivar)%data_sum+tavg(3)*ddata(1:ix,1:jy,1:kz,1:mt)
+               Vars(ivar)%data_wt_max = Vars(ivar)%data_wt_max+tavg(3)
             endif
          enddo    ! variable loop
       enddo    ! time loop
@@ -822,7 +820,9 @@ program time_average
          ! compute time average
          ! divid by data weight when appropriate
          ! insert missing value where needed
-         if (Vars(ivar)%use_data_wt) then
+         if (numtime == 1) then
+            ddata(1:ix,1:jy,1:kz,1:mt) = Vars(ivar)%data_sum
+         else if (Vars(ivar)%use_data_wt) then
             data_wt_min = max(min(frac_valid_data,1.-small),0.)*Vars(ivar)%data_wt_max
             if (Vars(ivar)%do_missval) then
                where (Vars(ivar)%data_wt > data_wt_min)
@@ -837,11 +837,7 @@ program time_average
                endwhere
             endif
          else
-            if (numtime == 1) then
-               ddata(1:ix,1:jy,1:kz,1:mt) = Vars(ivar)%data_sum
-            else
-               ddata(1:ix,1:jy,1:kz,1:mt) = Vars(ivar)%data_sum/Vars(ivar)%data_wt_max
-            endif
+            ddata(1:ix,1:jy,1:kz,1:mt) = Vars(ivar)%data_sum/Vars(ivar)%data_wt_max
          endif
 
          ! correct non-float data for truncation error
@@ -1180,7 +1176,7 @@ contains
       !--- allocate space for data (and data wt when necessary) ---
       allocate (Var%data_sum(shape(1),shape(2),shape(3),shape(4)))
       if (.not.Var%use_data_wt) then
-         if (ntime > 1 .and. Var%do_missval .and. .not.Var%static) then
+         if ((ntime > 1 .or. file_names(2)(1:1) /= ' ') .and. Var%do_missval .and. .not.Var%static) then
             allocate (Var%data_wt(shape(1),shape(2),shape(3),shape(4)))
             Var%use_data_wt = .true.
          endif
-- 
2.43.0


From 0ba293b71fe9175f10d90ef4f11350d28ad57562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:03 +0000
Subject: [PATCH 28/75] fix: timavg took the compression of a variable from
 another one

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 0cbee35..49c0e79 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -443,7 +443,7 @@ program time_average
                deflate_in = 0
                deflation_in = 0
             else
-               istat = NF90_INQ_VAR_DEFLATE (ncid_in, Vars(ivar)%varid_out, shuffle_in, &
+               istat = NF90_INQ_VAR_DEFLATE (ncid_in, ivar, shuffle_in, &
                   deflate_in, deflation_in)
                if (istat /= NF90_NOERR) call error_handler &
                   ('getting NetCDF4 compression: '//trim(Vars(ivar)%name), ncode=istat)
-- 
2.43.0


From f4b19a87e7bc7d021530ff1bcbad8f83328d57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:21 +0000
Subject: [PATCH 29/75] fix: timavg ignored errors in its input list: only 200
 of more files were averaged, with default options

---
 src/timeavg/time_average.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index 49c0e79..faa7dec 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -97,7 +97,9 @@ program time_average
    do i=1,len(file_name_out); file_name_out(i:i) = ' '; enddo
 
    ! read namelist
-   read  (*,input,end=1,err=1)
+   read  (*,input,end=1,err=2)
+   go to 1
+2  call error_handler ('reading the input namelist (at most '//itoa(MAX_FILES)//' files)')
 1  continue
    if (verbose) then
       ! write (*,input)
-- 
2.43.0


From 90dda2fe87b8d64c75ed0d753242b5b0e48aa942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:20 +0000
Subject: [PATCH 30/75] fix: timavg -z failed on files with a scalar variable

---
 src/timeavg/time_average.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timeavg/time_average.f90 b/src/timeavg/time_average.f90
index faa7dec..5c999ab 100644
--- a/src/timeavg/time_average.f90
+++ b/src/timeavg/time_average.f90
@@ -455,7 +455,7 @@ program time_average
 
             ! set compression
             call apply_compression_defaults (deflation_in, shuffle_in, deflation_out, shuffle_out )
-            if (deflation_out > 0) then
+            if (deflation_out > 0 .and. ndim > 0) then
                istat = NF90_DEF_VAR_DEFLATE (ncid_out, Vars(ivar)%varid_out, shuffle_out, 1, &
                   deflation_out)
                if (istat /= NF90_NOERR) call error_handler &
-- 
2.43.0


From eb3324971720836f9232f0996ed7a7badea67012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 31/75] fix: fregrid writes the first selected level of
 --KlevelBegin to level 1 of the output

The output Z axis holds only the selected levels, but write_field_data was
given the input level number, so any --KlevelBegin above 1 wrote past the end
of the axis and aborted.
---
 src/fre-grid/fregrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid.c b/src/fre-grid/fregrid.c
index e2911df..d8547ec 100644
--- a/src/fre-grid/fregrid.c
+++ b/src/fre-grid/fregrid.c
@@ -1082,7 +1082,7 @@ int main(int argc, char* argv[])
 	      }
 
 	      if(debug) time_start = clock();
-	      write_field_data(ntiles_out, scalar_out, grid_out, l, level_z, level_n, m);
+	      write_field_data(ntiles_out, scalar_out, grid_out, l, level_z - scalar_in->var[l].kstart, level_n, m);
 	      if(debug) {
 		time_end = clock();
 	        time_write += 1.0*(time_end - time_start)/CLOCKS_PER_SEC;
-- 
2.43.0


From 45e6d16951f41bc3bdc7e13c011b8b33ce918b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 32/75] fix: fregrid --format classic/64bit_offset works for
 netCDF-4 input

mpp_set_deflation looked at the input's format only and then asked for
compression on a netCDF-3 output, which aborts.
---
 lib/libfrencutils/mpp_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 58c4499..5964306 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -1045,6 +1045,14 @@ void mpp_set_deflation(int fid_in, int fid_out, int user_deflation, int user_shu
     if (format == NC_FORMAT_CLASSIC || format == NC_FORMAT_64BIT) {
         return;
     }
+    status = nc_inq_format(files[fid_out].ncid, &format);
+    if (status != NC_NOERR) {
+        sprintf(errmsg, "mpp_io(mpp_set_deflation): Error in getting determining netcdf version");
+        netcdf_error(errmsg, status);
+    }
+    if (format == NC_FORMAT_CLASSIC || format == NC_FORMAT_64BIT) {
+        return;
+    }
 
     // loop thru output vars
     int vid_in;
-- 
2.43.0


From 0afdd8803f157bc77b72308dabff320202f7c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 33/75] fix: fregrid unpacks zeros of packed fields that have
 no missing value

Without missing_value/_FillValue the missing value defaulted to 0, so a raw 0
was taken for missing when scale_factor and add_offset were applied, but
averaged as a valid value afterwards. The default is now the mark the
conservative interpolation itself uses for uncovered cells.
---
 src/fre-grid/fregrid_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bc1094b..73cc645 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -37,6 +37,7 @@
 #define EPSLN10 (1.e-10)
 #define REL_COEF ( 0.9 )
 #define MAX_ITER 4000
+#define MAXVAL (1.e20)
 #define MAX_NUM_VARS 5
 
 void init_halo(double *var, int nx, int ny, int nz, int halo);
@@ -1896,7 +1897,7 @@ void get_field_attribute( int ntiles, Field_config *field)
 
   for(l=0; l<nfield; l++) {
     for(n=0; n<ntiles; n++) {
-      field[n].var[l].missing = 0;
+      field[n].var[l].missing = -MAXVAL;
       field[n].var[l].scale   = 0;
       field[n].var[l].offset  = 0;
       if(!field[n].var[l].do_regrid) continue;
-- 
2.43.0


From 331fe88f16414661c27292ec9f7c4a4a68230aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 34/75] fix: fregrid_parallel packs only its own rows before
 gathering

write_field_data undid add_offset/scale_factor over the global grid although
field data holds the local domain, running past the end of the array on every
rank.
---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 73cc645..8d4e55b 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2377,11 +2377,11 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     data_size = nx*ny*nz;
 
     if(field[n].var[varid].offset != 0) {
-      for(i=0; i<nx*ny*nz; i++)
+      for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
 	if(field[n].data[i] != missing_value) field[n].data[i] -= field[n].var[varid].offset;
     }
     if(field[n].var[varid].scale != 0) {
-      for(i=0; i<nx*ny*nz; i++)
+      for(i=0; i<grid[n].nxc*grid[n].nyc*nz; i++)
 	if(field[n].data[i] != missing_value) field[n].data[i] /= field[n].var[varid].scale;
     }
 
-- 
2.43.0


From eb6b9a1c3b93dd488b50eb89273d4cee7829a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 35/75] fix: fregrid rounds integer fields instead of
 truncating them

The area-weighted mean of equal integers can come out a rounding error below
the integer; truncation then wrote a value one lower, outside the range of the
data (a constant 13 became 12).
---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 8d4e55b..6aa5fb4 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -2397,13 +2397,13 @@ void write_field_data(int ntiles, Field_config *field, Grid_config *grid, int va
     switch(field[n].var[varid].type) {
     case NC_SHORT:
       data_i2 = (short *)malloc(data_size*sizeof(short));
-      for(i=0; i<data_size; i++) data_i2[i] = (short)gdata[i];
+      for(i=0; i<data_size; i++) data_i2[i] = (short)rint(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i2);
       free(data_i2);
       break;
     case NC_INT:
       data_i4 = (int *)malloc(data_size*sizeof(int));
-      for(i=0; i<data_size; i++) data_i4[i] = (int)gdata[i];
+      for(i=0; i<data_size; i++) data_i4[i] = (int)rint(gdata[i]);
       if(mpp_pe() == mpp_root_pe()) mpp_put_var_value_block(*(field[n].fid), field[n].var[varid].vid, start, nwrite, data_i4);
       free(data_i4);
       break;
-- 
2.43.0


From b95160dda9f54ee801afc1aa2d68e91944c0134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:57 +0000
Subject: [PATCH 36/75] fix: fregrid recomputes weights when an output tile has
 no remap file

With several output tiles, finding any remap file switched all of them to
reading, and tiles without a file (none is written for a tile that does not
overlap the input) were left with uninitialised weights and crashed.
---
 src/fre-grid/fregrid_util.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index 6aa5fb4..d27879c 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -1950,7 +1950,7 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
   int    i, len, m, fid, vid;
   size_t start[4], nread[4];
   char str1[STRING], tilename[STRING];
-  int file_exist;
+  int nexist = 0;
 
   if(!remap_file) return;
 
@@ -1988,11 +1988,14 @@ void set_remap_file( int ntiles, const char *mosaic_file, const char *remap_file
       sprintf(interp[m].remap_file, "%s.nc", str1);
     /* check xgrid file to be read (=1) or write ( = 2) */
     if(!save_weight_only && mpp_file_exist(interp[m].remap_file)) {
-      (*opcode) |= READ;
+      nexist++;
       interp[m].file_exist = 1;
     }
 
   }
+  /* a tile without a file (none is written for a tile the input grid does not reach) has nothing to
+     read, so the weights are only read when every tile has its file */
+  if(nexist == ntiles) (*opcode) |= READ;
 
   if(ntiles>1) mpp_close(fid);
 
-- 
2.43.0


From 85fb4d7ac51eafe57abe20c1a1969684f3588e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:12 +0000
Subject: [PATCH 37/75] fix: fregrid --target_grid was switched off at random
 by an uninitialised flag

use_volume is only set for fields with a cell_measures attribute; for all
others it held whatever malloc returned, and a non-zero value disables
--target_grid for that field.
---
 src/fre-grid/fregrid_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index d27879c..8a61e39 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -676,6 +676,7 @@ void init_var_config(Var_config *var, int interp_method)
   var->lend          = 0;
   var->ndim          = 0;
   var->interp_method = interp_method;
+  var->use_volume    = 0;
 
 }
 
-- 
2.43.0


From 81124ac241c78a02116b8f31cb2c704e36201221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:36 +0000
Subject: [PATCH 38/75] fix: make_solo_mosaic overflowed its history buffer on
 long command lines

---
 src/make-solo-mosaic/make_solo_mosaic.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/make-solo-mosaic/make_solo_mosaic.c b/src/make-solo-mosaic/make_solo_mosaic.c
index cf81a74..27a3970 100644
--- a/src/make-solo-mosaic/make_solo_mosaic.c
+++ b/src/make-solo-mosaic/make_solo_mosaic.c
@@ -86,7 +86,8 @@ int main (int argc, char *argv[])
 {
 
   extern char *optarg;
-  char *pch=NULL, *dir=NULL, history[512], entry[1280];
+  char *pch=NULL, *dir=NULL, *history, *entry;
+  size_t history_len;
   char tilefile[MAXTILE][STRING], tiletype[MAXTILE][SHORTSTRING];
   char tile_name[MAXTILE][STRING];
   int ntiles=0, nfiles=0, ncontact=0;
@@ -133,13 +134,16 @@ int main (int argc, char *argv[])
       strcpy(grid_descriptor, optarg);
       break;
     case 'f':
+      entry = (char *)malloc(strlen(optarg)+1);
       strcpy(entry, optarg);
       pch = strtok(entry, ", ");
       nfiles = 0;
       while( pch != NULL) {
+        if(nfiles >= MAXTILE) mpp_error("make_solo_mosaic: number of tile files is greater than MAXTILE.");
         strcpy(tilefile[nfiles++], pch);
 	pch = strtok(NULL, ", ");
       }
+      free(entry);
       break;
     case 'x':
       periodx = atof(optarg);
@@ -161,6 +165,9 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
+  history_len = 1;
+  for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+  history = (char *)malloc(history_len);
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From 4ea5c8a8d29b4c7271f802fbb0a107c235d8376e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 39/75] fix: make_coupler_mosaic --wave_mosaic crashed with
 --interp_order 1

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index f1c424a..1f941ce 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -3258,7 +3258,7 @@ int main (int argc, char *argv[])
     if(verbose) printf("on pe %d, calculating waveXocean used %f seconds.\n", mpp_pe(), difftime(time_end, time_start));
     /* calculate the centroid of model grid, as well as land_mask and ocean_mask */
     {
-      double **w_area, **w_area2;
+      double **w_area;
       int    nw, lw;
       w_area = (double **)malloc(ntile_wav*sizeof(double *));
       for(nw =0; nw<ntile_wav; nw++) {
@@ -3282,12 +3282,12 @@ int main (int argc, char *argv[])
 	      g_iw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_jw = (int    *)malloc(nxgrid*sizeof(int   ));
 	      g_area = (double *)malloc(nxgrid*sizeof(double));
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_io[nw][no], g_iw);
-	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jo[nw][no], g_jw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_iw[nw][no], g_iw);
+	      mpp_gather_field_int   (nwxo[nw][no], wavxocn_jw[nw][no], g_jw);
 	      mpp_gather_field_double(nwxo[nw][no], wavxocn_area[nw][no], g_area);
 	      for(i=0; i<nxgrid; i++) {
 		ii = g_jw[i]*nxw[nw]+g_iw[i];
-		w_area2[nw][ii] += g_area[i];
+		w_area[nw][ii] += g_area[i];
 	      }
 	      free(g_iw);
 	      free(g_jw);
-- 
2.43.0


From 29287a9c6661d3eab80dc4bff599a56b8100769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 40/75] fix: make_coupler_mosaic read past the atmosphere grid
 when the land grid is larger or has more tiles

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 1f941ce..2fd02c5 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -775,7 +775,7 @@ int main (int argc, char *argv[])
     lnd_great_circle_algorithm = atm_great_circle_algorithm;
   }
   int n;
-  for(n=0; n<ntile_lnd; n++) {
+  for(n=0; n<ntile_lnd && n<ntile_atm; n++) {
     if(mpp_pe()==mpp_root_pe() && verbose) printf("Number of ATM and LND cells for tile %d are %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
     if(nxa[n]*nya[n] != nxl[n]*nyl[n]) printf("Warning: Number of ATM and LND cells for tile %d are not equal %d, %d.\n",n+1,nxa[n]*nya[n],nxl[n]*nyl[n]);
   }
@@ -2114,7 +2114,7 @@ int main (int argc, char *argv[])
 	    //mask[i] = min(l_area[nl][i]/area_lnd[nl][i],1.0);
 	    l_a[i] = l_area[nl][i];
 	    a_l[i] = area_lnd[nl][i];
-	    a_a[i] = area_atm[nl][i];
+	    a_a[i] = (nl < ntile_atm && i < nxa[nl]*nya[nl]) ? area_atm[nl][i] : 0;
 	  }
 	  if(ntile_lnd > 1)
 	    sprintf(lnd_mask_file, "land_mask_tile%d.nc", nl+1);
-- 
2.43.0


From 4cfa7e0a3483c1c2d5aa64cf5637a2bd7ec688b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 41/75] fix: make_coupler_mosaic lost land/wave exchange cells
 lying inside one ocean row

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 2fd02c5..4273f7c 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -2606,10 +2606,12 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yl_min && yy < yl_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
+	    if( yy > yl_min ) {
 	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
 	    }
+	    if( yy < yl_max ) {
+	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
+	    }
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
@@ -3131,10 +3133,12 @@ int main (int argc, char *argv[])
 	  js_ocn[no] = nyo[no]; je_ocn[no] = -1;
 	  for(jo = 0; jo <= nyo[no]; jo ++) for(io = 0; io <= nxo[no]; io++) {
 	    yy = yocn[no][jo    *(nxo[no]+1) + io];
-	    if( yy > yw_min && yy < yw_max ) {
-	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
+	    if( yy > yw_min ) {
 	      if(jo < js_ocn[no] ) js_ocn[no] = jo;
 	    }
+	    if( yy < yw_max ) {
+	      if(jo > je_ocn[no] ) je_ocn[no] = jo;
+	    }
 	  }
 	  js_ocn[no] = max(0, js_ocn[no]-1);
 	  je_ocn[no] = min(nyo[no]-1, je_ocn[no]+1);
-- 
2.43.0


From 68d969c00c37a66d5b7a2d5d03cd4cce735611a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 42/75] fix: make_coupler_mosaic left the directory names of
 its inputs unterminated

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 4273f7c..2007d35 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -175,6 +175,7 @@ void get_file_dir_and_name(char *file, char *filedir, char *filename)
       siz = fptr - file;
       strcpy(filename, fptr);
       strncpy(filedir, file, siz);
+      filedir[siz] = 0;
     }
 };
 
-- 
2.43.0


From 96b11f13f5c9db69761bd7faa39c1ecfdb81dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 43/75] fix: make_coupler_mosaic overflowed its history buffer
 on long command lines

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 2007d35..9f33b79 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -369,7 +369,8 @@ int main (int argc, char *argv[])
   unsigned int check = 0;
   unsigned int verbose = 0;
   int errflg = (argc == 1);
-  char history[512];
+  char *history;
+  size_t history_len;
   int nfile_lxo=0, nfile_axo=0, nfile_axl=0;
   int nfile_wxo=0;
   char lxo_file[MAXXGRIDFILE][STRING];
@@ -498,6 +499,9 @@ int main (int argc, char *argv[])
   /* interp_order should be 1 or 2 */
   if(interp_order != 1 && interp_order !=2 )mpp_error("make_coupler_mosaic: interp_order should be 1 or 2");
 
+  history_len = 1;
+  for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+  history = (char *)malloc(history_len);
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From 59adcfe0b5a1e6f44c55fef8324696a37e0b3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:54 +0000
Subject: [PATCH 44/75] fix: make_coupler_mosaic sized its ocean coordinate
 tables by the land tiles

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 9f33b79..3c7f4c7 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -899,8 +899,8 @@ int main (int argc, char *argv[])
     }
 
     if(clip_method == GREAT_CIRCLE_CLIP) {
-      cart_xocn = (double **) malloc( ntile_lnd*sizeof(double *));
-      cart_yocn = (double **) malloc( ntile_lnd*sizeof(double *));
+      cart_xocn = (double **) malloc( ntile_ocn*sizeof(double *));
+      cart_yocn = (double **) malloc( ntile_ocn*sizeof(double *));
       cart_zocn =  (double **) malloc( ntile_ocn*sizeof(double *));
       for(n=0; n<ntile_ocn; n++) {
 	cart_xocn[n]     = (double *)malloc((nxo[n]+1)*(nyo[n]+1)*sizeof(double));
-- 
2.43.0


From f2273d42159994a41868073ac836b1c147ad90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:42 +0000
Subject: [PATCH 45/75] fix: make_coupler_mosaic gave absolute latitudes as
 centroid distances for a nest tile

---
 src/make-coupler-mosaic/make_coupler_mosaic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/make-coupler-mosaic/make_coupler_mosaic.c b/src/make-coupler-mosaic/make_coupler_mosaic.c
index 3c7f4c7..b14f3f4 100644
--- a/src/make-coupler-mosaic/make_coupler_mosaic.c
+++ b/src/make-coupler-mosaic/make_coupler_mosaic.c
@@ -1882,7 +1882,7 @@ int main (int argc, char *argv[])
 	    a_clat[la] = 0;
 	  }
 	   /* could not add the exchange grid between land and nest atmosphere */
-	  if( na != tile_nest ) {
+	  {
 	    for(nl=0; nl<ntile_lnd; nl++) {
 	      int nxgrid;
 
@@ -1911,6 +1911,7 @@ int main (int argc, char *argv[])
 		  a_area[ii] += g_area[i];
 		  a_clon[ii] += g_clon[i];
 		  a_clat[ii] += g_clat[i];
+		  if( na == tile_nest ) continue;
 		  ii = g_jl[i]*nxl[nl]+g_il[i];
 		  l_area[nl][ii] += g_area[i];
 		  l_clon[nl][ii] += g_clon[i];
@@ -1928,7 +1929,7 @@ int main (int argc, char *argv[])
 	  }
 
 	  /* could not add the exchange grid between ocean and nest atmosphere */
-	  if( na != tile_nest ) {
+	  {
 	    for(no=0; no<ntile_ocn; no++) {
 	      int nxgrid;
 	      nxgrid = naxo[na][no];
@@ -1956,6 +1957,7 @@ int main (int argc, char *argv[])
 		  a_area[ii] += g_area[i];
 		  a_clon[ii] += g_clon[i];
 		  a_clat[ii] += g_clat[i];
+		  if( na == tile_nest ) continue;
 		  ii = g_jo[i]*nxo[no]+g_io[i];
 		  o_area[no][ii] += g_area[i];
 		  o_clon[no][ii] += g_clon[i];
-- 
2.43.0


From 9a19c897c32a513907cbb163a261430f2bc1715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 46/75] fix: check_mask read --sea_level as an integer

---
 src/check-mask/check_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 9672842..42a7744 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -262,7 +262,7 @@ int main (int argc, char *argv[])
       halo = atoi(optarg);
       break;
     case 'f':
-      sea_level = atoi(optarg);
+      sea_level = atof(optarg);
       break;
     case 'g':
       show_valid_only = 1;
-- 
2.43.0


From d1da08d6c1bb85cf4bc41bfc040f493d51f80fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 47/75] fix: check_mask filled its cyclic west and south halos
 in mirrored order

---
 src/check-mask/check_mask.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 42a7744..430cf3f 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -576,7 +576,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   if( cyclic_x ) {
     for(j=0; j<ny; j++) {
       for(i=0; i<halo; i++) {  /* west halo */
-	n1 = (j+halo)*nxd + nx+halo-1-i;
+	n1 = (j+halo)*nxd + nx+i;
 	n2 = (j+halo)*nxd+i;
 	wet[n2] = wet[n1];
       }
@@ -591,7 +591,7 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   if( cyclic_y ) {
     for(i=0; i<nx; i++) {
       for(j=0; j<halo; j++) {  /* south halo */
-	n1 = (ny+halo-1-j)*nxd + i+halo;
+	n1 = (ny+j)*nxd + i+halo;
 	n2 = j*nxd + i+halo;
 	wet[n2] = wet[n1];
       }
-- 
2.43.0


From 020b15a4774ec790180798c78d77d7ff2edc4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:24 +0000
Subject: [PATCH 48/75] fix: check_mask left the halo corners of a doubly
 cyclic grid empty

---
 src/check-mask/check_mask.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/check-mask/check_mask.c b/src/check-mask/check_mask.c
index 430cf3f..d2dc178 100644
--- a/src/check-mask/check_mask.c
+++ b/src/check-mask/check_mask.c
@@ -589,15 +589,15 @@ void check_ocean_mask(int nx, int ny, const double *wet_in, int cyclic_x, int cy
   }
 
   if( cyclic_y ) {
-    for(i=0; i<nx; i++) {
+    for(i=0; i<nxd; i++) {
       for(j=0; j<halo; j++) {  /* south halo */
-	n1 = (ny+j)*nxd + i+halo;
-	n2 = j*nxd + i+halo;
+	n1 = (ny+j)*nxd + i;
+	n2 = j*nxd + i;
 	wet[n2] = wet[n1];
       }
       for(j=0; j<halo; j++) { /* north halo */
-	n1 = (halo+j)*nxd + i+halo;
-	n2 = (ny+halo+j)*nxd + i+halo;
+	n1 = (halo+j)*nxd + i;
+	n2 = (ny+halo+j)*nxd + i;
 	wet[n2] = wet[n1];
       }
     }
-- 
2.43.0


From 4eead9abdd932251d294fb778315822398f4a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:24 +0000
Subject: [PATCH 49/75] fix: make_hgrid ignored the value of --shift_fac

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index addeb31..2368b10 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -342,7 +342,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   // Operate only on the 6 parent tiles
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform == 0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
@@ -870,7 +870,7 @@ void create_gnomonic_cubic_grid_GR( char* grid_type, int *nlon, int *nlat, doubl
 
   for(n=0; n<ntiles*nip*nip; n++) {
     /* This will result in the corner close to east coast of china */
-    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/18.;
+    if( do_schmidt == 0 && do_cube_transform==0 && shift_fac > EPSLN4) xc[n] -= M_PI/shift_fac;
     if(xc[n] < 0.) xc[n] += 2.*M_PI;
     if(fabs(xc[n]) < EPSLN10) xc[n] = 0;
     if(fabs(yc[n]) < EPSLN10) yc[n] = 0;
-- 
2.43.0


From d95161cbbae7e17c693d142e1515838babfb01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:24 +0000
Subject: [PATCH 50/75] fix: make_hgrid wrote dy of a nest behind a nest that
 is not square to the wrong place

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index 2368b10..84686bc 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -127,10 +127,11 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   int *tile_offset=NULL;
   int *tile_offset_supergrid=NULL;
   int *tile_offset_supergrid_m=NULL;
+  int *tile_offset_supergrid_dy=NULL;
   int *tile_offset_area=NULL;
 
   long i, j, n, npts, nn;
-  long npts_supergrid, npts_supergrid_m, npts_area;
+  long npts_supergrid, npts_supergrid_m, npts_supergrid_dy, npts_area;
 
   double p1[2], p2[2];
   double *lon=NULL, *lat=NULL;
@@ -247,6 +248,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   tile_offset = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_supergrid_m = (int *)malloc(ntiles2*sizeof(int));
+  tile_offset_supergrid_dy = (int *)malloc(ntiles2*sizeof(int));
   tile_offset_area = (int *)malloc(ntiles2*sizeof(int));
 
   for(n=0; n<ntiles; n++) {
@@ -303,12 +305,14 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   npts = 0;
   npts_supergrid = 0;
   npts_supergrid_m = 0;
+  npts_supergrid_dy = 0;
   npts_area = 0;
 
   for (n=0; n<ntiles2; n++) {
     tile_offset[n] = npts;
     tile_offset_supergrid[n] = npts_supergrid;
     tile_offset_supergrid_m[n] = npts_supergrid_m;
+    tile_offset_supergrid_dy[n] = npts_supergrid_dy;
     tile_offset_area[n] = npts_area;
 
     if (verbose) {
@@ -319,7 +323,8 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
 
     npts += (nil[n] + 1) * (njl[n] + 1);
     npts_supergrid += (nxl[n] + 1) * (nyl[n] + 1);
-    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grids of dx, dy
+    npts_supergrid_m += nxl[n] * (nyl[n] + 1);    // needed for grid of dx
+    npts_supergrid_dy += (nxl[n] + 1) * nyl[n];   // needed for grid of dy
     npts_area += nxl[n] * nyl[n];    // needed for area
   }
 
@@ -602,12 +607,12 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
             p2[0] = x[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
             p2[1] = y[tile_offset_supergrid[n] + (j+1)*(nxl[n]+1)+i];
 
-            dy[tile_offset_supergrid_m[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
+            dy[tile_offset_supergrid_dy[n] + j*(nxl[n]+1)+i] = great_circle_distance(p1, p2);
           } /* i <= nxl[n] */
         } /* j < nyl[n] */
       } else /* (!(stretched_grid || n >= 6)) */ {
         for(j=0; j<nyp; j++) {
-          for(i=0; i<nx; i++) dy[tile_offset_supergrid_m[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
+          for(i=0; i<nx; i++) dy[tile_offset_supergrid_dy[n] + i*nxp+j] = dx[tile_offset_supergrid_m[n] + j*nx+i];
         }
       } /* else (!(stretched_grid || n >= 6)) */
     } /* n < ntiles2 */
@@ -733,6 +738,7 @@ void create_gnomonic_cubic_grid( char* grid_type, int *nlon, int *nlat, double *
   free(tile_offset);
   free(tile_offset_supergrid);
   free(tile_offset_supergrid_m);
+  free(tile_offset_supergrid_dy);
   free(tile_offset_area);
   free(lon);
   free(lat);
-- 
2.43.0


From 47e328e2581696accd20d606f91d47f0672ea948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:24 +0000
Subject: [PATCH 51/75] fix: make_hgrid --out_halo took dx and dy of the west
 halo with the wrong row length

---
 src/make-hgrid/make_hgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index df1d35b..08373e7 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -492,7 +492,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ls = (tile+ntiles-1)%ntiles;
     ln = (tile+ntiles+2)%ntiles;
     for(j=1; j<=nyp; j++) {
-      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nxp+nyp-j]; /* west halo */
+      data[j*nxph] = data2_all[lw*nxp*nyp+(ny-1)*nyp+nyp-j]; /* west halo */
       data[j*nxph+nxp+1] = data1_all[le*nxp*nyp+(j-1)*nxp+ioff]; /*east halo */
     }
 
-- 
2.43.0


From 539d74fd2d802685b716655adbe40a6f00673854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:24 +0000
Subject: [PATCH 52/75] fix: make_hgrid computed cubed-sphere angles with
 longitudes unscaled and unwrapped and a wrong neighbour

---
 src/make-hgrid/create_gnomonic_cubic_grid.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/make-hgrid/create_gnomonic_cubic_grid.c b/src/make-hgrid/create_gnomonic_cubic_grid.c
index 84686bc..eb2fb0b 100644
--- a/src/make-hgrid/create_gnomonic_cubic_grid.c
+++ b/src/make-hgrid/create_gnomonic_cubic_grid.c
@@ -1920,16 +1920,17 @@ void plane_normal2(const double *P1, const double *P2, double *plane)
 void calc_rotation_angle2(int nxp, double *x, double *y, double *angle_dx, double *angle_dy)
 {
   int ip1, im1, jp1, jm1, tp1, tm1, i, j, n, ntiles, nx;
-  double lon_scale;
+  double lon_scale, dlon;
   unsigned int n1, n2, n3;
 
+  /* x and y are in radians */
   nx = nxp-1;
   ntiles = 6;
   for(n=0; n<ntiles; n++) {
     for(j=0; j<nxp; j++) {
       for(i=0; i<nxp; i++) {
         n1 = n*nxp*nxp+j*nxp+i;
-        lon_scale = cos(y[n1]*D2R);
+        lon_scale = cos(y[n1]);
         tp1 = n;
         tm1 = n;
         ip1 = i+1;
@@ -1945,7 +1946,7 @@ void calc_rotation_angle2(int nxp, double *x, double *y, double *angle_dx, doubl
           else { /* tile 2, 4, 6 */
             tp1 = n+2;
             if(tp1 >= ntiles) tp1 -= ntiles;
-            ip1 = nx-j-1;
+            ip1 = nx-j;
             jp1 = 0;
           }
         }
@@ -1964,7 +1965,10 @@ void calc_rotation_angle2(int nxp, double *x, double *y, double *angle_dx, doubl
         n1 = n*nxp*nxp+j*nxp+i;
         n2 = tp1*nxp*nxp+jp1*nxp+ip1;
         n3 = tm1*nxp*nxp+jm1*nxp+im1;
-        angle_dx[n1] = atan2( y[n2]-y[n3], (x[n2]-x[n3])*lon_scale )*R2D;
+        dlon = x[n2]-x[n3];
+        if(dlon >  M_PI) dlon -= 2.*M_PI;
+        if(dlon < -M_PI) dlon += 2.*M_PI;
+        angle_dx[n1] = atan2( y[n2]-y[n3], dlon*lon_scale )*R2D;
         tp1 = n;
         tm1 = n;
         ip1 = i;
@@ -2002,7 +2006,10 @@ void calc_rotation_angle2(int nxp, double *x, double *y, double *angle_dx, doubl
         n1 = n*nxp*nxp+j*nxp+i;
         n2 = tp1*nxp*nxp+jp1*nxp+ip1;
         n3 = tm1*nxp*nxp+jm1*nxp+im1;
-        angle_dy[n1] = atan2( y[n2]-y[n3], (x[n2]-x[n3])*lon_scale )*R2D;
+        dlon = x[n2]-x[n3];
+        if(dlon >  M_PI) dlon -= 2.*M_PI;
+        if(dlon < -M_PI) dlon += 2.*M_PI;
+        angle_dy[n1] = atan2( y[n2]-y[n3], dlon*lon_scale )*R2D;
       }
     }
   }
-- 
2.43.0


From ab33c924285dcc6d833af866513b434f74b87b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 53/75] fix: make_hgrid --out_halo took dy of the east halo
 with the wrong row length

---
 src/make-hgrid/make_hgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-hgrid/make_hgrid.c b/src/make-hgrid/make_hgrid.c
index 08373e7..0ea5973 100644
--- a/src/make-hgrid/make_hgrid.c
+++ b/src/make-hgrid/make_hgrid.c
@@ -478,7 +478,7 @@ void fill_cubic_grid_halo(int nx, int ny, int halo, double *data, double *data1_
     ln = (tile+ntiles+1)%ntiles;
     for(j=1; j<=nyp; j++) {
       data[j*nxph] = data1_all[lw*nxp*nyp+(j-1)*nxp+nx-1]; /* west halo */
-      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nxp+nyp-j]; /*east halo */
+      data[j*nxph+nxp+1] = data2_all[le*nxp*nyp+ioff*nyp+nyp-j]; /*east halo */
     }
 
     for(i=1; i<=nxp; i++) {
-- 
2.43.0


From 13878ac459042eccb888e02ef9068aed0aed39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 54/75] fix: make_hgrid computed tripolar areas of
 --great_circle_algorithm from Cartesian coordinates

---
 src/make-hgrid/create_lonlat_grid.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index ebdec7b..bc2f121 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -456,26 +456,18 @@ void create_tripolar_grid( int *nxbnds, int *nybnds, double *xbnds, double *ybnd
  /*calculte cell area */
   n = 0;
   if(use_great_circle_algorithm) {
-    double *cart_x=NULL, *cart_y=NULL, *cart_z=NULL;
     double *x_rad=NULL, *y_rad=NULL;
 
     /* since make_hgrid is limited to be run on 1 processor, we could assume nx = iec-isc+1 and ny=jec-jsc+1 */
-    cart_x = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_y = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_z = (double *)malloc(nxp*nyp*sizeof(double));
     x_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     y_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     for(i=0; i<nxp*nyp; i++){
       x_rad[i] = x[i]*D2R;
       y_rad[i] = y[i]*D2R;
     }
-    latlon2xyz(nxp*nyp, x_rad, y_rad, cart_x, cart_y, cart_z);
-    get_grid_great_circle_area(&nx, &ny, cart_x, cart_y, area);
+    get_grid_great_circle_area(&nx, &ny, x_rad, y_rad, area);
     free(x_rad);
     free(y_rad);
-    free(cart_x);
-    free(cart_y);
-    free(cart_z);
   }
   else {
     for(j=*jsc;j<=*jec;j++){
-- 
2.43.0


From a55eb4f379b47d955274b2fbbb74499c3d323369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 55/75] fix: make_hgrid left the equatorial row of a spectral
 grid with an odd number of latitudes undefined

---
 src/make-hgrid/create_lonlat_grid.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index bc2f121..1577098 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -204,15 +204,15 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   lonb    = (double *) malloc((ni+1)*sizeof(double));
   lat     = (double *) malloc(nj    *sizeof(double));
   latb    = (double *) malloc((nj+1)*sizeof(double));
-  sin_hem = (double *) malloc(nj/2*sizeof(double));
-  wts_hem = (double *) malloc(nj/2*sizeof(double));
+  sin_hem = (double *) malloc((nj+1)/2*sizeof(double));
+  wts_hem = (double *) malloc((nj+1)/2*sizeof(double));
   sin_lat = (double *) malloc(nj*sizeof(double));
   wts_lat = (double *) malloc(nj*sizeof(double));
   dlon = 360./ni;
   for(i=0;i< ni;i++) lon[i] = i*dlon;
   for(i=0;i<=ni;i++) lonb[i] = (i-0.5)*dlon;
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<(nj+1)/2;j++) {
     converge = 0;
     z = cos(M_PI*(j +0.75)/(nj + 0.5));
     for(iter=1; iter<=itermax; i++){
@@ -239,7 +239,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
     wts_hem [j]     = 2.0/((1.0 - z*z)*pp*pp);
   }
 
-  for(j=0;j<nj/2;j++) {
+  for(j=0;j<(nj+1)/2;j++) {
     sin_lat[j]      = - sin_hem[j];
     sin_lat[nj-1-j] =   sin_hem[j];
     wts_lat[j]      =   wts_hem[j];
@@ -252,6 +252,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
 
   latb[0] = -90.;
   latb[nj] = 90.;
+  sum_wts = 0.;
   for(j=1;j<nj;j++) {
     sum_wts = sum_wts + wts_lat[j-1];
     latb[j] = asin(sum_wts-1.)*R2D;
-- 
2.43.0


From 83b62c5c1240ef9436796e69f6821d4351e5212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 56/75] fix: make_vgrid --stretch refused every last region
 that stretching leaves without a whole number of cells

---
 lib/libfrencutils/tool_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/tool_util.c b/lib/libfrencutils/tool_util.c
index a199879..772d98f 100644
--- a/lib/libfrencutils/tool_util.c
+++ b/lib/libfrencutils/tool_util.c
@@ -643,7 +643,7 @@ double* compute_grid_bound_legacy(int nb, const double *bnds, const double *dbnd
 	else
 	  break;
       }
-      if( stretch == 1 || l != nb-1 ) {
+      if( stretch == 1 || l != nb-2 ) {
 	if( fabs(an-n) > tol ) {
 	  if(mpp_pe() == mpp_root_pe()) {
 	    printf("==>Error: non integral number of cells in region #%d, average resolution within "
-- 
2.43.0


From a4eac97ebd534e5ca36bf4dcde320e03cce0749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 57/75] fix: make_vgrid overflowed its history buffer on long
 command lines and read an unset count without --dbnds

---
 src/make-vgrid/make_vgrid.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 0b9b06a..08a6b7d 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -143,7 +143,8 @@ int main(int argc, char* argv[])
   double stretch = 1;
   char center[32] = "none";
   char entry[512];
-  char history[256];
+  char *history;
+  size_t history_len;
   int errflg, c, option_index = 0;
   static struct option long_options[]= {
     {"nbnds",    required_argument, NULL, 'n'},
@@ -163,6 +164,7 @@ int main(int argc, char* argv[])
   nbnds = 0;
   n1 = 0;
   n2 = 0;
+  n3 = 0;
   while ((c = getopt_long(argc, argv, "", long_options, &option_index)) != -1)
     switch (c) {
     case 'n':
@@ -223,6 +225,9 @@ int main(int argc, char* argv[])
   }
 
   /* define history to be the history in the grid file */
+  history_len = 1;
+  for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+  history = (char *)malloc(history_len);
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From 147aaa0c203df5a9dbd1892152ba95cc797db8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:12 +0000
Subject: [PATCH 58/75] fix: runoff_regrid wrote outside its arrays when a land
 cell has no ocean cell to give its runoff to

Without any ocean cell the nearest-cell search leaves the target at -1 and the
runoff was added in front of the array (lost, or a crash); likewise when the only
ocean cell is the exact antipode.  Search from a distance larger than the diameter
and stop with an error when there is no ocean cell.
---
 src/runoff-regrid/runoff_regrid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runoff-regrid/runoff_regrid.c b/src/runoff-regrid/runoff_regrid.c
index 206dfc0..a6fdd8f 100644
--- a/src/runoff-regrid/runoff_regrid.c
+++ b/src/runoff-regrid/runoff_regrid.c
@@ -642,6 +642,7 @@ void process_data(const char *infile, const char *fld_name_in, const char *outfi
       if(data_out[l] > 0 && grid_out->mask[l] == 0) {
 	iout = remap->imap[l];
 	jout = remap->jmap[l];
+	if(iout < 0 || jout < 0) mpp_error("runoff_regrid: there is runoff on land and no ocean point to move it to");
         data_out[jout*nx_out+iout] += data_out[l];
 	data_out[l] = 0;
       }
@@ -711,7 +712,7 @@ void nearest(int nlon, int nlat, double *mask, const double *lon, const double *
   int i,j, n;
   double r, r1;
 
-  r = distance(0.0,M_PI/2,0.0,-M_PI/2);  /* some big value */
+  r = 2*distance(0.0,M_PI/2,0.0,-M_PI/2);  /* some big value */
   for(j=0; j<nlat; j++) for(i=0; i<nlon; i++) {
     n = j*nlon+i;
     if(mask[n] == 0.0) continue;
-- 
2.43.0


From 1298ada77dc59f86c18f734b1ccd389036ace687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:19 +0000
Subject: [PATCH 59/75] fix: keep the unset halo corners out of the monotonic
 bounds of fregrid

The four corners of the halo of a tile are never filled and hold zero, so the
limiter took zero for a neighbour of every cell at a corner of a tile.
---
 src/fre-grid/conserve_interp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index bc61291..7fe1120 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -635,6 +635,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  n1 = j*nx1+i;
 	  for(jj=j-1; jj<=j+1; jj++) for(ii=i-1; ii<=i+1; ii++) {
 	    n2 = (jj+1)*(nx1+2)+ii+1;
+	    /* the corners of the halo are not filled */
+	    if( (ii<0 || ii==nx1) && (jj<0 || jj==ny1) ) continue;
 	    if( field_in[n].data[n2] != missing ) {
 	      if( field_in[n].data[n2] > monotone_data[n].f_bar_max[n1] ) monotone_data[n].f_bar_max[n1] = field_in[n].data[n2];
 	      if( field_in[n].data[n2] < monotone_data[n].f_bar_min[n1] ) monotone_data[n].f_bar_min[n1] = field_in[n].data[n2];
-- 
2.43.0


From 28ff9426b249e6020affc36fa4d46c75c480fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:19 +0000
Subject: [PATCH 60/75] fix: limit a cell alike for all output tiles in
 monotonic remapping

The largest and smallest value of an input cell were taken over the pieces in
one output tile, so pieces of a cell that is shared by several output tiles
were scaled differently and the total of the cell was lost.
---
 src/fre-grid/conserve_interp.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 7fe1120..1ff8631 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -615,8 +615,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       }
     }
     else if(monotonic) {
-      int ii, jj;
-      double f_bar;
+      int ii, jj, mm;
+      double f_bar, xval;
       double *xdata;
       for(n=0; n<ntiles_in; n++) {
 	nx1 =  grid_in[n].nx;
@@ -646,28 +646,28 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       }
 
       xdata = (double *)malloc(interp[m].nxgrid*sizeof(double));
-      for(n=0; n<interp[m].nxgrid; n++) {
-	i1   = interp[m].i_in [n];
-	j1   = interp[m].j_in [n];
-	di   = interp[m].di_in[n];
-	dj   = interp[m].dj_in[n];
-	tile = interp[m].t_in [n];
+      /* f_max and f_min are over the pieces of a cell in all the output tiles */
+      for(mm=0; mm<ntiles_out; mm++) for(n=0; n<interp[mm].nxgrid; n++) {
+	i1   = interp[mm].i_in [n];
+	j1   = interp[mm].j_in [n];
+	di   = interp[mm].di_in[n];
+	dj   = interp[mm].dj_in[n];
+	tile = interp[mm].t_in [n];
 	n1 = j1*nx1+i1;
         n2 = (j1+1)*(nx1+2)+i1+1;
 	if( field_in[tile].data[n2] != missing ) {
 	  if( field_in[tile].grad_mask[n1] ) { /* use zero gradient */
-	    xdata[n] = field_in[tile].data[n2];
+	    xval = field_in[tile].data[n2];
 	  }
 	  else {
-	    xdata[n] = field_in[tile].data[n2]+field_in[tile].grad_x[n1]*di+field_in[tile].grad_y[n1]*dj;
-	  }
-	  if(monotonic) {
-	    if( xdata[n] > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xdata[n];
-	    if( xdata[n] < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xdata[n];
+	    xval = field_in[tile].data[n2]+field_in[tile].grad_x[n1]*di+field_in[tile].grad_y[n1]*dj;
 	  }
+	  if( xval > monotone_data[tile].f_max[n1]) monotone_data[tile].f_max[n1] = xval;
+	  if( xval < monotone_data[tile].f_min[n1]) monotone_data[tile].f_min[n1] = xval;
 	}
 	else
-	  xdata[n] = missing;
+	  xval = missing;
+	if(mm == m) xdata[n] = xval;
       }
 
       /* get the global f_max and f_min */
-- 
2.43.0


From ab5961285c903ae67a04360735223d383b92bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:01 +0000
Subject: [PATCH 61/75] fix: heed both bounds when monotonic remapping limits a
 cell

A cell that overshot the largest of its neighbours was only scaled to that and
could stay below the smallest one.
---
 src/fre-grid/conserve_interp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 1ff8631..ee2311d 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -688,7 +688,11 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	f_bar = field_in[tile].data[n2];
 	if(xdata[n] == missing) continue;
 
-	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] ) {
+	/* when both bounds are exceeded, the tighter one is used */
+	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] &&
+	    ( monotone_data[tile].f_min[n1] >= monotone_data[tile].f_bar_min[n1] ||
+	      (monotone_data[tile].f_bar_max[n1]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar) <=
+	      (monotone_data[tile].f_bar_min[n1]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar) ) ) {
 	  /* z1l: Due to truncation error, we might get xdata[n] > f_bar_max[n1]. So
 	     we allow some tolerance. What is the suitable tolerance? */
 	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
-- 
2.43.0


From db4a7fe5096fb1d3f92dd57a7d4c5b0a10a9b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:05 +0000
Subject: [PATCH 62/75] fix: make_quick_mosaic wrote the topography file name
 once per tile, each time one place further

ocn_topog_file and ocn_topog_dir of a mosaic with several tiles came out
as ttttttopog.nc and ....../
---
 src/make-quick-mosaic/make_quick_mosaic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index bb3f4eb..6baeedd 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -808,6 +808,7 @@ printf("%15.10f, %15.10f, %15.10f\n", ocean_area[n][i], land_area[n][i]+AREA_RAT
       start[0] = n; nwrite[0] =1;
       start[1] = 0; nwrite[1] =1;
       if(use_ocean_topog) {
+         start[0] = 0;
          nwrite[0] = strlen(ocn_topog_file[n]);
          mpp_put_var_value_block(fid, id_otopog_file, start, nwrite, ocn_topog_file[n]);
          nwrite[0] = strlen(ocn_topog_dir);
-- 
2.43.0


From c835b2412b8a2a9b64fa694be168806d3a26b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:05 +0000
Subject: [PATCH 63/75] fix: terminate the name of the land fraction file in
 make_quick_mosaic

---
 src/make-quick-mosaic/make_quick_mosaic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index 6baeedd..ebc0f0e 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -362,8 +362,10 @@ int main (int argc, char *argv[])
     /* attach tile number if ntiles > 1 */
     if(ntiles>1) {
       len = strlen(land_frac_file);
-      if( strstr(land_frac_file, ".nc") )
+      if( strstr(land_frac_file, ".nc") ) {
 	strncpy(str1, land_frac_file, len-3);
+	str1[len-3] = '\0';
+      }
       else
 	strcpy(str1, land_frac_file);
     }
-- 
2.43.0


From 41544ec5ea0380c2c380b6154301991a51ca66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:24 +0000
Subject: [PATCH 64/75] fix: make_quick_mosaic overflowed its history buffer on
 long command lines

---
 src/make-quick-mosaic/make_quick_mosaic.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/make-quick-mosaic/make_quick_mosaic.c b/src/make-quick-mosaic/make_quick_mosaic.c
index ebc0f0e..c81c5f9 100644
--- a/src/make-quick-mosaic/make_quick_mosaic.c
+++ b/src/make-quick-mosaic/make_quick_mosaic.c
@@ -117,7 +117,8 @@ int main (int argc, char *argv[])
   char amosaic_name[STRING] = "atmos_mosaic";
   char omosaic_name[STRING] = "ocean_mosaic";
   char lmosaic_name[STRING] = "land_mosaic";
-  char history[512];
+  char *history;
+  size_t history_len;
   int  use_ocean_topog = 0;
   int  use_land_frac=0;
   int  fid_solo_mosaic, tid_gridtile;
@@ -166,6 +167,9 @@ int main (int argc, char *argv[])
     exit(2);
   }
 
+  history_len = 1;
+  for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+  history = (char *)malloc(history_len);
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From 0a5094680bd929349e919af63ad9afbb81fdf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:24 +0000
Subject: [PATCH 65/75] fix: make_regional_mosaic overflowed its history buffer
 on long command lines

---
 src/make-regional-mosaic/make_regional_mosaic.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/make-regional-mosaic/make_regional_mosaic.c b/src/make-regional-mosaic/make_regional_mosaic.c
index 6401f74..30a2ce6 100644
--- a/src/make-regional-mosaic/make_regional_mosaic.c
+++ b/src/make-regional-mosaic/make_regional_mosaic.c
@@ -76,7 +76,8 @@ int main(int argc, char* argv[])
   int nx, ny, i_min, i_max, j_min, j_max;
 
   double *x=NULL, *y=NULL;
-  char history[512], dir[512];
+  char *history, dir[512];
+  size_t history_len;
   char gridfile[512], tilename[32];
   int errflg, c, i;
   int option_index;
@@ -123,6 +124,9 @@ int main(int argc, char* argv[])
     exit(2);
   }
 
+  history_len = 1;
+  for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+  history = (char *)malloc(history_len);
   strcpy(history,argv[0]);
 
   for(i=1;i<argc;i++) {
-- 
2.43.0


From f32701bf23fb4699bacdccdd468b0537ddf03cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 66/75] fix: make_topog filled the first row of every process
 instead of the first row of the grid

---
 src/make-topog/topog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4e1fd2f..1613958 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -525,7 +525,9 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   /* make first row of ocean model all land points for ice model */
 
   if(fill_first_row) {
-    for(i=0;i<nx_dst;i++) {
+    int isc, iec, jsc, jec;
+    mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+    if(jsc == 0) for(i=0;i<nx_dst;i++) {
       depth[i] = 0.0;
     }
   }
-- 
2.43.0


From ac9225ea0df019cb5e0818b791951d5e6ca91e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 67/75] fix: make_topog --verbose without a vertical grid read
 an unset pointer

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 1613958..dd824d7 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -520,7 +520,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
    }
   
   if (filter_topog) filter_topo(nx_dst, ny_dst, num_filter_pass, smooth_topo_allow_deepening, depth, domain);
-  if(debug) show_deepest(nk, zw, depth, domain);
+  if(debug && vgrid_file) show_deepest(nk, zw, depth, domain);
   
   /* make first row of ocean model all land points for ice model */
 
-- 
2.43.0


From 5e46204f1b04ca38055b200e391444bf41189e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 68/75] fix: make_topog failed when the grid lies within a
 single row of the source topography

---
 src/make-topog/topog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index dd824d7..5c86580 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -444,6 +444,10 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
       if(j < jstart) jstart = j;
     }
   }
+  if(jend < jstart) { /* no source row ends within the grid: use all rows */
+    jstart = 0;
+    jend   = ny_src-1;
+  }
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
   ny_now = jend-jstart+1;
-- 
2.43.0


From c41adbfa9586be9cbf73cb4372391d4829e2f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 69/75] fix: make_topog --on_grid copied the source rows by
 position, past its arrays when the sizes differ and from the wrong place on
 several processes

---
 src/make-topog/topog.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 5c86580..2f7b0ab 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -450,6 +450,10 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
+  if(on_grid) { /* the source is copied, not interpolated */
+    jstart = 0;
+    jend   = ny_src-1;
+  }
   ny_now = jend-jstart+1;
 
   x_src    = (double *)malloc(nxp_src*(ny_now+1)*sizeof(double));
@@ -506,11 +510,16 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   if(on_grid) {
      printf("We do no topography interpolation!\n");
-     for(i=0; i<nx_src*ny_now; i++) {
-        if(depth_src[i] == missing)
-          depth[i] = 0.0;
+     int isc, iec, jsc, jec, ni, nj;
+     mpp_get_compute_domain2d(domain, &isc, &iec, &jsc, &jec);
+     mpp_get_global_domain2d(domain, &ni, &nj);
+     if(nx_src != ni || ny_src != nj) mpp_error("topog: the topography is not on the model grid, --on_grid can not be used");
+     for(j=jsc; j<=jec; j++) for(i=isc; i<=iec; i++) {
+        n = (j-jsc)*nx_dst+i-isc;
+        if(depth_src[j*nx_src+i] == missing)
+          depth[n] = 0.0;
         else
-          depth[i] = depth_src[i];
+          depth[n] = depth_src[j*nx_src+i];
      }
    }
    else {
-- 
2.43.0


From ab89ad434097b15f2bd8ea17505d7d47263789a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 70/75] fix: make_topog compared the great_circle_algorithm of
 each tile with zero instead of with the tile before

---
 src/make-topog/make_topog.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 522fe6b..6bbdfde 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -663,6 +663,7 @@ int main(int argc, char* argv[])
     char **tile_files=NULL;
     char history[512], dimx_name[128], dimy_name[128], depth_name[128], level_name[128];
     char gridfile[256], griddir[256];
+    int use_great_circle_algorithm_prev=0;
 
     /* history will be write out as global attribute
        in output file to specify the command line arguments
@@ -694,8 +695,6 @@ int main(int argc, char* argv[])
     nxp = (int *)malloc(ntiles*sizeof(int));
     nyp = (int *)malloc(ntiles*sizeof(int));
     for( n = 0; n < ntiles; n++ ) {
-      int use_great_circle_algorithm_prev=0;
-
       tile_files[n] = (char *)malloc(STRING*sizeof(double));
       start[0] = n;
       start[1] = 0;
-- 
2.43.0


From 4765a28b50ca97a20853c8b402dec61d1d969eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 71/75] fix: make_topog computed the idealized topographies of
 the whole grid in arrays of one process' share of it

---
 src/make-topog/make_topog.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 6bbdfde..2e78384 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -763,6 +763,10 @@ int main(int argc, char* argv[])
       mpp_define_layout( nx[n], ny[n], mpp_npes(), layout);
       mpp_define_domain2d( nx[n], ny[n], layout, 0, 0, &domain);
       mpp_get_compute_domain2d( domain, &isc, &iec, &jsc, &jec);
+      if(my_topog_type != REALISTIC) { /* every process computes the whole tile */
+	isc = 0; iec = nx[n]-1;
+	jsc = 0; jec = ny[n]-1;
+      }
       nxc = iec - isc + 1;
       nyc = jec - jsc + 1;
 
@@ -835,7 +839,10 @@ int main(int argc, char* argv[])
 	break;
       }
       gdata = (double *)malloc(nx[n]*ny[n]*sizeof(double));
-      mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      if(my_topog_type == REALISTIC)
+	mpp_global_field_double(domain, nxc, nyc, depth, gdata);
+      else
+	memcpy(gdata, depth, nxc*nyc*sizeof(double));
       mpp_put_var_value(fid, id_depth[n], gdata);
       if(vgrid_file) {
 	double *tmp_double=NULL;
-- 
2.43.0


From 3214317c77b5142562a66b60a626530edb490b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 72/75] fix: make_topog looked up a longitude of the idealized
 topography among as many points as the grid has rows

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 2f7b0ab..03ae101 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -320,7 +320,7 @@ void set_depth(int nx, int ny, const double *xbnd, const double *ybnd, double al
   ie1 = max(i1,i2);
 
   i1  = nearest_index(slon2, xbnd, nx );
-  i2  = nearest_index(elon2, xbnd, ny );
+  i2  = nearest_index(elon2, xbnd, nx );
   is2 = min(i1,i2);
   ie2 = max(i1,i2);
 
-- 
2.43.0


From 64daf25eb851c3a50bf709aa230db05add151fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:47 +0000
Subject: [PATCH 73/75] fix: make_topog overflowed its buffers on long file
 names and command lines

---
 src/make-topog/make_topog.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 2e78384..f200eba 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -293,7 +293,7 @@ char tagname[] = "$Name: fre-nctools-bronx-10 $";
 int main(int argc, char* argv[])
 {
   char   *mosaic_file = NULL, *topog_file = NULL, *topog_field = NULL;
-  char   topog_type[32] = "realistic", output_file[32] = "topog.nc";
+  char   *topog_type = "realistic", *output_file = "topog.nc";
   int    num_filter_pass = 1;
   int    x_refine = 2, y_refine = 2;
   double bottom_depth = 5000, min_depth = 10, scale_factor = 1;
@@ -396,7 +396,7 @@ int main(int argc, char* argv[])
       mosaic_file = optarg;
       break;
     case 'b':
-      strcpy(topog_type, optarg);
+      topog_type = optarg;
       break;
     case 'X':
       x_refine = atoi(optarg);
@@ -465,7 +465,7 @@ int main(int argc, char* argv[])
       smooth_topo_allow_deepening = 1;
       break;
     case 'o':
-      strcpy(output_file,optarg);
+      output_file = optarg;
       break;
     case 'A':
       jwest_south = atoi(optarg);
@@ -661,7 +661,7 @@ int main(int argc, char* argv[])
     double *depth=NULL, *x=NULL, *y=NULL;
     int *num_levels=NULL;
     char **tile_files=NULL;
-    char history[512], dimx_name[128], dimy_name[128], depth_name[128], level_name[128];
+    char *history=NULL, dimx_name[128], dimy_name[128], depth_name[128], level_name[128];
     char gridfile[256], griddir[256];
     int use_great_circle_algorithm_prev=0;
 
@@ -669,6 +669,11 @@ int main(int argc, char* argv[])
        in output file to specify the command line arguments
     */
 
+    {
+      size_t history_len = 1;
+      for(i=0;i<argc;i++) history_len += strlen(argv[i]) + 1;
+      history = (char *)malloc(history_len);
+    }
     strcpy(history,argv[0]);
 
     for(i=1;i<argc;i++) {
@@ -875,6 +880,7 @@ int main(int argc, char* argv[])
     free(ny);
     free(nxp);
     free(nyp);
+    free(history);
   }
 
   if(mpp_pe() == mpp_root_pe() && verbose ) printf("Successfully generate %s\n",output_file);
-- 
2.43.0


From 10667b8c987bc57e4c9f1535dbf7002a87138514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:09 +0000
Subject: [PATCH 74/75] fix: nearest_index read past the end of an array of one
 element

---
 lib/libfrencutils/mosaic_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mosaic_util.c b/lib/libfrencutils/mosaic_util.c
index 6a4cd35..4e938e9 100644
--- a/lib/libfrencutils/mosaic_util.c
+++ b/lib/libfrencutils/mosaic_util.c
@@ -87,7 +87,7 @@ int nearest_index(double value, const double *array, int ia)
     if (array[i] < array[i-1])
       error_handler("nearest_index: array must be monotonically increasing");
   }
-  if (value < array[0] )
+  if (value <= array[0] )
     index = 0;
   else if ( value > array[ia-1])
     index = ia-1;
-- 
2.43.0


From 5dbe0c4ffd2dc3fd79b10513b658e45dbe3d3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:54 +0000
Subject: [PATCH 75/75] fix: make_topog misread the missing value of an integer
 topography

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 03ae101..5b69ef2 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -406,7 +406,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   xc_src    = (double *)malloc(nxp_src*sizeof(double));
   yc_src    = (double *)malloc(nyp_src*sizeof(double));
 
-  mpp_get_var_att(fid, vid, "missing_value", &missing);
+  mpp_get_var_att_double(fid, vid, "missing_value", &missing);
   vid = mpp_get_varid(fid, xname);
   mpp_get_var_value(fid, vid, xt_src);
   vid = mpp_get_varid(fid, yname);
-- 
2.43.0

