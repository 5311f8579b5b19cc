From 70e6c6e343b07e6732e263cd2d0e7cc1ce75b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 001/160] fix: getopt_long: keep the operands intact at the --
 terminator

The terminator was consumed twice: optind was moved past it and then the
permutation moved it again, overwriting the operand following -- (or writing
past the end of argv).
---
 vl/getopt_long.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 0e860f3..727c631 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -150,7 +150,6 @@ getopt_long(int argc, char *const argv[],
         place[0] == '-' &&
         place[1] == '\0') {
 
-      optind  = optend ;
       place   = EMSG ;
       ret_val = -1 ;
       goto done_option ;
-- 
2.43.0


From d53a7994cd3b7ba624bc49b8eee964c16abb5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 002/160] fix: getopt_long: treat a lone dash as an operand

A word made of a single dash was parsed as a short option with an empty
name, reading past the end of the string.
---
 vl/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 727c631..7a460e1 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -120,8 +120,8 @@ getopt_long(int argc, char *const argv[],
     /* place points to the candidate option */
     place = argv [optbegin] ;
 
-    /* an option is introduced by '-' */
-    if (place [0] != '-') {
+    /* an option is introduced by '-'; a lone dash is an operand */
+    if (place [0] != '-' || place [1] == '\0') {
       /* this argument is not an option: try next argument */
       ++ optbegin ;
       if (optbegin >= argc) {
-- 
2.43.0


From 3de5b2c0ba299fd49900568a7c35968b79e2724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 003/160] fix: vl_string_parse_protocol: match the whole
 protocol name

A prefix of a supported name (including the empty one) was taken for the
protocol, e.g. 'a://x' was reported as ascii.
---
 vl/stringop.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index 5f92df3..25d7fcf 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -97,10 +97,11 @@ vl_string_parse_protocol (char const *string, int *protocol)
     cpt = string ;
   }
   else {
-    if (strncmp(string, "ascii", cpt - string) == 0) {
+    vl_size length = (vl_size) (cpt - string) ;
+    if (length == 5 && strncmp(string, "ascii", length) == 0) {
       *protocol = VL_PROT_ASCII ;
     }
-    else if (strncmp(string, "bin",   cpt - string) == 0) {
+    else if (length == 3 && strncmp(string, "bin", length) == 0) {
       *protocol = VL_PROT_BINARY ;
     }
     else {
-- 
2.43.0


From 66e42cf0b8645a54900d73ac4975867c53984f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 004/160] fix: vl_string_protocol_name: return the empty string
 when unknown

The function is documented to return the empty string for an unknown
protocol, and callers print the result; it returned a null pointer.
---
 vl/stringop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index 25d7fcf..1f26999 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -134,7 +134,7 @@ vl_string_protocol_name (int protocol)
   case VL_PROT_NONE :
     return "" ;
   default:
-    return 0 ;
+    return "" ;
   }
 }
 
-- 
2.43.0


From 09a9ca149f108cfd089b199e07706ae013eda66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 005/160] fix: vl_pgm_extract_head: accept maximum values below
 65536

The test was inverted: every valid PGM file was refused (and only invalid
ones accepted), so no image could be read.
---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..0fb9734 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if(max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 433f234400847d99faf407007560b2019b301828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 006/160] fix: vl_pgm_extract_head: refuse non positive sizes
 and maximum

A negative width, height or maximum was converted to a huge unsigned number.
---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 0fb9734..74d3a55 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(max_value >= 65536) {
+  if(width < 1 || height < 1 || max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 92365678f105dd4d2aefaa27b325c6e15bf499ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 007/160] fix: vl_pgm_read_new: release the right block once on
 data errors

The pointer to the caller's variable was freed instead of the pixels, and
the file was closed twice.
---
 vl/pgm.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 74d3a55..37318fa 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -414,8 +414,7 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
   }
 
   fclose (f) ;
-- 
2.43.0


From 89ac3ac620fd537f554a5168bb8d1b7c4b4322f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 008/160] fix: vl_pgm_read_new: close the file when refusing 16
 bit images

---
 vl/pgm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/pgm.c b/vl/pgm.c
index 37318fa..cb43dd5 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -407,6 +407,7 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
-- 
2.43.0


From 884415e65cb678a6d5228670005c06af018fa1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 009/160] fix: kdtree: count the leaves of overlapping points
 in the tree depth

---
 vl/kdtree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..229c0c5 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -250,6 +250,7 @@ vl_kdtree_build_recursively
 
   /* additional base case: the maximum variance is equal to 0 (overlapping points) */
   if (forest->splitHeapNumNodes == 0) {
+    if (tree->depth < depth) tree->depth = depth ;
     node->lowerChild = - dataBegin - 1 ;
     node->upperChild = - dataEnd - 1 ;
     return ;
-- 
2.43.0


From 3d6c3335e3f86d927731d700257db4d85ef3d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 010/160] fix: kdtree: bound the distance of a branch with the
 norm of the forest

---
 vl/kdtree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 229c0c5..3884add 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -602,6 +602,7 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
   double x2 = node->splitThreshold ;
   double x3 = node->upperBound ;
   VlKDForestSearchState * searchState ;
+  vl_bool const isL1 = (searcher->forest->distance == VlDistanceL1) ;
 
   searcher->searchNumRecursions ++ ;
 
@@ -690,21 +691,21 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    */
 
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + (isL1 ? vl_abs_d (delta) : delta*delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= isL1 ? vl_abs_d (delta) : delta*delta ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= isL1 ? vl_abs_d (delta) : delta*delta ;
     }
   }
 
-- 
2.43.0


From 0a3e70b338b76a9891d5d25c4ea5096f3b215414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 011/160] fix: vl_imconvcol: handle filters whose support
 excludes the origin

---
 vl/imopv.c      |  7 ++++++-
 vl/imopv_sse2.c | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..c531614 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -168,6 +168,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       srci = src + x - stop * src_stride ;
 
       if (stop > 0) {
+        stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
         if (zeropad) {
           v = 0 ;
         } else {
@@ -188,7 +189,11 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      if (zeropad) {
+        v = 0 ;
+      } else {
+        v = *(src + x + ((signed)src_height - 1) * src_stride) ;
+      }
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..116b99b 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -89,6 +89,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
+          stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
           if (zeropad) {
             v = VSTZ () ;
           } else {
@@ -109,7 +110,11 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        if (zeropad) {
+          v = VSTZ () ;
+        } else {
+          v = * (VTYPE*) (src + x + ((signed)src_height - 1) * src_stride) ;
+        }
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -155,6 +160,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
+          stop = VL_MIN(stop, filt_end - filt_begin + 1) ;
           if (zeropad) {
             v = 0 ;
           } else {
@@ -175,7 +181,11 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        if (zeropad) {
+          v = 0 ;
+        } else {
+          v = *(src + x + ((signed)src_height - 1) * src_stride) ;
+        }
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From c18cb4293f92e492840429230b6e2304142dd62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 012/160] fix: vl_imconvcoltri: do not leak the buffer for an
 empty image

---
 vl/imopv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index c531614..c04a4c7 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -524,13 +524,15 @@ VL_XCAT(vl_imconvcoltri_, SFX)
   vl_bool transp = flags & VL_TRANSPOSE ;
   vl_bool zeropad = (flags & VL_PAD_MASK) == VL_PAD_BY_ZERO ;
   T scale = (T) (1.0 / ((double)filterSize * (double)filterSize)) ;
-  T * buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
-  buffer += filterSize ;
+  T * buffer ;
 
   if (imageHeight == 0) {
     return  ;
   }
 
+  buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
+  buffer += filterSize ;
+
   x = 0 ;
   dheight = (imageHeight - 1) / step + 1 ;
 
-- 
2.43.0


From 8147cd418bf83e6f8a6d6836d319a1de9d77bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 013/160] fix: vl_lapack_dlasv2: right singular vector when the
 off-diagonal entry dominates

---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..aab8750 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -767,7 +767,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        cvt = ft / gt ; svt = 1.0 ;
       }
     }
 
-- 
2.43.0


From 9df51ae0ac4971d4b3e1615d72cd6c33895ae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 014/160] fix: vl_svd2: decompose matrices whose first column
 is null

---
 vl/mathop.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index aab8750..cded9b3 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,13 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    cu1 = 1.0 ;
+    su1 = 0.0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From e96857fb62b91e580d1ebe88ffa327d52126cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 015/160] fix: vl_mser_process: compare the heights of the two
 trees being joined

---
 vl/mser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vl/mser.c b/vl/mser.c
index 4c55db2..2dc085b 100644
--- a/vl/mser.c
+++ b/vl/mser.c
@@ -555,8 +555,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
         vl_mser_pix nr_val = 0 ;
         vl_uint     nr_idx = 0 ;
-        int         hgt   = r [ r_idx] .height ;
-        int         n_hgt = r [nr_idx] .height ;
+        int         hgt ;
+        int         n_hgt ;
 
         /*
           Now we join the two subtrees rooted at
@@ -571,6 +571,9 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
          r_idx = climb(r,   idx) ;
         nr_idx = climb(r, n_idx) ;
 
+        hgt    = r [ r_idx] .height ;
+        n_hgt  = r [nr_idx] .height ;
+
         /*
           At this point we have three possibilities:
 
-- 
2.43.0


From 5e733198fda204986847727378db2439fa84a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 016/160] fix: vl_aibhist: accept the option "hist" and refuse
 others

---
 toolbox/aib/vl_aibhist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 2e604d7..8c1bf97 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -79,7 +79,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     }
     mxGetString(in[IN_OPT], buf, buflen) ;
     buf [buflen - 1] = 0 ;
-    if (!vlmxCompareStringsI("hist", buf)) {
+    if (vlmxCompareStringsI("hist", buf)) {
       mexErrMsgTxt("OPT must be equal to 'hist'") ;
     }
     histmode = 1 ;
-- 
2.43.0


From 945d8f890fca0b7d7d297d5bf637abdb3788ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 017/160] fix: vl_aibhist: weight the leaves by the input
 histogram

---
 toolbox/aib/vl_aibhist.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 8c1bf97..e3b8d88 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -136,11 +136,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
     /* process data */
     for (i = 0 ; i < N ; ++i) {
-      /*int w = 1 ;*/
+      vl_uint32 w = 1 ;
       vl_uint32 x = data [i] ;
 
       if (histmode) {
-        /*w = x ;*/
+        w = x ;
         x = i ;
       }
 
@@ -158,7 +158,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       while (VL_TRUE) {
         vl_uint32 x_ = parents [x -1] ;
         /*     mexPrintf("%u : x_=%u, x=%u\n", i, x_, x) ; */
-        ++ tree [x - 1] ;
+        tree [x - 1] += w ;
         if ((x_ == x) | (x_ == 0) | (x_ == 1)) break ;
         x = x_ ;
       }
-- 
2.43.0


From ef5eff4f9bbd734fae0c54741be7aedaf0e008b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 018/160] fix: vl_aibhist: find the first internal node, to
 refuse data that is not a leaf

---
 toolbox/aib/vl_aibhist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index e3b8d88..3d33ed8 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -95,7 +95,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   {
     char buf [1024] ;
     vl_uint32 max_node = 0 ;
-    vl_uint32 min_node = 0 ;
+    vl_uint32 min_node = P + 1 ;
     vl_uint32 last_leaf = 0 ;
     /*vl_uint32 root = 0 ;*/
 
-- 
2.43.0


From 8f1fd9a67e9072179f726eeece1e33344fde63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 019/160] fix: vl_aib: merging null values first does not
 change the information

---
 toolbox/aib/vl_aib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 33f506b..95c703a 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -179,7 +179,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
       cost [n] = cost [n - (e - ep)] ;
     }
     for (n = c ; n >= a ; --n) {
-      cost [n] = cost [d] ;
+      cost [n] = cost [nvalues - 1] ;
     }
   }
 }
-- 
2.43.0


From 92c72c676d5894985a47a080492f42ec20e916b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:00 +0000
Subject: [PATCH 020/160] fix: vl_aibhist: number the leaves of an input
 histogram from one

---
 toolbox/aib/vl_aibhist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 3d33ed8..5abf807 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -141,7 +141,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
       if (histmode) {
         w = x ;
-        x = i ;
+        x = i + 1 ;
       }
 
       if ((x < 1) | (x > last_leaf)) {
-- 
2.43.0


From 6487f8c5fb56a7a410d8ef4696cfc88b248fee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 021/160] fix: vl_aibcut: keep null nodes of the cut in the map

---
 toolbox/aib/vl_aibcut.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibcut.m b/toolbox/aib/vl_aibcut.m
index 8becf61..4369e25 100644
--- a/toolbox/aib/vl_aibcut.m
+++ b/toolbox/aib/vl_aibcut.m
@@ -97,7 +97,7 @@ short(setdiff(find(parents == 0), cut)) = 0 ;
 % --------------------------------------------------------------------
 
 map             = 1:numel(parents) ;
+map(mu+1:end)   = 0 ;
 map(cut)        = 1:n ;
 map(short >  0) = map(short(short > 0)) ;
 map(short == 0) = 0 ;
-map(mu+1:end)   = 0 ;
-- 
2.43.0


From c41ac2462db1e207c929d6048106b8e1a6e9205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:08 +0000
Subject: [PATCH 022/160] fix: vl_quickshift_process: clear the density before
 accumulating it again

---
 vl/quickshift.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..1f4d620 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -280,6 +280,9 @@ void vl_quickshift_process(VlQS * q)
   R = (int) ceil (3 * sigma) ;
   tR = (int) ceil (tau) ;
 
+  /* the density is accumulated below: start from zero */
+  memset(E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   /* -----------------------------------------------------------------
    *                                                                 n
    * -------------------------------------------------------------- */
-- 
2.43.0


From ca6fa7691353701b39616f125583dbd3dcb5a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 023/160] fix: vl_ikm_train: do not compare the first
 assignments with uninitialised memory

---
 vl/ikmeans_lloyd.tc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..0f197c8 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -38,6 +38,9 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
   vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
 
+  /* no data is assigned yet */
+  memset (asgn, 0xff, sizeof(*asgn) * N) ;
+
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
 
-- 
2.43.0


From 5fabc003c71639441ddd5427ceb58f7c08092753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 024/160] fix: vl_ikm_train: allocate one counter per center,
 not per datum

---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 0f197c8..b1b6465 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   /* no data is assigned yet */
   memset (asgn, 0xff, sizeof(*asgn) * N) ;
-- 
2.43.0


From 99efaef5f39a6125d8a4cbe61a1f1279d0074c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 025/160] fix: vl_ikm_train: keep the centers to which no data
 is assigned

---
 vl/ikmeans_elkan.tc | 3 ++-
 vl/ikmeans_lloyd.tc | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index a655a39..c0daa6e 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -156,7 +156,8 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
         }
       } else {
         for(i = 0 ; i < f->M ; ++i) {
-          /*m_pt[c*M + i] = data[pairs_pt[c].j*M + i] ;*/
+          /* no data: the center does not change */
+          m_pt[c * f->M + i] = f->centers[c * f->M + i] ;
         }
       }
     }
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index b1b6465..f8c609c 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -82,11 +82,12 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
      * ------------------------------------------------------------ */
 
     /* re-compute centers */
-    memset (f->centers, 0, sizeof(*f->centers) * f->M * f->K);
     memset (counts,  0, sizeof(*counts) * f->K);
     for (j = 0; j < N; ++j) {
       vl_uindex this_center = asgn [j] ;
-      ++ counts [this_center] ;
+      if (counts [this_center] ++ == 0) {
+        memset (f->centers + this_center * f->M, 0, sizeof(*f->centers) * f->M);
+      }
       for (i = 0; i < f->M ; ++i) {
         f->centers [this_center * f->M + i] += data[j * f->M + i] ;
       }
-- 
2.43.0


From 663f3219576cfd88ae9c72aaf0ba7bcb52f4a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 026/160] fix: vl_ikm_train: prune with the distances to the
 current center after a reassignment

---
 vl/ikmeans_elkan.tc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index c0daa6e..0734042 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -286,6 +286,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
           ux = u_pt[x] = dist ;
           /* r_pt[x] already 0 */
           asgn[x] = (vl_uint32)c ;
+          cx = c ;
           done = 0 ;
         }
       }
-- 
2.43.0


From d8e25317388409f5f9b1b8aef051cf7d6cf2ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 027/160] fix: vl_hikm_push: do not descend into nodes without
 clusters

---
 vl/hikmeans.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..de7c534 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -263,8 +263,10 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
   /* for each datum */
   for(i = 0 ; i < N ; i++) {
     VlHIKMNode *node = f->root ;
+    /* the path ends early at a node which was given no training data */
+    for (d = 0 ; d < depth ; ++d) asgn[i * depth + d] = (vl_uint32) -1 ;
     d = 0 ;
-    while (node) {
+    while (node && vl_ikm_get_K (node->filter) > 0) {
       vl_uint32 best ;
       vl_ikm_push (node->filter,
                    &best,
-- 
2.43.0


From d8a70972ebf780049164d1a3426684fa3571151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:46 +0000
Subject: [PATCH 028/160] fix: vl_hikm_train: release the previous tree

---
 vl/hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index de7c534..6746955 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -237,6 +237,7 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ;
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From c03fdb31b2bc2544e0173c3d1045e4a200e9447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 029/160] fix: vl_kmeans_new_copy: copy the initialization, the
 energy variation and the energy

---
 vl/kmeans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..3e498cd 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -439,8 +439,10 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
   self->distance = kmeans->distance ;
   self->dataType = kmeans->dataType ;
 
+  self->initialization = kmeans->initialization ;
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
   self->numRepetitions = kmeans->numRepetitions ;
 
   self->dimension = kmeans->dimension ;
@@ -450,6 +452,7 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
 
   self->numTrees = kmeans->numTrees;
   self->maxNumComparisons = kmeans->maxNumComparisons;
+  self->energy = kmeans->energy ;
 
   if (kmeans->centers) {
     vl_size dataSize = vl_get_type_size(self->dataType) * self->dimension * self->numCenters ;
-- 
2.43.0


From 9a023c22098086aa7e06cd9b92f0280b42d07ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 030/160] fix: vl_kmeans_get_energy: record the energy of the
 solution

---
 vl/kmeans.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 3e498cd..9cee502 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1993,16 +1993,19 @@ vl_kmeans_refine_centers
 
   switch (self->dataType) {
     case VL_TYPE_FLOAT :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_f
         (self, (float const *)data, numData) ;
+      break ;
     case VL_TYPE_DOUBLE :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_d
         (self, (double const *)data, numData) ;
+      break ;
     default:
       abort() ;
   }
+  return self->energy ;
 }
 
 
@@ -2092,6 +2095,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 17e5040056f6543a35a94c2b995906cdf5c2b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 031/160] fix: vl_kmeans_refine_centers: allocate one mass per
 center, not per datum

---
 vl/kmeans.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 9cee502..5e7e160 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -841,7 +841,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   vl_uint32 * permutations = NULL ;
   vl_size * numSeenSoFar = NULL ;
   VlRand * rand = vl_get_rand () ;
@@ -900,7 +900,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1021,7 +1021,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
   vl_size numRestartedCenters = 0 ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   if (self->distance == VlDistanceL1) {
@@ -1076,7 +1076,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1174,7 +1174,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
   vl_bool allDone ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   VlRand * rand = vl_get_rand () ;
 
 #if (FLT == VL_TYPE_FLOAT)
@@ -1314,7 +1314,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
     /*                         Compute new centers                  */
     /* ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
 
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < (signed)numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
-- 
2.43.0


From 9fb96b963f2d2e482cdaf230f6ebd8abe9737a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 032/160] fix: vl_kmeans_quantize_ann: update existing
 assignments also when distances are not requested

---
 vl/kmeans.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 5e7e160..99bd00f 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -749,23 +749,19 @@ VL_XCAT(_vl_kmeans_quantize_ann_, SFX)
     for(x = 0 ; x < (signed)numData ; ++x) {
       vl_kdforestsearcher_query (searcher, &neighbor, 1, (TYPE const *) (data + x*self->dimension));
 
-      if (distances) {
-        if(!update) {
-          distances[x] = (TYPE) neighbor.distance;
+      if(!update) {
+        if (distances) distances[x] = (TYPE) neighbor.distance;
+        assignments[x] = (vl_uint32) neighbor.index ;
+      } else {
+        TYPE prevDist = (TYPE) distFn(self->dimension,
+                                      data + self->dimension * x,
+                                      (TYPE*)self->centers + self->dimension *assignments[x]);
+        if (prevDist > (TYPE) neighbor.distance) {
+          if (distances) distances[x] = (TYPE) neighbor.distance ;
           assignments[x] = (vl_uint32) neighbor.index ;
         } else {
-          TYPE prevDist = (TYPE) distFn(self->dimension,
-                                        data + self->dimension * x,
-                                        (TYPE*)self->centers + self->dimension *assignments[x]);
-          if (prevDist > (TYPE) neighbor.distance) {
-            distances[x] = (TYPE) neighbor.distance ;
-            assignments[x] = (vl_uint32) neighbor.index ;
-          } else {
-            distances[x] = prevDist ;
-          }
+          if (distances) distances[x] = prevDist ;
         }
-      } else {
-        assignments[x] = (vl_uint32) neighbor.index ;
       }
     } /* end for */
   } /* end of parallel region */
-- 
2.43.0


From 24cef3da17d1585ce626963a607b14121f4a6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 033/160] fix: vl_kmeans_quantize_ann: declare the function
 under its name

---
 vl/kmeans.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.h b/vl/kmeans.h
index a3cd176..210cb3e 100644
--- a/vl/kmeans.h
+++ b/vl/kmeans.h
@@ -92,12 +92,12 @@ VL_EXPORT void vl_kmeans_quantize (VlKMeans * self,
                                    void const * data,
                                    vl_size numData) ;
 
-VL_EXPORT void vl_kmeans_quantize_ANN (VlKMeans * self,
+VL_EXPORT void vl_kmeans_quantize_ann (VlKMeans * self,
                                    vl_uint32 * assignments,
                                    void * distances,
                                    void const * data,
                                    vl_size numData,
-                                   vl_size iteration );
+                                   vl_bool update ) ;
 /** @} */
 
 /** @name Advanced data processing
-- 
2.43.0


From cc57975a408678cb1a7829f04d0e430776b424ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 034/160] fix: vl_kmeans_refine_centers: restart L1 centers
 after all the medians are computed

---
 vl/kmeans.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 99bd00f..5081243 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -940,15 +940,15 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
@@ -1116,15 +1116,15 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
-- 
2.43.0


From ba424e2a4ebf64c88b1c4c0b6a251acbc4119066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 035/160] fix: vl_gmm_delete: release the covariance lower
 bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..f0d79cd 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -416,6 +416,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->means) vl_free(self->means);
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->posteriors) vl_free(self->posteriors);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
-- 
2.43.0


From 6be67ab1edfe0e1491cf72a23b75bb44531f5c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 036/160] fix: gmm: release the mode masses after restarting
 the empty modes

---
 vl/gmm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index f0d79cd..a9de270 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -828,7 +828,10 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
 
-  if (numClusters <= 1) { return 0 ; }
+  if (numClusters <= 1) {
+    vl_free(mass) ;
+    return 0 ;
+  }
 
   /* compute statistics */
   {
@@ -996,6 +999,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From aec835751d281c9cc12d95edb690d74c75dfd147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 037/160] fix: vl_gmm_em: store the log-likelihood of the
 solution in the object

---
 vl/gmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index a9de270..66c3539 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1662,13 +1662,13 @@ double vl_gmm_em (VlGMM * self, void const * data, vl_size numData)
 {
   switch (self->dataType) {
     case VL_TYPE_FLOAT:
-      return _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
     case VL_TYPE_DOUBLE:
-      return _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
     default:
       abort() ;
   }
-  return 0 ;
+  return self->LL ;
 }
 
 /** @brief Explicitly set the initial means for EM.
-- 
2.43.0


From 70e78b9683b0f7c2a7d10253081f75186c4615b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 038/160] fix: vl_gmm_new_copy: copy the covariance lower
 bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 66c3539..65eaccf 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1496,6 +1496,7 @@ vl_gmm_new_copy (VlGMM const * self)
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
+  memcpy(gmm->sigmaLowBound, self->sigmaLowBound, sizeof(double)*self->dimension);
   return gmm ;
 }
 
-- 
2.43.0


From a9377a2cbe8676d4bbcde0362e140f3d3012df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 039/160] fix: vl_gmm_cluster: keep the mixture while saving
 the best repetition

Swapping the buffers left the object with uninitialized parameters, from
which the next repetition started with a custom initialization.
---
 vl/gmm.c | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 65eaccf..466f1c5 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1613,23 +1613,10 @@ double vl_gmm_cluster (VlGMM * self,
     }
 
     if (LL > bestLL || repetition == 0) {
-      void * temp ;
-
-      temp = bestPriors ;
-      bestPriors = self->priors ;
-      self->priors = temp ;
-
-      temp = bestMeans ;
-      bestMeans = self->means ;
-      self->means = temp ;
-
-      temp = bestCovariances ;
-      bestCovariances = self->covariances ;
-      self->covariances = temp ;
-
-      temp = bestPosteriors ;
-      bestPosteriors = self->posteriors ;
-      self->posteriors = temp ;
+      memcpy(bestPriors, self->priors, size * self->numClusters) ;
+      memcpy(bestMeans, self->means, size * self->dimension * self->numClusters) ;
+      memcpy(bestCovariances, self->covariances, size * self->dimension * self->numClusters) ;
+      memcpy(bestPosteriors, self->posteriors, size * self->numClusters * numData) ;
 
       bestLL = LL;
     }
-- 
2.43.0


From f6bbd9420d50edb6caa73518f42b82558d59ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:28 +0000
Subject: [PATCH 040/160] fix: vl_sift_process_first_octave: forget the
 gradient of the previous image

The gradient was kept if the octave index had not changed, so that orientations
and descriptors could be those of the image processed before.
---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..8771fa8 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -995,6 +995,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
   /* restart from the first */
   f->o_cur = o_min ;
   f->nkeys = 0 ;
+  f->grad_o = o_min - 1 ;
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
 
-- 
2.43.0


From 5c29b2ef701aa7ae857cdd29e23fa63fc47ee764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:56 +0000
Subject: [PATCH 041/160] fix: vl_sift_process_first_octave: upsample
 non-square images more than once

The second pass works on the transposed image.
---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 8771fa8..43b2776 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1025,7 +1025,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From 51b4bb98438a723cebb738473513c5c059fced99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 042/160] fix: vl_hog_extract: do not accumulate cell norms
 over repeated extractions

The squared cell norms were added to those of the previous extraction, so
extracting twice from the same image gave different features.
---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..93061d0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -869,6 +869,7 @@ vl_hog_extract (VlHog * self, float * features)
    */
   {
     float const * iter = self->hog ;
+    memset(self->hogNorm, 0, sizeof(float) * hogStride) ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
       float * niter = self->hogNorm ;
       float * niterEnd = self->hogNorm + self->hogWidth * self->hogHeight ;
-- 
2.43.0


From b5c06b8c5a4edcedd01e85e7a38c398dbb56dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 043/160] fix: vl_hog_put_polar_field: apply the orientation
 weight once

With bilinear orientation assignment the weight multiplied both the
horizontal and the vertical interpolation weights, hence was squared and
the contributions of a pixel did not sum to its modulus.
---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index 93061d0..0e8bf9b 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From da0f1d5658fecf103c317b0569cfc876701954a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 044/160] fix: vl_dsift_process: accumulate the two votes of a
 gradient

With a single orientation bin both votes of a pixel go to the same bin and
the second overwrote the first, so part of the gradient was lost.
---
 vl/dsift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..539a295 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -712,8 +712,8 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       rbint = nt - bint ;
 
       /* write it back */
-      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] = (    rbint) * mod ;
+      self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] += (1 - rbint) * mod ;
+      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] += (    rbint) * mod ;
     }
   }
 
-- 
2.43.0


From 210c656b7f775db34eab7cf17fb693f0fceb306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 045/160] fix: vl_binsum: refuse an empty VALUES with non-empty
 INDEXES

The check that VALUES is a scalar or as large as INDEXES accepted an
empty VALUES, whose elements were then read past the end.
---
 toolbox/misc/vl_binsum.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 4460c6d..abc3c05 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -97,7 +97,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
   B_end = B_pt + KB ;
 
-  if ((KX != KB) && (KX > 1)) {
+  if ((KX != KB) && (KX != 1)) {
     vlmxError(vlmxErrInvalidArgument,
               "VALUES and INDEXES do not have the same number of elements nor VALUES is a scalar.") ;
   }
-- 
2.43.0


From 0685330f75e25efe3b6b1e46b7d846bbfe084ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 046/160] fix: vl_binsum: compare all the dimensions of INDEXES

The dimensions of INDEXES were compared with those of ACCUMULATOR, and
the stride along DIM computed, only up to the number of dimensions of
VALUES. A scalar VALUES has two, so that with it arrays of three
dimensions or more could have incompatible sizes (writing out of
bounds) and arrays of four got a wrong stride. The check on the number
of dimensions was also wrongly parenthesized, so that INDEXES could
have more dimensions than ACCUMULATOR.
---
 toolbox/misc/vl_binsum.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index abc3c05..540720a 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -163,7 +163,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     if (HD != BD) {
-      if (! (d == HD - 1) && BD == HD - 1) {
+      if (! (d == HD - 1 && BD == HD - 1)) {
         vlmxError(vlmxErrInconsistentData,
                   "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
       }
@@ -180,7 +180,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     srd = 1 ;
 
-    for(k = 0 ; k < (signed) XD ; ++k) {
+    for(k = 0 ; k < (signed) BD ; ++k) {
       if (KX > 1 &&  Xdims[k] != Bdims[k]) {
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
-- 
2.43.0


From 55ae5dae2158075ceff7a978feeedfb3a487f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 047/160] fix: vl_inthist: consider the labels of all the
 layers

The number of labels was guessed from, or compared with, the labels of
the first layer only; larger labels in the next layers wrote out of
bounds.
---
 toolbox/misc/vl_inthist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bab2143..c2a2167 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -147,11 +147,11 @@ mexFunction(int nout, mxArray *out[],
 
   /* If numLabels is not specified, guess it from LABELS */
   if (numLabels == 0) {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       numLabels = VL_MAX(numLabels, labelsPt [k]) ;
     }
   } else {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       if (labelsPt [k] > numLabels) {
         mexErrMsgTxt("LABELS contains an element greater than NUMLABELS.") ;
       }
-- 
2.43.0


From 9f512ab5a8ced37cc00731ee0fb1979e377609c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 048/160] fix: vl_inthist: weight each layer by its own mass

MASS has the same dimensions as LABELS, but the mass of the first layer
was used for all of them (and its number of layers was not checked).
---
 toolbox/misc/vl_inthist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index c2a2167..600f259 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -116,7 +116,7 @@ mexFunction(int nout, mxArray *out[],
         if (mxGetNumberOfDimensions(optArg) != numDims ||
             height != dimsPt [0] ||
             width  != dimsPt [1] ||
-            ((numDims > 2) && numMaps < dimsPt[2])) {
+            ((numDims > 2) && numMaps != dimsPt[2])) {
           mexErrMsgTxt("MASS must have the same dimensions of LABELS.") ;
         }
 
@@ -189,7 +189,7 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < K ; ++ k) {                                      \
         size_t label = *labelsPt++ ;                                    \
         if (label) dataPt [k + (label - 1) * K]                         \
-                     += ((T*)massPt) [k] ;                              \
+                     += ((T*)massPt) [k + q*K] ;                              \
       }                                                                 \
     }                                                                   \
   }                                                                     \
-- 
2.43.0


From 5b56f2f6c4de06b3cfce2b8fc914ca8cdc04556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 049/160] fix: vl_whistc: skip the samples with NaN weight

The documentation says that these samples are skipped, but their weight
was added to the histogram.
---
 toolbox/misc/vl_whistc.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_whistc.m b/toolbox/misc/vl_whistc.m
index c4b0ab3..6c92c3e 100644
--- a/toolbox/misc/vl_whistc.m
+++ b/toolbox/misc/vl_whistc.m
@@ -26,7 +26,7 @@ if numEdges > 0
 end
 
 % NaNs must be also removed
-binIndexes(isnan(x)) = 0 ;
+binIndexes(isnan(x) | isnan(w)) = 0 ;
 
 % find operating dimension
 dimensions = size(x) ;
-- 
2.43.0


From 88c8fb87a8303916159212a4971c931beabcc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:16 +0000
Subject: [PATCH 050/160] fix: vl_erfill: mark the seed as visited

The seed was added to the region a second time by its first neighbour;
besides duplicating it, this wrote past the list of members when the
region covers the whole image.
---
 toolbox/mser/vl_erfill.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 3ae1424..4243148 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -119,6 +119,7 @@ mexFunction(int nout, mxArray *out[],
       mexErrMsgTxt(buff) ;
     }
     members_pt [last++] = idx - 1 ;
+    visited_pt [idx - 1] = 1 ;
   }
   value = I_pt[ members_pt[0] ]  ;
 
-- 
2.43.0


From 00b26ba01d3a2f548c5ee9af22ec084da2e6fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 051/160] fix: vl_svm: keep weighted dual variables feasible
 under rounding

With data weights the SDCA solver added p times the update to alpha, so that
alpha / p could leave the domain of the conjugate loss by a rounding error.
The dual objective was then minus infinity, and the L1 update, which checks
the domain, returned infinity and turned the model into NaN.
---
 vl/svm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..d336dd4 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1933,7 +1933,7 @@ void _vl_svm_sdca_train (VlSvm *self)
   double * norm2 ;
   vl_index * permutation ;
   vl_uindex i, t  ;
-  double inner, delta, multiplier, p ;
+  double inner, delta, alpha, palpha, multiplier, p ;
 
   double startTime = vl_get_cpu_time () ;
   VlRand * rand = vl_get_rand() ;
@@ -1969,14 +1969,18 @@ void _vl_svm_sdca_train (VlSvm *self)
     if (p > 0) {
       inner = self->innerProductFn(self->data, i, self->model) ;
       inner += self->bias * self->biasMultiplier ;
-      delta = p * self->dcaUpdateFn(self->alpha[i] / p, inner, p * norm2[i], self->labels[i]) ;
+      /* multiply by p last: alpha / p must stay in the domain of the conjugate loss */
+      palpha = self->alpha[i] / p ;
+      alpha = p * (palpha + self->dcaUpdateFn(palpha, inner, p * norm2[i], self->labels[i])) ;
+      delta = alpha - self->alpha[i] ;
     } else {
+      alpha = self->alpha[i] ;
       delta = 0 ;
     }
 
     /* apply update */
     if (delta != 0) {
-      self->alpha[i] += delta ;
+      self->alpha[i] = alpha ;
       multiplier = delta / (self->numData * self->lambda) ;
       self->accumulateFn(self->data,i,self->model,multiplier) ;
       self->bias += self->biasMultiplier * multiplier;
-- 
2.43.0


From 4640258759e12fda5c2f323c2fef6a07eb7caea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 052/160] fix: vl_svm: solve the logistic dual update to full
 accuracy

Five bisections and two Newton steps in beta miss optima closer than about
1/64 to 0 or 1 (the step is clipped to the boundary), so SDCA stalled with a
positive duality gap.  Alternate the two with the bracket as safeguard.
---
 vl/svm.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index d336dd4..f4cd3b5 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1823,20 +1823,20 @@ vl_svm_logistic_dca_update (double alpha, double inner, double norm2, double lab
    However, the function is singluar for beta=0 and beta=1 (infinite
    first and second order derivatives). Since the function is monotonic
    (second derivarive always strictly greater than zero) and smooth,
-   we canuse bisection to find the zero crossing of the first derivative.
-   Once one is sufficiently close to the optimum, a one or two Newton
-   steps are sufficien to land on it with excellent accuracy.
+   we can bracket the zero crossing of the first derivative and use
+   bisection whenever a Newton step would leave the bracket.
    */
 
   double  df, ddf, der, dder ;
   vl_index t ;
 
-  /* bisection */
+  /* Newton steps, safeguarded by bisection */
   double beta1 = 0 ;
   double beta2 = 1 ;
   double beta = 0.5 ;
+  double previous ;
 
-  for (t = 0 ; t < 5 ; ++t) {
+  for (t = 0 ; t < 100 ; ++t) {
     df = log(beta) - log(1-beta) ;
     der = norm2 * beta + label * (inner - norm2*alpha) + df ;
     if (der >= 0) {
@@ -1844,20 +1844,13 @@ vl_svm_logistic_dca_update (double alpha, double inner, double norm2, double lab
     } else {
       beta1 = beta ;
     }
-    beta = 0.5 * (beta1 + beta2) ;
-  }
-
-#if 1
-  /* a final Newton step, but not too close to the singularities */
-  for (t = 0 ; (t < 2) & (beta > VL_EPSILON_D) & (beta < 1-VL_EPSILON_D) ; ++t) {
-    df = log(beta) - log(1-beta) ;
     ddf = 1 / (beta * (1-beta)) ;
-    der = norm2 * beta + label * (inner - norm2*alpha) + df ;
     dder = norm2 + ddf ;
+    previous = beta ;
     beta -= der / dder ;
-    beta = VL_MAX(0, VL_MIN(1, beta)) ;
+    if (! (beta1 < beta && beta < beta2)) beta = 0.5 * (beta1 + beta2) ;
+    if (vl_abs_d(beta - previous) <= VL_EPSILON_D * VL_MIN(beta, 1-beta)) break ;
   }
-#endif
 
   return label * beta - alpha ;
 }
-- 
2.43.0


From 0fd10fb7978bf31ad6d8938d9458ce813f1ed19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 053/160] fix: vl_svm_delete: release the scores

---
 vl/svm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index f4cd3b5..2f44b04 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1104,6 +1104,10 @@ vl_svm_delete (VlSvm * self)
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   if (self->ownDataset) {
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
-- 
2.43.0


From 6531bb2f65728c1fde5daaff00499aae3beb5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 054/160] fix: vl_svm: compute the scores of samples with null
 weight

vl_svm_get_scores returns the scores of all the data points, but those with
null weight were left at zero (or at their value in an earlier run).
---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 2f44b04..8fbfea8 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1880,10 +1880,10 @@ void _vl_svm_update_statistics (VlSvm *self)
 
   for (k = 0; k < self->numData ; k++) {
     p = (self->weights) ? self->weights[k] : 1.0 ;
-    if (p <= 0) continue ;
     inner = self->innerProductFn(self->data, k, self->model) ;
     inner += self->bias * self->biasMultiplier ;
     self->scores[k] = inner ;
+    if (p <= 0) continue ;
     self->statistics.loss += p * self->lossFn(inner, self->labels[k]) ;
     if (self->solver == VlSvmSolverSdca) {
 
-- 
2.43.0


From bc80d22796253d75803f54eb9dd49e2d870f44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 055/160] fix: vl_svm: make the SGD solver start from the given
 iteration

vl_svm_set_iteration_number is documented to slow down the learning rate for
a warm start, but the solver ignored the number.
---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 8fbfea8..6546a0b 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2081,7 +2081,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     scores[i] = inner ;
 
     /* apply update */
-    rate = 1.0 /  (self->lambda * (t + t0)) ;
+    rate = 1.0 /  (self->lambda * (self->iteration + t + t0)) ;
     biasRate = rate * self->biasLearningRate ;
     factor *= (1.0 - self->lambda * rate) ;
     biasFactor *= (1.0 - self->lambda * biasRate) ;
-- 
2.43.0


From 62a6615957153a4228d6fc539772ad58f02ef0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 056/160] fix: vl_svmtrain: apply the initial bias after the
 bias multiplier

The initial bias was divided by the default multiplier and then multiplied by
the one given, so that Bias and BiasMultiplier together scaled the bias.
---
 toolbox/misc/vl_svmtrain.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index e62d9c9..0fdca5b 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -557,16 +557,15 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       vl_svm_set_model(svm, mxGetPr(initialModel_array)) ;
     }
 
+    if (epsilon >= 0) vl_svm_set_epsilon(svm, epsilon) ;
+    if (maxNumIterations >= 0) vl_svm_set_max_num_iterations(svm, maxNumIterations) ;
+    if (biasMultipler >= 0) vl_svm_set_bias_multiplier(svm, biasMultipler) ;
     if (! vl_is_nan_d(initialBias)) {
       if (solver != VlSvmSolverNone && solver != VlSvmSolverSgd) {
         vlmxError(vlmxErrInvalidArgument, "BIAS cannot be specified with this type of solver.") ;
       }
       vl_svm_set_bias(svm, initialBias) ;
     }
-
-    if (epsilon >= 0) vl_svm_set_epsilon(svm, epsilon) ;
-    if (maxNumIterations >= 0) vl_svm_set_max_num_iterations(svm, maxNumIterations) ;
-    if (biasMultipler >= 0) vl_svm_set_bias_multiplier(svm, biasMultipler) ;
     if (sgdBiasLearningRate >= 0) vl_svm_set_bias_learning_rate(svm, sgdBiasLearningRate) ;
     if (diagnosticFrequency >= 0) vl_svm_set_diagnostic_frequency(svm, diagnosticFrequency) ;
     if (startingIteration >= 0) vl_svm_set_iteration_number(svm, (unsigned)startingIteration) ;
-- 
2.43.0


From ca71a53f6748d093ce27f04290fb76c26e393402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 057/160] fix: vl_scalespacegeometry_is_equal: compare the
 octave subdivisions

The first subdivision of one geometry was compared to the last one of the
other, so a geometry was usually different from itself.
---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..5cef333 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From 8e3c5e2643e15c49196295cf246b6fcd254d8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 058/160] fix: scalespace: do not write past the level when
 downsampling an odd height

A level has floor(height/step) rows, but ceil(height/step) were written,
which overflows the octave if it has a single level.
---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 5cef333..d6d3a63 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -510,7 +510,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From 5fcb611ead1110597649faa2c42aa7bfa707f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 059/160] fix: scalespace: start a negative octave without
 octave 0

The image was copied to octave 0 first, which does not exist if the last
octave is negative too.
---
 vl/scalespace.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index d6d3a63..6900d36 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -716,14 +716,21 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
    * downscaling as needed.
    */
 
-  level = vl_scalespace_get_level(self, VL_MAX(0, o), self->geom.octaveFirstSubdivision) ;
-  copy_and_downsample(level, image, self->geom.width, self->geom.height, VL_MAX(0, o)) ;
-
-  for (op = -1 ; op >= o ; --op) {
-    VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
-    float *succLevel = vl_scalespace_get_level(self, op + 1, self->geom.octaveFirstSubdivision) ;
-    level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
-    copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+  level = vl_scalespace_get_level(self, o, self->geom.octaveFirstSubdivision) ;
+  if (o >= 0) {
+    copy_and_downsample(level, image, self->geom.width, self->geom.height, o) ;
+  } else {
+    float const *succLevel = image ;
+    float *buffer = NULL ;
+    for (op = -1 ; op >= o ; --op) {
+      VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
+      float *opLevel = (op == o) ? level :
+        vl_malloc(4 * ogeom.width * ogeom.height * sizeof(float)) ;
+      copy_and_upsample(opLevel, succLevel, ogeom.width, ogeom.height) ;
+      if (buffer) vl_free(buffer) ;
+      buffer = opLevel ;
+      succLevel = opLevel ;
+    }
   }
 
   /*
-- 
2.43.0


From d3aaaec3c43546155cb41032a61952b9ad26b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 060/160] fix: vl_covdet_reset: forget the features it releases

The number of features and the size of the buffer were left, so that the
next detection wrote to the released buffer.
---
 vl/covdet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index d3cfa96..784ff6e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1623,6 +1623,8 @@ vl_covdet_reset (VlCovDet * self)
     vl_free(self->features) ;
     self->features = NULL ;
   }
+  self->numFeatures = 0 ;
+  self->numFeatureBufferSize = 0 ;
   if (self->css) {
     vl_scalespace_delete(self->css) ;
     self->css = NULL ;
-- 
2.43.0


From eb84960cfbde6a3f8853156a48e39ea7accec543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 061/160] fix: vl_covdet_put_image: use at least one octave

An image too small for the octaves of 16 pixels got an empty range of octaves
and a scale space written beyond its buffers.
---
 vl/covdet.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 784ff6e..6757505 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1708,10 +1708,11 @@ vl_covdet_put_image (VlCovDet * self,
   assert (height >= 1) ;
 
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
-  lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
+  lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1),0.5) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
       lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
   }
+  lastOctave = VL_MAX(lastOctave, self->firstOctave) ;
 
   if (self->method == VL_COVDET_METHOD_DOG) {
     octaveFirstSubdivision = -1 ;
@@ -1771,6 +1772,11 @@ _vl_det_hessian_response (float * hessian,
 
   float p11, p12, p13, p21, p22, p23, p31, p32, p33;
 
+  if (width < 3 || height < 3) {
+    memset(hessian, 0, sizeof(float) * width * height) ;
+    return ;
+  }
+
   /* setup input pointer to be centered at 0,1 */
   float const *in = image + yo ;
 
@@ -1863,6 +1869,11 @@ _vl_harris_response (float * harris,
   float * LyLy ;
   float * LxLy ;
 
+  if (width < 2 || height < 2) {
+    memset(harris, 0, sizeof(float) * width * height) ;
+    return ;
+  }
+
   LxLx = vl_malloc(sizeof(float) * width * height) ;
   LyLy = vl_malloc(sizeof(float) * width * height) ;
   LxLy = vl_malloc(sizeof(float) * width * height) ;
-- 
2.43.0


From 9ab99ebb0b32d5a7d15f8d9d5d0d288cec36b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 062/160] fix: covdet: continue the image correctly around a
 patch

The last column was replaced by the one before it, a patch above or below the
image was zero, and one on the left of the image overran the buffer.
---
 vl/covdet.c | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 6757505..667144e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2329,12 +2329,6 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
      
       vl_index xi, yi ;
 
-      /* compute the amount of l,r,t,b padding needed to complete the patch */
-      vl_index padx0 = VL_MAX(0, - x0i) ;
-      vl_index pady0 = VL_MAX(0, - y0i) ;
-      vl_index padx1 = VL_MAX(0, x1i - ((signed)width - 1)) ;
-      vl_index pady1 = VL_MAX(0, y1i - ((signed)height - 1)) ;
-
       /* make enough room for the patch */
       vl_index patchWidth = x1i - x0i + 1 ;
       vl_index patchHeight = y1i - y0i + 1 ;
@@ -2344,29 +2338,12 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
         if (err) return vl_set_last_error(VL_ERR_ALLOC, "Unable to allocate data.") ;
       }
 
-      if (pady0 < patchHeight - pady1) {
-        /* start by filling the central horizontal band */
-        for (yi = y0i + pady0 ; yi < y0i + patchHeight - pady1 ; ++ yi) {
-          float *dst = self->patch + (yi - y0i) * patchWidth ;
-          float const *src = level + yi * width + VL_MIN(VL_MAX(0, x0i),(signed)width-1) ;
-          for (xi = x0i ; xi < x0i + padx0 ; ++xi) *dst++ = *src ;
-          for ( ; xi < x0i + patchWidth - padx1 - 2 ; ++xi) *dst++ = *src++ ;
-          for ( ; xi < x0i + patchWidth ; ++xi) *dst++ = *src ;
-        }
-        /* now extend the central band up and down */
-        for (yi = 0 ; yi < pady0 ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + pady0 * patchWidth,
-                 patchWidth * sizeof(float)) ;
+      for (yi = y0i ; yi <= y1i ; ++yi) {
+        float *dst = self->patch + (yi - y0i) * patchWidth ;
+        float const *src = level + VL_MIN(VL_MAX(0, yi),(signed)height-1) * (signed)width ;
+        for (xi = x0i ; xi <= x1i ; ++xi) {
+          *dst++ = src [VL_MIN(VL_MAX(0, xi),(signed)width-1)] ;
         }
-        for (yi = patchHeight - pady1 ; yi < patchHeight ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + (patchHeight - pady1 - 1) * patchWidth,
-                 patchWidth * sizeof(float)) ;
-        }
-      } else {
-        /* should be handled better! */
-        memset(self->patch, 0, self->patchBufferSize) ;
       }
 #if 0
       {
-- 
2.43.0


From 1d812baa507c024b6adb4d096225fc9dfb39d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 063/160] fix: covdet: keep the strongest orientations of a
 feature

The first ones were kept, and more than four overran the buffer.
---
 vl/covdet.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 667144e..9207638 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2714,6 +2714,8 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
   double const binExtent = 2 * VL_PI / VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS ;
   double const peakRelativeSize = VL_COVDET_OR_ADDITIONAL_PEAKS_RELATIVE_SIZE ;
   double maxPeakValue ;
+  VlCovDetFeatureOrientation peaks [VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS] ;
+  vl_size numPeaks = 0 ;
 
   double A [2*2] = {frame.a11, frame.a21, frame.a12, frame.a22} ;
   double T [2] = {frame.x, frame.y} ;
@@ -2830,21 +2832,24 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
         /* the axis to the right is y, measure orientations from this */
         th = th - VL_PI/2 ;
       }
-      self->orientations[*numOrientations].angle = th ;
-      self->orientations[*numOrientations].score = h0 ;
-      *numOrientations += 1 ;
+      peaks[numPeaks].angle = th ;
+      peaks[numPeaks].score = h0 ;
+      numPeaks += 1 ;
       //VL_PRINTF("%d %g\n", *numOrientations, th) ;
-
-      if (*numOrientations >= self->maxNumOrientations) break ;
     }
   }
 
   /* sort the orientations by decreasing scores */
-  qsort(self->orientations,
-        *numOrientations,
+  qsort(peaks,
+        numPeaks,
         sizeof(VlCovDetFeatureOrientation),
         _vl_covdet_compare_orientations_descending) ;
 
+  *numOrientations = VL_MIN(numPeaks, self->maxNumOrientations) ;
+  *numOrientations = VL_MIN(*numOrientations, VL_COVDET_MAX_NUM_ORIENTATIONS) ;
+  memcpy(self->orientations, peaks,
+         *numOrientations * sizeof(VlCovDetFeatureOrientation)) ;
+
   return self->orientations ;
 }
 
-- 
2.43.0


From 8f2cd2077c9f46a850fbe73ba2c25f323b3272c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:44 +0000
Subject: [PATCH 064/160] fix: covdet: compute at most the requested number of
 octaves

With the image doubled, two more octaves than requested were used.
---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 9207638..491122f 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1710,7 +1710,7 @@ vl_covdet_put_image (VlCovDet * self,
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
   lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1),0.5) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
-      lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
+      lastOctave = VL_MIN(self->firstOctave + (vl_index)self->numOctaves - 1, lastOctave);
   }
   lastOctave = VL_MAX(lastOctave, self->firstOctave) ;
 
-- 
2.43.0


From cf4dc4408a4fa93f04dfebe35ed15dc3c8d62202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:25 +0000
Subject: [PATCH 065/160] fix: covdet: handle mirrored frames

vl_svd2 gives a negative singular value for them, which selected the coarsest
level of the scale space and disabled the limit to the anisotropy.
---
 vl/covdet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 491122f..4adf19c 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2238,6 +2238,8 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
    Given the range of octave availables, do the best you can.
    */
 
+  d1 = vl_abs_d(d1) ;
+  d2 = vl_abs_d(d2) ;
   factor = 1.0 / VL_MIN(d1, d2) ;
 
   for (o = geom.firstOctave + 1 ; o <= geom.lastOctave ; ++o) {
@@ -2496,7 +2498,7 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
 
     /* A = U D V' */
     vl_svd2(D, U, V, A) ;
-    anisotropy = VL_MAX(D[0]/D[3], D[3]/D[0]) ;
+    anisotropy = VL_MAX(vl_abs_d(D[0]/D[3]), vl_abs_d(D[3]/D[0])) ;
 
     /* VL_PRINTF("anisot: %g\n", anisotropy); */
 
-- 
2.43.0


From 08940d96cb56263ce85740972730553cc29994f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:33 +0000
Subject: [PATCH 066/160] fix: covdet: a saddle of zero trace has an infinite
 edge score

Its ratio is a negative zero, so that it got the score -1 and was kept.
---
 vl/covdet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 4adf19c..2b932b5 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1288,7 +1288,7 @@ vl_refine_local_extreum_3 (VlCovDetExtremum3 * refined,
     double alpha = (Dxx+Dyy)*(Dxx+Dyy) / (Dxx*Dyy - Dxy*Dxy) ;
     double edgeScore ;
 
-    if (alpha < 0) {
+    if (Dxx*Dyy - Dxy*Dxy <= 0) {
       /* not an extremum */
       edgeScore = VL_INFINITY_D ;
     } else {
@@ -1400,7 +1400,7 @@ vl_refine_local_extreum_2 (VlCovDetExtremum2 * refined,
     double alpha = (Dxx+Dyy)*(Dxx+Dyy) / (Dxx*Dyy - Dxy*Dxy) ;
     double edgeScore ;
 
-    if (alpha < 0) {
+    if (Dxx*Dyy - Dxy*Dxy <= 0) {
       /* not an extremum */
       edgeScore = VL_INFINITY_D ;
     } else {
-- 
2.43.0


From 1e8c0d9d9b483cc5d75bb63c36c86fb946608d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:36 +0000
Subject: [PATCH 067/160] fix: covdet: keep the smaller axis of a mirrored
 frame

The affine adaptation compared signed singular values.
---
 vl/covdet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 2b932b5..af5a84e 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2510,10 +2510,10 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
     /* make sure that the smallest singluar value stays fixed
        after the first iteration */
     if (iter == 0) {
-      referenceScale = VL_MIN(D[0], D[3]) ;
+      referenceScale = VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
       factor = 1.0 ;
     } else {
-      factor = referenceScale / VL_MIN(D[0],D[3]) ;
+      factor = referenceScale / VL_MIN(vl_abs_d(D[0]), vl_abs_d(D[3])) ;
     }
 
     D[0] *= factor ;
-- 
2.43.0


From d551cd329e9092843c9f5d1ed164cd4843e75179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:22 +0000
Subject: [PATCH 068/160] fix: kdforest: release the previous trees when
 building again

Building a forest twice leaked the trees of the first build, and the searchers
kept buffers sized for the previous data, which a query then overran.
---
 vl/kdtree.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 3884add..597688b 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -453,13 +453,13 @@ vl_kdforest_get_searcher (VlKDForest const * self, vl_uindex pos)
 }
 
 /** ------------------------------------------------------------------
- ** @brief Delete KDForest object
- ** @param self KDForest object to delete
- ** @sa ::vl_kdforest_new
+ ** @internal
+ ** @brief Delete the searchers and the trees of a forest
+ ** @param self KDForest object.
  **/
 
-void
-vl_kdforest_delete (VlKDForest * self)
+static void
+vl_kdforest_clear (VlKDForest * self)
 {
   vl_uindex ti ;
   VlKDForestSearcher * searcher ;
@@ -477,7 +477,20 @@ vl_kdforest_delete (VlKDForest * self)
       }
     }
     vl_free (self->trees) ;
+    self->trees = NULL ;
   }
+}
+
+/** ------------------------------------------------------------------
+ ** @brief Delete KDForest object
+ ** @param self KDForest object to delete
+ ** @sa ::vl_kdforest_new
+ **/
+
+void
+vl_kdforest_delete (VlKDForest * self)
+{
+  vl_kdforest_clear (self) ;
   vl_free (self) ;
 }
 
@@ -525,6 +538,9 @@ vl_kdtree_calc_bounds_recursively (VlKDTree * tree,
  ** unchanged for the lifespan of the object.
  **
  ** The number of data points @c numData must not be smaller than one.
+ **
+ ** If the forest has been built already, the previous trees and the
+ ** searchers are deleted first.
  **/
 
 void
@@ -537,7 +553,8 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
   assert(data) ;
   assert(numData >= 1) ;
 
-  /* need to check: if alredy built, clean first */
+  /* if already built, clean first */
+  vl_kdforest_clear (self) ;
   self->data = data ;
   self->numData = numData ;
   self->trees = vl_malloc (sizeof(VlKDTree*) * self->numTrees) ;
-- 
2.43.0


From 72396a6bc936640034a790b40b1f592fd394a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:22 +0000
Subject: [PATCH 069/160] fix: scalespace: release the octave list when out of
 memory

---
 vl/scalespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 6900d36..16d45af 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -587,6 +587,7 @@ err_alloc_octaves:
       vl_free(self->octaves[o - self->geom.firstOctave]) ;
     }
   }
+  vl_free(self->octaves) ;
 err_alloc_octave_list:
   vl_free(self) ;
 err_alloc_self:
-- 
2.43.0


From 17f214701ae0dc4aba3ea9a3da5bba815a98cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:22 +0000
Subject: [PATCH 070/160] fix: vl_svm_new: fail cleanly when out of memory

---
 vl/svm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 6546a0b..768acb4 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -962,7 +962,13 @@ vl_svm_new (VlSvmSolverType type,
             double lambda)
 {
   VlSvmDataset * dataset = vl_svmdataset_new(VL_TYPE_DOUBLE, (void*)data, dimension, numData) ;
-  VlSvm * self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  VlSvm * self ;
+  if (dataset == NULL) return NULL ;
+  self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  if (self == NULL) {
+    vl_svmdataset_delete(dataset) ;
+    return NULL ;
+  }
   self->ownDataset = dataset ;
   return self ;
 }
@@ -988,6 +994,7 @@ vl_svm_new_with_dataset (VlSvmSolverType solver,
                                              vl_svmdataset_get_num_data(dataset),
                                              labels,
                                              lambda) ;
+  if (self == NULL) return NULL ;
   vl_svm_set_data_functions (self,
                              vl_svmdataset_get_inner_product_function(dataset),
                              vl_svmdataset_get_accumulate_function(dataset)) ;
@@ -1024,6 +1031,8 @@ vl_svm_new_with_abstract_data (VlSvmSolverType solver,
   assert(numData >= 1) ;
   assert(labels) ;
 
+  if (self == NULL) return NULL ;
+
   self->solver = solver ;
 
   self->dimension = dimension ;
@@ -1085,6 +1094,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
-- 
2.43.0


From 2b9557d367e75c72eeac32485f9fa181304b5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 071/160] fix: sift refuses every unreadable image header

A header with malformed meta information (VL_ERR_PGM_INV_META) fell out of
the switch and the driver went on with an uninitialised image structure.
---
 src/sift.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 1de8f33..9a52d85 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -473,15 +473,15 @@ main(int argc, char **argv)
       case  VL_ERR_PGM_IO :
         snprintf(err_msg, sizeof(err_msg),
                  "Cannot read from '%s'.", name) ;
-        err = VL_ERR_IO ;
         break ;
 
-      case VL_ERR_PGM_INV_HEAD :
+      default :
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
-        err = VL_ERR_IO ;
-        goto done ;
+        break ;
       }
+      err = VL_ERR_IO ;
+      goto done ;
     }
 
     if (verbose)
-- 
2.43.0


From a307f0c1351cc34cdc6d8bc2974479de4639f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 072/160] fix: sift reads images with two bytes per pixel

The samples were read as if they were one byte each.
---
 src/sift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 9a52d85..bacea77 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -134,7 +134,7 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
 
     /* conversion */
     for (i = 0 ; i < w * h ; ++i) {
-      buffer [i] = (vl_uint8) pt [i] ;
+      buffer [i] = (vl_uint8) VL_MAX(VL_MIN(pt [i], 255.0F), 0.0F) ;
     }
 
     /* save */
@@ -513,7 +513,11 @@ main(int argc, char **argv)
 
     /* convert data type */
     for (q = 0 ; q < (unsigned) (pim.width * pim.height) ; ++q) {
-      fdata [q] = data [q] ;
+      if (vl_pgm_get_bpp (&pim) == 1) {
+        fdata [q] = data [q] ;
+      } else {
+        fdata [q] = ((vl_uint16*) data) [q] ;
+      }
     }
 
     /* ...............................................................
-- 
2.43.0


From e97b28048f8d6f41c6eb9a27ebf5ef40c39e226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 073/160] fix: mser refuses images with two bytes per pixel

The detector works on bytes; the two bytes of a sample were taken for two
pixels.
---
 src/mser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 61cf75f..eb9ae08 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -359,6 +359,13 @@ main(int argc, char **argv)
              pim. height) ;
     }
 
+    if (vl_pgm_get_bpp (&pim) > 1) {
+      err = VL_ERR_BAD_ARG ;
+      snprintf(err_msg, sizeof(err_msg),
+               "PGM images with more than one byte per pixel are not supported.") ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
-- 
2.43.0


From 6b48f1272cb4a71481c918ecb3d9a348229cf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 074/160] fix: sift clamps the descriptors of the aggregate
 output

Entries of 0.5 or more do not fit a byte; the descriptor output clamps them,
the aggregate output let them wrap.
---
 src/sift.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index bacea77..e85416e 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -744,7 +744,9 @@ main(int argc, char **argv)
             vl_file_meta_put_double (&out, k -> sigma ) ;
             vl_file_meta_put_double (&out, angles [q] ) ;
             for (l = 0 ; l < 128 ; ++l) {
-              vl_file_meta_put_uint8 (&out, (vl_uint8) (512.0 * descr [l])) ;
+              double x = 512.0 * descr[l] ;
+              x = (x < 255.0) ? x : 255.0 ;
+              vl_file_meta_put_uint8 (&out, (vl_uint8) (x)) ;
             }
             if (out.protocol == VL_PROT_ASCII) fprintf(out.file, "\n") ;
           }
-- 
2.43.0


From 352021ac7355e643774400a0672a7b82f96925b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 075/160] fix: sift --read-frames with an empty file computes
 no frame

The driver took the absence of frames for the absence of the option and ran
the detector.
---
 src/sift.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index e85416e..c43ff7b 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -636,7 +636,7 @@ main(int argc, char **argv)
       printf ("sift:   magnif                = %g\n",
               vl_sift_get_magnif       (filt)) ;
       printf ("sift: will source frames? %s\n",
-              ikeys ? "yes" : "no") ;
+              ifr.active ? "yes" : "no") ;
       printf ("sift: will force orientations? %s\n",
               force_orientations ? "yes" : "no") ;
     }
@@ -679,7 +679,7 @@ main(int argc, char **argv)
       }
 
       /* run detector ............................................. */
-      if (ikeys == 0) {
+      if (! ifr.active) {
         vl_sift_detect (filt) ;
 
         keys  = vl_sift_get_keypoints     (filt) ;
@@ -701,7 +701,7 @@ main(int argc, char **argv)
         VlSiftKeypoint const *k ;
 
         /* obtain keypoint orientations ........................... */
-        if (ikeys) {
+        if (ifr.active) {
           vl_sift_keypoint_init (filt, &ik,
                                  ikeys [4 * i + 0],
                                  ikeys [4 * i + 1],
-- 
2.43.0


From 0a9bfee90df663300eb9c3c0247aeb3659299368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 076/160] fix: binary files of frames can be read to their end

The end of a binary file was reported as a malformed file, so that
--read-frames=bin://... always failed.
---
 src/generic-driver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 2d74a44..5b862b2 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -250,8 +250,9 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
     break ;
 
   case VL_PROT_BINARY :
-    n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return VL_ERR_BAD_ARG ;
+    n = fread (&y, 1, sizeof(double), self -> file) ;
+    if (n == 0 && feof(self -> file)) return VL_ERR_EOF ;
+    if (n < sizeof(double)) return VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
-- 
2.43.0


From e702bd6ce618ef7e3d564bc2b68574271eb36884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:04 +0000
Subject: [PATCH 077/160] fix: sift refuses a frame file whose last frame is
 incomplete

A frame without its orientation was silently dropped, although one without
its scale is an error.
---
 src/sift.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index c43ff7b..f93884a 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -558,9 +558,7 @@ main(int argc, char **argv)
         else QERR ;
         err = vl_file_meta_get_double (&ifr, &y ) ; QERR ;
         err = vl_file_meta_get_double (&ifr, &s ) ; QERR ;
-        err = vl_file_meta_get_double (&ifr, &th) ;
-        if   (err == VL_ERR_EOF) break;
-        else QERR ;
+        err = vl_file_meta_get_double (&ifr, &th) ; QERR ;
 
         /* make enough space */
         if (ikeys_size < nikeys + 1) {
-- 
2.43.0


From bb26c22b88a0942631730603fe195eb072d41c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 078/160] fix: mser writes its outputs in the format of their
 file specifier

The protocol was parsed and ignored: bin:// files were written as text. The
binary data is written in the byte order of the sift driver.
---
 src/generic-driver.h | 35 +++++++++++++++++++++++++++++++++++
 src/mser.c           | 40 +++++++++++++++++++++++++---------------
 2 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 5b862b2..d99eebd 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -221,6 +221,41 @@ vl_file_meta_put_uint8 (VlFileMeta *self, vl_uint8 x)
   return VL_ERR_OK ;
 }
 
+/* ----------------------------------------------------------------- */
+/** @brief Write 32 bit integer to file
+ **
+ ** @param self   File meta information.
+ ** @param x    Datum to write.
+ **
+ ** @return error code. The function returns ::VL_ERR_ALLOC if the
+ ** datum cannot be written.
+ **/
+
+VL_INLINE int
+vl_file_meta_put_int32 (VlFileMeta *self, vl_int32 x)
+{
+  size_t n ;
+  vl_int32 y ;
+
+  switch (self -> protocol) {
+
+  case VL_PROT_ASCII :
+    if (fprintf (self -> file, "%d ", x) < 0) return VL_ERR_ALLOC ;
+    break ;
+
+  case VL_PROT_BINARY :
+    vl_swap_host_big_endianness_4 (&y, &x) ;
+    n = fwrite (&y, sizeof(vl_int32), 1, self -> file) ;
+    if (n < 1) return VL_ERR_ALLOC ;
+    break ;
+
+  default :
+    abort() ;
+  }
+
+  return VL_ERR_OK ;
+}
+
 /* ----------------------------------------------------------------- */
 /** @brief Read double from file
  **
diff --git a/src/mser.c b/src/mser.c
index eb9ae08..fd81e70 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -83,6 +83,26 @@ struct option const longopts [] = {
 } ;
 
 
+/* ----------------------------------------------------------------- */
+/** @brief Save frames on disk
+ ** @internal
+ **/
+static void
+save_frames (VlFileMeta * fm, float const * frames, int nframes, int dof)
+{
+  int i, j ;
+  for (i = 0 ; i < nframes ; ++i) {
+    for (j = 0 ; j < dof ; ++j) {
+      if (fm->protocol == VL_PROT_ASCII) {
+        fprintf(fm->file, "%f ", *frames++) ;
+      } else {
+        vl_file_meta_put_double (fm, *frames++) ;
+      }
+    }
+    if (fm->protocol == VL_PROT_ASCII) fprintf(fm->file, "\n") ;
+  }
+}
+
 /* ----------------------------------------------------------------- */
 /** @brief MSER driver entry point
  **/
@@ -287,7 +307,7 @@ main(int argc, char **argv)
     enum            {ndims = 2} ;
     int              dims [ndims] ;
     int              nregions = 0, nregionsinv = 0, nframes = 0, nframesinv =0;
-    int              i, j, dof ;
+    int              i, dof ;
     vl_size          q ;
     FILE            *in = 0 ;
 
@@ -429,7 +449,7 @@ main(int argc, char **argv)
 
       if (piv.active) {
         for (i = 0 ; i < nregions ; ++i) {
-          fprintf(piv.file, "%d ", regions [i]) ;
+          vl_file_meta_put_int32 (&piv, (vl_int32) regions [i]) ;
         }
       }
 
@@ -439,12 +459,7 @@ main(int argc, char **argv)
         nframes = vl_mser_get_ell_num (filt) ;
         dof     = vl_mser_get_ell_dof (filt) ;
         frames  = vl_mser_get_ell     (filt) ;
-        for (i = 0 ; i < nframes ; ++i) {
-          for (j = 0 ; j < dof ; ++j) {
-            fprintf(frm.file, "%f ", *frames++) ;
-          }
-          fprintf(frm.file, "\n") ;
-        }
+        save_frames (&frm, frames, nframes, dof) ;
       }
     }
     if (bright_on_dark)
@@ -471,7 +486,7 @@ main(int argc, char **argv)
 
       if (piv.active) {
         for (i = 0 ; i < nregionsinv ; ++i) {
-          fprintf(piv.file, "%d ", -regionsinv [i]) ;
+          vl_file_meta_put_int32 (&piv, - (vl_int32) regionsinv [i]) ;
         }
       }
 
@@ -481,12 +496,7 @@ main(int argc, char **argv)
         nframesinv = vl_mser_get_ell_num (filtinv) ;
         dof        = vl_mser_get_ell_dof (filtinv) ;
         framesinv  = vl_mser_get_ell     (filtinv) ;
-        for (i = 0 ; i < nframesinv ; ++i) {
-          for (j = 0 ; j < dof ; ++j) {
-            fprintf(frm.file, "%f ", *framesinv++) ;
-          }
-          fprintf(frm.file, "\n") ;
-        }
+        save_frames (&frm, framesinv, nframesinv, dof) ;
       }
     }
 
-- 
2.43.0


From f3890a2da8882d3d9405bcf1659d8d5cad83eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 079/160] fix: sift and mser report the outputs they could not
 write

The outcome of writing was ignored, so that with a full device the programs
left truncated files and succeeded. Close the files checking that all the
data reached them.
---
 src/generic-driver.h | 14 ++++++++++----
 src/mser.c           | 10 +++++++---
 src/sift.c           | 15 ++++++++++-----
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index d99eebd..6e6e14d 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -140,14 +140,20 @@ vl_file_meta_open (VlFileMeta * self, char const * basename, char const * mode)
 /** @brief Close the file associated to meta information
  **
  ** @param self File meta information.
+ **
+ ** @return error code. The function returns ::VL_ERR_IO if there was an
+ ** error in accessing the file.
  **/
-static void
+static int
 vl_file_meta_close (VlFileMeta * self)
 {
+  int err = VL_ERR_OK ;
   if (self -> file) {
-    fclose (self -> file) ;
+    if (ferror (self -> file)) err = VL_ERR_IO ;
+    if (fclose (self -> file)) err = VL_ERR_IO ;
     self -> file = 0 ;
   }
+  return err ;
 }
 
 /* ----------------------------------------------------------------- */
@@ -170,7 +176,7 @@ vl_file_meta_put_double (VlFileMeta * self, double x)
   switch (self -> protocol) {
 
   case VL_PROT_ASCII :
-    err = fprintf (self -> file, "%g ", x) ;
+    err = fprintf (self -> file, "%g ", x) < 0 ;
     break ;
 
   case VL_PROT_BINARY :
@@ -206,7 +212,7 @@ vl_file_meta_put_uint8 (VlFileMeta *self, vl_uint8 x)
 
   case VL_PROT_ASCII :
     err = fprintf (self -> file, "%d ", x) ;
-    if (err) return VL_ERR_ALLOC ;
+    if (err < 0) return VL_ERR_ALLOC ;
     break ;
 
   case VL_PROT_BINARY :
diff --git a/src/mser.c b/src/mser.c
index fd81e70..fbe315c 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -540,9 +540,13 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&piv) ;
-    vl_file_meta_close (&met) ;
+    if ((vl_file_meta_close (&frm) |
+         vl_file_meta_close (&piv) |
+         vl_file_meta_close (&met)) && ! err) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "Could not write the output files of '%s'.", name) ;
+    }
 
     /* if bad print error message */
     if (err) {
diff --git a/src/sift.c b/src/sift.c
index f93884a..99eda11 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -150,7 +150,8 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
       printf("sift: saved gss level to '%s'\n", fm -> name) ;
     }
 
-    vl_file_meta_close (fm) ;
+    err = vl_file_meta_close (fm) ;
+    if (err) goto save_gss_quit ;
   }
 
  save_gss_quit : ;
@@ -818,10 +819,14 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&out) ;
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&dsc) ;
-    vl_file_meta_close (&met) ;
+    if ((vl_file_meta_close (&out) |
+         vl_file_meta_close (&frm) |
+         vl_file_meta_close (&dsc) |
+         vl_file_meta_close (&met)) && ! err) {
+      err = VL_ERR_IO ;
+      snprintf(err_msg, sizeof(err_msg),
+               "Could not write the output files of '%s'.", name) ;
+    }
     vl_file_meta_close (&gss) ;
     vl_file_meta_close (&ifr) ;
 
-- 
2.43.0


From ea3c3cbd89033734a026396a50d05713865df92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 080/160] fix: file specifiers: %% stands for the character %

vlfeat(7) documents it; each of the two characters was replaced by the
basename.
---
 src/generic-driver.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 6e6e14d..4f7e512 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -111,17 +111,23 @@ vl_file_meta_parse (VlFileMeta * self, char const * optarg)
 static int
 vl_file_meta_open (VlFileMeta * self, char const * basename, char const * mode)
 {
-  vl_size q ;
+  vl_size q = 0 ;
+  char const * p ;
 
   if (! self->active) {
     return VL_ERR_OK ;
   }
 
-  q = vl_string_replace_wildcard (self->name,
-                                  sizeof(self->name),
-                                  self -> pattern,
-                                  '%', '\0',
-                                  basename) ;
+  /* %% is a plain %, any other % is the wildcard */
+  self->name[0] = 0 ;
+  for (p = self->pattern ; *p && q < sizeof(self->name) ; ++p) {
+    if (p[0] == '%' && p[1] != '%') {
+      q += vl_string_copy (self->name + q, sizeof(self->name) - q, basename) ;
+    } else {
+      if (p[0] == '%') ++p ;
+      q += vl_string_copy_sub (self->name + q, sizeof(self->name) - q, p, p + 1) ;
+    }
+  }
 
   if (q >= sizeof(self->name)) {
     return vl_set_last_error (VL_ERR_OVERFLOW, NULL) ;
-- 
2.43.0


From a80feb4918e1ea61af3f4e3e416f0fb029060e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:45 +0000
Subject: [PATCH 081/160] fix: sift and mser refuse empty numeric arguments

sscanf returns EOF, not 0, when the argument is empty, and the option was
silently ignored.
---
 src/mser.c | 14 +++++++-------
 src/sift.c | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index fbe315c..cf25352 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -184,7 +184,7 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0)
+      if (n < 1 || delta < 0)
         ERRF("The argument of '%s' must be a non-negative number.",
             argv [optind - 1]) ;
       break ;
@@ -192,25 +192,25 @@ main(int argc, char **argv)
       /* ........................................................... */
     case opt_max_area :
       n = sscanf (optarg, "%lf", &max_area) ;
-      if (n == 0 || max_area < 0 || max_area > 1)
+      if (n < 1 || max_area < 0 || max_area > 1)
         ERR("max-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_min_area :
       n = sscanf (optarg, "%lf", &min_area) ;
-      if (n == 0 || min_area < 0 || min_area > 1)
+      if (n < 1 || min_area < 0 || min_area > 1)
         ERR("min-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_max_variation :
       n = sscanf (optarg, "%lf", &max_variation) ;
-      if (n == 0 || max_variation < 0)
+      if (n < 1 || max_variation < 0)
         ERR("max-variation argument must be non-negative.") ;
       break ;
 
     case opt_min_diversity :
       n = sscanf (optarg, "%lf", &min_diversity) ;
-      if (n == 0 || min_diversity < 0 || min_diversity > 1)
+      if (n < 1 || min_diversity < 0 || min_diversity > 1)
         ERR("min-diversity argument must be in the [0,1] range.") ;
       break ;
 
@@ -238,13 +238,13 @@ main(int argc, char **argv)
 
     case opt_bright :
       n = sscanf (optarg, "%d", &bright_on_dark) ;
-      if (n == 0 || (bright_on_dark != 0 && bright_on_dark != 1))
+      if (n < 1 || (bright_on_dark != 0 && bright_on_dark != 1))
         ERR("bright_on_dark must be 0 or 1.") ;
       break ;
 
     case opt_dark :
       n = sscanf (optarg, "%d", &dark_on_bright) ;
-      if (n == 0 || (dark_on_bright != 0 && dark_on_bright != 1))
+      if (n < 1 || (dark_on_bright != 0 && dark_on_bright != 1))
         ERR("dark_on_bright must be 0 or 1.") ;
       break ;
 
diff --git a/src/sift.c b/src/sift.c
index 99eda11..e652d5e 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -309,7 +309,7 @@ main(int argc, char **argv)
     case 'O' :
       /* --octaves ............................................... */
       n = sscanf (optarg, "%d", &O) ;
-      if (n == 0 || O < 0)
+      if (n < 1 || O < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -317,7 +317,7 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n == 0 || S < 0)
+      if (n < 1 || S < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -325,7 +325,7 @@ main(int argc, char **argv)
     case opt_first_octave :
       /* --first-octave ......................................... */
       n = sscanf (optarg, "%d", &omin) ;
-      if (n == 0)
+      if (n < 1)
         ERRF("The argument of '%s' must be an integer.",
             argv [optind - 1]) ;
       break ;
@@ -335,7 +335,7 @@ main(int argc, char **argv)
     case opt_edge_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &edge_thresh) ;
-      if (n == 0 || edge_thresh < 1)
+      if (n < 1 || edge_thresh < 1)
         ERRF("The argument of '%s' must be not smaller than 1.",
             argv [optind - 1]) ;
       break ;
@@ -343,7 +343,7 @@ main(int argc, char **argv)
     case opt_peak_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &peak_thresh) ;
-      if (n == 0 || peak_thresh < 0)
+      if (n < 1 || peak_thresh < 0)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
@@ -351,7 +351,7 @@ main(int argc, char **argv)
     case opt_magnif :
       /* --magnif  .............................................. */
       n = sscanf (optarg, "%lf", &magnif) ;
-      if (n == 0 || magnif < 1)
+      if (n < 1 || magnif < 1)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
-- 
2.43.0


From 80995b962fe082a62b4f1c7add41129087b215af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:00 +0000
Subject: [PATCH 082/160] fix: SIFT descriptors of keypoints that cannot be
 described are null

vl_sift_calc_raw_descriptor and vl_sift_calc_keypoint_descriptor returned
without touching the descriptor, so that the sift driver and vl_sift wrote
whatever was in their buffer for frames next to the image border.
---
 vl/sift.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 43b2776..45c355e 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1784,6 +1784,9 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(xi    <  0               ||
      xi    >= w               ||
@@ -1791,9 +1794,6 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
      yi    >= h -    1        )
     return ;
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
@@ -1973,6 +1973,9 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(k->o  != f->o_cur        ||
      xi    <  0               ||
@@ -1988,9 +1991,6 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
 
   /* VL_PRINTF("W = %d ; magnif = %g ; SBP = %g\n", W,magnif,SBP) ; */
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
-- 
2.43.0


From fa5f4ab5f88e6db40190392683c77e2de30b0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 083/160] fix: vl_rodr: keep an unrequested derivative pointer
 null

With several rotations and one output, the null derivative pointer was
advanced after the first rotation and the second one wrote through it.
---
 toolbox/geometry/vl_rodr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 7f3357a..91708e1 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -83,6 +83,6 @@ mexFunction(int nout, mxArray *out[],
     vl_rodrigues(R_pt, dR_pt, om_pt) ;
     om_pt += 3 ;
     R_pt  += 3*3 ;
-    dR_pt += 9*3 ;
+    if (dR_pt) { dR_pt += 9*3 ; }
   }
 }
-- 
2.43.0


From ac47339c50edd40f8e6c56fdbfb2c4a013ecf684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 084/160] fix: vl_irodr: keep an unrequested derivative pointer
 null

With several rotations and one output, the null derivative pointer was
advanced after the first rotation and the second one wrote through it.
---
 toolbox/geometry/vl_irodr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index 11b6d91..c26b83f 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -78,7 +78,7 @@ mexFunction(int nout, mxArray *out[],
   for(k = 0 ; k < K ; ++k) {
     vl_irodrigues(om_pt, dom_pt, R_pt) ;
     om_pt  += 3 ;
-    dom_pt += 3*9 ;
+    if (dom_pt) { dom_pt += 3*9 ; }
     R_pt   += 3*3 ;
   }
 
-- 
2.43.0


From 51824be9717fe90c7a45843e170624c17866681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 085/160] fix: vl_irodr: make room for the logarithms of all
 rotations

The output had three elements whatever the number of rotations, and the
other logarithms were written past its end.
---
 toolbox/geometry/vl_irodr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index c26b83f..db893ba 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   R_pt = mxGetPr(in[IN_R]) ;
 
   /* space for output (OM) */
-  out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  out[OUT_OM] = mxCreateDoubleMatrix(3,K,mxREAL) ;
   om_pt = mxGetPr(out[OUT_OM]) ;
 
   /* space for optional output (dR) */
-- 
2.43.0


From 8292e66c6c8732a71117935055dff636d034af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 086/160] fix: vl_irodrigues: accept a trace rounded above
 three

The inverse cosine of a number larger than one is not a number, and so was
the logarithm of a rotation that rounding makes slightly larger than the
identity.
---
 vl/rodrigues.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 14958c9..abf3d54 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -189,7 +189,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
       ---- = ---------- r,  ---- = ----- [di1 dj3 - di3 dj1].
       dRii     2 sth^2      dRij   2 sth [di1 dj2 - di2 dj1]
 
-      trace(A) < -1 only for small num. errors.
+      trace(A) < -1 or trace(A) > 3 only for small num. errors.
   */
 
 #define OM(i)    om_pt[(i)]
@@ -200,7 +200,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
   const double small = 1e-6 ;
 
   double th = acos
-    (0.5*(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0) - 1.0)) ;
+    (0.5*(VL_MIN(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0),3.0) - 1.0)) ;
 
   double sth = sin(th) ;
   double cth = cos(th) ;
-- 
2.43.0


From 41c2d71161ad2a81c8b72708017f0c0555bfaaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 087/160] fix: vl_irodrigues: accept axes rounded below zero

When the axis of a half turn has a null component, the number whose square
root is the component may be rounded below zero, and the logarithm was not
a number.
---
 vl/rodrigues.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index abf3d54..a94113e 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -233,9 +233,9 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
     W_pt[8] =  0.5*( R(2,2) + R(2,2) ) - 1.0 ;
 
     /* these are only absolute values */
-    x = sqrt( 0.5 * (W(0,0)-W(1,1)-W(2,2)) ) ;
-    y = sqrt( 0.5 * (W(1,1)-W(2,2)-W(0,0)) ) ;
-    z = sqrt( 0.5 * (W(2,2)-W(0,0)-W(1,1)) ) ;
+    x = sqrt( VL_MAX(0.5 * (W(0,0)-W(1,1)-W(2,2)), 0) ) ;
+    y = sqrt( VL_MAX(0.5 * (W(1,1)-W(2,2)-W(0,0)), 0) ) ;
+    z = sqrt( VL_MAX(0.5 * (W(2,2)-W(0,0)-W(1,1)), 0) ) ;
 
     /* set the biggest component to + and use the element of the
     ** matrix W to determine the sign of the other components
-- 
2.43.0


From ba6e1d528fd40db8059a0ce5b13b4cdf9bfd4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:14 +0000
Subject: [PATCH 088/160] fix: vl_rodr: refuse vectors that are not of class
 DOUBLE

Their storage was read as if they were, past its end.
---
 toolbox/geometry/vl_rodr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 91708e1..cff3b03 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -42,7 +42,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_OM],-1,-1)) {
+  if(!vlmxIsPlainMatrix(in[IN_OM],-1,-1)) {
     mexErrMsgTxt("OM must be a DOUBLE array") ;
   }
 
-- 
2.43.0


From 3fe4cefedc257698b0c9dd4495cf44f1c39156aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:14 +0000
Subject: [PATCH 089/160] fix: vl_irodr: refuse matrices that are not of class
 DOUBLE

Their storage was read as if they were, past its end.
---
 toolbox/geometry/vl_irodr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index db893ba..2b17104 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -44,7 +44,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_R],-1,-1)) {
+  if(!vlmxIsPlainMatrix(in[IN_R],-1,-1)) {
     mexErrMsgTxt("R must be a DOUBLE array") ;
   }
 
-- 
2.43.0


From 43565ce1dc329265164f3da585076e0b6861a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 090/160] fix: homkermap: map infinity and other numbers beyond
 the table at once

The mantissa of infinity is infinite and walking the table to it never
ended.
---
 vl/homkermap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index d7e4e9c..4ad19d0 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,6 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
+      mantissa >= 2 ||
       exponent <= self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
-- 
2.43.0


From 36b34b0f3947060886834f22373c2dda91661399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 091/160] fix: homkermap: map the numbers of the first octave
 of the table

The table spans [2^-20, 2^8), but numbers below 2^-19 were treated as zero.
---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 4ad19d0..f2d785a 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -545,7 +545,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
 
   if (mantissa == 0 ||
       mantissa >= 2 ||
-      exponent <= self->minExponent ||
+      exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
       *destination = (T) 0.0 ;
-- 
2.43.0


From 710f552170fce2c403af3a1402a38c84e527f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 092/160] fix: vl_homogeneouskernelmap_new: use the default for
 a null period

This is documented; a null period resulted in features that are not numbers.
---
 vl/homkermap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index f2d785a..f5b8e26 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -316,7 +316,7 @@ vl_homogeneouskernelmap_get_smooth_spectrum (VlHomogeneousKernelMap const * self
  ** The homogeneity degree @c gamma must be positive (the standard
  ** kernels are obtained by setting @c gamma to 1). When unsure, set
  ** @c windowType to ::VlHomogeneousKernelMapWindowRectangular. The @c
- ** period should be non-negative; specifying a negative or null value
+ ** period should be positive; specifying a negative or null value
  ** causes the function to switch to a default value.
  **
  ** The function returns @c NULL if there is not enough free memory.
@@ -342,7 +342,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   assert(windowType == VlHomogeneousKernelMapWindowUniform ||
          windowType == VlHomogeneousKernelMapWindowRectangular) ;
 
-  if (period < 0) {
+  if (period <= 0) {
     switch (windowType) {
     case VlHomogeneousKernelMapWindowUniform:
       switch (kernelType) {
-- 
2.43.0


From a3929f5ad4f8af33325f10f15abe13fc3ab0c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:03 +0000
Subject: [PATCH 093/160] fix: vl_homkermap: arrays may have more than twenty
 dimensions

---
 toolbox/misc/vl_homkermap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c7483fc..3f4715b 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -159,7 +159,7 @@ mexFunction(int nout, mxArray *out[],
     vl_uindex j ;
     vl_size numElements = mxGetNumberOfElements(IN(X)) ;
     VlHomogeneousKernelMap * map = vl_homogeneouskernelmap_new (kernelType, gamma, n, period, windowType) ;
-    mwSize extDimensions [20] ;
+    mwSize * extDimensions = mxMalloc (sizeof(mwSize) * numDimensions) ;
     for (j = 0 ; j < numDimensions ; ++j) extDimensions[j] = dimensions[j] ;
     extDimensions[0] *= 2*n+1 ;
     OUT(V) = mxCreateNumericArray(numDimensions, extDimensions, dataClassId, mxREAL) ;
@@ -187,6 +187,7 @@ mexFunction(int nout, mxArray *out[],
       default:
         abort() ;
     }
+    mxFree (extDimensions) ;
     vl_homogeneouskernelmap_delete (map) ;
   }
 }
-- 
2.43.0


From bb4a98ce8dbbccea19ca59d13651a1dd3900df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:55 +0000
Subject: [PATCH 094/160] fix: vl_roc: stable output: samples that are not
 retrieved have no rates

The curves were as long as the retrieved samples, and growing them filled
the other samples with zeros, or left them out.
---
 toolbox/plotop/vl_roc.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 4f34877..95c5cfd 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -252,8 +252,8 @@ if opts.stable
   tnr(1) = [] ;
   tpr_ = tpr ;
   tnr_ = tnr ;
-  tpr = NaN(size(tpr)) ;
-  tnr = NaN(size(tnr)) ;
+  tpr = NaN(1,numel(labels)) ;
+  tnr = NaN(1,numel(labels)) ;
   tpr(perm) = tpr_ ;
   tnr(perm) = tnr_ ;
 end
-- 
2.43.0


From b46830e44f96e4035f7c12dd0bdd1cb49e5ad605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:55 +0000
Subject: [PATCH 095/160] fix: vl_pr: stable output: samples that are not
 retrieved have no precision

The curves were as long as the retrieved samples, and growing them filled
the other samples with zeros instead of the documented NaN, or left them out.
---
 toolbox/plotop/vl_pr.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/plotop/vl_pr.m b/toolbox/plotop/vl_pr.m
index dfe9971..0954af6 100644
--- a/toolbox/plotop/vl_pr.m
+++ b/toolbox/plotop/vl_pr.m
@@ -217,8 +217,8 @@ if opts.stable
   recall(1) = [] ;
   precision_ = precision ;
   recall_ = recall ;
-  precision = NaN(size(precision)) ;
-  recall = NaN(size(recall)) ;
+  precision = NaN(1,numel(labels)) ;
+  recall = NaN(1,numel(labels)) ;
   precision(perm) = precision_ ;
   recall(perm) = recall_ ;
 end
-- 
2.43.0


From 1c29679222b3294f9a3d1a7430a590dce41e3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:55 +0000
Subject: [PATCH 096/160] fix: vl_pr: do not miss the eleven recall levels by
 rounding

linspace(0,1,11) may contain 0.30000000000000004, which a recall of three
positive samples out of ten does not reach.
---
 toolbox/plotop/vl_pr.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/plotop/vl_pr.m b/toolbox/plotop/vl_pr.m
index 0954af6..08b95b7 100644
--- a/toolbox/plotop/vl_pr.m
+++ b/toolbox/plotop/vl_pr.m
@@ -171,7 +171,7 @@ if nargout > 2 || nargout == 0
 
   % TREC 11 points average interpolated precision
   info.ap_interp_11 = 0.0 ;
-  for rc = linspace(0,1,11)
+  for rc = (0:10) / 10
     pr = max([0, precision(recall >= rc)]) ;
     info.ap_interp_11 = info.ap_interp_11 + pr / 11 ;
   end
-- 
2.43.0


From f094cbf555740a9260d43dd40ab6d3e570ff002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:14 +0000
Subject: [PATCH 097/160] fix: vl_roc: find the equal error rate from the
 counts

The rates are rounded, and a true negative rate equal to the true positive
one could be taken for larger. If this was the last point of the curve the
equal error rate was not found, otherwise its threshold was the next score.
---
 toolbox/plotop/vl_roc.m | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 95c5cfd..d0c534f 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -173,7 +173,9 @@ if nargout > 2 || do_plots
   % possible that neither of the two cases realizes. In the latter
   % case, we return EER=NaN.
 
-  s = max(find(tnr > tpr)) ;
+  % TNR(S) > TPR(S) is checked on the counts, which are exact.
+
+  s = max(find((max(n,1) - fp) * max(p,1) > tp * max(n,1))) ;
   if s == length(tpr)
     info.eer = NaN ;
     info.eerThreshold = 0 ;
-- 
2.43.0


From 0e866da9b2b98b2f7de54821cb62175dd17a606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 098/160] fix: vl_alldist: refuse the metrics it does not have

LINF and L0 are not implemented by the library, and asking for them aborted
the interpreter.
---
 toolbox/misc/vl_alldist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_alldist.c b/toolbox/misc/vl_alldist.c
index 17bf510..1f04ae9 100644
--- a/toolbox/misc/vl_alldist.c
+++ b/toolbox/misc/vl_alldist.c
@@ -116,6 +116,10 @@ mexFunction(int nout, mxArray *out[],
       case opt_KCHI2 : comparisonType = VlKernelChi2 ; break ;
       case opt_KHELL : comparisonType = VlKernelHellinger ; break ;
       case opt_KJS   : comparisonType = VlKernelJS ; break ;
+      case opt_LINF  :
+      case opt_L0    :
+        vlmxError(vlmxErrInvalidArgument, "The metrics LINF and L0 are not supported.") ;
+        break ;
       default:
         abort() ;
     }
-- 
2.43.0


From b2e3ae0794442231da06c026e8fc64214a750201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:06 +0000
Subject: [PATCH 099/160] fix: vl_alldist2: refuse a full X with a sparse Y

Only the opposite was refused, and the storage of the sparse matrix was read
as if it was full, past its end.
---
 toolbox/misc/vl_alldist2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alldist2.c b/toolbox/misc/vl_alldist2.c
index 83bff52..701716e 100644
--- a/toolbox/misc/vl_alldist2.c
+++ b/toolbox/misc/vl_alldist2.c
@@ -316,8 +316,8 @@ mexFunction(int nout, mxArray *out[],
 
   sparse = mxIsSparse(in[IN_S1]) ;
 
-  if (sparse && nin >=2 && mxIsNumeric(in[IN_S2])) {
-    if (! mxIsSparse(in[IN_S2])) {
+  if (! self) {
+    if (sparse != mxIsSparse(in[IN_S2])) {
       mexErrMsgTxt ("X and Y must be either both full or sparse.") ;
     }
   }
-- 
2.43.0


From 43df0839de19386136775e781169a9b7001a7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:46 +0000
Subject: [PATCH 100/160] fix: vl_imwbackward: derivatives on the last row and
 column

The cell after the last sample was read past the end of the grid and of
the image. The last sample belongs to the last cell.
---
 toolbox/imop/vl_imwbackwardmx.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d9e8840..bae7458 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -211,15 +211,7 @@ mexFunction(int nout, mxArray *out[],
 	   y >= Ymin && y <= Ymax) {
 	  int j = findNeighbor(x, X_pt, N) ;
 	  int i = findNeighbor(y, Y_pt, M) ;
-	  double* pt  = I_pt + j*M + i ;
-
-	  /* Weights. */
-	  double x0 = X_pt[j] ;
-	  double x1 = X_pt[j+1] ;
-	  double y0 = Y_pt[i] ;
-	  double y1 = Y_pt[i+1] ;
-	  double wx = (x-x0)/(x1-x0) ;
-	  double wy = (y-y0)/(y1-y0) ;
+	  double *pt, x0, x1, y0, y1, wx, wy ;
 
 	  /* Load all possible neighbors. */
 	  double z00 = 0.0 ;
@@ -227,6 +219,19 @@ mexFunction(int nout, mxArray *out[],
 	  double z01 = 0.0 ;
 	  double z11 = 0.0 ;
 
+	  /* The last sample belongs to the last cell. */
+	  if(j == N-1 && j > 0) -- j ;
+	  if(i == M-1 && i > 0) -- i ;
+	  pt = I_pt + j*M + i ;
+
+	  /* Weights. */
+	  x0 = X_pt[j] ;
+	  x1 = (j < N-1) ? X_pt[j+1] : x0 + 1;
+	  y0 = Y_pt[i] ;
+	  y1 = (i < M-1) ? Y_pt[i+1] : y0 + 1;
+	  wx = (x-x0)/(x1-x0) ;
+	  wy = (y-y0)/(y1-y0) ;
+
 	  if(j > -1) {
 	    if(i > -1 ) z00 = *pt ;
 	    pt++ ;
@@ -243,6 +248,10 @@ mexFunction(int nout, mxArray *out[],
 	    if(i < M-1) z11 = *pt ;
 	  }
 
+	  /* A single row or column has no other neighbors. */
+	  if(i == M-1) { z10 = z00 ; z11 = z01 ; }
+	  if(j == N-1) { z01 = z00 ; z11 = z10 ; }
+
 	  /* Bilinear interpolation. */
 	  z =
 	    (1-wy)*( (1-wx) * z00 + wx * z01) +
-- 
2.43.0


From 6987d6179bd9964fea15426034908bee03f66310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:46 +0000
Subject: [PATCH 101/160] fix: vl_imwbackward: scale the derivatives by the
 size of the grid cells

---
 toolbox/imop/vl_imwbackwardmx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index bae7458..926692c 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -258,12 +258,12 @@ mexFunction(int nout, mxArray *out[],
 	    wy*( (1-wx) * z10 + wx * z11) ;
 
 	  zx =
-	    (1-wy) * (z01 - z00) +
-	       wy  * (z11 - z10) ;
+	    ((1-wy) * (z01 - z00) +
+	        wy  * (z11 - z10)) / (x1 - x0) ;
 
 	  zy =
-	    (1-wx) * (z10 - z00) +
-	       wx  * (z11 - z01) ;
+	    ((1-wx) * (z10 - z00) +
+	        wx  * (z11 - z01)) / (y1 - y0) ;
 	}
 
 	*(wI_pt  + jp*Mp + ip) = z ;
-- 
2.43.0


From 67fc956d98ab799e075ee8dd95c2b22ad4217c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:46 +0000
Subject: [PATCH 102/160] fix: vl_imwbackward: an empty image has no samples

The grid vectors were read before their beginning.
---
 toolbox/imop/vl_imwbackwardmx.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index 926692c..f0008c8 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -130,10 +130,15 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
-  Xmin = X_pt [0] ;
-  Xmax = X_pt [N - 1] ;
-  Ymin = Y_pt [0] ;
-  Ymax = Y_pt [M - 1] ;
+  if (M > 0 && N > 0) {
+    Xmin = X_pt [0] ;
+    Xmax = X_pt [N - 1] ;
+    Ymin = Y_pt [0] ;
+    Ymax = Y_pt [M - 1] ;
+  } else {
+    /* no point is inside the image */
+    Xmin = Xmax = Ymin = Ymax = NaN ;
+  }
 
   if (nout <= 1) {
 
-- 
2.43.0


From 745b37223df601e30df287769eaaeaf4026e5dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:46 +0000
Subject: [PATCH 103/160] fix: vl_imwbackwardmx: accept two output arguments

The third output was stored even if it was not requested.
---
 toolbox/imop/vl_imwbackwardmx.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index f0008c8..2aa9b58 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -122,9 +122,11 @@ mexFunction(int nout, mxArray *out[],
 
   if (nout > 1) {
     out[wIx] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
-    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIx_pt = mxGetPr (out[wIx]) ;
-    wIy_pt = mxGetPr (out[wIy]) ;
+    if (nout > 2) {
+      out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
+      wIy_pt = mxGetPr (out[wIy]) ;
+    }
   }
 
   /* -----------------------------------------------------------------
@@ -273,7 +275,7 @@ mexFunction(int nout, mxArray *out[],
 
 	*(wI_pt  + jp*Mp + ip) = z ;
 	*(wIx_pt + jp*Mp + ip) = zx ;
-	*(wIy_pt + jp*Mp + ip) = zy ;
+	if (wIy_pt) *(wIy_pt + jp*Mp + ip) = zy ;
       }
     }
   }
-- 
2.43.0


From efb4fa6dc37bf8d7e4a53588095b502e4a1e50d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:46 +0000
Subject: [PATCH 104/160] fix: vl_tpsumx: refuse points that are not of class
 DOUBLE

---
 toolbox/imop/vl_tpsumx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_tpsumx.c b/toolbox/imop/vl_tpsumx.c
index 3046437..505c7ce 100644
--- a/toolbox/imop/vl_tpsumx.c
+++ b/toolbox/imop/vl_tpsumx.c
@@ -44,11 +44,11 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if(!vlmxIsMatrix(in[X], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[X], 2, -1)) {
     mexErrMsgTxt("X must be a 2xNP real matrix") ;
   }
 
-  if(!vlmxIsMatrix(in[Y], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[Y], 2, -1)) {
     mexErrMsgTxt("Y must be a 2xNCP real matrix") ;
   }
 
-- 
2.43.0


From fd8da5d9a6ac0d690d4f13d085fef3d133d4dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:29 +0000
Subject: [PATCH 105/160] fix: vlmxIsMatrix: do not read dimensions past the
 last one

The loop looked at dimensions[di] before comparing di with the number of
dimensions, reading past the end of the dimensions of every matrix.
---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..710e74d 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -412,7 +412,7 @@ vlmxIsMatrix (mxArray const * array, vl_index M, vl_index N)
   }
 
   /* ok if any dimension beyond the first two is singleton */
-  for (di = 2 ; ((unsigned)dimensions[di] == 1) && di < numDimensions ; ++ di) ;
+  for (di = 2 ; di < numDimensions && ((unsigned)dimensions[di] == 1) ; ++ di) ;
   return di == numDimensions ;
 }
 
-- 
2.43.0


From 7687af1cadad0eabd652ddf450d04cff497547e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:29 +0000
Subject: [PATCH 106/160] fix: vl_binsum: INDEXES has one element along a
 dimension it does not have

When DIM is the last dimension of ACCUMULATOR INDEXES may have one
dimension less; its size along DIM was then read past its dimensions.
---
 toolbox/misc/vl_binsum.def | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 540720a..f940188 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -145,7 +145,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     __INDEX_T__ const * B_brk ;
     __INDEX_T__ const * B_nbrk ;
 
-    vl_size srd ;
+    vl_size srd, KBd ;
 
     /* We need to check a few more details about the matrices */
     if (d >= HD) {
@@ -231,8 +231,9 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     KH     = Hdims[d] ;
+    KBd    = (d < (vl_size) BD) ? Bdims[d] : 1 ;
     B_brk  = B_pt + srd ;              /* next time case (b) */
-    B_nbrk = B_pt + srd * Bdims [d] ;  /* next time case (c) */
+    B_nbrk = B_pt + srd * KBd ;        /* next time case (c) */
 
     while (B_pt < B_end) {
 
@@ -261,7 +262,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         B_brk += srd ;                     /* next time case (b) */
         H_pt  -= srd ;
         if (B_pt == B_nbrk) {              /* case (c) occurs */
-          B_nbrk += srd * Bdims[d] ;       /* next time case (c) */
+          B_nbrk += srd * KBd ;       /* next time case (c) */
           H_pt   += srd * Hdims[d] ;
         }
       }
-- 
2.43.0


From f51ee005b5522b13e06b29f5aef0212446bbb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 107/160] fix: vl_sift: refuse FRAMES that are not of class
 DOUBLE

The frames are read as doubles.
---
 toolbox/sift/vl_sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..55f0b4b 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -238,7 +238,7 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_frames :
-      if (!vlmxIsMatrix(optarg, 4, -1)) {
+      if (!vlmxIsPlainMatrix(optarg, 4, -1)) {
         mexErrMsgTxt("'Frames' must be a 4 x N matrix.") ;
       }
       ikeys_array = mxDuplicateArray (optarg) ;
-- 
2.43.0


From 6bc8832e93f25b45d1d6cbf9e51c04379eda5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 108/160] fix: vl_siftdescriptor: refuse FRAMES that are not of
 class DOUBLE

The frames are read as doubles.
---
 toolbox/sift/vl_siftdescriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index 649fde4..6cf63f0 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -114,7 +114,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("GRAD must be a 2xMxN matrix of class SINGLE.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_FRAMES], 4, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_FRAMES], 4, -1)) {
     mexErrMsgTxt("FRAMES must be a 4xN matrix.") ;
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
-- 
2.43.0


From 30142b29259d65597dbf5f2d6dd9d2090e572353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 109/160] fix: vl_liop: do not truncate RADIUS to an integer

---
 toolbox/sift/vl_liop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_liop.c b/toolbox/sift/vl_liop.c
index 1f742ad..fa04764 100644
--- a/toolbox/sift/vl_liop.c
+++ b/toolbox/sift/vl_liop.c
@@ -119,7 +119,7 @@ mexFunction(int nout, mxArray *out[],
         break ;
 
       case opt_radius :
-        if (!vlmxIsPlainScalar(optarg) || (radius = (int) *mxGetPr(optarg)) <= 0) {
+        if (!vlmxIsPlainScalar(optarg) || (radius = (float) *mxGetPr(optarg)) <= 0) {
           vlmxError(vlmxErrInvalidArgument,"RADIUS is not a positive scalar.") ;
         }
         break ;
-- 
2.43.0


From 8016b42560a18412987b564442bc77987ff742f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 110/160] fix: vl_dsift: do not store an output that was not
 requested

With a single output the descriptors were stored past the end of the
array of the outputs.
---
 toolbox/sift/vl_dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index cf3aafc..5c3d4ec 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -273,7 +273,9 @@ mexFunction(int nout, mxArray *out[],
       dims [0] = descrSize ;
       dims [1] = numFrames ;
 
-      if (floatDescriptors) {
+      if (nout < 2) {
+        /* the descriptors are not requested */
+      } else if (floatDescriptors) {
         out[OUT_DESCRIPTORS] = mxCreateNumericArray
         (2, dims, mxSINGLE_CLASS, mxREAL) ;
       } else {
@@ -293,7 +295,7 @@ mexFunction(int nout, mxArray *out[],
     {
       float *tmpDescr = mxMalloc(sizeof(float) * descrSize) ;
       double *outFrameIter = mxGetPr(out[OUT_FRAMES]) ;
-      void *outDescrIter = mxGetData(out[OUT_DESCRIPTORS]) ;
+      void *outDescrIter = (nout >= 2) ? mxGetData(out[OUT_DESCRIPTORS]) : NULL ;
       for (k = 0 ; k < numFrames ; ++k) {
         *outFrameIter++ = frames[k].y + 1 ;
         *outFrameIter++ = frames[k].x + 1 ;
@@ -303,6 +305,8 @@ mexFunction(int nout, mxArray *out[],
         if (norm)
           *outFrameIter++ = frames [k].norm ;
 
+        if (nout < 2) continue ;
+
         vl_dsift_transpose_descriptor (tmpDescr,
                                        descrs + descrSize * k,
                                        geom.numBinT,
-- 
2.43.0


From 09e87840cb6501264786c999dffbd337f67b26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:54 +0000
Subject: [PATCH 111/160] fix: vl_hog('render'): require the descriptor

---
 toolbox/misc/vl_hog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index a2bffdf..52cb72c 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -88,6 +88,9 @@ mexFunction(int nout, mxArray *out[],
     } else if (vlmxIsEqualToStringI(string_array, "render")) {
       /* image = vl_hog('render', descriptor) */
       mode = Render ;
+      if (nin < 2) {
+        vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
+      }
       descriptor_array = IN(CELLSIZE) ;
       next = 2 ;
       if (! mxIsNumeric(descriptor_array) ||
-- 
2.43.0


From acd2aa4f889164cd1eb6a16715dd0859cf8cbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:54 +0000
Subject: [PATCH 112/160] fix: vl_covdet: refuse negative MAXNUMORIENTATIONS
 and NUMOCTAVES

The values were compared to one after their conversion to an unsigned
type.
---
 toolbox/sift/vl_covdet.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..27179f9 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -299,9 +299,10 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_max_num_orientations :
-      if (!vlmxIsPlainScalar(optarg) || (maxNumOrientations = (vl_index)*mxGetPr(optarg)) < 1) {
+      if (!vlmxIsPlainScalar(optarg) || *mxGetPr(optarg) < 1) {
         vlmxError(vlmxErrInvalidArgument, "MAXNUMORIENTATIONS must be an integer not smaller than 1.") ;
       }
+      maxNumOrientations = (vl_size)*mxGetPr(optarg) ;
       break ;
 
     case opt_double_image:
@@ -319,9 +320,10 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_num_octaves :
-      if (!vlmxIsPlainScalar(optarg) || (numOctaves = (vl_index)*mxGetPr(optarg)) < 1) {
+      if (!vlmxIsPlainScalar(optarg) || *mxGetPr(optarg) < 1) {
         vlmxError(vlmxErrInvalidArgument, "NUMOCTAVES must be an integer not smaller than 1.") ;
       }
+      numOctaves = (vl_size)*mxGetPr(optarg) ;
       break ;
 
     case opt_base_scale :
-- 
2.43.0


From 73901643f6547e822415115e1e3fdb67bd2eb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:54 +0000
Subject: [PATCH 113/160] fix: vl_covdet: an empty set of FRAMES does not run
 the detector

---
 toolbox/sift/vl_covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 27179f9..f791b60 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -498,7 +498,7 @@ mexFunction(int nout, mxArray *out[],
     vl_covdet_put_image(covdet, image, numRows, numCols) ;
 
     /* fill with frames: either run the detector of poure them in */
-    if (numUserFrames > 0) {
+    if (userFrameDimension > 0) {
       vl_index k ;
 
       if (verbose) {
-- 
2.43.0


From 17d140422808f5bcad7310e7e9524d3d397ef170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:25 +0000
Subject: [PATCH 114/160] fix: vlmxError: do not use the message as a format
 string

The message can contain the name of an option as given by the user.
---
 toolbox/mexutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index 710e74d..6c8ff21 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -273,7 +273,7 @@ static void
 vlmxError (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexErrMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexErrMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @brief Raise a MEX warning with VLFeat format
@@ -288,7 +288,7 @@ static void
 vlmxWarning (VlmxErrorId errorId, char const * errorMessage, ...)
 {
   MEXUTILS_RAISE_HELPER ;
-  mexWarnMsgIdAndTxt (formattedErrorId, formattedErrorMessage) ;
+  mexWarnMsgIdAndTxt (formattedErrorId, "%s", formattedErrorMessage) ;
 }
 
 /** @} */
-- 
2.43.0


From f1ec6015346b6a426a4837e6f30be9de42fe4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:19 +0000
Subject: [PATCH 115/160] fix: vl_svmtrain: do not store an output that was not
 requested

With fewer than two outputs the bias was written past the end of the
output array.
---
 toolbox/misc/vl_svmtrain.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 0fdca5b..907c752 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -621,7 +621,9 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
              vl_svm_get_model(svm),
              vl_svm_get_dimension(svm) * sizeof(double)) ;
     }
-    out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    if (nout >= 2) {
+      out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    }
     if (nout >= 3) {
       out[OUT_INFO] = makeInfoStruct(svm) ;
     }
-- 
2.43.0


From 9e892dcff4d006abe9c7f4559f04dc13b749501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:19 +0000
Subject: [PATCH 116/160] fix: vl_ihashsum: do not store an output that was not
 requested

With fewer than three outputs the others were written past the end of
the output array.
---
 toolbox/misc/vl_ihashsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5fb7f09..f6c4764 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -235,6 +235,6 @@ mexFunction(int nout, mxArray *out[],
   mxSetM(id_,   ndims) ;
 
   out[OUT_H]    = h_ ;
-  out[OUT_ID]   = id_ ;
-  out[OUT_NEXT] = next_ ;
+  if (nout > OUT_ID) out[OUT_ID] = id_ ;
+  if (nout > OUT_NEXT) out[OUT_NEXT] = next_ ;
 }
-- 
2.43.0


From 35ef036d89991648f265851ed64a49b95a7a0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 117/160] fix: vl_gmm: do not store an output that was not
 requested

With fewer than five outputs the covariances, priors and posteriors
were written past the end of the output array.
---
 toolbox/gmm/vl_gmm.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7b9445b..2b9132c 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -336,21 +336,24 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* copy centers */
   OUT(MEANS) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
-  OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
 
   memcpy (mxGetData(OUT(MEANS)),
           vl_gmm_get_means (gmm),
           vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
 
-  memcpy (mxGetData(OUT(COVARIANCES)),
-          vl_gmm_get_covariances (gmm),
-          vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  if (nout > 1) {
+    OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(COVARIANCES)),
+            vl_gmm_get_covariances (gmm),
+            vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
-  memcpy (mxGetData(OUT(PRIORS)),
-          vl_gmm_get_priors (gmm),
-          vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  if (nout > 2) {
+    OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(PRIORS)),
+            vl_gmm_get_priors (gmm),
+            vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
   /* optionally return loglikelihood */
   if (nout > 3) {
@@ -359,6 +362,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* optionally return posterior probabilities */
   if (nout > 4) {
+    OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
     memcpy (mxGetData(OUT(POSTERIORS)),
             vl_gmm_get_posteriors (gmm),
             vl_get_type_size (dataType) * numData * vl_gmm_get_num_clusters(gmm)) ;
-- 
2.43.0


From 960fcf6d55613cdfdb24766df9d3f81413891e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 118/160] fix: vl_kdtreequery: do not store an output that was
 not requested

With a single output the distances were written past the end of the
output array.
---
 toolbox/misc/vl_kdtreequery.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 08c5e2b..4d7b7d4 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -123,10 +123,13 @@ mexFunction(int nout, mxArray *out[],
   numQueries = mxGetN (query_array) ;
 
   out[OUT_INDEX] = mxCreateNumericMatrix (numNeighbors, numQueries, mxUINT32_CLASS, mxREAL) ;
-  out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
-
   index = mxGetData (out[OUT_INDEX]) ;
-  distance = mxGetData (out[OUT_DISTANCE]) ;
+
+  distance = NULL ;
+  if (nout > OUT_DISTANCE) {
+    out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+    distance = mxGetData (out[OUT_DISTANCE]) ;
+  }
 
   if (verbose) {
     VL_PRINTF ("vl_kdforestquery: number of queries: %d\n", numQueries) ;
-- 
2.43.0


From aeb174c730c77e0b5581d6f5fca0380e9f7a580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 119/160] fix: vl_quickshift: do not store an output that was
 not requested

With fewer than three outputs the others were written past the end of
the output array.
---
 toolbox/quickshift/vl_quickshift.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 9858bb0..aee49fe 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const  *optarg ;
 
   double const *I ;
-  double *parents, *dists, *density ;
+  double *parents, *dists = NULL, *density = NULL ;
   int *parentsi;
   double sigma ;
   double tau ;
@@ -122,11 +122,15 @@ mexFunction(int nout, mxArray *out[],
   out[OUT_PARENTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
   parents          = mxGetPr (out[OUT_PARENTS]) ;
 
-  out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  dists            = mxGetPr (out[OUT_DISTS]) ;
+  if (nout > OUT_DISTS) {
+    out[OUT_DISTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    dists          = mxGetPr (out[OUT_DISTS]) ;
+  }
 
-  out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  density          = mxGetPr (out[OUT_DENSITY]) ;
+  if (nout > OUT_DENSITY) {
+    out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+    density          = mxGetPr (out[OUT_DENSITY]) ;
+  }
 
   if (verb) {
     mexPrintf("quickshift: [N1,N2,K]: [%d,%d,%d]\n", N1,N2,K) ;
@@ -147,8 +151,8 @@ mexFunction(int nout, mxArray *out[],
   parentsi = vl_quickshift_get_parents(q);
   /* Copy results */
   for(i = 0; i < N1*N2; i++) parents[i] = parentsi[i] + 1;
-  memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
-  memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  if (dists) memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
+  if (density) memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
 
   /* Delete quick shift object */
   vl_quickshift_delete(q);
-- 
2.43.0


From 8f44e904118c95a920fb3f40c09ce50ccea363d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 120/160] fix: vl_kmeans: refuse sparse and complex data

Sparse data was read past the end, as if it were a full matrix.
---
 toolbox/kmeans/vl_kmeans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 4976a1b..c77dbcf 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -107,6 +107,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (!vlmxIsReal (IN(DATA)) || mxIsSparse (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument,
+               "DATA must be a full real matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
-- 
2.43.0


From e033c9732ae3dd78ffd12612df6aaba6b2ed6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 121/160] fix: vl_gmm: refuse sparse and complex data

Sparse data was read past the end, as if it were a full matrix.
---
 toolbox/gmm/vl_gmm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 2b9132c..668bcbf 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -107,6 +107,11 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (!vlmxIsReal (IN(DATA)) || mxIsSparse (IN(DATA))) {
+    vlmxError (vlmxErrInvalidArgument,
+               "DATA must be a full real matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
-- 
2.43.0


From 77c77388d3ad177d0ac8238e9a08778116dbca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 122/160] fix: vl_vlad: refuse ASSIGNMENTS of a different
 number of data

With fewer columns than DATA, memory past their end was read.
---
 toolbox/vlad/vl_vlad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 0cb3bac..e74e772 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -110,7 +110,7 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
-  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, -1)) {
+  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
 
-- 
2.43.0


From 5adffc292b14dcc2b6bd56089e68ac0cd4c9c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 123/160] fix: vl_vlad: terminate the list of options

An unknown option was searched past the end of the list.
---
 toolbox/vlad/vl_vlad.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e74e772..e04b3a6 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Unnormalized",        0,   opt_unnormalized             },
   {"NormalizeComponents", 0,   opt_normalize_components     },
   {"NormalizeMass",       0,   opt_normalize_mass           },
-  {"SquareRoot",          0,   opt_square_root              }
+  {"SquareRoot",          0,   opt_square_root              },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From c5b5e5375200be83db1456c5c42406f80cc48491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 124/160] fix: vl_fisher: terminate the list of options

An unknown option was searched past the end of the list.
---
 toolbox/fisher/vl_fisher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index d5233c0..e5f0c65 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Normalized",          0,   opt_normalized               },
   {"SquareRoot",          0,   opt_square_root              },
   {"Improved",            0,   opt_improved                 },
-  {"Fast",                0,   opt_fast                     }
+  {"Fast",                0,   opt_fast                     },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From 99cdf5e852af94bcfa7fb04ac5cbb67f339ea687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 125/160] fix: vl_kdtreebuild: refuse a second output and a
 negative NUMTREES

---
 toolbox/misc/vl_kdtreebuild.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 05c9dba..552d5b2 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -70,7 +70,7 @@ mexFunction(int nout, mxArray *out[],
   if (nin < 1) {
     vlmxError(vlmxErrInvalidArgument,
              "At least one argument required") ;
-  } else if (nout > 2) {
+  } else if (nout > 1) {
     vlmxError(vlmxErrInvalidArgument,
              "Too many output arguments");
   }
@@ -112,10 +112,11 @@ mexFunction(int nout, mxArray *out[],
 
       case opt_num_trees :
         if (! vlmxIsScalar(optarg) ||
-            (numTrees = mxGetScalar(optarg)) < 1) {
+            !(mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidOption,
                    "NUMTREES must be not smaller than one") ;
         }
+        numTrees = mxGetScalar(optarg) ;
         break ;
 
       case opt_verbose :
-- 
2.43.0


From cde55b3637f37afe68dea7ef76a05c784b43ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 126/160] fix: vl_kdtreequery: refuse negative NUMNEIGHBORS and
 MAXNUMCOMPARISONS

---
 toolbox/misc/vl_kdtreequery.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 4d7b7d4..0df69bc 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -97,16 +97,18 @@ mexFunction(int nout, mxArray *out[],
     switch (opt) {
       case opt_num_neighs :
         if (! vlmxIsScalar(optarg) ||
-            (numNeighbors = mxGetScalar(optarg)) < 1) {
+            !(mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
         }
+        numNeighbors = mxGetScalar(optarg) ;
         break;
 
       case opt_max_num_comparisons :
-        if (! vlmxIsScalar(optarg)) {
+        if (! vlmxIsScalar(optarg) ||
+            !(mxGetScalar(optarg) >= 0)) {
           vlmxError(vlmxErrInvalidArgument,
-                    "MAXNUMCOMPARISONS must be a scalar.") ;
+                    "MAXNUMCOMPARISONS must be a non-negative scalar.") ;
         }
         maxNumComparisons = mxGetScalar(optarg) ;
         break;
-- 
2.43.0


From de997b3c38d8d85cf977367a018553c4b3c464d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 127/160] fix: vl_kdtreequery: refuse a FOREST that is not a
 structure or lacks fields

---
 toolbox/misc/kdtree.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/toolbox/misc/kdtree.h b/toolbox/misc/kdtree.h
index b66f003..4eadfd9 100644
--- a/toolbox/misc/kdtree.h
+++ b/toolbox/misc/kdtree.h
@@ -231,6 +231,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     FOREST.TREES
    */
 
+  if (! mxIsStruct (forest_array) ||
+      mxGetNumberOfElements (forest_array) != 1) {
+    vlmxError (vlmxErrInconsistentData,
+              "FOREST must be a 1 x 1 structure.") ;
+  }
   distance_array = mxGetField (forest_array, 0, "distance") ;
   if(distance_array && vlmxIsString (distance_array, -1)){
     if (vlmxCompareToStringI(distance_array, "l1") == 0) {
@@ -246,11 +251,6 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
               "FOREST.DISTANCE must be a string.") ;
   }
 
-  if (! mxIsStruct (forest_array) ||
-      mxGetNumberOfElements (forest_array) != 1) {
-    vlmxError (vlmxErrInconsistentData,
-              "FOREST must be a 1 x 1 structure.") ;
-  }
   dimension_array = mxGetField (forest_array, 0, "dimension") ;
   if (! dimension_array ||
       ! vlmxIsPlainScalar (dimension_array) ||
@@ -266,7 +266,7 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
              "FOREST.NUMDATA must be a poisitve integer.") ;
   }
   trees_array = mxGetField (forest_array, 0, "trees") ;
-  if (! mxIsStruct (trees_array)) {
+  if (! trees_array || ! mxIsStruct (trees_array)) {
     vlmxError(vlmxErrInconsistentData,
              "FOREST.TREES must be a structure array.") ;
   }
@@ -326,7 +326,7 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
     lowerBound_array = mxGetField (nodes_array, 0, "lowerBound") ;
     upperBound_array = mxGetField (nodes_array, 0, "upperBound") ;
 
-    numUsedNodes = mxGetN (lowerChild_array) ;
+    numUsedNodes = lowerChild_array ? mxGetN (lowerChild_array) : 0 ;
     maxNumNodes += numUsedNodes ;
 
     if (! lowerChild_array ||
@@ -353,13 +353,13 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.SPLITTHRESHOLD must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! lowerBound_array ||
         ! vlmxIsMatrix (lowerBound_array, 1, numUsedNodes) ||
         mxGetClassID (lowerBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
                "FOREST.TREES(%d).NODES.LOWERBOUND must be a 1 x NUMNODES DOUBLE array",ti+1) ;
     }
-    if (! splitThreshold_array ||
+    if (! upperBound_array ||
         ! vlmxIsMatrix (upperBound_array, 1, numUsedNodes) ||
         mxGetClassID (upperBound_array) != mxDOUBLE_CLASS) {
       vlmxError(vlmxErrInconsistentData,
-- 
2.43.0


From 28d82a7e53ce3173bd6bac2df54aad3e7b221333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 128/160] fix: vl_kdtreequery: refuse inconsistent nodes and
 data indexes

Indexes counting from one may not be zero, a node has two children or
is a leaf, and DATAINDEX are indexes of the data. Otherwise memory that
is not in the tree or in the data was read.
---
 toolbox/misc/kdtree.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/kdtree.h b/toolbox/misc/kdtree.h
index 4eadfd9..6416096 100644
--- a/toolbox/misc/kdtree.h
+++ b/toolbox/misc/kdtree.h
@@ -401,7 +401,13 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
                     "TREE.NODES.LOWERCHILD(%d)=%d out of bounds",
                     ni+1,lc) ;
         }
-        if (d > dimension) {
+        if (lc == 0 || uc == 0 || (lc < 0) != (uc < 0) ||
+            (lc < 0 && lc < uc)) {
+          vlmxError (vlmxErrInconsistentData,
+                    "TREE.NODES(%d) is neither a leaf nor has two children",
+                    ni+1) ;
+        }
+        if (d < 1 || d > dimension) {
           vlmxError (vlmxErrInconsistentData,
                     "TREE.NODES.SPLITDIMENSION(%d)=%d out of bounds",
                     ni+1,d) ;
@@ -421,6 +427,11 @@ new_kdforest_from_array (mxArray const * forest_array, mxArray const * data_arra
       vl_uindex di ;
       vl_uint32 * dataIndex = mxGetData (dataIndex_array) ;
       for (di = 0 ; di < numData ; ++ di) {
+        if (dataIndex [di] < 1 || dataIndex [di] > numData) {
+          vlmxError (vlmxErrInconsistentData,
+                     "FOREST.TREES(%d).DATAINDEX(%d) is out of bounds",
+                     ti+1, di+1) ;
+        }
         tree->dataIndex[di].index = dataIndex [di] - 1 ;
       }
     }
-- 
2.43.0


From 63274f679b153ef5a48a7cfe7c9eaf509773ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 129/160] fix: vl_hikmeans: refuse fewer than two clusters

The depth of the tree is then not defined.
---
 toolbox/kmeans/vl_hikmeans.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index b18ffce..ae7d1e9 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -144,7 +144,11 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   N = mxGetN (in[IN_DATA]);   /* n of elements */
 
   if (! vlmxIsPlainScalar (in[IN_K])    ||
-      (K = (int) *mxGetPr (in[IN_K])) > N) {
+      !(*mxGetPr (in[IN_K]) >= 2)) {
+    mexErrMsgTxt ("K must be a scalar not smaller than 2.") ;
+  }
+
+  if ((K = (vl_size) *mxGetPr (in[IN_K])) > N) {
     mexErrMsgTxt ("Cannot have more clusters than data.") ;
   }
 
-- 
2.43.0


From 7cdecb7e0029d60cff7221e29c4d8bf6f33aed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 130/160] fix: vl_hikmeans: compute the depth of the tree
 exactly

The ratio of the logarithms may be rounded up: with K=5 and NLEAVES=125
the tree had four levels instead of three.
---
 toolbox/kmeans/vl_hikmeans.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index ae7d1e9..220e574 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -195,7 +195,11 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
    *                                                        Do the job
    * -------------------------------------------------------------- */
 
-  depth = VL_MAX(1, ceil (log (nleaves) / log(K))) ;
+  {
+    /* the smallest depth that yields at least NLEAVES leaves */
+    vl_size n = K ;
+    for (depth = 1 ; n < (vl_size)nleaves ; ++ depth) { n *= K ; }
+  }
   tree  = vl_hikm_new  (method_type) ;
 
   if (verb) {
-- 
2.43.0


From 6e323da3d0414bbb448b60292800ad8b7fcf1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 131/160] fix: vl_hikmeans: use the option MAXITERS

---
 toolbox/kmeans/vl_hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index 220e574..c173568 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -210,6 +210,7 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   }
 
   vl_hikm_set_verbosity (tree, verb) ;
+  vl_hikm_set_max_niters (tree, max_niters) ;
   vl_hikm_init (tree, M, K, depth) ;
   vl_hikm_train (tree, data, N) ;
 
-- 
2.43.0


From 9585bd36e0ac039253c6934b0d027dba06a883b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 132/160] fix: vl_hikmeanspush: a leaf may have an empty SUB

This is how Octave represents a field that is not set, so that no tree
could be used there.
---
 toolbox/kmeans/vl_hikmeanspush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index efcbc6c..2ddffda 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -85,7 +85,7 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   vl_ikm_init (node->filter, mxGetData(mcenters), M, node_K) ;
 
   /* has any childer? */
-  if (msub) {
+  if (msub && !mxIsEmpty (msub)) {
 
     /* sanity checks */
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
-- 
2.43.0


From ddaa527f504ed8a04701510dc35d4c20e8636adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 133/160] fix: vl_hikmeanspush: refuse data of a different
 dimension

Memory past the end of the data was read.
---
 toolbox/kmeans/vl_hikmeanspush.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index 2ddffda..ec20abc 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -223,6 +223,10 @@ void mexFunction (int nout, mxArray * out[],
     tree = matlab_to_hikm (in[IN_TREE], method_type) ;
     depth = vl_hikm_get_depth (tree) ;
 
+    if (mxGetM (in[IN_DATA]) != vl_hikm_get_ndims (tree)) {
+      mexErrMsgTxt("DATA and TREE do not have the same dimensionality.") ;
+    }
+
     if (verb) {
       mexPrintf("vl_hikmeanspush: ndims: %d K: %d depth: %d\n",
                 vl_hikm_get_ndims (tree),
-- 
2.43.0


From 8bdbfa9b291e818c5cbe13e082f17edc4e4403c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:23 +0000
Subject: [PATCH 134/160] fix: vl_hikmeanspush: refuse trees whose depth is not
 TREE.DEPTH

The paths have TREE.DEPTH entries: longer ones were written past the
end of the output.
---
 toolbox/kmeans/vl_hikmeanspush.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index ec20abc..c6a0e8c 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -45,7 +45,7 @@ vlmxOption  options [] = {
  **/
 
 static VlHIKMNode *
-xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
+xcreate (VlHIKMTree *tree, mxArray const *mnode, int i, vl_size level)
 {
   mxArray const *mcenters, *msub ;
   VlHIKMNode *node ;
@@ -88,6 +88,9 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   if (msub && !mxIsEmpty (msub)) {
 
     /* sanity checks */
+    if (level >= tree->depth) {
+      mexErrMsgTxt("The tree is deeper than TREE.DEPTH.") ;
+    }
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
       mexErrMsgTxt("A NODE.SUB is not a MATLAB structure array.") ;
     }
@@ -97,8 +100,10 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
 
     node->children = mxMalloc (sizeof(VlHIKMNode *) * node_K) ;
     for(k = 0 ; k < node_K ; ++ k) {
-      node->children[k] = xcreate (tree, msub, k) ;
+      node->children[k] = xcreate (tree, msub, k, level + 1) ;
     }
+  } else if (node_K > 0 && level < tree->depth) {
+    mexErrMsgTxt("The tree is not as deep as TREE.DEPTH.") ;
   }
   return node ;
 }
@@ -143,7 +148,7 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
   tree->K = (vl_size)K ;
   tree->M = 0 ; /* to be initialized later */
   tree->method = method_type ;
-  tree->root = xcreate (tree, mtree, 0) ;
+  tree->root = xcreate (tree, mtree, 0, 1) ;
   return tree ;
 }
 
-- 
2.43.0


From 893e9efb2846915d934a47b3366ab173650fef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:20 +0000
Subject: [PATCH 135/160] fix: vl_vlad: check the number of arguments before
 reading them

---
 toolbox/vlad/vl_vlad.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e04b3a6..1a6c362 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -45,9 +45,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
   int next = IN_END ;
   mxArray const  *optarg ;
 
-  mxArray const * means_array = in[IN_MEANS] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * assign_array = in[IN_ASSIGNMENTS] ;
+  mxArray const * means_array ;
+  mxArray const * data_array ;
+  mxArray const * assign_array ;
 
   vl_size numClusters ;
   vl_size dimension ;
@@ -77,6 +77,10 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
                "At most one output argument.");
   }
 
+  means_array = in[IN_MEANS] ;
+  data_array = in[IN_DATA] ;
+  assign_array = in[IN_ASSIGNMENTS] ;
+
   if (!vlmxIsMatrix(IN(DATA),-1,-1)) {
     vlmxError (vlmxErrInvalidArgument,
                "DATA is not a dense matrix.") ;
-- 
2.43.0


From 354c8881f0baf8bf971600056af6dc96608dda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:20 +0000
Subject: [PATCH 136/160] fix: vl_kdtreequery: check the number of arguments
 before reading them

---
 toolbox/misc/vl_kdtreequery.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 0df69bc..bc7f71f 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -51,9 +51,9 @@ mexFunction(int nout, mxArray *out[],
   mxArray const *optarg ;
 
   VlKDForest * forest ;
-  mxArray const * forest_array = in[IN_FOREST] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * query_array = in[IN_QUERY] ;
+  mxArray const * forest_array ;
+  mxArray const * data_array ;
+  mxArray const * query_array ;
   void * query ;
   vl_uint32 * index ;
   void * distance ;
@@ -77,6 +77,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
+  forest_array = in[IN_FOREST] ;
+  data_array = in[IN_DATA] ;
+  query_array = in[IN_QUERY] ;
+
   forest = new_kdforest_from_array (forest_array, data_array) ;
 
   dataClass = mxGetClassID (data_array) ;
-- 
2.43.0


From 850e84dff588d2b858006e11135d85994d32c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:41 +0000
Subject: [PATCH 137/160] fix: vl_gmm: refuse the CUSTOM initialization without
 parameters

The mixture was left at null priors and covariances.
---
 toolbox/gmm/vl_gmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 668bcbf..99a73d5 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -278,6 +278,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
                  "INITCOVARIANCES requires 'custom' INITALIZATION.") ;
     }
     initialization = VlGMMCustom ;
+  } else if (initialization == VlGMMCustom) {
+    vlmxError (vlmxErrInvalidArgument,
+               "'custom' INITALIZATION requires INITPRIORS, "
+               "INITMEANS, and INITCOVARIANCES.") ;
   }
 
   gmm = vl_gmm_new (dataType, dimension, numClusters) ;
-- 
2.43.0


From a52c9b4ac91bb0066a7e731d6ee07057d26acd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:41 +0000
Subject: [PATCH 138/160] fix: vl_quickshift: refuse parameters that are not
 DOUBLE scalars

Anything else was read as if it were one. Complex and sparse images are
refused, too.
---
 toolbox/quickshift/vl_quickshift.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index aee49fe..0485344 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -97,6 +97,18 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must be DOUBLE.")  ;
   }
 
+  if (!vlmxIsReal (in[IN_I]) || mxIsSparse (in[IN_I])) {
+    mexErrMsgTxt("I must be a full real array.")  ;
+  }
+
+  if (!vlmxIsPlainScalar (in[IN_KERNEL_SIZE])) {
+    mexErrMsgTxt("KERNELSIZE must be a scalar.")  ;
+  }
+
+  if (nin > 2 && !vlmxIsPlainScalar (in[IN_MAX_DIST])) {
+    mexErrMsgTxt("MAXDIST must be a scalar.")  ;
+  }
+
   N1 = dims [0] ;
   N2 = dims [1] ;
   K = (ndims == 3) ? dims [2] : 1 ;
-- 
2.43.0


From a44280d0ad3e1f705bd31df48c662f7978443987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 139/160] fix: vl_imsmooth: refuse images that are not full
 real arrays

The data of a sparse array is shorter than its dimensions tell.
---
 toolbox/imop/vl_imsmooth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 081bca3..7f4b668 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -278,6 +278,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
              "I must be either DOUBLE or SINGLE.") ;
   }
+  if (!vlmxIsReal(IN(I)) || mxIsSparse(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+             "I must be a full real array.") ;
+  }
   if (mxGetNumberOfDimensions(IN(I)) > 3) {
     vlmxError(vlmxErrInvalidArgument,
              "I must be either a two or three dimensional array.") ;
-- 
2.43.0


From baee20791d8002a7d9d859b9bba5b27c79b18ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 140/160] fix: vl_imsmooth: refuse a negative, infinite or
 undefined S

The half width of the kernel is computed from it.
---
 toolbox/imop/vl_imsmooth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 7f4b668..548f21a 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -294,6 +294,10 @@ mexFunction(int nout, mxArray *out[],
   K = (ndims > 2) ? dims[2] : 1 ;
 
   sigma = * mxGetPr(IN(S)) ;
+  if (!(sigma >= 0 && sigma < VL_INFINITY_D)) {
+    vlmxError(vlmxErrInvalidArgument,
+             "S must be a non-negative number.") ;
+  }
   if ((sigma < 0.01) && (step == 1)) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
-- 
2.43.0


From 0c5b40031a4456d49c8110f277421df7377d2ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 141/160] fix: vl_imsmooth: check SUBSAMPLE before converting
 it to an unsigned number

A negative value became a large step.
---
 toolbox/imop/vl_imsmooth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 548f21a..2d2f525 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -228,11 +228,11 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be a scalar.") ;
         }
-        step = *mxGetPr(optarg) ;
-        if (step < 1) {
+        if (!(*mxGetPr(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
+        step = *mxGetPr(optarg) ;
         break ;
 
       case opt_kernel :
-- 
2.43.0


From e6182a770196668702f440c0b17f059b0909dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 142/160] fix: vl_imsmooth: the option is called SUBSAMPLE

The help documents an option STEP, which is refused.
---
 toolbox/imop/vl_imsmooth.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.m b/toolbox/imop/vl_imsmooth.m
index 003a199..9d08961 100644
--- a/toolbox/imop/vl_imsmooth.m
+++ b/toolbox/imop/vl_imsmooth.m
@@ -17,9 +17,9 @@
 %     around the border, and CONTINUITY extends the image with
 %     constant pixels.
 %
-%   Step::
+%   Subsample::
 %     Sets the subsampling step. A subsampling step of STEP pixels
-%     causes J(1:STEPS:end, 1:STEPS:end, :) to be computed. This is
+%     causes J(1:STEP:end, 1:STEP:end, :) to be computed. This is
 %     useful to downsample the image.
 %
 %   See also: VL_HELP().
-- 
2.43.0


From c3652789e3d7c24d37710298fbbf720935f54f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 143/160] fix: vl_imintegral: refuse images that are not full
 real arrays

The data of a sparse array is shorter than its dimensions tell.
---
 toolbox/imop/vl_imintegral.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imintegral.c b/toolbox/imop/vl_imintegral.c
index 759cf0c..57f0969 100644
--- a/toolbox/imop/vl_imintegral.c
+++ b/toolbox/imop/vl_imintegral.c
@@ -52,6 +52,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
               "I is not numeric.") ;
   }
+  if (mxIsComplex(IN(I)) || mxIsSparse(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+              "I is not a full real array.") ;
+  }
 
   dimensions = mxGetDimensions(IN(I)) ;
   numDimensions = mxGetNumberOfDimensions(IN(I)) ;
-- 
2.43.0


From ac9e0d21f252e600d8005a0325619e4875d5b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 144/160] fix: vl_imdisttf: refuse images that are not full
 real arrays

The data of a sparse array is shorter than its dimensions tell.
---
 toolbox/imop/vl_imdisttf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imdisttf.c b/toolbox/imop/vl_imdisttf.c
index af53a35..dfabecd 100644
--- a/toolbox/imop/vl_imdisttf.c
+++ b/toolbox/imop/vl_imdisttf.c
@@ -49,6 +49,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrInvalidArgument,
              "I is not a SINGLE or DOUBLE matrix.") ;
   }
+  if (! vlmxIsReal(IN(I)) || mxIsSparse(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument,
+             "I is not a full real matrix.") ;
+  }
   if (nin == 2) {
     if (! vlmxIsPlainVector(IN(PARAM), 4)) {
       vlmxError(vlmxErrInvalidArgument,
-- 
2.43.0


From cedf972625cc49bac66a55c805fd5a4f11e4eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 145/160] fix: vl_xyz2lab: use the chromaticity of illuminant B

That of D55 was used.
---
 toolbox/imop/vl_xyz2lab.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2lab.m b/toolbox/imop/vl_xyz2lab.m
index 735bab3..c71ac46 100644
--- a/toolbox/imop/vl_xyz2lab.m
+++ b/toolbox/imop/vl_xyz2lab.m
@@ -22,8 +22,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.34842 ;
+    yw = 0.35161 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
-- 
2.43.0


From 5e2bf9a33e9e3cd4c50add85c88fd2b69db9ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 146/160] fix: vl_xyz2luv: use the chromaticity of illuminant B

That of D55 was used.
---
 toolbox/imop/vl_xyz2luv.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 05c2ccf..b0465c9 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -24,8 +24,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.34842 ;
+    yw = 0.35161 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
-- 
2.43.0


From a0cdd243297ec35130741884587f74748f03b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 147/160] fix: vl_xyz2luv: use the specified illuminant

Its chromaticity was overwritten by that of E.
---
 toolbox/imop/vl_xyz2luv.m | 2 --
 1 file changed, 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index b0465c9..13fe61f 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -52,8 +52,6 @@ end
 J=zeros(size(I)) ;
 
 % Reference white
-xw = 1/3 ;
-yw = 1/3 ;
 Yw = 1.0 ;
 Xw = xw/yw ;
 Zw = (1-xw-yw)/yw * Yw ;
-- 
2.43.0


From af0d71a69da987bb9085fd2f6d76650cb6735b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 148/160] fix: vl_xyz2luv: convert black to black

Its chromaticity is undefined, which resulted in NaN.
---
 toolbox/imop/vl_xyz2luv.m | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 13fe61f..017fc53 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -75,6 +75,10 @@ L = zeros(size(Y)) ;
 L(sp) =   116*( Y(sp) / Yw ).^(1/3) - 16 ;
 L(sm) = 903.3*( Y(sm) / Yw ) ;
 
+% the chromaticity of black is undefined
+up(L == 0) = upw ;
+vp(L == 0) = vpw ;
+
 u = 13 * L .* (up - upw) ;
 v = 13 * L .* (vp - vpw) ;
 
-- 
2.43.0


From b9add0c34b6f8a17f2b64759aceaab1991a17355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 149/160] fix: vl_xyz2lab: join the two pieces of the lightness
 at 0.008856

As vl_xyz2luv does; a digit was missing.
---
 toolbox/imop/vl_xyz2lab.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_xyz2lab.m b/toolbox/imop/vl_xyz2lab.m
index c71ac46..7d988f6 100644
--- a/toolbox/imop/vl_xyz2lab.m
+++ b/toolbox/imop/vl_xyz2lab.m
@@ -72,8 +72,8 @@ J = cat(3,L,a,b) ;
 % --------------------------------------------------------------------
 function b=f(a)
 % --------------------------------------------------------------------
-sp = find(a  > 0.00856) ;
-sm = find(a <= 0.00856) ;
+sp = find(a  > 0.008856) ;
+sm = find(a <= 0.008856) ;
 k = 903.3 ;
 b=zeros(size(a)) ;
 b(sp) = a(sp).^(1/3) ;
-- 
2.43.0


From 2c85cdb0bfdd0da2caec26ef994eda1a83c01687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 150/160] fix: vl_xyz2rgb: clip colors out of the gamut

A component which is negative, if only because of rounding, made the
whole image complex.
---
 toolbox/imop/vl_xyz2rgb.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_xyz2rgb.m b/toolbox/imop/vl_xyz2rgb.m
index cd8dd6e..44d466e 100644
--- a/toolbox/imop/vl_xyz2rgb.m
+++ b/toolbox/imop/vl_xyz2rgb.m
@@ -44,5 +44,5 @@ end
 [M,N,K] = size(I) ;
 
 I = reshape(I, M*N, K) ;
-J = inv(A)*I' ;
+J = max(inv(A)*I', 0) ;
 J = reshape(J'.^(1/gamma), M, N, K) ;
-- 
2.43.0


From e64ac312eb189baf19305f2991de6699abd0d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:45 +0000
Subject: [PATCH 151/160] fix: vl_imgrad: accept the type of differences as
 documented

The help gives it as the second argument.
---
 toolbox/imop/vl_imgrad.m | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/imop/vl_imgrad.m b/toolbox/imop/vl_imgrad.m
index 5678780..566329b 100644
--- a/toolbox/imop/vl_imgrad.m
+++ b/toolbox/imop/vl_imgrad.m
@@ -19,6 +19,10 @@ function [Fx,Fy] = vl_imgrad(F,varargin) ;
 
 type = 'central' ; % forward, backward
 
+if length(varargin) == 1
+  varargin = {'Type', varargin{1}} ;
+end
+
 for k=1:2:length(varargin)
   switch varargin{k}
     case 'Type'
-- 
2.43.0


From 1ffc8d3609bffe9896cf7048f3b7f2f07e40b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:49 +0000
Subject: [PATCH 152/160] fix: vl_imsmooth: subsample an empty image to an
 empty image

The size of the result was computed from that of the image minus one.
---
 toolbox/imop/vl_imsmooth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 2d2f525..d0b54f8 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -303,8 +303,8 @@ mexFunction(int nout, mxArray *out[],
     return ;
   }
 
-  M_ = (M - 1) / step + 1 ;
-  N_ = (N - 1) / step + 1 ;
+  M_ = (M > 0) ? (M - 1) / step + 1 : 0 ;
+  N_ = (N > 0) ? (N - 1) / step + 1 : 0 ;
   dims_ [0] = M_ ;
   dims_ [1] = N_ ;
   if (ndims > 2) dims_ [2] = K ;
-- 
2.43.0


From bbe68de7b38031b9a2eef83134eb042fa4c5a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 153/160] fix: vl_argparse: copy structures given to options
 that are no structures

They were merged into the default value, or into an unknown option, which
failed when that was not a structure.
---
 toolbox/misc/vl_argparse.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index bdc6be3..70db9df 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -154,7 +154,7 @@ while ai <= numel(args)
     else
       % The parameter does not have a struct value in OPTS: copy as is, or
       % merge it, if it contains a struct.
-      if ~isstruct(value)
+      if ~isstruct(value) || ~any(strcmp(field, fieldnames(opts))) || ~isstruct(opts.(field))
         opts.(field) = value ;
       else
         opts.(field) = vl_argparse(opts.(field), value, 'merge') ;
-- 
2.43.0


From 9ed22a356f061c586bf4b81dc5a21c8523c7187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 154/160] fix: vl_argparse: return the unknown fields of
 structure options

With two output arguments they were dropped silently.
---
 toolbox/misc/vl_argparse.m | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index 70db9df..a997da5 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -97,8 +97,10 @@ while ai <= numel(args)
       opts = vl_argparse(opts, vertcat(params,values), varargin{:}) ;
     else
       [opts, rest] = vl_argparse(opts, reshape(vertcat(params,values), 1, []), varargin{:}) ;
-      args{ai} = cell2struct(rest(2:2:end), rest(1:2:end), 2) ;
-      keep(ai) = true ;
+      if ~isempty(rest)
+        args{ai} = cell2struct(rest(2:2:end), rest(1:2:end), 2) ;
+        keep(ai) = true ;
+      end
     end
     ai = ai + 1 ;
     continue ;
@@ -147,7 +149,11 @@ while ai <= numel(args)
           field) ;
       end
       if nargout > 1
-        [opts.(field), args{ai+1}] = vl_argparse(opts.(field), value, varargin{:}) ;
+        [opts.(field), rest] = vl_argparse(opts.(field), value, varargin{:}) ;
+        if ~isempty(rest)
+          args([ai,ai+1]) = {param, rest{1}} ;
+          keep([ai,ai+1]) = true ;
+        end
       else
         opts.(field) = vl_argparse(opts.(field), value, varargin{:}) ;
       end
-- 
2.43.0


From 3143d9c5882421650f284b68aa7edbe0d005beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 155/160] fix: vl_override: apply the options to the
 substructures

---
 toolbox/misc/vl_override.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index 598c43c..ed7cbc6 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -107,7 +107,7 @@ for idx=1:numel(update)
     if ~isempty(configFieldName)
       config(idx).(configFieldName) = ...
           vl_override(config(idx).(configFieldName), ...
-                      update(idx).(updateFieldName)) ;
+                      update(idx).(updateFieldName), varargin{:}) ;
     else
       if warn
         warning(sprintf('copied field ''%s'' which is in UPDATE but not in CONFIG', ...
-- 
2.43.0


From 7ddace01b38d6829cead403716eacb9aa9d49a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 156/160] fix: vl_override: warn when a substructure is
 overwritten

---
 toolbox/misc/vl_override.m | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index ed7cbc6..f899c25 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -78,6 +78,9 @@ end
 % if CONFIG is a struct array but UPDATE is not, no match can be
 % established and we simply copy UPDATE verbatim
 if ~isstruct(update)
+  if warn
+    warning('a structure of CONFIG is overwritten by a value of UPDATE which is not one') ;
+  end
   config = update ;
   return ;
 end
-- 
2.43.0


From f85e53b96075272c1bb715752f2644515ed55655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 157/160] fix: vl_colsubset: the last of several modes counts

---
 toolbox/misc/vl_colsubset.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_colsubset.m b/toolbox/misc/vl_colsubset.m
index 2fb3696..cf0b5e8 100644
--- a/toolbox/misc/vl_colsubset.m
+++ b/toolbox/misc/vl_colsubset.m
@@ -53,7 +53,7 @@ while i <= length(varargin)
           'uniform', ...
           'largest', ...
           'smallest'}
-      mode = lower(varargin{1}) ;
+      mode = lower(varargin{i}) ;
       i = i + 1 ;
     otherwise
       error('Unknown option ''%s''.', varargin{i}) ;
-- 
2.43.0


From 3d800f58619498267e9ca145daea820532c3479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 158/160] fix: vl_histmarg: dimensions in any order

---
 toolbox/misc/vl_histmarg.m | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_histmarg.m b/toolbox/misc/vl_histmarg.m
index 3ee5d96..09fc22f 100644
--- a/toolbox/misc/vl_histmarg.m
+++ b/toolbox/misc/vl_histmarg.m
@@ -20,10 +20,12 @@ function H = vl_histmarg(H, dims)
 % the terms of the BSD license (see the COPYING file).
 
 sz = size(H) ;
+rest = setdiff(1:length(sz), dims(:)) ;
 
-for d=setdiff(1:length(sz), dims(:))
+for d=rest(:)'
   H = sum(H, d) ;
 end
+H = permute(H, [dims(:)' rest(:)']) ;
 
 % Squeeze out marginalized dimensions
 sz = sz(dims(:)) ;
-- 
2.43.0


From 99a7ac567c625f722f7baf981089031cc4877df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 159/160] fix: vl_alphanum: sort empty strings

---
 toolbox/misc/vl_alphanum.m | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 7fa2af3..2b26dc0 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -22,13 +22,13 @@ function [strings, perm] = vl_alphanum(strings)
 
 chunks = regexp(strings, '(\d+|\D+)', 'tokens') ;
 for i = 1:length(strings)
-  chunks{i} = [chunks{i}{:}] ;
+  chunks{i} = [{} chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
       chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%d')) ;
     end
   end
-  chunks{i} = [chunks{i}{:}] ;
+  chunks{i} = ['' chunks{i}{:}] ;
 end
 
 [dorp,perm] = sort(chunks) ;
-- 
2.43.0


From 48e81a0975bb3782f6348cdc5d33ba724004bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:02 +0000
Subject: [PATCH 160/160] fix: vl_alphanum: compare numbers of more than 31
 bits

---
 toolbox/misc/vl_alphanum.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 2b26dc0..8dc92e4 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -25,7 +25,7 @@ for i = 1:length(strings)
   chunks{i} = [{} chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%d')) ;
+      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%f')) ;
     end
   end
   chunks{i} = ['' chunks{i}{:}] ;
-- 
2.43.0

