From e1034e0aa3cd75c39e03441e7204962042daa5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/27] fix: report failed native allocations as MemoryError
 instead of crashing

fc_to_sc and sc_to_fc used their work space without checking malloc, and
kiss_fft allocated an unchecked temporary when run in place.
---
 src/csphi.c      | 64 +++++++++++++++++++++++++++++++++---------------
 src/csphi.h      |  5 ++--
 src/csphi.i      |  9 +++++++
 src/csphi_wrap.c | 14 +++++++++--
 4 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/csphi.c b/src/csphi.c
index edbc3e4..b2f387b 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -179,7 +179,8 @@ void SData(SCOMPLEX* s,int Q,int Nrows, int Nmax)
 * @param len   Length of output, must be greater than n and less than or equal to Q (set to n+1)
 * @param ss    Fourier transformed version of the data provided by SData
 * @param Q     A number larger than Nrow+n, make factorable into small primes for speed
-* @param Q2    Same as Q (used this so the swig interface creator wouldn't get confused)
+* @param ff    Some work space
+* @param Q2    Length of ff, must be 2*Q
 * @param kiss_cfg_fw    Config info for a forwards FFT
 * @param kiss_cfg_bw    Config info for a backwards FFT
 */
@@ -193,6 +194,7 @@ void hkm_fc(SCOMPLEX* gcoef,int Nrow,int Ncol,
 {
 	int k, ind, mm;
 	SFLOAT ffr;
+	SCOMPLEX* FF = ff + Q;	//kiss_fft allocates memory when used in place
 
 	memset(ff,0,Q*sizeof(SCOMPLEX));
 	memset(hkm,0,len*sizeof(SCOMPLEX));
@@ -212,16 +214,16 @@ void hkm_fc(SCOMPLEX* gcoef,int Nrow,int Ncol,
 		ff[mm+k] = gcoef[Ncol*k+ind];
 	}
 
-	kiss_fft(kiss_cfg_fw,(kiss_fft_cpx*)ff,(kiss_fft_cpx*)ff);        
+	kiss_fft(kiss_cfg_fw,(kiss_fft_cpx*)ff,(kiss_fft_cpx*)FF);        
 
 	for(k=0;k<Q;k++)
 	{
-		ffr = ff[k].r;
-		ff[k].r = ss[k].r*ff[k].r - ss[k].i*ff[k].i;
-		ff[k].i = ss[k].r*ff[k].i + ss[k].i*ffr;
+		ffr = FF[k].r;
+		FF[k].r = ss[k].r*FF[k].r - ss[k].i*FF[k].i;
+		FF[k].i = ss[k].r*FF[k].i + ss[k].i*ffr;
 	}
 
-	kiss_fft(kiss_cfg_bw,(kiss_fft_cpx*)ff,(kiss_fft_cpx*)ff);
+	kiss_fft(kiss_cfg_bw,(kiss_fft_cpx*)FF,(kiss_fft_cpx*)ff);
 
 	for(k=0; k<len; k++)
 	{
@@ -242,8 +244,8 @@ void hkm_fc(SCOMPLEX* gcoef,int Nrow,int Ncol,
 * @param vec The output vector of length Nmax-abs(m)+1
 * @param ss Fourier transform of the data returned from SData
 * @param Q The length of ss
-* @param ff Some work space that is as long as ss
-* @param Q2 Same as Q, I included it so swig could easily be used
+* @param ff Some work space
+* @param Q2 Length of ff, must be 2*Q
 * @param hkm See hkm_fc
 * @param Lhkm Length of hkm
 * @param y See ynunm
@@ -313,12 +315,15 @@ void bnm_fc(SCOMPLEX * fdata,int Nrow, int Ncol,
 * @param L Length of sc
 * @param Nmax Maximum number of n modes desired
 * @param Mmax Maximum number of abs(m) modes desired
+*
+* @return SUCCESS, or NOMEMORY if the work space could not be allocated
 */
-void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
+int fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 			  SCOMPLEX* sc, int L,
 			  int Nmax, int Mmax)
 {
 	int m, Q;	
+	int status = SUCCESS;
 	SCOMPLEX* pt;
 	int* inds;
 	int N = Nmax + 1;
@@ -334,18 +339,22 @@ void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 
 	//Allocate all memory here
 	s = (SCOMPLEX*)malloc(Q*sizeof(SCOMPLEX));
-	SData(s,Q, Nrow,Nmax);
-
 	kiss_cfg_fw = kiss_fft_alloc(Q,0,0,0);
 	kiss_cfg_bw = kiss_fft_alloc(Q,1,0,0);
-
-	kiss_fft(kiss_cfg_fw,(kiss_fft_cpx*)s,(kiss_fft_cpx*)s);
-
 	hkm = (SCOMPLEX*)malloc((Nmax+1)*sizeof(SCOMPLEX));
 	y = (SFLOAT*)malloc((Nmax+1)*sizeof(SFLOAT));	
-	ff = (SCOMPLEX*)malloc(Q*sizeof(SCOMPLEX));
-
+	ff = (SCOMPLEX*)malloc(2*Q*sizeof(SCOMPLEX));
 	inds = (int*)malloc((2*Mmax+1)*sizeof(int));
+
+	if(!s || !kiss_cfg_fw || !kiss_cfg_bw || !hkm || !y || !ff || !inds)
+	{
+		status = NOMEMORY;
+		goto cleanup;
+	}
+
+	SData(ff,Q, Nrow,Nmax);
+	kiss_fft(kiss_cfg_fw,(kiss_fft_cpx*)ff,(kiss_fft_cpx*)s);
+
 	memset(inds,0,(2*Mmax+1)*sizeof(int));
 
 
@@ -366,7 +375,7 @@ void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 		Nmax, 0,
 		sc, Nmax + 1,
 		s, Q,
-		ff, Q,
+		ff, 2*Q,
 		hkm, Nmax+1,
 		y, Nmax+1,
 		kiss_cfg_fw,
@@ -379,7 +388,7 @@ void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 			Nmax, -m,
 			pt, Nmax - abs(m) + 1, 
 			s, Q, 
-			ff, Q, 
+			ff, 2*Q, 
 			hkm, Nmax+1, 
 			y,Nmax+1,
 			kiss_cfg_fw,                       
@@ -390,13 +399,14 @@ void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 			Nmax, m,
 			pt, Nmax - abs(m) + 1,
 			s, Q,
-			ff, Q,
+			ff, 2*Q,
 			hkm, Nmax+1,
 			y, Nmax+1,
 			kiss_cfg_fw,
 			kiss_cfg_bw);
 	}
 
+cleanup:
 	//Free all memory here
 	free(s);
 	free(kiss_cfg_fw);
@@ -405,6 +415,8 @@ void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 	free(y);
 	free(ff);
 	free(inds);
+
+	return status;
 }
 
 /** 
@@ -495,8 +507,10 @@ void fcvec_m_sc(SCOMPLEX * vec,
  * @param L Length of sc
  * @param Nmax Maximum number of n modes in sc
  * @param Mmax Maximum number of abs(m) modes in sc
+ *
+ * @return SUCCESS, or NOMEMORY if the work space could not be allocated
  */
-void sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
+int sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
               SCOMPLEX* sc, int L,  
               int Nmax, int Mmax)
 {
@@ -508,6 +522,14 @@ void sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
 
         y = (SFLOAT*)malloc((Nmax+1)*sizeof(SFLOAT));
         inds = (int*)malloc((2*Mmax+1)*sizeof(int));
+
+	if(!y || !inds)
+	{
+		free(y);
+		free(inds);
+		return NOMEMORY;
+	}
+
 	memset(inds,0,(2*Mmax+1)*sizeof(int));
 
         //setup indices that index into sc
@@ -549,5 +571,7 @@ void sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
 	
 	free(y);
         free(inds);
+
+	return SUCCESS;
 }
 
diff --git a/src/csphi.h b/src/csphi.h
index 73bdaf7..d311f2c 100644
--- a/src/csphi.h
+++ b/src/csphi.h
@@ -53,6 +53,7 @@ typedef struct {
 
 #define SUCCESS    0
 #define OUTBOUNDS  1
+#define NOMEMORY   2
 
 #define PI 3.14159265358979323846
 
@@ -82,7 +83,7 @@ void bnm_fc(SCOMPLEX * fdata,int Nrow, int Ncol,
             kiss_fft_cfg kiss_cfg_fw,
             kiss_fft_cfg kiss_cfg_bw);
 
-void fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
+int fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
               SCOMPLEX* sc, int L,
               int Nmax, int Mmax);
 
@@ -92,7 +93,7 @@ void fcvec_m_sc(SCOMPLEX* vec,
                 int M, 
                 SFLOAT * y, int len);
 
-void sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
+int sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
               SCOMPLEX* sc, int L,  
               int Nmax, int Mmax);
 
diff --git a/src/csphi.i b/src/csphi.i
index 80675f3..ef84b6c 100644
--- a/src/csphi.i
+++ b/src/csphi.i
@@ -22,5 +22,14 @@ import_array();
 %apply (SCOMPLEX* INPLACE_ARRAY1, int DIM1) {(SCOMPLEX* sc, int L)};
 
 
+/* fc_to_sc and sc_to_fc return a status */
+%typemap(out) int fc_to_sc, int sc_to_fc {
+  if ($1 == NOMEMORY) {
+    PyErr_NoMemory();
+    SWIG_fail;
+  }
+  $result = SWIG_Py_Void();
+}
+
 %include "csphi.h"
  
diff --git a/src/csphi_wrap.c b/src/csphi_wrap.c
index f6fa62e..d1a8ef0 100644
--- a/src/csphi_wrap.c
+++ b/src/csphi_wrap.c
@@ -4173,6 +4173,7 @@ SWIGINTERN PyObject *_wrap_fc_to_sc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
   PyObject * obj1 = 0 ;
   PyObject * obj2 = 0 ;
   PyObject * obj3 = 0 ;
+  int result;
   
   if (!PyArg_ParseTuple(args,(char *)"OOOO:fc_to_sc",&obj0,&obj1,&obj2,&obj3)) SWIG_fail;
   {
@@ -4201,7 +4202,11 @@ SWIGINTERN PyObject *_wrap_fc_to_sc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
     SWIG_exception_fail(SWIG_ArgError(ecode7), "in method '" "fc_to_sc" "', argument " "7"" of type '" "int""'");
   } 
   arg7 = (int)(val7);
-  fc_to_sc(arg1,arg2,arg3,arg4,arg5,arg6,arg7);
+  result = (int)fc_to_sc(arg1,arg2,arg3,arg4,arg5,arg6,arg7);
+  if (result == NOMEMORY) {
+    PyErr_NoMemory();
+    SWIG_fail;
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -4303,6 +4308,7 @@ SWIGINTERN PyObject *_wrap_sc_to_fc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
   PyObject * obj1 = 0 ;
   PyObject * obj2 = 0 ;
   PyObject * obj3 = 0 ;
+  int result;
   
   if (!PyArg_ParseTuple(args,(char *)"OOOO:sc_to_fc",&obj0,&obj1,&obj2,&obj3)) SWIG_fail;
   {
@@ -4331,7 +4337,11 @@ SWIGINTERN PyObject *_wrap_sc_to_fc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
     SWIG_exception_fail(SWIG_ArgError(ecode7), "in method '" "sc_to_fc" "', argument " "7"" of type '" "int""'");
   } 
   arg7 = (int)(val7);
-  sc_to_fc(arg1,arg2,arg3,arg4,arg5,arg6,arg7);
+  result = (int)sc_to_fc(arg1,arg2,arg3,arg4,arg5,arg6,arg7);
+  if (result == NOMEMORY) {
+    PyErr_NoMemory();
+    SWIG_fail;
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
-- 
2.43.0


From 023e22d4c3dcece0a0630f3b4d401ecff8f07d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/27] fix: load infinities and signed zeros exactly

re + 1j * im turns an infinite part into a NaN and loses the sign of a zero.
---
 spherepy/file.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spherepy/file.py b/spherepy/file.py
index 3145856..a24cb14 100644
--- a/spherepy/file.py
+++ b/spherepy/file.py
@@ -112,7 +112,7 @@ def load_patt(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return sp.ScalarPatternUniform(patt, doublesphere=False)
 
@@ -136,7 +136,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt1[n, m] = re + 1j * im
+            patt1[n, m] = complex(re, im)
 
     with open(filename2) as f: 
         lines2 = f.readlines()
@@ -154,7 +154,7 @@ def load_vpatt(filename1, filename2):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt2[n, m] = re + 1j * im
+            patt2[n, m] = complex(re, im)
 
     return sp.TransversePatternUniform(patt1, patt2)
 
@@ -176,7 +176,7 @@ def load_fdata(filename):
             m = int(lst[1])
             re = float(lst[2])
             im = float(lst[3])
-            patt[n, m] = re + 1j * im
+            patt[n, m] = complex(re, im)
 
     return np.array(patt, dtype=np.complex128)
 
@@ -201,7 +201,7 @@ def load_coef(filename):
             lst = line.split(',')
             re = float(lst[0])
             im = float(lst[1])
-            vec[n] = re + 1j * im
+            vec[n] = complex(re, im)
 
     return sp.ScalarCoefs(vec, nmax, mmax)
 
@@ -239,9 +239,9 @@ def load_vcoef(filename):
                 im = float(lst[1])
 
                 if in_vec2:
-                    vec2[n] = re + 1j * im
+                    vec2[n] = complex(re, im)
                 else:
-                    vec1[n] = re + 1j * im
+                    vec1[n] = complex(re, im)
 
                 n += 1
 
-- 
2.43.0


From beb54ea036369c8e7f9f1e0f04ca687d1be6d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 03/27] fix: refuse to load incomplete data files

A file cut off by a killed or unfinished save was loaded with zeros in place
of the missing records.
---
 spherepy/file.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spherepy/file.py b/spherepy/file.py
index a24cb14..2c06d7e 100644
--- a/spherepy/file.py
+++ b/spherepy/file.py
@@ -41,6 +41,13 @@ from six.moves import xrange  # @UnresolvedImport
 #------------------------------------------------------------------------Custom
 import spherepy as sp
 
+def _check_complete(lines, count, filename):
+    """Raises ValueError unless 'lines', the part of the file that follows the 
+    header, consists of 'count' records, the last one written to its end."""
+
+    if len(lines) != count or not lines[-1].endswith('\n'):
+        raise ValueError("{0} is not a complete data file".format(filename))
+
 def save_patt(patt, filename):
     """Saves ScalarPatternUniform object 'patt' to file. The first line of the 
     file has the number of rows and the number of columns in the pattern 
@@ -105,6 +112,7 @@ def load_patt(filename):
                         dtype=np.complex128)
 
         lines.pop(0)
+        _check_complete(lines, patt.size, filename)
 
         for line in lines:
             lst = line.split(',')
@@ -129,6 +137,7 @@ def load_vpatt(filename1, filename2):
                         dtype=np.complex128)
 
         lines.pop(0)
+        _check_complete(lines, patt1.size, filename1)
 
         for line in lines:
             lst = line.split(',')
@@ -147,6 +156,7 @@ def load_vpatt(filename1, filename2):
                         dtype=np.complex128)
 
         lines2.pop(0)
+        _check_complete(lines2, patt2.size, filename2)
 
         for line in lines2:
             lst = line.split(',')
@@ -169,6 +179,7 @@ def load_fdata(filename):
                         dtype=np.complex128)
 
         lines.pop(0)
+        _check_complete(lines, patt.size, filename)
 
         for line in lines:
             lst = line.split(',')
@@ -196,6 +207,7 @@ def load_coef(filename):
         vec = np.zeros(L, dtype=np.complex128)
    
         lines.pop(0)
+        _check_complete(lines, L, filename)
 
         for n, line in enumerate(lines):
             lst = line.split(',')
@@ -225,12 +237,13 @@ def load_vcoef(filename):
         vec2 = np.zeros(L, dtype=np.complex128)
    
         lines.pop(0)
+        _check_complete(lines, 2 * L + 1, filename)
 
         n = 0
         in_vec2 = False
         for line in lines:
 
-            if line.strip() == 'break':
+            if n == L and not in_vec2 and line.strip() == 'break':
                 n = 0
                 in_vec2 = True;
             else:
-- 
2.43.0


From 9c7b4552a207e13692ce787399b62d98b2d62608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 04/27] fix: keep pole values whose product underflows

double_sphere doubled them, taking one of the pair for missing.
---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 24608ca..d0fdbe0 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1774,7 +1774,7 @@ def double_sphere(cdata, sym):
                           np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s * t == 0:
+            if s == 0 or t == 0:
                 ddata[n, m] = s + t
             else:
                 ddata[n, m] = (s + t) / 2
-- 
2.43.0


From 564f0832511b40e9909ea8b35fbdcd231f8e7cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 05/27] fix: refuse to combine coefficients of different shape

Equal lengths do not imply equal nmax and mmax, and VectorCoefs compared an
operand with itself.
---
 spherepy/spherepy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d0fdbe0..9402282 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -545,7 +545,7 @@ class ScalarCoefs(object):
         @wraps(func)
         def verif(self, scoef):
             if isinstance(scoef, ScalarCoefs):
-                if len(self._vec) == len(scoef._vec):
+                if (self.nmax, self.mmax) == (scoef.nmax, scoef.mmax):
                     return ScalarCoefs(func(self, self._vec, scoef._vec),
                                         self.nmax,
                                         self.mmax)
@@ -819,7 +819,7 @@ class VectorCoefs(object):
         @wraps(func)
         def verif(self, vcoef):
             if isinstance(vcoef, VectorCoefs):
-                if len(vcoef.scoef1._vec) == len(vcoef.scoef1._vec):
+                if (self.nmax, self.mmax) == (vcoef.nmax, vcoef.mmax):
                     return VectorCoefs(func(self, self.scoef1._vec,
                                                   vcoef.scoef1._vec),
                                        func(self, self.scoef2._vec,
-- 
2.43.0


From f93e8517a9009c957e5e1d6dd4848d361d6c8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 06/27] fix: count the second component in L2_coef

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 9402282..a7f957b 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2187,7 +2187,7 @@ def L2_coef(coef):
         return np.sqrt(np.sum(np.abs(coef._vec) ** 2))
     elif isinstance(coef, VectorCoefs):
         l1 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
-        l2 = np.sqrt(np.sum(np.abs(coef.scoef1._vec) ** 2))
+        l2 = np.sqrt(np.sum(np.abs(coef.scoef2._vec) ** 2))
         return np.sqrt(l1 ** 2 + l2 ** 2)
     
 def L2_patt(patt):
-- 
2.43.0


From 05a53b536ce828ad4f3d0ea252adfc9251a2844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 07/27] fix: check the symmetry of the phi component

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index a7f957b..dc617c9 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1238,7 +1238,7 @@ class TransversePatternUniform:
         """
         
         sv_t = self._sv(self._tdsphere)
-        sv_p = self._sv(self._tdsphere)
+        sv_p = self._sv(self._pdsphere)
         
         return (sv_t, sv_p)
         
-- 
2.43.0


From f509364e405af0109d44a129ccd353a7813e9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 08/27] fix: square the magnitude in mag2 of ScalarCoefs

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index dc617c9..3a6b51d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1710,7 +1710,7 @@ def mag2(sobj):
     if isinstance(sobj, ScalarPatternUniform):
         return np.abs(sobj.array) ** 2
     elif isinstance(sobj, ScalarCoefs):
-        return ScalarCoefs(np.abs(sobj._vec), sobj.nmax, sobj.mmax)
+        return ScalarCoefs(np.abs(sobj._vec) ** 2, sobj.nmax, sobj.mmax)
     elif isinstance(sobj, TransversePatternUniform):
         return np.abs(sobj.theta) ** 2 + np.abs(sobj.phi) ** 2
     elif isinstance(sobj, VectorCoefs):
-- 
2.43.0


From 80e15650620ea6470f99cbcaca2ebc1c69529de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 09/27] fix: raise ZeroDivisionError instead of returning it

---
 spherepy/spherepy.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 3a6b51d..679ab97 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -601,7 +601,7 @@ class ScalarCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -610,7 +610,7 @@ class ScalarCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a
@@ -619,7 +619,7 @@ class ScalarCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -628,7 +628,7 @@ class ScalarCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -881,7 +881,7 @@ class VectorCoefs(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -890,7 +890,7 @@ class VectorCoefs(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -899,7 +899,7 @@ class VectorCoefs(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -908,7 +908,7 @@ class VectorCoefs(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1132,7 +1132,7 @@ class ScalarPatternUniform(object):
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1141,7 +1141,7 @@ class ScalarPatternUniform(object):
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1150,7 +1150,7 @@ class ScalarPatternUniform(object):
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b
@@ -1159,7 +1159,7 @@ class ScalarPatternUniform(object):
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a  
@@ -1332,7 +1332,7 @@ class TransversePatternUniform:
     def __div__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1341,7 +1341,7 @@ class TransversePatternUniform:
     def __rdiv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a 
@@ -1350,7 +1350,7 @@ class TransversePatternUniform:
     def __truediv__(self, a, b):
         if isinstance(b, numbers.Number):
             if b == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return a / b
         else:
             return a / b  
@@ -1359,7 +1359,7 @@ class TransversePatternUniform:
     def __rtruediv__(self, a, b):
         if isinstance(a, numbers.Number):
             if a == 0:
-                return ZeroDivisionError()
+                raise ZeroDivisionError()
             return b / a
         else:
             return b / a    
-- 
2.43.0


From f1e97acba9cfe26fc63d7013debeff921b201a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 10/27] fix: assign a row with as many values as it has

Rows with n > mmax hold 2 * mmax + 1 values, the number c[n, :] returns.
---
 spherepy/spherepy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 679ab97..8d6a691 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -405,13 +405,14 @@ class ScalarCoefs(object):
                 if (n > self.nmax) or (n < 0):
                     raise AttributeError(err_msg['n_out_bound'])
 
-                if (len(val) != 2 * n + 1):
-                    raise AttributeError(err_msg['dim_no_mtch'])
-
                 if n <= self.mmax:
                     nn = n
                 else:
                     nn = self.mmax            
+
+                if (len(val) != 2 * nn + 1):
+                    raise AttributeError(err_msg['dim_no_mtch'])
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
                     self.__setitem__((n, m), val[k])
 
-- 
2.43.0


From 85428a80bf57ba2e1ec4c1abd7332e84d8615abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/27] fix: do not ignore mmax when nmax is not given

---
 spherepy/spherepy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 8d6a691..60998e8 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1861,7 +1861,8 @@ def spht(ssphere, nmax=None, mmax=None):
 
     if nmax == None:
         nmax = ssphere.nrows - 2 
-        mmax = int(ssphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(ssphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
@@ -1906,7 +1907,8 @@ def vspht(vsphere, nmax=None, mmax=None):
     
     if nmax == None:
         nmax = vsphere.nrows - 2 
-        mmax = int(vsphere.ncols / 2) - 1
+        if mmax == None:
+            mmax = int(vsphere.ncols / 2) - 1
     elif mmax == None:
         mmax = nmax
 
-- 
2.43.0


From 202bb91b5bf516d6b0b8e146b20159e2e0b18840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 12/27] fix: refuse sizes the native transforms cannot serve

Negative sizes, a single row and arrays that do not fit the number of modes
made the native routines read and write outside their buffers.
---
 spherepy/spherepy.py | 10 +++++++++-
 src/csphi.c          | 14 ++++++++++++--
 src/csphi.i          |  4 ++++
 src/csphi_wrap.c     |  8 ++++++++
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 60998e8..6ff4209 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -115,6 +115,8 @@ err_msg['scoef_size'] = "vec must have length = " + \
 err_msg['vcoef_size'] = "vec1 and vec2 must have length = " + \
                               "nmax + 1 + mmax * (2 * (nmax + 1) - mmax - 1)"
 
+err_msg['neg_size'] = "nmax and mmax must not be negative"
+
 err_msg['inverse_terr'] = "can't have nrows < nmax + 2 or " + \
                                "ncols < 2 * mmax + 2"
 
@@ -1869,6 +1871,9 @@ def spht(ssphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['neg_size'])
+
     if nmax >= ssphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -1915,6 +1920,9 @@ def vspht(vsphere, nmax=None, mmax=None):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['neg_size'])
+
     if nmax >= vsphere.nrows - 1:
         raise ValueError(err_msg['nmax_too_lrg'])
 
@@ -2057,7 +2065,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols == None:
         ncols = 2 * scoefs.mmax + 2
 
-    if nrows <= scoefs.nmax:
+    if nrows <= scoefs.nmax or nrows < 2:
         raise ValueError(err_msg['inverse_terr'])
 
     if ncols < 2 * scoefs.mmax + 2:
diff --git a/src/csphi.c b/src/csphi.c
index b2f387b..6e69908 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -316,7 +316,8 @@ void bnm_fc(SCOMPLEX * fdata,int Nrow, int Ncol,
 * @param Nmax Maximum number of n modes desired
 * @param Mmax Maximum number of abs(m) modes desired
 *
-* @return SUCCESS, or NOMEMORY if the work space could not be allocated
+* @return SUCCESS, NOMEMORY if the work space could not be allocated, or
+* OUTBOUNDS if the arrays do not fit Nmax and Mmax
 */
 int fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 			  SCOMPLEX* sc, int L,
@@ -335,6 +336,10 @@ int fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 	kiss_fft_cfg kiss_cfg_fw;
 	kiss_fft_cfg kiss_cfg_bw;
 
+	if(Mmax < 0 || Mmax > Nmax || Nrow < 2 || Ncol < 2*Mmax + 1
+		|| L < N + Mmax*(2*N - Mmax - 1))
+		return OUTBOUNDS;
+
 	Q = FindQ(Nrow+Nmax);
 
 	//Allocate all memory here
@@ -508,7 +513,8 @@ void fcvec_m_sc(SCOMPLEX * vec,
  * @param Nmax Maximum number of n modes in sc
  * @param Mmax Maximum number of abs(m) modes in sc
  *
- * @return SUCCESS, or NOMEMORY if the work space could not be allocated
+ * @return SUCCESS, NOMEMORY if the work space could not be allocated, or
+* OUTBOUNDS if the arrays do not fit Nmax and Mmax
  */
 int sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
               SCOMPLEX* sc, int L,  
@@ -520,6 +526,10 @@ int sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
         int N = Nmax + 1;
 	int QQ = Nmax;
 
+	if(Mmax < 0 || Mmax > Nmax || Nmax > Nrow/2 || Nrow < 2
+		|| Ncol < 2*Mmax + 1 || L < N + Mmax*(2*N - Mmax - 1))
+		return OUTBOUNDS;
+
         y = (SFLOAT*)malloc((Nmax+1)*sizeof(SFLOAT));
         inds = (int*)malloc((2*Mmax+1)*sizeof(int));
 
diff --git a/src/csphi.i b/src/csphi.i
index ef84b6c..bd96769 100644
--- a/src/csphi.i
+++ b/src/csphi.i
@@ -28,6 +28,10 @@ import_array();
     PyErr_NoMemory();
     SWIG_fail;
   }
+  if ($1 == OUTBOUNDS) {
+    PyErr_SetString(PyExc_ValueError, "array sizes do not fit nmax and mmax");
+    SWIG_fail;
+  }
   $result = SWIG_Py_Void();
 }
 
diff --git a/src/csphi_wrap.c b/src/csphi_wrap.c
index d1a8ef0..00e5984 100644
--- a/src/csphi_wrap.c
+++ b/src/csphi_wrap.c
@@ -4207,6 +4207,10 @@ SWIGINTERN PyObject *_wrap_fc_to_sc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
     PyErr_NoMemory();
     SWIG_fail;
   }
+  if (result == OUTBOUNDS) {
+    PyErr_SetString(PyExc_ValueError, "array sizes do not fit nmax and mmax");
+    SWIG_fail;
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
@@ -4342,6 +4346,10 @@ SWIGINTERN PyObject *_wrap_sc_to_fc(PyObject *SWIGUNUSEDPARM(self), PyObject *ar
     PyErr_NoMemory();
     SWIG_fail;
   }
+  if (result == OUTBOUNDS) {
+    PyErr_SetString(PyExc_ValueError, "array sizes do not fit nmax and mmax");
+    SWIG_fail;
+  }
   resultobj = SWIG_Py_Void();
   return resultobj;
 fail:
-- 
2.43.0


From 198bfc6b5925a71659c4f15065857b071819af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 13/27] fix: check the sizes in spht_slow and ispht_slow

They answered with wrong values where spht and ispht raise ValueError.
---
 spherepy/spherepy.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 6ff4209..bf241a3 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2009,6 +2009,15 @@ def spht_slow(ssphere, nmax, mmax):
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
+    if mmax < 0:
+        raise ValueError(err_msg['neg_size'])
+
+    if nmax >= ssphere.nrows - 1:
+        raise ValueError(err_msg['nmax_too_lrg'])
+
+    if mmax >= ssphere.ncols / 2:
+        raise ValueError(err_msg['mmax_too_lrg'])
+
     nrows = ssphere._dsphere.shape[0]
     ncols = ssphere._dsphere.shape[1]
 
@@ -2178,6 +2187,12 @@ def ispht_slow(scoefs, nrows, ncols):
 
     """
 
+    if nrows <= scoefs.nmax or nrows < 2:
+        raise ValueError(err_msg['inverse_terr'])
+
+    if ncols < 2 * scoefs.mmax + 2:
+        raise ValueError(err_msg['inverse_terr'])
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0


From a584a487053322e1e0d9809f2e03edf24b442dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 14/27] fix: check the length of a window before applying it

A vector of another length was applied to some of the coefficients.
---
 spherepy/spherepy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index bf241a3..87b9610 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -115,6 +115,8 @@ err_msg['scoef_size'] = "vec must have length = " + \
 err_msg['vcoef_size'] = "vec1 and vec2 must have length = " + \
                               "nmax + 1 + mmax * (2 * (nmax + 1) - mmax - 1)"
 
+err_msg['win_size'] = "vec must have length = nmax + 1"
+
 err_msg['neg_size'] = "nmax and mmax must not be negative"
 
 err_msg['inverse_terr'] = "can't have nrows < nmax + 2 or " + \
@@ -264,6 +266,9 @@ class ScalarCoefs(object):
         """
 
         slce = slice(None, None, None)
+
+        if len(vec) != self.nmax + 1:
+            raise ValueError(err_msg['win_size'])
         
         self.__setitem__((slce, 0), self.__getitem__((slce, 0)) * vec)  
         for m in xrange(1, self.mmax + 1):
-- 
2.43.0


From 29e658e235fbe6966fb389865887257f9aa479ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 15/27] fix: let use_cext "False" select the Python routines

The setting is a string, and every non-empty string is true.
---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 87b9610..f48d78f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -66,7 +66,7 @@ import spherepy.csphi as csphi  # c extensions of the low level routines
 
 with open(dirname(__file__) + '/pkg_info.json') as fp:
     _info = json.load(fp)
-use_cext = _info["use_cext"]
+use_cext = str(_info["use_cext"]) == "True"
 
 scalar = 0
 vector = 1
-- 
2.43.0


From cd8097ba2f278277d848ca6bd6c74105abbc9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 16/27] fix: ispht with nrows = nmax + 1

The highest frequencies n and -n fall on the same row of the Fourier data;
only one of them was counted.
---
 spherepy/pysphi.py | 4 ++++
 src/csphi.c        | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/spherepy/pysphi.py b/spherepy/pysphi.py
index 3ebab4d..727e572 100644
--- a/spherepy/pysphi.py
+++ b/spherepy/pysphi.py
@@ -246,6 +246,10 @@ def fcvec_m_sc(vec, m, nmax, nrows):
     for k in xrange(0, H):
         F[-(k + 1)] = mm * F[k + 1]
 
+    # the frequencies nmax and -nmax share this row
+    if 2 * nmax == nrows:
+        F[nmax] *= 1 + mm
+
     return F
 
 def sc_to_fc(spvec, nmax, mmax, nrows, ncols):
diff --git a/src/csphi.c b/src/csphi.c
index 6e69908..e7aba86 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -500,6 +500,13 @@ void fcvec_m_sc(SCOMPLEX * vec,
 		fdata[Ncol*(Nrow-1 - k) + M].r = mm*fdata[Ncol*(k+1)+M].r; 
                 fdata[Ncol*(Nrow-1 - k) + M].i = mm*fdata[Ncol*(k+1)+M].i; 
 	}
+
+	//the frequencies Nmax and -Nmax share this row
+	if(2*Nmax == Nrow)
+	{
+		fdata[Ncol*Nmax + M].r *= 1 + mm;
+		fdata[Ncol*Nmax + M].i *= 1 + mm;
+	}
 }
 
 /** 
-- 
2.43.0


From 5c52461b07179121da71d50b3c3db51c992137ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 17/27] fix: transform real coefficients with the native
 routines too

ispht(abs(c)) raised TypeError unless the Python routines were selected.
---
 spherepy/spherepy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index f48d78f..d4acc7d 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2092,7 +2092,8 @@ def ispht(scoefs, nrows=None, ncols=None):
 
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata, scoefs._vec, scoefs._nmax, scoefs._mmax)
+        vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
@@ -2138,9 +2139,11 @@ def vispht(vcoefs, nrows=None, ncols=None):
     if use_cext: 
         fdata1 = np.zeros([dnrows, ncols], dtype=np.complex128)
         fdata2 = np.zeros([dnrows, ncols], dtype=np.complex128)
-        csphi.sc_to_fc(fdata1, sc1._vec,
+        vec1 = np.ascontiguousarray(sc1._vec, dtype=np.complex128)
+        vec2 = np.ascontiguousarray(sc2._vec, dtype=np.complex128)
+        csphi.sc_to_fc(fdata1, vec1,
                        sc1.nmax, sc1.mmax)
-        csphi.sc_to_fc(fdata2, sc2._vec,
+        csphi.sc_to_fc(fdata2, vec2,
                        sc1.nmax, sc1.mmax)
     else:   
         fdata1 = pysphi.sc_to_fc(sc1._vec,
-- 
2.43.0


From 37ab53eea7576ab2b67fcd3b2b076dad5de5d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 18/27] fix: keep infinities, signed zeros and huge pole values
 at construction

---
 spherepy/spherepy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index d4acc7d..daa49d3 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -1778,12 +1778,17 @@ def double_sphere(cdata, sym):
 
     for n in xrange(0, nrows):
         for m in xrange(0, ncols):
-            s = sym * cdata[np.mod(nrows - n, nrows),
-                          np.mod(int(np.floor(ncols / 2)) + m, ncols)]
+            s = cdata[np.mod(nrows - n, nrows),
+                      np.mod(int(np.floor(ncols / 2)) + m, ncols)]
             t = cdata[n, m]
 
-            if s == 0 or t == 0:
-                ddata[n, m] = s + t
+            if sym < 0:
+                s = -s
+
+            if s == 0 or s == t:
+                ddata[n, m] = t
+            elif t == 0:
+                ddata[n, m] = s
             else:
                 ddata[n, m] = (s + t) / 2
 
-- 
2.43.0


From cee0dc7b490d965088c4b90a055811b2c9e83439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 19/27] fix: refuse to verify coefficient sets of different
 shape

---
 spherepy/verify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spherepy/verify.py b/spherepy/verify.py
index c3f12fb..6f7ddbc 100644
--- a/spherepy/verify.py
+++ b/spherepy/verify.py
@@ -88,6 +88,10 @@ def verify_vspht(pattf1, pattf2, scoeff1, scoeff2):
     fsc1 = fl.load_coef(scoeff1)
     fsc2 = fl.load_coef(scoeff2)
 
+    if (fsc1.nmax, fsc1.mmax) != (fsc2.nmax, fsc2.mmax):
+        raise ValueError("The two sets of coefficients must have the same " +
+                         "nmax and mmax")
+
     vfsc = sp.VectorCoefs(fsc1._vec, fsc2._vec, fsc1.nmax, fsc1.mmax)
 
     vsc = sp.vspht(vfpatt, fsc1.nmax, fsc1.mmax)
@@ -105,6 +109,10 @@ def verify_vispht(pattf1, pattf2, scoeff1, scoeff2):
     fsc1 = fl.load_coef(scoeff1)
     fsc2 = fl.load_coef(scoeff2)
 
+    if (fsc1.nmax, fsc1.mmax) != (fsc2.nmax, fsc2.mmax):
+        raise ValueError("The two sets of coefficients must have the same " +
+                         "nmax and mmax")
+
     vfsc = sp.VectorCoefs(fsc1._vec, fsc2._vec, fsc1.nmax, fsc1.mmax)
 
     vpatt = sp.vispht(vfsc, vfpatt.nrows, vfpatt.ncols)
-- 
2.43.0


From e5f2e9e50c0154d996024b8addf8f87f51419202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 20/27] fix: tabulate sph_harmonic_tp at every phi of the grid

---
 spherepy/spherepy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index daa49d3..4fdd5a9 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -2271,7 +2271,7 @@ def sph_harmonic_tp(nrows, ncols, n, m):
     yvec = np.concatenate([num, nuvec])
     
     theta = np.linspace(0.0, np.pi, nrows)
-    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols)
+    phi = np.linspace(0.0, 2.0 * np.pi - 2.0 * np.pi / ncols, ncols)
     nu = np.array(range(-n, n + 1), dtype=np.complex128)
     
     out = np.zeros([nrows, ncols], dtype=np.complex128)
-- 
2.43.0


From 119b7aa8fdd12ac6c55704db76efc1126c6feee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 21/27] fix: spherical Bessel functions of order 0 alone

---
 spherepy/sbessel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index f856e6f..eb0da46 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -54,6 +54,9 @@ def sbessely(x, N):
 
     """
 
+    if N == 1:
+        return np.array([-np.cos(x) / x])
+
     out = np.zeros(N, dtype=np.float64)
 
     out[0] = -np.cos(x) / x
@@ -72,6 +75,9 @@ def sbesselj(x, N):
 
     """
 
+    if N == 1:
+        return np.array([np.sin(x) / x])
+
     nmax = N - 1;
     out = np.zeros(N, dtype=np.float64)
     z = x ** 2
-- 
2.43.0


From 1ebe4508e7bb9fc15f1b8ef66ebb86441e950312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 22/27] fix: harmonics of degree above 1000

The starting value of the recursion underflowed: transforms lost digits from
degree 1023 on and returned nonsense from about 1080 on.
---
 spherepy/pysphi.py | 33 +++++++++++++++++++++----
 src/csphi.c        | 60 +++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/spherepy/pysphi.py b/spherepy/pysphi.py
index 727e572..711abb5 100644
--- a/spherepy/pysphi.py
+++ b/spherepy/pysphi.py
@@ -51,12 +51,18 @@ from six.moves import xrange  # @UnresolvedImport
 # Low Level Routines
 #==============================================================================
 
-def ynnm(n, m):
-    """Initial value for recursion formula""" 
+# Values beyond these are rescaled by them (powers of two)
+_BIG = 2.0 ** 500
+_SMALL = 2.0 ** -500
+
+def _ynnm_scaled(n, m):
+    """Initial value for recursion formula: mantissa and power of two. The
+    value itself gets too small to be represented as n gets larger."""
     a = 1.0 / np.sqrt(4.0 * np.pi)
     pm = np.abs(m)
 
     out = 0.0
+    ex = 0
 
     if(n < pm):
         out = 0.0
@@ -66,11 +72,23 @@ def ynnm(n, m):
         out = a
         for k in xrange(1, n + 1):
             out *= np.sqrt((2.0 * k + 1.0) / 8.0 / k)
+            if out < _SMALL:
+                out *= _BIG
+                ex -= 500
 
         if(n != pm):
             for k in xrange(n - 1, pm - 1, -1):
                 out *= np.sqrt((n + k + 1.0) / (n - k))
-    return out
+                if out > _BIG:
+                    out *= _SMALL
+                    ex += 500
+    return out, ex
+
+def ynnm(n, m):
+    """Initial value for recursion formula""" 
+    out, ex = _ynnm_scaled(n, m)
+
+    return np.ldexp(out, ex)
 
 def ynunm(n, m, L):
     """Fourier coefficients for spherical harmonics"""
@@ -81,7 +99,7 @@ def ynunm(n, m, L):
     tmp3 = 0
     tmp4 = 0       
     if(np.abs(m) <= n):
-        out[n] = ynnm(n, m)
+        out[n], ex = _ynnm_scaled(n, m)
         k = n - 2
         if(k >= 0):
             tmp1 = (n - k - 1.0) * (n + k + 2.0)
@@ -95,6 +113,13 @@ def ynunm(n, m, L):
                 tmp3 = (n - k - 3.0) * (n + k + 4.0);
                 tmp4 = ((n - k) * (n + k + 1.0))
                 out[k] = ((tmp1 + tmp2) * out[k + 2] - tmp3 * out[k + 4]) / tmp4
+
+                if np.abs(out[k]) > _BIG:
+                    out[k:] *= _SMALL
+                    ex += 500
+
+        if ex != 0:
+            out = np.ldexp(out, ex)
     return out    
     
 
diff --git a/src/csphi.c b/src/csphi.c
index e7aba86..9db33a0 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -35,25 +35,30 @@
 */
 #define B(n,v) (((n)-(v))*((n)+(v)+1.0))
 
+/* Values beyond these are rescaled by it, a power of two (2^500) */
+#define BIG 3.273390607896142e+150
+#define SMALL (1.0/BIG)
+
 /** 
-* Calculate the starting value y(n|nm) for the recursion formula
-*that generates the Fourier coefficients of the spherical 
-*harmonic Ynm.
-* @brief Calculate y(n|nm) 
+* The starting value y(n|nm) gets too small to be represented as n gets larger,
+* so it is calculated as mantissa and power of two.
+* @brief Calculate y(n|nm) / 2^ex
 * 
 * @param n The n index in Ynm
 * @param m The m index in Ynm
+* @param ex The power of two
 * 
-* @return ynnm The starting value y(n|nm) for the recursion formula
-* @see ynunm()
+* @return y(n|nm) / 2^ex
+* @see ynnm()
 */
-double ynnm(int n, int m)
+static double ynnm_scaled(int n, int m, int* ex)
 {
 	int pm,k;
 	double a,ynnm;
 
 	a=1.0/sqrt(4.0*PI);
 	pm = abs(m);
+	*ex = 0;
 
 	if(n < pm){
 		ynnm=0;
@@ -65,16 +70,44 @@ double ynnm(int n, int m)
 		ynnm=a;
 		for(k=1; k<=n; k++){
 			ynnm=sqrt((2.0*k+1)/(8.0*k))*ynnm;
+			if(ynnm < SMALL){
+				ynnm *= BIG;
+				*ex -= 500;
+			}
 		}
 		if(n!=pm){
 			for(k=n-1; k>=pm; k--){
 				ynnm=sqrt(1.0*(n+k+1.0)/(n-k))*ynnm;
+				if(ynnm > BIG){
+					ynnm *= SMALL;
+					*ex += 500;
+				}
 			}
 		}
 	}
 	return ynnm;
 }
 
+/** 
+* Calculate the starting value y(n|nm) for the recursion formula
+*that generates the Fourier coefficients of the spherical 
+*harmonic Ynm.
+* @brief Calculate y(n|nm) 
+* 
+* @param n The n index in Ynm
+* @param m The m index in Ynm
+* 
+* @return ynnm The starting value y(n|nm) for the recursion formula
+* @see ynunm()
+*/
+double ynnm(int n, int m)
+{
+	int ex;
+	double y = ynnm_scaled(n,m,&ex);
+
+	return ldexp(y,ex);
+}
+
 /** 
 * Calculates the Fourier coefficients y(nu|n,m). y must have a
 * length greater than n.  
@@ -89,20 +122,29 @@ double ynnm(int n, int m)
 */
 void ynunm(int en,int em,SFLOAT* y,int len)
 {
-	int k;
+	int k,j,ex;
 
 	for(k=0;k<len;k++)
 		*(y + k)=0;
 
 	if(abs(em) <= en){
-		*(y + en) = ynnm(en,em);
+		*(y + en) = ynnm_scaled(en,em,&ex);
 		k=en-2;
 		if(k >= 0){
 			*(y + k) = (B(en,k+1.0)+B(en,k+2.0) - 4.0*em*em)*(*(y + k + 2))/B(en,k);	
 			for(k=k-2;k>=0;k-=2){
 				(*(y + k))=((B(en,k+1.0)+B(en,k+2.0)-4.0*em*em)*(*(y + k + 2))-B(en,k+3.0)*(*(y + k + 4)))/B(en,k);
+				if(fabs(*(y + k)) > BIG){
+					for(j=k;j<=en;j++)
+						*(y + j) *= SMALL;
+					ex += 500;
+				}
 			}
 		}
+		if(ex != 0){
+			for(k=0;k<=en;k++)
+				*(y + k) = ldexp(*(y + k),ex);
+		}
 	}
 }
 
-- 
2.43.0


From bcdda0fb1009f591726efef35203d8c7a263451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 23/27] fix: spherical Bessel functions of arguments below
 1e-154

x**2 underflowed, which made every order but 0 infinite or NaN.
---
 spherepy/sbessel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherepy/sbessel.py b/spherepy/sbessel.py
index eb0da46..48ca549 100644
--- a/spherepy/sbessel.py
+++ b/spherepy/sbessel.py
@@ -83,7 +83,7 @@ def sbesselj(x, N):
     z = x ** 2
 
     out[0] = np.sin(x) / x
-    j1 = np.sin(x) / z - np.cos(x) / x
+    j1 = (out[0] - np.cos(x)) / x
 
     u = 1
     v = x / (2.0 * nmax + 1.0)
-- 
2.43.0


From 9b05d237f3b3c5a598f2ff0078ff6ff24e79dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 24/27] fix: check native array sizes without integer overflow

---
 src/csphi.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csphi.c b/src/csphi.c
index 9db33a0..b9cdd44 100644
--- a/src/csphi.c
+++ b/src/csphi.c
@@ -378,8 +378,8 @@ int fc_to_sc(SCOMPLEX* fdata, int Nrow, int Ncol,
 	kiss_fft_cfg kiss_cfg_fw;
 	kiss_fft_cfg kiss_cfg_bw;
 
-	if(Mmax < 0 || Mmax > Nmax || Nrow < 2 || Ncol < 2*Mmax + 1
-		|| L < N + Mmax*(2*N - Mmax - 1))
+	if(Mmax < 0 || Mmax > Nmax || Nrow < 2 || Ncol < 2LL*Mmax + 1
+		|| L < Nmax + 1LL + Mmax*(2LL*Nmax + 1 - Mmax))
 		return OUTBOUNDS;
 
 	Q = FindQ(Nrow+Nmax);
@@ -576,7 +576,7 @@ int sc_to_fc(SCOMPLEX* fdata,int Nrow,int Ncol,
 	int QQ = Nmax;
 
 	if(Mmax < 0 || Mmax > Nmax || Nmax > Nrow/2 || Nrow < 2
-		|| Ncol < 2*Mmax + 1 || L < N + Mmax*(2*N - Mmax - 1))
+		|| Ncol < 2LL*Mmax + 1 || L < Nmax + 1LL + Mmax*(2LL*Nmax + 1 - Mmax))
 		return OUTBOUNDS;
 
         y = (SFLOAT*)malloc((Nmax+1)*sizeof(SFLOAT));
-- 
2.43.0


From cafbe5f95a94f4fef102f69d6206bda2ebb94a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 25/27] fix: a coefficient assignment that is refused leaves
 the object unchanged

---
 spherepy/spherepy.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 4fdd5a9..7c4e4db 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -397,7 +397,9 @@ class ScalarCoefs(object):
                 if len(val) != L:
                     raise AttributeError(err_msg['dim_no_mtch'])
                 else:
-                    self._vec[idx_start:idx_stop] = val
+                    # convert all of them before storing any
+                    vals = np.array(val, dtype=self._vec.dtype)
+                    self._vec[idx_start:idx_stop] = vals
             else:
                 raise AttributeError(err_msg['slice_noper'])
 
@@ -420,8 +422,13 @@ class ScalarCoefs(object):
                 if (len(val) != 2 * nn + 1):
                     raise AttributeError(err_msg['dim_no_mtch'])
 
+                # convert all of them before storing any
+                vals = np.empty(2 * nn + 1, dtype=self._vec.dtype)
+                for k in xrange(0, 2 * nn + 1):
+                    vals[k] = val[k]
+
                 for k, m in enumerate(xrange(-nn, nn + 1)):
-                    self.__setitem__((n, m), val[k])
+                    self.__setitem__((n, m), vals[k])
 
             else:
                 raise AttributeError(err_msg['slice_noper'])
@@ -748,8 +755,14 @@ class VectorCoefs(object):
             m = arg[1]
 
             try:
-                self.scoef1[n, m] = val[0]
-                self.scoef2[n, m] = val[1]
+                # convert both before storing either
+                v1 = np.empty(1, dtype=self.scoef1._vec.dtype)
+                v2 = np.empty(1, dtype=self.scoef2._vec.dtype)
+                v1[0] = val[0]
+                v2[0] = val[1]
+
+                self.scoef1[n, m] = v1[0]
+                self.scoef2[n, m] = v2[0]
             except IndexError:
                 AttributeError(err_msg['set_vc_val'])
 
-- 
2.43.0


From bf753740054be5b843034edcb2cda2dcd653b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 26/27] fix: sizes given as numpy integers are accepted by both
 backends

---
 spherepy/spherepy.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index 7c4e4db..bf9e3dd 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -46,6 +46,7 @@ import json
 from os.path import dirname
 from functools import wraps
 import numbers
+import operator
 
 #---------------------------------------------------------------------3rd Party
 import numpy as np
@@ -1891,6 +1892,10 @@ def spht(ssphere, nmax=None, mmax=None):
     elif mmax == None:
         mmax = nmax
 
+    # the C extension accepts only built-in integers
+    nmax = int(operator.index(nmax))
+    mmax = int(operator.index(mmax))
+
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -1940,6 +1945,10 @@ def vspht(vsphere, nmax=None, mmax=None):
     elif mmax == None:
         mmax = nmax
 
+    # the C extension accepts only built-in integers
+    nmax = int(operator.index(nmax))
+    mmax = int(operator.index(mmax))
+
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -2029,6 +2038,10 @@ def spht_slow(ssphere, nmax, mmax):
 
     """
 
+    # the C extension accepts only built-in integers
+    nmax = int(operator.index(nmax))
+    mmax = int(operator.index(mmax))
+
     if mmax > nmax:
         raise ValueError(err_msg['nmax_g_mmax'])
 
@@ -2111,7 +2124,7 @@ def ispht(scoefs, nrows=None, ncols=None):
     if use_cext: 
         fdata = np.zeros([dnrows, ncols], dtype=np.complex128)
         vec = np.ascontiguousarray(scoefs._vec, dtype=np.complex128)
-        csphi.sc_to_fc(fdata, vec, scoefs._nmax, scoefs._mmax)
+        csphi.sc_to_fc(fdata, vec, int(scoefs._nmax), int(scoefs._mmax))
     else:   
         fdata = pysphi.sc_to_fc(scoefs._vec,
                             scoefs._nmax,
@@ -2160,9 +2173,9 @@ def vispht(vcoefs, nrows=None, ncols=None):
         vec1 = np.ascontiguousarray(sc1._vec, dtype=np.complex128)
         vec2 = np.ascontiguousarray(sc2._vec, dtype=np.complex128)
         csphi.sc_to_fc(fdata1, vec1,
-                       sc1.nmax, sc1.mmax)
+                       int(sc1.nmax), int(sc1.mmax))
         csphi.sc_to_fc(fdata2, vec2,
-                       sc1.nmax, sc1.mmax)
+                       int(sc1.nmax), int(sc1.mmax))
     else:   
         fdata1 = pysphi.sc_to_fc(sc1._vec,
                             sc1.nmax,
-- 
2.43.0


From 50d19e2e8cd5267deb9afe9ab41e9efcab326066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:44 +0000
Subject: [PATCH 27/27] fix: the inverse transforms refuse a fractional number
 of rows

---
 spherepy/spherepy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spherepy/spherepy.py b/spherepy/spherepy.py
index bf9e3dd..956fa4f 100644
--- a/spherepy/spherepy.py
+++ b/spherepy/spherepy.py
@@ -74,6 +74,7 @@ vector = 1
 
 err_msg = {}
 err_msg['nmax_g_mmax'] = "nmax must be greater than or equal to mmax"
+err_msg['nrows_whole'] = "the number of rows must be a whole number"
 err_msg['ncols_even'] = "the number of columns must be even"  
 err_msg['tuple_2_el'] = "tuple must have 2 elements"
 err_msg['ukn_coef_t'] = "unknown coefficient type"
@@ -2116,6 +2117,9 @@ def ispht(scoefs, nrows=None, ncols=None):
     if ncols < 2 * scoefs.mmax + 2:
         raise ValueError(err_msg['inverse_terr'])
 
+    if nrows != int(nrows):
+        raise ValueError(err_msg['nrows_whole'])
+
     dnrows = int(2 * nrows - 2)
 
     if np.mod(ncols, 2) == 1:
@@ -2152,6 +2156,9 @@ def vispht(vcoefs, nrows=None, ncols=None):
         raise ValueError(err_msg['inverse_terr'])
 
 
+    if nrows != int(nrows):
+        raise ValueError(err_msg['nrows_whole'])
+
     dnrows = int(2 * nrows - 2)
 
     if np.mod(ncols, 2) == 1:
@@ -2232,6 +2239,9 @@ def ispht_slow(scoefs, nrows, ncols):
     if ncols < 2 * scoefs.mmax + 2:
         raise ValueError(err_msg['inverse_terr'])
 
+    if nrows != int(nrows):
+        raise ValueError(err_msg['nrows_whole'])
+
     dnrows = 2 * nrows - 2
 
     if np.mod(ncols, 2) == 1:
-- 
2.43.0

