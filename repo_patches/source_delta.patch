From 38443fe0d425e3325fab9a761c53cd425d0459bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 01/99] fix: incorporate the scale of matrices with diagonals
 defined through functions

diags() evaluated the functions when sorting the storage, and incorporate_scale
then only modified _keyscale, such that the scale was lost
---
 shenfun/matrixbase.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8b504fa..d637093 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -177,7 +177,8 @@ class SparseMatrix(MutableMapping):
         return self._diags*scale if scaled else self._diags
 
     def sort(self):
-        self._storage = {si[0]: si[1] for si in sorted(self.items())}
+        # Note: sort the storage, such that diagonals defined through functions remain so
+        self._storage = {key: self._storage[key] for key in sorted(self._storage)}
 
     def __getitem__(self, key):
         v = self._storage[key]
@@ -398,10 +399,11 @@ class SparseMatrix(MutableMapping):
         if abs(self.scale-1) < 1e-8:
             return
         if hasattr(self, '_keyscale'):
+            # Scales diagonals defined through functions
             self._keyscale *= self.scale
-        else:
-            for key, val in self.items():
-                self[key] = val*self.scale
+        for key, val in self._storage.items():
+            if not hasattr(val, '__call__'):
+                self._storage[key] = val*self.scale
         self.scale = 1
 
     def sorted_keys(self):
-- 
2.43.0


From b22138a7b47f08edd50555f9199d2bf97dbc8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 02/99] fix: do not solve with a stale solver after a matrix
 has been modified in place

---
 shenfun/matrixbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index d637093..ce01d8c 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -188,9 +188,11 @@ class SparseMatrix(MutableMapping):
 
     def __delitem__(self, key):
         del self._storage[key]
+        self.solver = None
 
     def __setitem__(self, key, val):
         self._storage[key] = val
+        self.solver = None
 
     def __iter__(self):
         return iter(self._storage)
@@ -218,6 +220,7 @@ class SparseMatrix(MutableMapping):
         """self.__imul__(y) <==> self*=y"""
         assert isinstance(y, Number)
         self.scale *= y
+        self.solver = None
         return self
 
     def __mul__(self, y):
-- 
2.43.0


From d9be2087a341bc9ded2ca7916a6e663455b45c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 03/99] fix: do not use hardcoded matvec/solve for
 SpectralMatrices modified in place

A += B (or A[key] = val) left A an instance of its original subclass, and
matvec and solve then ignored what had been added
---
 shenfun/matrixbase.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index ce01d8c..8362101 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -757,6 +757,19 @@ class SpectralMatrix(SparseMatrix):
         """
         return None
 
+    def __setitem__(self, key, val):
+        super(SpectralMatrix, self).__setitem__(key, val)
+        self._generalize()
+
+    def __delitem__(self, key):
+        super(SpectralMatrix, self).__delitem__(key)
+        self._generalize()
+
+    def _generalize(self):
+        # A matrix with modified diagonals is no longer described by the
+        # hardcoded matvec and solvers of the subclass it was created with.
+        self.__class__ = SpectralMatrix
+
     def matvec(self, v, c, format=None, axis=0):
         u = self.trialfunction[0]
         ss = [slice(None)]*len(v.shape)
-- 
2.43.0


From 5c8145ada72912e805caac34a214ba44cd18feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 04/99] fix: the sum of two matrices should not share diagonals
 with its operands

---
 shenfun/matrixbase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8362101..73f1ca6 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -287,7 +287,7 @@ class SparseMatrix(MutableMapping):
                 if key in f:
                     f[key] = f[key] + val
                 else:
-                    f[key] = val
+                    f[key] = copy(val)
         return f
 
     def __iadd__(self, d):
@@ -301,7 +301,7 @@ class SparseMatrix(MutableMapping):
         elif abs(self.scale) < 1e-16:
             self.clear()
             for key, val in d.items():
-                self[key] = val
+                self[key] = copy(val)
             self.scale = d.scale
             return self
 
@@ -311,7 +311,7 @@ class SparseMatrix(MutableMapping):
             if key in self:
                 self[key] = self[key] + val
             else:
-                self[key] = val
+                self[key] = copy(val)
         return self
 
     def __sub__(self, d):
@@ -350,7 +350,7 @@ class SparseMatrix(MutableMapping):
         elif abs(self.scale) < 1e-16:
             self.clear()
             for key, val in d.items():
-                self[key] = val
+                self[key] = copy(val)
             self.scale = -d.scale
             return self
 
-- 
2.43.0


From 132ea302c2de1c0e6f1ead5feaa0620b211191ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 05/99] fix: matvec of matrices with one single row

---
 shenfun/matrixbase.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 73f1ca6..e84328f 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -133,9 +133,8 @@ class SparseMatrix(MutableMapping):
         else:
             diags = self.diags(format=format)
             P = int(np.prod(v.shape[1:]))
-            y = diags.dot(v[:M].reshape(M, P)).squeeze()
-            d = tuple([slice(0, m) for m in y.shape])
-            c[d] = y.reshape(c[d].shape)
+            y = diags.dot(v[:M].reshape(M, P))
+            c[:N] = y.reshape((N,)+v.shape[1:])
 
         if axis > 0:
             c = np.moveaxis(c, 0, axis)
-- 
2.43.0


From f2bc2e0056ae6778bef3dbf8a02980e0c6cbfb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 06/99] fix: diags of zero matrix without any diagonals

---
 shenfun/matrixbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index e84328f..85831eb 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -167,6 +167,9 @@ class SparseMatrix(MutableMapping):
         """
         format = config['matrix']['sparse']['diags'] if format is None else format
         self.sort()
+        if len(self) == 0:
+            # All diagonals are zero, see clean_diagonals
+            return csr_matrix(self.shape).asformat(format)
         self._diags = sp_diags(list(self.values()),
                                list(self.keys()),
                                shape=self.shape, format=format)
-- 
2.43.0


From 33a858833e8bfd6b3ab3f94464f64c0edefe6468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 07/99] fix: Identity matrices that have been scaled or
 modified in place

copy and solve looked only at the scale, which is moved to the diagonal by
incorporate_scale (called, e.g., when the matrix is added to another), and
__copy__ returned the matrix itself
---
 shenfun/matrixbase.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 85831eb..4b7bc75 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -370,13 +370,9 @@ class SparseMatrix(MutableMapping):
         return self.__deepcopy__()
 
     def __copy__(self):
-        if self.__class__.__name__ == 'Identity':
-            return self
         return SparseMatrix(copy(dict(self)), self.shape, self.scale)
 
     def __deepcopy__(self, memo=None, _nil=[]):
-        if self.__class__.__name__ == 'Identity':
-            return Identity(self.shape, self.scale)
         return SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
 
     def __neg__(self):
@@ -835,13 +831,29 @@ class Identity(SparseMatrix):
         SparseMatrix.__init__(self, {0: 1}, shape, scale)
         self.measure = 1
 
+    def _is_scaled_identity(self):
+        # The diagonals may have been modified in place
+        return self.isdiagonal() and np.ndim(self[0]) == 0
+
+    def __copy__(self):
+        if self._is_scaled_identity():
+            return Identity(self.shape, self.scale*self[0])
+        return super(Identity, self).__copy__()
+
+    def __deepcopy__(self, memo=None, _nil=[]):
+        if self._is_scaled_identity():
+            return Identity(self.shape, self.scale*self[0])
+        return super(Identity, self).__deepcopy__(memo)
+
     def solve(self, b, u=None, axis=0, constraints=()):
+        if not self._is_scaled_identity():
+            return super(Identity, self).solve(b, u=u, axis=axis, constraints=constraints)
         if u is None:
             u = b
         else:
             assert u.shape == b.shape
             u[:] = b
-        u *= (1/self.scale)
+        u *= (1/(self.scale*self[0]))
         return u
 
 class ScipyMatrix(csr_matrix):
-- 
2.43.0


From 5fb9dd5cf34ad244ddba133693d5b3f41e1cf290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 08/99] fix: solve for scaled Chebyshev mass matrix

---
 shenfun/chebyshev/matrices.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 8ac96fd..e820cdb 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -162,11 +162,9 @@ class BTTmat(SpectralMatrix):
             u = b
         else:
             u[:] = b
-        space = self.testfunction[0]
-        u *= (2/np.pi*space.domain_factor())
-        u[space.si[0]] /= 2
-        if space.quad == 'GL':
-            u[space.si[-1]] /= 2
+        s = [np.newaxis]*u.ndim
+        s[axis] = slice(None)
+        u /= (self.scale*self[0])[tuple(s)]
         return u
 
 class BTLmat(SpectralMatrix):
-- 
2.43.0


From 1ba5cf2610e85592efc1cefbb16e2d95a6484a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 09/99] fix: use regular matvec for Legendre to Chebyshev mass
 matrix

The hardcoded version ignored format, the scale (and thus the domain) and
the modified last row of GL quadrature, and only worked for 1D arrays
---
 shenfun/chebyshev/matrices.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index e820cdb..144b8a0 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -200,22 +200,6 @@ class BTLmat(SpectralMatrix):
             d[0][-1] *= 2
         return d
 
-    def matvec(self, v, c, format=None, axis=0):
-        # Roll relevant axis to first
-        c.fill(0)
-        if axis > 0:
-            v = np.moveaxis(v, axis, 0)
-            c = np.moveaxis(c, axis, 0)
-
-        N = self.testfunction[0].N
-        for n in range(0, N, 2):
-            c[:(N-n)] += self.a[n//2]*self.a[n//2:(N-n//2)]*v[n:]
-
-        if axis > 0:
-            c = np.moveaxis(c, 0, axis)
-            v = np.moveaxis(v, 0, axis)
-        return c
-
 class BSDSDmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
 
-- 
2.43.0


From 1c7d9dc46e18401cee9b6c4b448d815dc09cf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 10/99] fix: matvec of scaled ASNSNmat (scaled twice) and
 CTSDmat (not scaled)

---
 shenfun/chebyshev/matrices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 144b8a0..bbdbeee 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -781,7 +781,7 @@ class CTSDmat(SpectralMatrix):
         c.fill(0)
         if format == 'cython':
             cython.Matvec.CTSD_matvec(v, c, axis)
-            self.scale_array(c, self.scale)
+            self.scale_array(c, self.scale*self[-1][0]/(-2*np.pi))
         else:
             format = None if format in self._matvec_methods else format
             c = super(CTSDmat, self).matvec(v, c, format=format, axis=axis)
@@ -1126,8 +1126,8 @@ class ASNSNmat(SpectralMatrix):
             s[0] = slice(None)
             j2 = j2[tuple(s)]
         vc = v[:-2]*j2
-        d0 = -2*np.pi*(k+1)/(k+2)*self.scale*self._keyscale
-        d2 = -4*np.pi*(k[:-2]+1)/(k[:-2]+2)**2*self.scale*self._keyscale
+        d0 = -2*np.pi*(k+1)/(k+2)*self._keyscale
+        d2 = -4*np.pi*(k[:-2]+1)/(k[:-2]+2)**2*self._keyscale
         c[N-1] = d0[N-1]*vc[N-1]
         c[N-2] = d0[N-2]*vc[N-2]
         s0 = 0
-- 
2.43.0


From 0f417d3bed04de8a8c22f67229995626a3433b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 11/99] fix: matvec of Hermite stiffness matrix calls kernels
 that no longer exist

---
 shenfun/hermite/matrices.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/shenfun/hermite/matrices.py b/shenfun/hermite/matrices.py
index b11e580..5d1a51e 100644
--- a/shenfun/hermite/matrices.py
+++ b/shenfun/hermite/matrices.py
@@ -72,17 +72,9 @@ class AHHmat(SpectralMatrix):
     def matvec(self, v, c, format='cython', axis=0):
         N, M = self.shape
         c.fill(0)
-        if format == 'cython' and v.ndim == 3:
+        if format == 'cython' and N > 3:
             ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec3D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 2:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec2D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 1:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec(v, c, ld, self[0], ld)
+            cython.Matvec.Tridiagonal_matvec(v, c, axis, ld, self[0], ld)
             self.scale_array(c, self.scale)
         elif format == 'self':
             if axis > 0:
@@ -98,7 +90,7 @@ class AHHmat(SpectralMatrix):
             self.scale_array(c, self.scale)
 
         else:
-            format = None if format in self._matvec_methods else format
+            format = None if format in ('cython', 'self') else format
             c = super(AHHmat, self).matvec(v, c, format=format, axis=axis)
 
         return c
-- 
2.43.0


From a5888f3e25a3a79cfde71895e47c9a677b255fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 12/99] fix: do not call Cython matvec kernels for matrices too
 small for them

---
 shenfun/chebyshev/matrices.py | 30 +++++++++++++++---------------
 shenfun/legendre/matrices.py  |  2 +-
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index bbdbeee..dd947a5 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -240,7 +240,7 @@ class BSDSDmat(SpectralMatrix):
 
         d0 = np.array(self[0]).astype(float)
         ld = np.array(self[-2]).astype(float)*np.ones(M-2)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.Tridiagonal_matvec(v, c, axis, ld, d0, ld)
             self.scale_array(c, self.scale)
         elif format == 'self':
@@ -326,7 +326,7 @@ class BSDSNmat(SpectralMatrix):
         N, M = self.shape
         if not M == N:
             format = 'csr'
-        if format == 'cython' and v.ndim == 3:
+        if format == 'cython' and v.ndim == 3 and min(self.shape) > 7:
             cython.Matvec.BDN_matvec(v, c, axis, self[-2], self[0], self[2])
             self.scale_array(c, self.scale)
         else:
@@ -536,7 +536,7 @@ class BSBSBmat(SpectralMatrix):
                 c = np.moveaxis(c, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython' and v.ndim == 3:
+        elif format == 'cython' and v.ndim == 3 and min(self.shape) > 7:
             cython.Matvec.Pentadiagonal_matvec(v, c, axis, self[-4], self[-2], self[0],
                                                self[2], self[4])
             self.scale_array(c, self.scale)
@@ -600,7 +600,7 @@ class BSBSDmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             cython.Matvec.BBD_matvec(v, c, axis, self[-2], self[0], self[2], self[4])
             self.scale_array(c, self.scale)
         else:
@@ -662,7 +662,7 @@ class CSDSNmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             c = cython.Matvec.CDN_matvec(v, c, axis, self[-1], self[1])
             self.scale_array(c, self.scale)
         else:
@@ -712,7 +712,7 @@ class CSDSDmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
                 c = np.moveaxis(c, 0, axis)
             self.scale_array(c, self.scale)
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             c = cython.Matvec.CDD_matvec(v, c, axis, self[-1], self[1])
             self.scale_array(c, self.scale)
         else:
@@ -779,11 +779,11 @@ class CTSDmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.CTSD_matvec(v, c, axis)
             self.scale_array(c, self.scale*self[-1][0]/(-2*np.pi))
         else:
-            format = None if format in self._matvec_methods else format
+            format = None if format == 'cython' else format
             c = super(CTSDmat, self).matvec(v, c, format=format, axis=axis)
         return c
 
@@ -859,7 +859,7 @@ class CTTmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.CTT_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
@@ -910,7 +910,7 @@ class CSBSDmat(SpectralMatrix):
                 c = np.moveaxis(c, 0, axis)
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             cython.Matvec.CBD_matvec(v, c, axis, self[-1], self[1], self[3])
             self.scale_array(c, self.scale)
         else:
@@ -963,7 +963,7 @@ class CSDSBmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             cython.Matvec.CDB_matvec(v, c, axis, self[-3], self[-1], self[1])
             self.scale_array(c, self.scale)
         else:
@@ -1016,7 +1016,7 @@ class ASBSBmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             cython.Matvec.Tridiagonal_matvec(v, c, axis, self[-2], self[0], self[2])
             self.scale_array(c, self.scale)
         else:
@@ -1066,7 +1066,7 @@ class ASDSDmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.ADD_matvec(v, c, axis, self[0]/self._keyscale)
             self.scale_array(c, self.scale*self._keyscale)
         else:
@@ -1199,7 +1199,7 @@ class ATTmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.ATT_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
@@ -1443,7 +1443,7 @@ class SSBSBmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and min(self.shape) > 7:
             cython.Matvec.SBB_matvec(v, c, axis, self[0]/self._keyscale)
             self.scale_array(c, self.scale*self._keyscale)
         else:
diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 1bd97ef..6fe6685 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -483,7 +483,7 @@ class CLLmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale*self._keyscale)
 
-        elif format == 'cython':
+        elif format == 'cython' and min(self.shape) > 7:
             cython.Matvec.CLL_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
-- 
2.43.0


From 9124ff01d6b69837e51d5fce6832fd9c8386d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 13/99] fix: Numba matvec of scaled Chebyshev-Neumann stiffness
 matrix

---
 shenfun/optimization/numba/helmholtz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index fe007c5..e8c1134 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -460,7 +460,7 @@ def ANN_matvec1D(v, c, d0, d2, scale=1):
             s1 += v[k+2]*(k+2)**2
             c[k] += s1*d2[k]/(k+2)**2
     if scale != 1:
-        c /= scale
+        c *= scale
 
 @nb.jit(nopython=True, fastmath=True, cache=True)
 def ANN_matvec2D(v, b, d0, d2, scale, axis):
-- 
2.43.0


From aae8662593519d60751e244967df4cedab91cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 14/99] fix: negative of Identity matrix modified in place

---
 shenfun/matrixbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 4b7bc75..27b42a4 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -837,12 +837,14 @@ class Identity(SparseMatrix):
 
     def __copy__(self):
         if self._is_scaled_identity():
-            return Identity(self.shape, self.scale*self[0])
+            A = Identity(self.shape, self.scale)
+            A[0] = self[0]
+            return A
         return super(Identity, self).__copy__()
 
     def __deepcopy__(self, memo=None, _nil=[]):
         if self._is_scaled_identity():
-            return Identity(self.shape, self.scale*self[0])
+            return self.__copy__()
         return super(Identity, self).__deepcopy__(memo)
 
     def solve(self, b, u=None, axis=0, constraints=()):
-- 
2.43.0


From 803010eab6ca16f0b3fb512e3cb25af1ecb0dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 15/99] fix: ThreeDMA uses the first upper diagonal in place of
 the second

---
 shenfun/la.py                          | 2 +-
 shenfun/optimization/cython/la.pyx     | 2 +-
 shenfun/optimization/numba/threedma.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ad462bf..ecf8804 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -690,7 +690,7 @@ class ThreeDMA(BandedMatrixSolver):
     def inner_solve(u, data):
         d = data[0, :]
         u1 = data[1, 2:]
-        u2 = data[1, 4:]
+        u2 = data[2, 4:]
         n = d.shape[0]
         u[n-1] = u[n-1]/d[n-1]
         u[n-2] = u[n-2]/d[n-2]
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index e41c0b0..3bb2e93 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -571,7 +571,7 @@ cdef void ThreeDMA_inner_solve_ptr(T* u, int st, double* data, int m0, int m1):
         int i, n = m1
         double* d = &data[0]
         double* u1 = &data[m1+2]
-        double* u2 = &data[m1+4]
+        double* u2 = &data[2*m1+4]
     u[(n-1)*st] = u[(n-1)*st]/d[n-1]
     u[(n-2)*st] = u[(n-2)*st]/d[n-2]
     u[(n-3)*st] = (u[(n-3)*st]-u1[n-3]*u[(n-1)*st])/d[n-3]
diff --git a/shenfun/optimization/numba/threedma.py b/shenfun/optimization/numba/threedma.py
index 881fe3d..2695c5f 100644
--- a/shenfun/optimization/numba/threedma.py
+++ b/shenfun/optimization/numba/threedma.py
@@ -25,7 +25,7 @@ def ThreeDMA_Solve(x, data, axis=0):
 def ThreeDMA_inner_solve(u, data):
     d = data[0, :]
     u1 = data[1, 2:]
-    u2 = data[1, 4:]
+    u2 = data[2, 4:]
     n = d.shape[0]
     u[n-1] = u[n-1]/d[n-1]
     u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From 34b49e907e4b8cd32951d85f1f9f67817cc355f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 16/99] fix: DiagMA for multidimensional arrays (broadcasting
 in Python, rows outside the matrix in Cython)

---
 shenfun/la.py                      | 2 +-
 shenfun/optimization/cython/la.pyx | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ecf8804..8e56ff2 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -317,7 +317,7 @@ class DiagMA(BandedMatrixSolver):
     @staticmethod
     def inner_solve(u, lu):
         d = lu[0]
-        u[:d.shape[0]] /= d
+        u[:d.shape[0]] /= d.reshape((-1,)+(1,)*(u.ndim-1))
 
     @staticmethod
     @runtimeoptimizer
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 3bb2e93..01d6f01 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -129,20 +129,18 @@ cpdef DiagMA_Solve_2D(np.ndarray[T, ndim=2] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
-        DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
+        DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, data.shape[1])
         np.PyArray_ITER_NEXT(ita)
 
 cpdef DiagMA_Solve_3D(np.ndarray[T, ndim=3] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
-        DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
+        DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, data.shape[1])
         np.PyArray_ITER_NEXT(ita)
 
 #def DiagMA_Solve(u, data, int axis):
-- 
2.43.0


From 61d2d22eff0ec9daeb78e692d6ab881c5212ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 17/99] fix: PDMA and HeptaDMA skip the LU-decomposition when
 there are constraints

---
 shenfun/la.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 8e56ff2..adb2fd5 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -474,7 +474,6 @@ class PDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -737,7 +736,6 @@ class HeptaDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
-- 
2.43.0


From 6844e45de3d0599cb9410a8de7cec8029f12a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 18/99] fix: constraints for TDMA_O

---
 shenfun/la.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/shenfun/la.py b/shenfun/la.py
index adb2fd5..8be0f2a 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -407,6 +407,17 @@ class TDMA_O(BandedMatrixSolver):
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
 
+    def apply_constraints(self, b, constraints, axis=0):
+        if len(constraints) > 0:
+            assert len(constraints) == 1
+            assert constraints[0][0] == 0, 'Can only fix first row of TDMA_O'
+            self._lu.diagonal(0)[0] = 1
+            self._lu.diagonal(1)[0] = 0
+            s = [slice(None)]*len(b.shape)
+            s[axis] = 0
+            b[tuple(s)] = constraints[0][1]
+        return b
+
     def perform_lu(self):
         if self._inner_arg is None:
             self.LU(self._lu.data)
-- 
2.43.0


From 5a1113bca95be28d77ad5bc1830804ea08bff9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 19/99] fix: constraints in generic solver for plain arrays,
 first column, and without modifying the matrix of the user

---
 shenfun/la.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 8be0f2a..24e0900 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -89,9 +89,7 @@ class SparseMatrixSolver:
         # Only apply constraint to matrix first time around
 
         if len(constraints) > 0:
-            if b.ndim > 1:
-                T = b.function_space().bases[axis]
-
+            s = [slice(None)]*b.ndim
             A = self.mat
             if isinstance(A, spmatrix):
                 for (row, val) in constraints:
@@ -102,12 +100,16 @@ class SparseMatrixSolver:
                         A[row, row] = 1
                         self.mat = A.tocsc()
 
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+                    s[axis] = row
+                    b[tuple(s)] = val
 
             elif isinstance(A, SparseMatrix):
+                if self._lu is None:
+                    # Do not modify the matrix of the user
+                    A = SparseMatrix(dict(A), A.shape, scale=A.scale)
+                    self.mat = A
+                    if 0 not in A:
+                        A[0] = np.zeros(A.shape[0])
                 for (row, val) in constraints:
                     if self._lu is None:
                         for key, vals in A.items():
@@ -119,13 +121,11 @@ class SparseMatrixSolver:
                             elif key < 0:
                                 M = A.shape[0]+key
                                 v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row+key < M and row+key > 0:
+                                if row+key < M and row+key >= 0:
                                     v[row+key] = 0
                             A[key] = v
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+                    s[axis] = row
+                    b[tuple(s)] = val
         return b
 
     def perform_lu(self):
-- 
2.43.0


From 9621758fa6270c28ba42166a8ada2296c324858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 20/99] fix: generic solver for matrices with one single row

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 24e0900..032be2c 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -133,7 +133,7 @@ class SparseMatrixSolver:
             if isinstance(self.mat, SparseMatrix):
                 self.mat = self.mat.diags('csc')
             self.mat.eliminate_zeros()
-            if self.mat.nnz < 2:
+            if self.mat.nnz < min(2, self.mat.shape[0]):
                 self._lu = None
                 return self._lu
             self._lu = splu(self.mat, permc_spec=config['matrix']['sparse']['permc_spec'])
-- 
2.43.0


From f179421c62f6c90fac834a2412ec12008284fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 21/99] fix: banded solvers for arrays with more than three
 dimensions

---
 shenfun/la.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 032be2c..39b3d4b 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -257,7 +257,15 @@ class BandedMatrixSolver(SparseMatrixSolver):
         if u is not b:
             sl = u.function_space().slice() if hasattr(u, 'function_space') else slice(None)
             u[sl] = b[sl]
-        self.Solve(u, lu.data, axis)
+        if u.ndim > 3:
+            # The optimized solvers are for up to 3 dimensions
+            v = np.ascontiguousarray(u)
+            shape = (int(np.prod(u.shape[:axis])), u.shape[axis], -1)
+            self.Solve(v.reshape(shape), lu.data, 1)
+            if not np.shares_memory(u, v):
+                u[...] = v
+        else:
+            self.Solve(u, lu.data, axis)
         return u
 
     @staticmethod
-- 
2.43.0


From 9a0adeff49deeac45efbed1cd64d6fa9cbb2f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 22/99] fix: do not modify the right hand side when the
 solution goes to another array

---
 shenfun/chebyshev/la.py |  4 ++++
 shenfun/la.py           | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 1b18caf..5f085a5 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -301,6 +301,8 @@ class Helmholtz:
 
         """
         if len(self.bc_mats) > 0:
+            if u is not b:
+                b = b.copy()
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
             for bc_mat in self.bc_mats:
@@ -540,6 +542,8 @@ class Biharmonic:
 
         """
         if len(self.bc_mats) > 0:
+            if u is not b:
+                b = b.copy()
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
             for bc_mat in self.bc_mats:
diff --git a/shenfun/la.py b/shenfun/la.py
index 39b3d4b..e60716f 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -239,6 +239,8 @@ class SparseMatrixSolver:
         """
         if u is None:
             u = b
+        elif u is not b and (len(self.bc_mats) > 0 or len(constraints) > 0):
+            b = b.copy()
         b = self.apply_bcs(b, u, axis=axis)
         b = self.apply_constraints(b, constraints, axis=axis)
         lu = self.perform_lu() # LU must be performed after constraints, because constraints modify the matrix
@@ -998,6 +1000,9 @@ class SolverGeneric2ND:
         else:
             assert u.shape == b.shape
 
+        if u is not b and (len(self.bc_mats) > 0 or len(constraints) > 0):
+            b = b.copy()
+
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = Function(self.T).v
@@ -1132,6 +1137,8 @@ class Solver2D:
             #assert u.shape == b.shape
 
         if len(self.bc_mats) > 0:
+            if u is not b:
+                b = b.copy()
             u.set_boundary_dofs()
             w0 = Function(self.T).v
             for bc_mat in self.bc_mats:
@@ -1426,6 +1433,9 @@ class SolverGeneric1ND:
             pass
             #assert u.shape == b.shape
 
+        if u is not b and (len(self.bc_mats) > 0 or len(constraints) > 0):
+            b = b.copy()
+
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(b)
@@ -1499,7 +1509,7 @@ class BlockMatrixSolver:
         if self.bc_mat: # Add contribution to right hand side due to inhomogeneous boundary conditions
             u.set_boundary_dofs()
             w0 = np.zeros_like(b)
-            b -= self.bc_mat.matvec(u, w0, use_scipy=True)
+            b = b - self.bc_mat.matvec(u, w0, use_scipy=True)
 
         nvars = b.shape[0] if len(b.shape) > space.dimensions else 1
         u = np.expand_dims(u, 0) if nvars == 1 else u
-- 
2.43.0


From 145e50c260aa6864ee623935c40d1d5efacf7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 23/99] fix: constraints in SolverGeneric2ND are for rows of
 the flattened system

---
 shenfun/la.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index e60716f..57e8e89 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -942,6 +942,14 @@ class SolverGeneric2ND:
 
     def apply_constraints(self, b, constraints):
         if len(constraints) > 0:
+            # Rows are for the flattened array of the two non-diagonal axes
+            s0 = list(self.T.slice())
+            if self.T.dimensions == 3:
+                diagonal_axis = self.get_diagonal_axis()
+                if self.T.local_slice()[diagonal_axis].start != 0:
+                    return b
+                s0[diagonal_axis] = 0
+            bs = b[tuple(s0)]
             if self._lu is None:
                 A = self.mats2D[0]
                 A = A.tolil()
@@ -949,11 +957,9 @@ class SolverGeneric2ND:
                     _, zerorow = A[row].nonzero()
                     A[(row, zerorow)] = 0
                     A[row, row] = 1
-                    b[row] = val
                 self.mats2D[0] = A.tocsc()
-            else:
-                for (row, val) in constraints:
-                    b[row] = val
+            for (row, val) in constraints:
+                bs[np.unravel_index(row, bs.shape)] = val
         return b
 
     def assemble(self):
-- 
2.43.0


From e013ecfbd3a75f52663a71f6c6a9bef070054637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 24/99] fix: constraints in SolverGeneric1ND only for the
 processor owning the zero wavenumbers

---
 shenfun/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 57e8e89..0c71f41 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1305,9 +1305,9 @@ class SolverGeneric1ND:
         s = [0]*ndim
         s[self.naxes] = slice(None)
         s = tuple(s)
-        is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
+        is_rank_zero = all(z0[i].start == 0 for i in paxes)
         sol = self.solvers1D[0] if ndim == 2 else self.solvers1D[0][0]
-        if is_rank_zero != 0:
+        if not is_rank_zero:
             return b
         sol.apply_constraints(b[s], constraints)
         return b
-- 
2.43.0


From fb3cf414121876d2d84dfa00b0541b60f5fb7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 25/99] fix: matvec into arrays that are larger along other
 axes (follow-up to single row matrices)

---
 shenfun/matrixbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 27b42a4..bd2ad7d 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -134,7 +134,8 @@ class SparseMatrix(MutableMapping):
             diags = self.diags(format=format)
             P = int(np.prod(v.shape[1:]))
             y = diags.dot(v[:M].reshape(M, P))
-            c[:N] = y.reshape((N,)+v.shape[1:])
+            y = y.reshape((N,)+v.shape[1:])
+            c[tuple([slice(0, m) for m in y.shape])] = y
 
         if axis > 0:
             c = np.moveaxis(c, 0, axis)
-- 
2.43.0


From b6b515689c5b22fc1d92f3d0ecab3bae6c919449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 26/99] fix: take the bandwidth of stencil-assembled matrices
 from the whole matrix, not its first two rows and columns

---
 shenfun/matrixbase.py | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index bd2ad7d..5b3af88 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2068,33 +2068,12 @@ def _assemble_stencil(test, trial, measure=1):
 
     K.shape = (test[0].N, test[0].N)
     S.shape = (trial[0].N, trial[0].N)
-    if test[1]+trial[1] == 0 and test[0].family() == trial[0].family():
-        keysK = np.sort(np.array(list(K.keys())))
-        keysS = np.sort(np.array(list(S.keys())))
-        lb = -keysK[0]+keysS[-1]+q
-        ub = keysK[-1]-keysS[0]+q
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
-    else:
-        # compute the sparsity pattern
-        Ac = A.tocsc()
-        ub = Ac.getrow(0).indices
-        ub2 = Ac.getrow(1).indices
-        if len(ub) == 0 and len(ub2) == 0:
-            ub = 0
-        else:
-            ub = trial[0].dim() if len(ub) == 0 else ub.max()
-            ub2 = trial[0].dim() if len(ub2) == 0 else ub2.max()-1
-            ub = max(ub, ub2)
-
-        lb = Ac.getcol(0).indices
-        lb2 = Ac.getcol(1).indices
-        if len(lb) == 0 and len(lb2) == 0:
-            lb = 0
-        else:
-            lb = test[0].dim() if len(lb) == 0 else lb.max()
-            lb2 = test[0].dim() if len(lb2) == 0 else lb2.max()-1
-            lb = max(lb, lb2)
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
+    # The bandwidth follows from the nonzero pattern
+    Ac = A.tocoo()
+    bands = Ac.col-Ac.row
+    ub = max(0, int(bands.max())) if len(bands) > 0 else 0
+    lb = max(0, int(-bands.min())) if len(bands) > 0 else 0
+    d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
     d = d._storage
     return d
 
-- 
2.43.0


From 694f7f0b640a6f7279e3951414e019051d1b3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 27/99] fix: stencil assembly applied a polynomial measure to
 the test function instead of its derivative

---
 shenfun/matrixbase.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 5b3af88..5f5d044 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2005,7 +2005,11 @@ def _assemble_stencil_bc(test, trial, measure=1):
     from shenfun.spectralbase import inner_product
     Tv = test[0].get_orthogonal(domain=(-1, 1))
     Tu = trial[0].get_orthogonal(domain=(-1, 1))
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    if measure != 1 and test[1] > 0:
+        # The measure multiplies the derivative of the test function
+        B = inner_product((Tv, test[1]), (Tu, trial[1]), measure=measure)
+    else:
+        B = inner_product((Tv, test[1]), (Tu, trial[1]))
     if len(B) == 0:
         return {}
     K = test[0].stencil_matrix()
@@ -2013,7 +2017,7 @@ def _assemble_stencil_bc(test, trial, measure=1):
 
     K.shape = (test[0].dim(), test[0].N)
     S = extract_diagonal_matrix(trial[0].stencil_matrix().T).diags('csr')
-    if measure != 1:
+    if measure != 1 and test[1] == 0:
         from shenfun.jacobi.recursions import pmat, a
         from shenfun.utilities import split
         assert sp.sympify(measure).is_polynomial()
@@ -2044,14 +2048,18 @@ def _assemble_stencil(test, trial, measure=1):
     beta = test[0].beta
     gn = test[0].gn
     # This needs to be either implemented or quadrature:
-    B = inner_product((Tv, test[1]), (Tu, trial[1]))
+    if measure != 1 and test[1] > 0:
+        # The measure multiplies the derivative of the test function
+        B = inner_product((Tv, test[1]), (Tu, trial[1]), measure=measure)
+    else:
+        B = inner_product((Tv, test[1]), (Tu, trial[1]))
     K = test[0].stencil_matrix()
     q = sp.degree(measure)
 
     K.shape = (test[0].dim(), test[0].N)
     S = trial[0].stencil_matrix()
     S.shape = (trial[0].dim(), trial[0].N)
-    if measure != 1:
+    if measure != 1 and test[1] == 0:
         from shenfun.jacobi.recursions import pmat, a
         from shenfun.utilities import split
         assert sp.sympify(measure).is_polynomial()
-- 
2.43.0


From a1cd925e654132f71d766304eb0a7ea2e42a75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 28/99] fix: hard-coded Legendre matrices for scaled
 ShenDirichlet test and trial functions

---
 shenfun/legendre/matrices.py | 66 ++++++++++++++----------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 6fe6685..66d95d9 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -90,6 +90,20 @@ xp = sp.symbols('x', real=True, positive=True)
 
 #pylint: disable=unused-variable, redefined-builtin, bad-continuation
 
+def _scale_diags(d, test, trial):
+    """Return diagonals ``d`` of the unscaled matrix multiplied with the
+    normalization of scaled :class:`.legendre.bases.ShenDirichlet` bases"""
+    M, N = test.dim(), trial.dim()
+    for space, column in ((test, 0), (trial, 1)):
+        if isinstance(space, SD) and space.is_scaled():
+            s = 1/np.sqrt(4*np.arange(space.N-2)+6)
+            for key, val in d.items():
+                start = (max(0, -key), max(0, key))
+                n = min(M-start[0], N-start[1])
+                d[key] = val*s[start[column]:start[column]+n]
+    return d
+
+
 class BLLmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
 
@@ -124,14 +138,8 @@ class BSDSDmat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         d0 = get_norm_sq(test[0], trial[0], method)
         d = {0: d0[:-2]+d0[2:], -2: -d0[2:-2]}
-
-        if test[0].is_scaled():
-            k = np.arange(test[0].N-2)
-            d[0] /= (4*k+6)
-            d[-2] /= (np.sqrt(4*k[2:]+6)*np.sqrt(4*k[:-2]+6))
-
         d[2] = d[-2].copy()
-        return d
+        return _scale_diags(d, test[0], trial[0])
 
     def get_solver(self):
         return TDMA
@@ -285,11 +293,9 @@ class ASDSDmat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         N = test[0].N
         k = np.arange(N-2, dtype=float)
-        if not test[0].is_scaled():
-            d = {0: 4*k+6}
-        else:
-            d = {0: 1}
-        return d
+        if test[0].is_scaled() and trial[0].is_scaled():
+            return {0: 1}
+        return _scale_diags({0: 4*k+6}, test[0], trial[0])
 
 
 class ASNSNmat(SpectralMatrix):
@@ -530,12 +536,7 @@ class CLSDmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], L)
         assert isinstance(trial[0], SD)
-        N = test[0].N
-        d = {-1: -2}
-        if trial[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[-1] = -2. / np.sqrt(4*k+6)
-        return d
+        return _scale_diags({-1: -2}, test[0], trial[0])
 
 
 class CSDLmat(SpectralMatrix):
@@ -554,12 +555,7 @@ class CSDLmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SD)
         assert isinstance(trial[0], L)
-        N = test[0].N
-        d = {1: -2}
-        if test[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[1] = -2. / np.sqrt(4*k+6)
-        return d
+        return _scale_diags({1: -2}, test[0], trial[0])
 
 
 class CSDSDmat(SpectralMatrix):
@@ -577,13 +573,7 @@ class CSDSDmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SD)
         assert isinstance(trial[0], SD)
-        N = test[0].N
-        d = {-1: -2, 1: 2}
-        if trial[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[-1] = -2/np.sqrt(4*k[:-1]+6)
-            d[1] = 2/np.sqrt(4*k[:-1]+6)
-        return d
+        return _scale_diags({-1: -2, 1: 2}, test[0], trial[0])
 
 class CSDSDTmat(SpectralMatrix):
     r"""Derivative matrix :math:`C=(c_{kj}) \in \mathbb{R}^{M \times N}`, where
@@ -600,13 +590,7 @@ class CSDSDTmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SD)
         assert isinstance(trial[0], SD)
-        N = test[0].N
-        d = {-1: 2, 1: -2}
-        if trial[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[-1] = 2/np.sqrt(4*k[:-1]+6)
-            d[1] = -2/np.sqrt(4*k[:-1]+6)
-        return d
+        return _scale_diags({-1: 2, 1: -2}, test[0], trial[0])
 
 
 class ASDSDrp1mat(SpectralMatrix):
@@ -627,7 +611,7 @@ class ASDSDrp1mat(SpectralMatrix):
 
         k = np.arange(test[0].N-2)
         d = {0: 4*k+6, 1: 2*k[:-1]+4, -1: 2*k[:-1]+4}
-        return d
+        return _scale_diags(d, test[0], trial[0])
 
 
 class ASDSD2rp1mat(SpectralMatrix):
@@ -647,7 +631,7 @@ class ASDSD2rp1mat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         k = np.arange(test[0].N-2)
         d = {0: -(4*k+6), 1: -(2*k[:-1]+6), -1: -(2*k[:-1]+2)}
-        return d
+        return _scale_diags(d, test[0], trial[0])
 
 
 class ASDSD2Trp1mat(SpectralMatrix):
@@ -667,7 +651,7 @@ class ASDSD2Trp1mat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         k = np.arange(test[0].N-2)
         d = {0: -(4*k+6), -1: -(2*k[:-1]+6), 1: -(2*k[:-1]+2)}
-        return d
+        return _scale_diags(d, test[0], trial[0])
 
 
 class AUDUDrp1mat(SpectralMatrix):
-- 
2.43.0


From c21cafd48faf65cca5952bf7878874cbff893343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 29/99] fix: sign of Legendre stiffness matrices assembled by
 quadrature instead of the implemented diagonals

---
 shenfun/legendre/matrices.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 66d95d9..c642cc5 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -58,7 +58,6 @@ from __future__ import division
 
 #__all__ = ['mat']
 
-import functools
 import numpy as np
 import sympy as sp
 from shenfun.matrixbase import SpectralMatrix, SpectralMatDict
@@ -893,6 +892,21 @@ class BSDSDrp1mat(SpectralMatrix):
         return d
 
 
+def _negative(matrix):
+    """Return class for the negative of the implemented ``matrix``
+
+    Note that the sign belongs to the implemented diagonals. It must not be
+    applied if the matrix is assembled with any other method.
+    """
+    class Negative(matrix):
+        def assemble(self, method):
+            return {key: -val for key, val in matrix.assemble(self, method).items()}
+    Negative.__name__ = matrix.__name__
+    Negative.__qualname__ = matrix.__qualname__
+    Negative.__doc__ = matrix.__doc__
+    return Negative
+
+
 mat = SpectralMatDict({
     ((L,  0), (L,  0)): BLLmat,
     ((L,  0), (L,  1)): CLLmat,
@@ -900,24 +914,24 @@ mat = SpectralMatDict({
     ((L,  0), (SD, 1)): CLSDmat,
     ((SD, 1), (L,  0)): CSDLmat,
     ((SD, 0), (SD, 1)): CSDSDmat,
-    ((SD, 1), (SD, 0)): functools.partial(CSDSDmat, scale=-1.),
+    ((SD, 1), (SD, 0)): _negative(CSDSDmat),
     ((SD, 0), (SD, 0)): BSDSDmat,
     ((SB, 0), (SB, 0)): BSBSBmat,
     ((SN, 0), (SN, 0)): BSNSNmat,
     ((SD, 0), (L,  0)): BSDLmat,
     ((L,  0), (SD, 0)): BLSDmat,
     ((SD, 1), (SD, 1)): ASDSDmat,
-    ((SD, 2), (SD, 0)): functools.partial(ASDSDmat, scale=-1.),
-    ((SD, 0), (SD, 2)): functools.partial(ASDSDmat, scale=-1.),
+    ((SD, 2), (SD, 0)): _negative(ASDSDmat),
+    ((SD, 0), (SD, 2)): _negative(ASDSDmat),
     ((SN, 1), (SN, 1)): ASNSNmat,
-    ((SN, 2), (SN, 0)): functools.partial(ASNSNmat, scale=-1.),
-    ((SN, 0), (SN, 2)): functools.partial(ASNSNmat, scale=-1.),
+    ((SN, 2), (SN, 0)): _negative(ASNSNmat),
+    ((SN, 0), (SN, 2)): _negative(ASNSNmat),
     ((L,  2), (L,  0)): ALLmat,
     ((L,  0), (L,  2)): ALLmat,
     ((SB, 2), (SB, 2)): SSBSBmat,
     ((SB, 1), (SB, 1)): ASBSBmat,
-    ((SB, 0), (SB, 2)): functools.partial(ASBSBmat, scale=-1.),
-    ((SB, 2), (SB, 0)): functools.partial(ASBSBmat, scale=-1.),
+    ((SB, 0), (SB, 2)): _negative(ASBSBmat),
+    ((SB, 2), (SB, 0)): _negative(ASBSBmat),
     ((SB, 0), (SB, 4)): SSBSBmat,
     ((SB, 4), (SB, 0)): SSBSBmat,
     ((SD, 0), (SD, 2), 1+x): ASDSD2rp1mat,
@@ -934,8 +948,8 @@ mat = SpectralMatDict({
     ((LD, 0), (LD, 0)): BLDLDmat,
     ((DN, 0), (DN, 0)): BDNDNmat,
     ((DN, 1), (DN, 1)): ADNDNmat,
-    ((DN, 2), (DN, 0)): functools.partial(ADNDNmat, scale=-1.),
-    ((DN, 0), (DN, 2)): functools.partial(ADNDNmat, scale=-1.),
+    ((DN, 2), (DN, 0)): _negative(ADNDNmat),
+    ((DN, 0), (DN, 2)): _negative(ADNDNmat),
     ((BF, 4), (BF, 0)): SBFBFmat,
     ((BF, 0), (BF, 4)): SBFBFmat,
     ((BF, 2), (BF, 2)): SBFBFmat,
-- 
2.43.0


From 0d1cd109c81e72b8aadce0c12d6d9e1b8eff96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 30/99] fix: assembly with Phi test functions ignored
 derivatives of the test function

---
 shenfun/matrixbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 5f5d044..9b8730a 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2087,6 +2087,7 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
+    assert test[1] == 0, 'Recursions assume no derivatives on the test function'
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
-- 
2.43.0


From 1be60ed24e539d9bcc6420d21cd519c5f15f7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 31/99] fix: exact and adaptive assembly mapped the measure to
 the true domain twice

---
 shenfun/matrixbase.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 9b8730a..21d4c07 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1921,8 +1921,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, sp.cos(xm))
+                    measure = measure.subs(x, sp.cos(x))
                 else:
                     assert isinstance(measure, Number)
             assert test[1] == 0
@@ -1954,8 +1953,6 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, xm)
                 else:
                     assert isinstance(measure, Number)
 
-- 
2.43.0


From ece11ecc37731e6e8738e5e9dc8da6f8d4be338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 32/99] fix: pmat failed for diagonals shorter than the matrix
 power

---
 shenfun/jacobi/recursions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..6d4adf2 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -466,7 +466,7 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > q+1:
                         d[i][q+1:] = fz(np.arange(q+1, Z))
                 else:
-                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
                     d[i][q:] = fz(np.arange(q, Z))
             else:
                 Z = min(M-abs(i), N)
@@ -474,14 +474,14 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                 if mat == b and q+i > 0:
                     d[i][:(q+i)] = 0
                     if alf == -half and bet == -half:
-                        d[i][(q+i):q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(q+i, q)]
+                        d[i][(q+i):q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(q+i, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
                     if alf == -half and bet == -half:
-                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
-- 
2.43.0


From b99e377ea4fa96a7834b4af81334a23f7763d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 33/99] fix: Heinrichs stiffness matrix for scaled and unscaled
 bases falls back on the stencil assembly

---
 shenfun/chebyshev/matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index dd947a5..89f503d 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -1333,7 +1333,8 @@ class AHHHHmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], HH)
         assert isinstance(trial[0], HH)
-        assert test[0].is_scaled() == trial[0].is_scaled()
+        if test[0].is_scaled() != trial[0].is_scaled():
+            return None # not implemented
         N = test[0].N
         k = np.arange(N-2, dtype=float)
         h = get_norm_sq(test[0], trial[0], method)
-- 
2.43.0


From 634cf4468fd99ae7fa4ddd4f3e4b0133712a12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 34/99] fix: generic Laguerre spaces had no stencil matrix

---
 shenfun/spectralbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index c83fd36..50619d3 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1511,7 +1511,8 @@ def getCompositeBase(Orthogonal):
             """
             from .matrixbase import SparseMatrix
             if self._stencil is None:
-                self._stencil = get_stencil_matrix(self.bcs, self.family(), self.alpha, self.beta, self.gn)
+                d = {'alpha': self.alpha, 'beta': self.beta, 'gn': self.gn} if self.is_jacobi else {}
+                self._stencil = get_stencil_matrix(self.bcs, self.family(), **d)
             N = self.N if N is None else N
             if N in self._stencil_matrix:
                 return self._stencil_matrix[N]
@@ -1561,7 +1562,8 @@ def getCompositeBase(Orthogonal):
 
             """
             if self._stencil is None:
-                self._stencil = get_stencil_matrix(self.bcs, self.family(), self.alpha, self.beta, self.gn)
+                d = {'alpha': self.alpha, 'beta': self.beta, 'gn': self.gn} if self.is_jacobi else {}
+                self._stencil = get_stencil_matrix(self.bcs, self.family(), **d)
 
             def _named_diagonal(s, name, i):
                 class h(sp.Function):
-- 
2.43.0


From 5478ccec1006d1d60a788ce6b9bc0895172ecd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 35/99] fix: powers of the Jacobi recursion matrix for
 alpha+beta=1 in the first columns

---
 shenfun/jacobi/recursions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 6d4adf2..8c807c7 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -480,7 +480,8 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if alf == -half and bet == -half:
+                    if float(alf+bet) in (-1.0, 1.0):
+                        # Recursion has removable singularities for small indices
                         d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
-- 
2.43.0


From 7810c508674eef5ed95011dbcfcf57afaa92bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 36/99] fix: Jacobi recursion matrices for alpha=-beta

---
 shenfun/jacobi/recursions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 8c807c7..9a4fcd7 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -182,7 +182,7 @@ def _a(alf, bet, i, j):
     """
     return (
         sp.S(2)*(j+alf)*(j+bet)/((sp.S(2)*j+alf+bet+1)*(sp.S(2)*j+alf+bet))*delta(i+1, j)-
-        (alf**2-bet**2)/((sp.S(2)*j+alf+bet+sp.S(2))*(sp.S(2)*j+alf+bet))*delta(i, j)+
+        (alf-bet)*(alf+bet)/((sp.S(2)*j+alf+bet+sp.S(2))*(sp.S(2)*j+alf+bet))*delta(i, j)+
         sp.S(2)*(j+1)*(j+alf+bet+sp.S(1))/((sp.S(2)*j+alf+bet+2)*(sp.S(2)*j+alf+bet+sp.S(1)))*delta(i-1, j)
     )
 
@@ -191,7 +191,7 @@ def _b(alf, bet, i, j):
     f = ((sp.S(2)*(i+alf+bet) / ((sp.S(2)*i+alf+bet)*(sp.S(2)*i+alf+bet-sp.S(1)))) *delta(i, j+1)+
          -((sp.S(2)*(i+alf+sp.S(1))*(i+bet+sp.S(1))) / ((sp.S(2)*i+alf+bet+sp.S(3))*(sp.S(2)*i+alf+bet+sp.S(2))*(i+alf+bet+sp.S(1))))*delta(i, j-1))
     if alf != bet:
-        f += ((sp.S(2)*(alf**2-bet**2)) / ((alf+bet)*(sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
+        f += ((sp.S(2)*(alf-bet)) / ((sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
     return f
 
 def _c(alf, bet, i, j):
@@ -454,7 +454,7 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
     for i in range(-q, q+1):
         f = matpow(mat, q, alfa, beta, m, m+i, gn)
         fz = sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
-        if not fz == 0:
+        if not fz == 0 or float(alf+bet) == 0 != float(alf-bet):
             fz = sp.lambdify(m, fz)
             if i >= 0:
                 Z = min(N-i, M)
@@ -480,7 +480,7 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if float(alf+bet) in (-1.0, 1.0):
+                    if float(alf+bet) in (-1.0, 1.0) or float(alf+bet) == 0 != float(alf-bet):
                         # Recursion has removable singularities for small indices
                         d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
-- 
2.43.0


From b2f8b06d0f237c1922ccc3496b8a9683cf593566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 37/99] fix: exact assembly ignored the weight of Chebyshev
 (second kind) and ultraspherical spaces, adaptive assembly of constants

---
 shenfun/matrixbase.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 21d4c07..54f8027 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1956,7 +1956,8 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 else:
                     assert isinstance(measure, Number)
 
-            cheb = test[0].family() in ('chebyshev', 'chebyshevu', 'ultraspherical', 'gegenbauer')
+            # Note that for exact the weight needs to be part of the integrand
+            cheb = assemble == 'adaptive' and test[0].family() in ('chebyshev', 'chebyshevu', 'ultraspherical', 'gegenbauer')
             if cheb: # use adaptive quadrature with weight incorporated
                 w = {'weight': 'alg',
                      'wvar': (float(test[0].alpha), float(test[0].beta)),
@@ -1977,13 +1978,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                     if assemble == 'exact':
                         V[i, j] = integrate_sympy(integrand, (x, domain[0], domain[1]))
                     elif assemble == 'adaptive':
-                        if isinstance(integrand, Number):
-                            if cheb:
-                                V[i, j] = integrand*np.pi
-                            else:
-                                V[i, j] = integrand*float(domain[1]-domain[0])
-                        else:
-                            V[i, j] = quad(sp.lambdify(x, integrand), float(domain[0]), float(domain[1]), **w)[0]
+                        V[i, j] = quad(sp.lambdify(x, integrand), float(domain[0]), float(domain[1]), **w)[0]
 
     if V.dtype.char in 'FDG':
         ni = np.linalg.norm(V.imag)
-- 
2.43.0


From 3b36666faafa3788ec6de803a4d1dfd5582ae936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 38/99] fix: Phi assembly used for scaled test functions or
 trial functions of another family

---
 shenfun/matrixbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 54f8027..5b4003e 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2080,6 +2080,9 @@ def _assemble_stencil(test, trial, measure=1):
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
     assert test[1] == 0, 'Recursions assume no derivatives on the test function'
+    assert not test[0].is_scaled(), 'Recursions assume unscaled test functions'
+    assert test[0].family() == trial[0].family(), 'Recursions assume one family'
+    assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
-- 
2.43.0


From 595b6e01fc38f217bae3dbbb781f32b259ebf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:22 +0000
Subject: [PATCH 39/99] fix: stencil assembly with a polynomial measure for
 trial functions of another family

---
 shenfun/matrixbase.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 5b4003e..1662f4f 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2039,8 +2039,11 @@ def _assemble_stencil(test, trial, measure=1):
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
+    # The recursions leave out modes that are orthogonal to the trial functions
+    # only if these are of the same family
+    same = (Tv.family() == Tu.family() and (alpha, beta) == (trial[0].alpha, trial[0].beta))
     # This needs to be either implemented or quadrature:
-    if measure != 1 and test[1] > 0:
+    if measure != 1 and (test[1] > 0 or not same):
         # The measure multiplies the derivative of the test function
         B = inner_product((Tv, test[1]), (Tu, trial[1]), measure=measure)
     else:
@@ -2051,7 +2054,7 @@ def _assemble_stencil(test, trial, measure=1):
     K.shape = (test[0].dim(), test[0].N)
     S = trial[0].stencil_matrix()
     S.shape = (trial[0].dim(), trial[0].N)
-    if measure != 1 and test[1] == 0:
+    if measure != 1 and test[1] == 0 and same:
         from shenfun.jacobi.recursions import pmat, a
         from shenfun.utilities import split
         assert sp.sympify(measure).is_polynomial()
-- 
2.43.0


From d4354a64d76a1aac306e410c71f81499e685babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 40/99] fix: pmat and a_mat handed out the diagonals they keep
 in their cache

---
 shenfun/jacobi/recursions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 9a4fcd7..e096c3a 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -487,7 +487,7 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
     _pmat[(mat, q, alf, bet, M, N, gn)] = d
-    return SparseMatrix(d, (M, N))
+    return SparseMatrix(deepcopy(d), (M, N))
 
 _amat = {}
 
@@ -541,7 +541,7 @@ def a_mat(mat, k, q, alf, bet, M, N, gn=1):
                     d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
                     d[i][k+1:] = fz(np.arange(-i+k+1, Z-i))
     _amat[(mat, k, q, alf, bet, M, N, gn)] = d
-    return SparseMatrix(d, (M, N))
+    return SparseMatrix(deepcopy(d), (M, N))
 
 def ShiftedMatrix(mat, q, r, s, M=0, N=0, k=None, alf=0, bet=0, gn=1):
     r"""Index-shifted q'th power of matrix `mat`. Either
-- 
2.43.0


From ab68684d7d4d1b93a8f33cbc8b4701c0d0905ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 41/99] fix: values of fourth and fifth derivatives and
 weighted boundary conditions on domains other than (-1, 1)

---
 shenfun/spectralbase.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 50619d3..124236f 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2002,6 +2002,14 @@ class BoundaryConditions(dict):
                     val[bc] /= df**2
                 elif bc == 'N3':
                     val[bc] /= df**3
+                elif bc == 'N4':
+                    val[bc] /= df**4
+                elif bc == 'N5':
+                    val[bc] /= df**5
+                elif bc == 'R':
+                    val[bc] = (v[0]*df, v[1])
+                elif bc == 'W':
+                    val[bc] = (v[0]*df, v[1]/df)
         dict.__init__(self, bcs)
 
     def orderednames(self):
-- 
2.43.0


From e60e1b7eed0c13419367b787f7943ee6c7c286f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 42/99] fix: boundary conditions on fifth derivatives and W
 conditions are not known everywhere

---
 shenfun/spectralbase.py        | 2 +-
 shenfun/utilities/findbasis.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 124236f..a8b8e12 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2028,7 +2028,7 @@ class BoundaryConditions(dict):
         return len(self.orderedvals())
 
     def num_derivatives(self):
-        n = {'D': 0, 'R': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        n = {'D': 0, 'R': 0, 'N': 1, 'W': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         num_diff = 0
         for val in self.values():
             for k in val:
diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index db90923..455dd78 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -39,7 +39,7 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
-    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
     lr = {'L': 0, 'R': 1}
     lra = {'L': 'left', 'R': 'right'}
     s = []
@@ -95,7 +95,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     def _computematrix(first):
-        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         lr = {'L': 0, 'R': 1}
         lra = {'L': 'left', 'R': 'right'}
         s = []
-- 
2.43.0


From 15f917405c1765200ec8a24213d4f6401976c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 43/99] fix: domain ignored for boundary values of Neumann and
 generic spaces of Chebyshev polynomials of second kind

---
 shenfun/chebyshevu/bases.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 58eaeaa..bc93d7b 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -852,7 +852,7 @@ class CompactNeumann(CompositeBase):
     def __init__(self, N, quad="GU", bc=(0, 0), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         if isinstance(bc, (tuple, list)):
-            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}})
+            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}}, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
@@ -1175,8 +1175,9 @@ class Generic(CompositeBase):
     def __init__(self, N, quad="GU", bc={}, domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
+        if not isinstance(bc, BoundaryConditions):
+            bc = BoundaryConditions(bc, domain=domain)
         self._stencil = get_stencil_matrix(bc, 'chebyshevu', half, half, un)
-        bc = BoundaryConditions(bc)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
-- 
2.43.0


From 7509a0452527c0c942d0e423920568eaff159a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 44/99] fix: stencils of generic spaces with weighted boundary
 conditions on domains other than (-1, 1)

---
 shenfun/chebyshev/bases.py      | 2 +-
 shenfun/gegenbauer/bases.py     | 2 +-
 shenfun/jacobi/bases.py         | 2 +-
 shenfun/laguerre/bases.py       | 2 +-
 shenfun/ultraspherical/bases.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 43dfdb4..1ce4cf0 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -2592,9 +2592,9 @@ class Generic(CompositeBase):
     ):
         from shenfun.utilities.findbasis import get_stencil_matrix
 
-        self._stencil = get_stencil_matrix(bc, "chebyshev", -half, -half, cn)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, "chebyshev", -half, -half, cn)
         CompositeBase.__init__(
             self,
             N,
diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index 2b8bab9..386f1b5 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -645,9 +645,9 @@ class Generic(CompositeBase):
     ):
         from shenfun.utilities.findbasis import get_stencil_matrix
         alpha = lambda_ - sp.S.Half
-        self._stencil = get_stencil_matrix(bc, "gegenbauer", alpha, alpha, wn)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, "gegenbauer", alpha, alpha, wn)
         CompositeBase.__init__(
             self,
             N,
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index a0fc26b..f832bee 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -956,9 +956,9 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, beta=0, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'jacobi', alpha, beta, 1)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'jacobi', alpha, beta, 1)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                alpha=alpha, beta=beta, coordinates=coordinates)
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 9a62e23..044c6c1 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -368,9 +368,9 @@ class Generic(CompositeBase):
     def __init__(self, N, quad="LG", bc={}, domain=Domain(0, sp.S.Infinity), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'laguerre')
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'laguerre')
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 603f2f9..863ce32 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -996,9 +996,9 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
-        self._stencil = get_stencil_matrix(bc, 'ultraspherical', alpha, alpha, cn)
         if not isinstance(bc, BoundaryConditions):
             bc = BoundaryConditions(bc, domain=domain)
+        self._stencil = get_stencil_matrix(bc, 'ultraspherical', alpha, alpha, cn)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                alpha=alpha, coordinates=coordinates)
-- 
2.43.0


From b3e0977a3e10af7237d561ab2a7fbb68b60bb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 45/99] fix: default boundary condition of LowerDirichlet
 spaces was on the right hand side

---
 shenfun/chebyshevu/bases.py     | 2 +-
 shenfun/ultraspherical/bases.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index bc93d7b..8e4c28e 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -968,7 +968,7 @@ class LowerDirichlet(CompositeBase):
          Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="GU", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="GU", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 863ce32..51024a8 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -852,7 +852,7 @@ class LowerDirichlet(CompositeBase):
         Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="QG", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="QG", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         assert quad == "QG"
-- 
2.43.0


From aa3423a9897064e0ecf2ed2de0b862db763fa0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 46/99] fix: fast scalar products on domains given by symbolic
 numbers

---
 shenfun/chebyshev/bases.py  | 4 ++--
 shenfun/chebyshevu/bases.py | 4 ++--
 shenfun/legendre/bases.py   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 1ce4cf0..68e7a33 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -344,12 +344,12 @@ class Orthogonal(JacobiBase):
 
         if self.quad == "GC":
             out = self.scalar_product.xfftn()
-            out *= np.pi / (2 * self.domain_factor() * self.N * self.padding_factor)
+            out *= np.pi / (2 * float(self.domain_factor()) * self.N * self.padding_factor)
 
         elif self.quad == "GL":
             out = self.scalar_product.xfftn()
             out *= np.pi / (
-                2 * self.domain_factor() * (self.N * self.padding_factor - 1)
+                2 * float(self.domain_factor()) * (self.N * self.padding_factor - 1)
             )
 
     def eval(self, x, u, output_array=None):
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 8e4c28e..c9832fd 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -231,12 +231,12 @@ class Orthogonal(JacobiBase):
         if self.quad == 'GU':
             self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*(self.N+1)*self.padding_factor*float(self.domain_factor())))
 
         elif self.quad == 'GC':
             self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*self.N*self.padding_factor*float(self.domain_factor())))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index b3a069a..1c7aba4 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -211,7 +211,7 @@ class Orthogonal(JacobiBase):
             JacobiBase._evaluate_scalar_product(self, kind=kind)
             return
         out = self.scalar_product.xfftn()
-        out *= 1/self.domain_factor()
+        out *= 1/float(self.domain_factor())
 
     def eval(self, x, u, output_array=None):
         x = np.atleast_1d(x)
-- 
2.43.0


From 30532be5cf66afc7b7437e76544ed9cd36ae0280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 47/99] fix: forward transforms of Phi spaces of Chebyshev
 polynomials of second kind with GC points

---
 shenfun/matrixbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 1662f4f..fdc4b19 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2094,6 +2094,7 @@ def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
     assert test[0].quad != 'GL'
+    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC'), 'Not the quadrature used by transforms'
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
-- 
2.43.0


From b4c2344c1c82a7a88edd0093a9ead198f20e1af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 48/99] fix: stencil matrices with constant diagonals had rows
 for more than the degrees of freedom

---
 shenfun/spectralbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index a8b8e12..3d1dc4d 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1520,8 +1520,9 @@ def getCompositeBase(Orthogonal):
             k = np.arange(N)
             for i, s in self._stencil.items():
                 di = sp.lambdify(n, s)(k[:N-i])
-                if isinstance(di, np.ndarray):
-                    di[(N-self.bcs.num_bcs()):] = 0
+                if not isinstance(di, np.ndarray):
+                    di = np.full(N-i, float(di))
+                di[(N-self.bcs.num_bcs()):] = 0
                 d[i] = di
             self._stencil_matrix[N] = SparseMatrix(d, (N, N))
             return self._stencil_matrix[N]
-- 
2.43.0


From 980619a53653611abe9078526cd9ae5dc23cca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 49/99] fix: evaluate_basis for ultraspherical polynomials

---
 shenfun/ultraspherical/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 51024a8..f282964 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -181,7 +181,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape)
         output_array = eval_jacobi(i, float(self.alpha), float(self.alpha), x, out=output_array)
         if self.alpha != 0:
-            output_array *= cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
-- 
2.43.0


From e8f45ef1d2ba30500179a798c1952dc613038a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 50/99] fix: to_ortho for functions of orthogonal spaces

---
 shenfun/forms/arguments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index ed16a5b..dd04ffe 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1682,6 +1682,8 @@ class Function(ShenfunBaseArray, BasisFunction):
                     input_array[:] = output_array
                     if not base.is_orthogonal:
                         output_array = base.to_ortho(input_array, output_array)
+        elif space.is_orthogonal:
+            output_array[:] = self
         else:
             output_array = space.to_ortho(self, output_array)
         return output_array
-- 
2.43.0


From 5f99f399cfc9e741324a002fc56622a6adb2b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 51/99] fix: evaluate_basis and evaluate_basis_derivative for
 Gegenbauer and ultraspherical polynomials

---
 shenfun/gegenbauer/bases.py     | 7 +++++--
 shenfun/ultraspherical/bases.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index 386f1b5..ea5478b 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -203,7 +203,7 @@ class Orthogonal(JacobiBase):
             i, float(self.alpha), float(self.alpha), x, out=output_array
         )
         if self.alpha != 0:
-            output_array *= wn(self.alpha, self.alpha, i).n()
+            output_array *= float(wn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
@@ -213,6 +213,9 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
+        if i < k:
+            output_array[:] = 0
+            return output_array
         dj = np.prod(np.array([i + 2 * (self.alpha) + 1 + j for j in range(k)]))
         output_array[:] = (
             dj
@@ -220,7 +223,7 @@ class Orthogonal(JacobiBase):
             * eval_jacobi(i - k, float(self.alpha + k), float(self.alpha + k), x)
         )
         if self.alpha != 0:
-            output_array[:] = output_array * wn(self.alpha, self.alpha, i).n()
+            output_array[:] = output_array * float(wn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index f282964..486338c 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -191,10 +191,13 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
+        if i < k:
+            output_array[:] = 0
+            return output_array
         dj = np.prod(np.array([i+2*self.alpha+1+j for j in range(k)]))
         output_array[:] = dj/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.alpha+k), x)
         if self.alpha != 0:
-            output_array[:] = output_array*cn(self.alpha, self.alpha, i).n()
+            output_array[:] = output_array*float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
-- 
2.43.0


From 17bc24620241822399d6cc7e45d6e2f102e61ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 52/99] fix: norm of the first Jacobi polynomial for
 alpha+beta=-1

---
 shenfun/jacobi/bases.py      | 5 ++++-
 shenfun/jacobi/recursions.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index f832bee..fdf0ca1 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -49,7 +49,10 @@ class JacobiBase(SpectralBase):
 
     def l2_norm_sq(self, i=None):
         if i is None:
-            return sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(self.N))
+            hh = sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(self.N))
+            if self.alpha+self.beta == -1 and self.gn == 1:
+                hh[0] = self.L2_norm_sq(0)
+            return hh
         return h(self.alpha, self.beta, i, 0, gn=self.gn)
 
     @staticmethod
diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index e096c3a..4476e78 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -355,6 +355,8 @@ def gamma(alf, bet, n):
         Index
     """
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
+    if n == 0 and alf + bet == -1: # limit of the regular expression
+        return sp.gamma(alf+1)*sp.gamma(bet+1)
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
     return sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
 
-- 
2.43.0


From d8275003e1e0c4fb566ca3dd8b5b68715bf8784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 53/99] fix: derivatives of Jacobi polynomials of lower order
 than the derivative

---
 shenfun/jacobi/bases.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index fdf0ca1..b58ee7c 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -251,7 +251,9 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
-        if mode == 'numpy':
+        if i < k:
+            output_array[:] = 0
+        elif mode == 'numpy':
             dj = np.prod(np.array([i+self.alpha+self.beta+1+j for j in range(k)]))
             output_array[:] = dj/2**k*eval_jacobi(i-k, self.alpha+k, self.beta+k, x)
         else:
-- 
2.43.0


From 307ada7211814ed3f8c22033720c530139198b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 54/99] fix: sign of Legendre matrices (keep the partial
 objects of the matrix dictionary)

---
 shenfun/legendre/matrices.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index c642cc5..8a04f76 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -58,6 +58,7 @@ from __future__ import division
 
 #__all__ = ['mat']
 
+import functools
 import numpy as np
 import sympy as sp
 from shenfun.matrixbase import SpectralMatrix, SpectralMatDict
@@ -904,7 +905,7 @@ def _negative(matrix):
     Negative.__name__ = matrix.__name__
     Negative.__qualname__ = matrix.__qualname__
     Negative.__doc__ = matrix.__doc__
-    return Negative
+    return functools.partial(Negative)
 
 
 mat = SpectralMatDict({
-- 
2.43.0


From da0b10a5504035fa9876aa020d59b4859b3ba605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 55/99] fix: boundary basis of Jacobi spaces with alpha
 different from beta

---
 shenfun/jacobi/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index b58ee7c..a9143b9 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -116,7 +116,7 @@ class JacobiBase(SpectralBase):
     def get_bc_space(self):
         if self._bc_space:
             return self._bc_space
-        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.alpha)
+        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.beta)
         return self._bc_space
 
 class Orthogonal(JacobiBase):
-- 
2.43.0


From 51e2a1835f9d635fde9b78d05ec9bca73f8635ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:27 +0000
Subject: [PATCH 56/99] fix: boundary bases and orthogonal bases of Gegenbauer
 spaces lost the parameter lambda

---
 shenfun/gegenbauer/bases.py | 2 +-
 shenfun/spectralbase.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index ea5478b..77c4f92 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -269,7 +269,7 @@ class Orthogonal(JacobiBase):
         if self._bc_space:
             return self._bc_space
         self._bc_space = BCGeneric(
-            self.N, bc=self.bcs, alpha=self.alpha, beta=self.alpha, domain=self.domain
+            self.N, bc=self.bcs, lambda_=self.lambda_, domain=self.domain
         )
         return self._bc_space
 
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 3d1dc4d..b706276 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1484,7 +1484,7 @@ def getCompositeBase(Orthogonal):
                      padding_factor=self.padding_factor,
                      dealias_direct=self.dealias_direct,
                      coordinates=self.coors.coordinates)
-            for kw in ('alpha', 'beta'):
+            for kw in ('alpha', 'beta', 'lambda_'):
                 if hasattr(self, kw):
                     d[kw] = getattr(self, kw)
             d.update(kwargs)
@@ -1721,7 +1721,7 @@ def getBCGeneric(CompositeBase):
 
         """
         def __init__(self, N, bc=None, domain=None, alpha=0, beta=0, **kw):
-            CompositeBase.__init__(self, N, bc=bc, domain=domain, alpha=alpha, beta=beta)
+            CompositeBase.__init__(self, N, bc=bc, domain=domain, alpha=alpha, beta=beta, **kw)
             self._stencil_matrix = None
 
         def stencil_matrix(self, N=None):
@@ -1809,7 +1809,7 @@ def getBCGeneric(CompositeBase):
                      padding_factor=self.padding_factor,
                      dealias_direct=self.dealias_direct,
                      coordinates=self.coors.coordinates)
-            for kw in ('alpha', 'beta'):
+            for kw in ('alpha', 'beta', 'lambda_'):
                 if hasattr(self, kw):
                     d[kw] = getattr(self, kw)
             d.update(kwargs)
-- 
2.43.0


From aa39f3a63e105795b270dfdf2721b2fc588a346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 57/99] fix: scalar product of PolarDirichlet for rows that are
 not degrees of freedom

---
 shenfun/spectralbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index b706276..9a37719 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -1472,6 +1472,7 @@ def getCompositeBase(Orthogonal):
             K = self.stencil_matrix(self.shape(False))
             w0 = output.copy()
             output = K.matvec(w0, output, axis=self.axis)
+            output[self.sl[slice(self.dim(), None)]] = 0
 
         @property
         def is_orthogonal(self):
-- 
2.43.0


From d103f4e260dd7a00fe09347a2eaf37af979220f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 58/99] fix: diagonals of small magnitude dropped for Phi test
 functions

---
 shenfun/matrixbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index fdc4b19..9b37570 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2111,13 +2111,13 @@ def _assemble_phi(test, trial, measure=1):
         Ax = Lmat(k, qi, l, test[0].dim(), trial[0].N, alpha, beta, gn)
         D = D + sc*Ax
     if trial[0].is_orthogonal:
-        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l)
+        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l, abstol=0)
     else:
         K = trial[0].stencil_matrix()
         K.shape = (trial[0].dim(), trial[0].N)
         keys = np.sort(np.array(list(K.keys())))
         lb, ub = -keys[0], keys[-1]
-        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb)
+        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb, abstol=0)
         K.shape = (trial[0].N, trial[0].N)
     d = d._storage
     return d
-- 
2.43.0


From d22d6e675356033d73b246921b33c700a675d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 59/99] fix: matrices of Phi test functions for floating point
 Jacobi parameters

---
 shenfun/jacobi/recursions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 4476e78..a49e5a2 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -634,6 +634,8 @@ def Lmat(k, q, l, M, N, alf=0, bet=0, gn=1):
 
     """
 
+    # Floating point parameters lead to cancellation in the symbolic expressions
+    alf, bet = (sp.nsimplify(p, rational=True) for p in (alf, bet))
     if l == 0 and q == 0:
         return SparseMatrix({k: 1}, (M, N)).diags('csr')
     elif l == 0:
-- 
2.43.0


From 6e183c591f2e3c015bc8c2be53322d5c19754a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 60/99] fix: diagonals of small magnitude dropped from matrices
 assembled by quadrature

---
 shenfun/matrixbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 9b37570..c70f890 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1901,8 +1901,11 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 return {}
         v = test[0].evaluate_basis_derivative_all(x=x, k=test[1])[:, :K0]
         V = np.dot(np.conj(v.T)*ws[np.newaxis, :], u)
+        # Some bases are of very small magnitude
+        abstol = min(1e-10, 1e-12*np.dot(abs(v.T)*abs(ws[np.newaxis, :]), abs(u)).max(initial=0))
 
     else: # exact or adaptive
+        abstol = 1e-10
 
         x = sp.Symbol('x', real=True)
 
@@ -1986,7 +1989,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             V = V.real.copy()
         elif np.linalg.norm(V.real) / ni > 1e14:
             V = V.real.copy()
-    return extract_diagonal_matrix(V)
+    return extract_diagonal_matrix(V, abstol=abstol)
 
 def assemble_stencil(test, trial, measure=1):
     if trial[0].is_boundary_basis:
-- 
2.43.0


From 4af770b4e44a99b03cb044ea4444758c4abc5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 61/99] fix: boundary basis of conditions whose scaled
 coefficients make a singular matrix only to roundoff

---
 shenfun/utilities/findbasis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index 455dd78..eca96c6 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -111,6 +111,13 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
                 s.append([sp.simplify(f(j)) for j in range(first, first+bcs.num_bcs())])
 
         A = sp.Matrix(s)
+        # The coefficients may be floats (scaled with the size of the domain),
+        # and then a singular matrix is only singular to roundoff
+        An = np.array(A, dtype=float)
+        An /= np.maximum(abs(An).max(axis=1, keepdims=True), 1e-300)
+        An /= np.maximum(abs(An).max(axis=0, keepdims=True), 1e-300)
+        if np.linalg.cond(An) > 1e14:
+            raise NonInvertibleMatrixError
         s = sp.simplify(A.solve(sp.eye(bcs.num_bcs())).T)
         return s
 
-- 
2.43.0


From 37960554491c7fe0fc185cd5051a131160e854ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 62/99] fix: project and matvec for two non-diagonal axes when
 the output is aligned in the third axis

---
 shenfun/forms/project.py | 44 +++++++++++++++++++++++++---------------
 shenfun/matrixbase.py    | 37 +++++++++++++++++----------------
 2 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 6ee83e5..6344fc4 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -3,7 +3,7 @@ import numpy as np
 from shenfun import la
 from shenfun.utilities import CachedArrayDict
 from shenfun.tensorproductspace import TensorProductSpace
-from shenfun.matrixbase import TPMatrix, BlockMatrix, SpectralMatrix, \
+from shenfun.matrixbase import TPMatrix, BlockMatrix, SpectralMatrix, extract_bc_matrices, \
     Identity
 from .arguments import Expr, TestFunction, TrialFunction, BasisFunction, \
     Function, Array
@@ -136,24 +136,36 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
         if len(T.get_nonperiodic_axes()) == 2:
             # Means we have two non-periodic directions
             B = [B] if isinstance(B, TPMatrix) else B
-            npaxes = list(B[0].naxes)
+            bc_mats = extract_bc_matrices([B])
+            tpmat = B[0].get_simplified()
+            npaxes = list(tpmat.naxes)
             assert len(npaxes) == 2
 
+            if bc_mats:
+                output_array.set_boundary_dofs()
+                w0 = Function(T)
+                w1 = output_array.copy()
+                for bc_mat in bc_mats:
+                    output_array -= bc_mat.matvec(w1, w0)
+
             pencilA = T.forward.output_pencil
-            axis = pencilA.axis
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, output_array.dtype.char)
-            output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            b = B[0].mats[axis]
-            output_array = b.solve(output_array, output_array, axis=axis)
-            transAB.forward(output_array, output_arrayB)
-            b = B[0].mats[second_axis]
-            output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=second_axis)
-            transAB.backward(output_arrayB2, output_array)
-            transAB.destroy()
+            for axis in npaxes:
+                b = tpmat.mats[axis]
+                if axis == pencilA.axis:
+                    output_array = b.solve(output_array, output_array, axis=axis)
+                else:
+                    # align in this non-periodic axis
+                    pencilB = pencilA.pencil(axis)
+                    transAB = pencilA.transfer(pencilB, output_array.dtype.char)
+                    output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+                    output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+                    transAB.forward(output_array, output_arrayB)
+                    output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=axis)
+                    transAB.backward(output_arrayB2, output_array)
+                    transAB.destroy()
+            output_array /= tpmat.scale
+            if hasattr(output_array, 'set_boundary_dofs'):
+                output_array.set_boundary_dofs()
             return output_array
 
     if isinstance(B, (TPMatrix, SpectralMatrix)):
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index c70f890..0bfb83b 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1484,7 +1484,6 @@ class TPMatrix:
             c[:] = c*tpmat.scale
         elif len(tpmat.naxes) == 2:
             # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
-            npaxes = deepcopy(list(tpmat.naxes))
             space = tpmat.space
             newspace = False
             if space.forward.input_array.shape != space.forward.output_array.shape:
@@ -1493,23 +1492,27 @@ class TPMatrix:
 
             pencilA = space.forward.output_pencil
             subcomms = [s.Get_size() for s in pencilA.subcomm]
-            axis = pencilA.axis
-            assert subcomms[axis] == 1
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, c.dtype.char)
-            cB = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            cC = np.zeros(transAB.subshapeB, dtype=c.dtype)
-            bb = tpmat.mats[axis]
-            c = bb.matvec(v, c, format=format, axis=axis)
-            # align in second non-periodic axis
-            transAB.forward(c, cB)
-            bb = tpmat.mats[second_axis]
-            cC = bb.matvec(cB, cC, format=format, axis=second_axis)
-            transAB.backward(cC, c)
+            assert subcomms[pencilA.axis] == 1
+            rank = v.rank if hasattr(v, 'rank') else 0
+            if rank > 0:
+                v = v[tpmat.global_index[1]]
+            for axis in tpmat.naxes:
+                bb = tpmat.mats[axis]
+                if axis == pencilA.axis:
+                    c = bb.matvec(v, c, format=format, axis=axis)
+                else:
+                    # align in this non-periodic axis
+                    pencilB = pencilA.pencil(axis)
+                    transAB = pencilA.transfer(pencilB, c.dtype.char)
+                    cA = np.array(v, dtype=c.dtype)
+                    cB = np.zeros(transAB.subshapeB, dtype=c.dtype)
+                    cC = np.zeros(transAB.subshapeB, dtype=c.dtype)
+                    transAB.forward(cA, cB)
+                    cC = bb.matvec(cB, cC, format=format, axis=axis)
+                    transAB.backward(cC, c)
+                    transAB.destroy()
+                v = c.copy()
             c *= tpmat.scale
-            transAB.destroy()
             if newspace:
                 space.destroy()
 
-- 
2.43.0


From 78578cdea39d93d15b80524d275241f2e4168371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:23 +0000
Subject: [PATCH 63/99] fix: to_ortho for functions of periodic spaces

---
 shenfun/forms/arguments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index dd04ffe..e2753bf 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1668,6 +1668,9 @@ class Function(ShenfunBaseArray, BasisFunction):
 
         if space.dimensions > 1:
             naxes = space.get_nonperiodic_axes()
+            if len(naxes) == 0:
+                output_array[:] = self
+                return output_array
             axis = naxes[0]
             base = space.bases[axis]
             if not base.is_orthogonal:
-- 
2.43.0


From 4672146d6b14accd32728912307ab45ac8236a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 64/99] fix: assign copied coefficients between different bases

---
 shenfun/forms/arguments.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index e2753bf..686b00f 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1695,6 +1695,24 @@ class Function(ShenfunBaseArray, BasisFunction):
         """Set self to have zeros in Nyquist coefficients"""
         self.function_space().mask_nyquist(self, mask=mask)
 
+    @staticmethod
+    def _same_basis(base0, base1):
+        """Return True if the basis functions of the two spaces differ only in number"""
+        if base0.__class__ != base1.__class__:
+            return False
+        for key in ('alpha', 'beta', '_scaled'):
+            if getattr(base0, key, None) != getattr(base1, key, None):
+                return False
+        conditions = []
+        for base in (base0, base1):
+            # The bases depend on the kind of conditions and the factors of the
+            # Robin-type conditions, but not on the boundary values.
+            bcs = getattr(base, 'bcs', None) or {}
+            conditions.append({(side, key): val[0] if key in ('R', 'W') else 0
+                               for side in ('left', 'right')
+                               for key, val in dict.get(bcs, side, {}).items()})
+        return conditions[0] == conditions[1]
+
     def assign(self, u_hat):
         """Assign self to u_hat of possibly different size
 
@@ -1707,6 +1725,8 @@ class Function(ShenfunBaseArray, BasisFunction):
         from shenfun import VectorSpace
         if self.ndim == 1:
             assert u_hat.__class__ == self.__class__
+            assert self._same_basis(self.function_space(), u_hat.function_space()), \
+                "Can only assign on spaces with the same underlying bases"
             if self.shape[0] < u_hat.shape[0]:
                 self.function_space()._padding_backward(self, u_hat)
             elif self.shape[0] == u_hat.shape[0]:
@@ -1725,7 +1745,7 @@ class Function(ShenfunBaseArray, BasisFunction):
 
         same_bases = True
         for base0, base1 in zip(space.bases, newspace.bases):
-            if not base0.__class__ == base1.__class__:
+            if not self._same_basis(base0, base1):
                 same_bases = False
                 break
         assert same_bases, "Can only assign on spaces with the same underlying bases"
-- 
2.43.0


From 69c5888f6e20146178db5916e153c2735d98849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 65/99] fix: evaluation of expressions on scaled domains and
 with inhomogeneous boundary conditions

---
 shenfun/forms/arguments.py | 4 ++--
 shenfun/fourier/bases.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 686b00f..733ce27 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -756,9 +756,9 @@ class Expr:
                 sl = -1
                 for axis, k in enumerate(b0):
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
-                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
+                    P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k, argument=1)
                     if not test_sp[axis].domain_factor() == 1:
-                        P *= test_sp[axis].domain_factor()**(k)
+                        P *= float(test_sp[axis].domain_factor())**(k)
                     if len(x) > 1:
                         M.append(P[..., V.local_slice()[axis]])
 
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d472e31..78603e9 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -120,7 +120,7 @@ class FourierBase(SpectralBase):
         x = np.atleast_1d(x)
         return np.exp(1j*x[:, np.newaxis]*k[np.newaxis, :])
 
-    def evaluate_basis_derivative_all(self, x=None, k=0):
+    def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
         V = self.evaluate_basis_all(x=x)
         if k > 0:
             l = self.wavenumbers(bcast=False, scaled=False, eliminate_highest_freq=False)
-- 
2.43.0


From 23cb9381f6d273766e7737ac3a204dd281a509d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 66/99] fix: evaluation of expressions for the Nyquist
 frequency, and for complex functions with two non-periodic axes

---
 shenfun/optimization/cython/evaluate.pyx | 52 +++++++++++++++---------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 6ebadce..603076d 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -82,7 +82,7 @@ def _evaluate_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
 
     return b
@@ -120,7 +120,7 @@ def _evaluate_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
     return b
 
@@ -156,7 +156,7 @@ def _evaluate_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
 
     return b
@@ -204,13 +204,25 @@ def evaluate_3D(b, u, list P, int r2c, int M, int start):
             b = _evaluate_3D_ccr1(b, u, P[0], P[1], P[2], r2c, M, start)
 
     elif P[0].dtype == float and P[1].dtype == float and P[2].dtype == complex:
-        b = _evaluate_3D_rrc1(b, u, P[0], P[1], P[2], r2c, M, start)
+        if r2c < 0: # No R2C
+            b = _evaluate_3D_ccc0(b, u, P[0].astype(complex), P[1].astype(complex),
+                                  P[2].astype(complex), r2c, M, start)
+        else:
+            b = _evaluate_3D_rrc1(b, u, P[0], P[1], P[2], r2c, M, start)
 
     elif P[0].dtype == float and P[1].dtype == complex and P[2].dtype == float:
-        b = _evaluate_3D_rcr1(b, u, P[0], P[1], P[2], r2c, M, start)
+        if r2c < 0: # No R2C
+            b = _evaluate_3D_ccc0(b, u, P[0].astype(complex), P[1].astype(complex),
+                                  P[2].astype(complex), r2c, M, start)
+        else:
+            b = _evaluate_3D_rcr1(b, u, P[0], P[1], P[2], r2c, M, start)
 
     elif P[0].dtype == complex and P[1].dtype == float and P[2].dtype == float:
-        b = _evaluate_3D_crr1(b, u, P[0], P[1], P[2], r2c, M, start)
+        if r2c < 0: # No R2C
+            b = _evaluate_3D_ccc0(b, u, P[0].astype(complex), P[1].astype(complex),
+                                  P[2].astype(complex), r2c, M, start)
+        else:
+            b = _evaluate_3D_crr1(b, u, P[0], P[1], P[2], r2c, M, start)
 
     elif P[0].dtype == float and P[1].dtype == float and P[2].dtype == float:
         b = _evaluate_3D_rrr(b, u, P[0], P[1], P[2])
@@ -276,7 +288,7 @@ def _evaluate_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                     b[i] += p
                     if r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
 
     return b
@@ -341,7 +353,7 @@ def _evaluate_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -387,7 +399,7 @@ def _evaluate_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -431,7 +443,7 @@ def _evaluate_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -456,7 +468,7 @@ def _evaluate_3D_rrc1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -481,7 +493,7 @@ def _evaluate_3D_rcr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = l + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -506,7 +518,7 @@ def _evaluate_3D_crr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = k + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -600,7 +612,7 @@ def _evaluate_lm_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
     return b
 
@@ -659,7 +671,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
     return b
 
@@ -718,7 +730,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if 0 < ii < M:
                     b[i] += p
     return b
 
@@ -816,7 +828,7 @@ def _evaluate_lm_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -883,7 +895,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -949,7 +961,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
 
@@ -1016,6 +1028,6 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 1:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if 0 < ii < M:
                         b[i] += p
     return b
-- 
2.43.0


From 04b493c6c3795eb0db9e624f5f170cdee403fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 67/99] fix: slices of scalar spaces with more than one
 diagonal axis

---
 shenfun/tensorproductspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8147f99..e9557fe 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1364,7 +1364,7 @@ class TensorProductSpace(PFFT):
         assert len(j) == len(daxes)
         sa = np.array(sl)
         if len(daxes) > 0:
-            sa.T[daxes] = j if isinstance(j, int) else np.array(j)[:, None]
+            sa[daxes] = j
         return np.atleast_2d(sa)
 
     def _get_ndiag_slices_and_dims(self, j=()):
-- 
2.43.0


From 06c89e19019ad0a676d0b3123d3c7ae9485d4406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 68/99] fix: projection to one-dimensional spaces with
 inhomogeneous boundary conditions

---
 shenfun/forms/project.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 6344fc4..c5acdcb 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -171,6 +171,10 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
     if isinstance(B, (TPMatrix, SpectralMatrix)):
         output_array = B.solve(output_array)
 
+    elif T.dimensions == 1 and T.num_components() == 1:
+        # Includes matrices for inhomogeneous boundary conditions
+        output_array = la.Solver(B)(output_array)
+
     elif T.coors.is_orthogonal and (len(output_array) == len(B)):
         for oa, b in zip(output_array.v, B):
             oa = b.solve(oa, oa)
-- 
2.43.0


From fe827aa2c55d052371a50e5fe49a9f536af6cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 69/99] fix: solvers for complex banded matrices

---
 shenfun/la.py         | 6 ++++--
 shenfun/matrixbase.py | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 0c71f41..19c9f54 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1331,14 +1331,16 @@ class SolverGeneric1ND:
             return self._data
 
         if self.mats[0].dimensions == 2:
-            data = np.zeros((len(self.solvers1D),)+self.solvers1D[-1]._inner_arg.shape)
+            data = np.zeros((len(self.solvers1D),)+self.solvers1D[-1]._inner_arg.shape,
+                            dtype=self.solvers1D[-1]._inner_arg.dtype)
             for i, sol in enumerate(self.solvers1D):
                 if i == 0 and is_rank_zero:
                     continue
                 else:
                     data[i] = sol._inner_arg
         elif self.mats[0].dimensions == 3:
-            data = np.zeros((len(self.solvers1D), len(self.solvers1D[0]))+self.solvers1D[-1][-1]._inner_arg.shape)
+            data = np.zeros((len(self.solvers1D), len(self.solvers1D[0]))+self.solvers1D[-1][-1]._inner_arg.shape,
+                            dtype=self.solvers1D[-1][-1]._inner_arg.dtype)
             for i, m in enumerate(self.solvers1D):
                 for j, sol in enumerate(m):
                     if i == 0 and j == 0 and is_rank_zero:
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 0bfb83b..a5d55c8 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -456,6 +456,9 @@ class SparseMatrix(MutableMapping):
         if len(self) == 1:
             if list(self.keys())[0] == 0:
                 return DiagMA
+        elif np.iscomplexobj(self.scale) or any(np.iscomplexobj(d) for d in self.values()):
+            # The tailored solvers are for real matrices
+            return Solve
         elif len(self) == 2:
             if np.all(self.sorted_keys() == (0, 2)):
                 return TwoDMA
-- 
2.43.0


From 62a5a756f2a65bcfbe0f2dcd0aec16aeefb7a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 70/99] fix: block solver for Fourier spaces lost constraints
 in the second solve and failed for complex right hand sides

---
 shenfun/la.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 19c9f54..0ba84bc 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1537,15 +1537,20 @@ class BlockMatrixSolver:
             assert len(daxes) == space.dimensions
             Ai = self.mat._Ai[0]
             gi = b.flatten()
-            if isinstance(self._lu, dict):
+            lu = self._lu.get(0)
+            if lu is None:
                 for con in constraints:
                     Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
+                self._lu[0] = lu
             else:
                 for con in constraints:
                     _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
-            lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
-            self._lu = lu
-            u[:] = lu.solve(gi).reshape(u.shape)
+            if b.dtype.char in 'fdg' or lu.U.dtype.char in 'FDG':
+                u[:] = lu.solve(gi).reshape(u.shape)
+            else:
+                u.real[:] = lu.solve(gi.real).reshape(u.shape)
+                u.imag[:] = lu.solve(gi.imag).reshape(u.shape)
 
         else:
             sl, dims = space._get_ndiag_slices_and_dims()
-- 
2.43.0


From a39b305612511c1ea023896a5b1f3b16e132dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 71/99] fix: constraint of the Helmholtz solver applied on
 processors without the zero wavenumber

---
 shenfun/chebyshev/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 5f085a5..9277443 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -311,8 +311,8 @@ class Helmholtz:
         if constraints != ():
             z0 = self.T.local_slice()
             paxes = np.setxor1d(range(u.ndim), self.axis)
-            is_rank_zero = np.array([z0[i].start for i in paxes]).prod()
-            if is_rank_zero == 0:
+            is_rank_zero = all(z0[i].start == 0 for i in paxes)
+            if is_rank_zero:
                 assert len(constraints) == 1
                 s = [0]*u.ndim
                 u[tuple(s)] = constraints[0][1]
-- 
2.43.0


From a104ef2ca7fc898ef4ae6012b8eb2bef49d3af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 72/99] fix: matrix vector products of Chebyshev matrices
 assembled by quadrature

---
 shenfun/chebyshev/matrices.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 89f503d..0ee1f0f 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -734,6 +734,8 @@ class CSNSDmat(SpectralMatrix):
     trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def assemble(self, method):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SN)
@@ -840,6 +842,8 @@ class CTTmat(SpectralMatrix):
     where :math:`T_j \in` :class:`.chebyshev.bases.Orthogonal`, and test and
     trial spaces have dimensions of M and N, respectively.
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['cython']
@@ -1036,6 +1040,8 @@ class ASDSDmat(SpectralMatrix):
     where :math:`\phi_k \in` :class:`.chebyshev.bases.ShenDirichlet`, and test and
     trial spaces have dimensions of M and N, respectively.
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['cython']
@@ -1085,6 +1091,8 @@ class ASNSNmat(SpectralMatrix):
     where :math:`\phi_k \in` :class:`.chebyshev.bases.ShenNeumann`, and test and
     trial spaces have dimensions of M and N, respectively.
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['numba']
@@ -1180,6 +1188,8 @@ class ATTmat(SpectralMatrix):
     where :math:`T_k \in` :class:`.chebyshev.bases.Orthogonal`, and test and
     trial spaces have dimensions of M and N, respectively.
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['cython']
@@ -1218,6 +1228,8 @@ class ATSDmat(SpectralMatrix):
     the trial function :math:`\psi_j \in` :class:`.chebyshev.bases.ShenDirichlet`, and test and
     trial spaces have dimensions of M and N, respectively.
     """
+    _keyscale = 1
+
     def assemble(self, method):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], T)
@@ -1245,6 +1257,8 @@ class ATSNmat(SpectralMatrix):
     trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def assemble(self, method):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], T)
@@ -1420,6 +1434,8 @@ class SSBSBmat(SpectralMatrix):
     trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['cython']
-- 
2.43.0


From 8d45b4f3ccaee5977ed2a72de85a5348eb30a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 73/99] fix: solvers for complex diagonal matrices

---
 shenfun/matrixbase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index a5d55c8..d707fbe 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -453,12 +453,13 @@ class SparseMatrix(MutableMapping):
         if self.scale == 0:
             return Solve
 
+        if np.iscomplexobj(self.scale) or any(np.iscomplexobj(d) for d in self.values()):
+            # The tailored solvers are for real matrices
+            return Solve
+
         if len(self) == 1:
             if list(self.keys())[0] == 0:
                 return DiagMA
-        elif np.iscomplexobj(self.scale) or any(np.iscomplexobj(d) for d in self.values()):
-            # The tailored solvers are for real matrices
-            return Solve
         elif len(self) == 2:
             if np.all(self.sorted_keys() == (0, 2)):
                 return TwoDMA
-- 
2.43.0


From 12d4d985d018e25678c93b7854295fa161d36f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 74/99] fix: evaluation of expressions of real one-dimensional
 Fourier spaces

---
 shenfun/forms/arguments.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 733ce27..63c9295 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -774,7 +774,13 @@ class Expr:
                 bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
                 if len(x) == 1:
-                    work = np.dot(P, bv)
+                    if isinstance(test_sp[0], R2C):
+                        # Complex conjugate modes are not stored
+                        work = 2*np.dot(P, bv).real - (P[:, 0]*bv[0]).real
+                        if test_sp[0].N % 2 == 0:
+                            work -= (P[:, -1]*bv[-1]).real
+                    else:
+                        work = np.dot(P, bv)
 
                 elif len(x) == 2:
                     work = cython.evaluate.evaluate_2D(work, bv, M, r2c, last_conj_index, sl)
-- 
2.43.0


From dacc1226b2026d4ceaad87c0f08d808dfd2161d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 75/99] fix: matrix vector products of Legendre matrices
 assembled by quadrature

---
 shenfun/legendre/matrices.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 8a04f76..2027932 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -397,6 +397,8 @@ class ALLmat(SpectralMatrix):
     trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         #self._matvec_methods += ['cython']
@@ -459,6 +461,8 @@ class CLLmat(SpectralMatrix):
     and trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def __init__(self, test, trial, scale=1, measure=1, assemble=None, kind=None, fixed_resolution=None):
         SpectralMatrix.__init__(self, test, trial, scale=scale, measure=measure, assemble=assemble, kind=kind, fixed_resolution=fixed_resolution)
         self._matvec_methods += ['cython', 'self']
@@ -508,6 +512,8 @@ class CLLmatT(SpectralMatrix):
     and trial spaces have dimensions of M and N, respectively.
 
     """
+    _keyscale = 1
+
     def assemble(self, method):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], L)
-- 
2.43.0


From 8bd44e8027e8123069d98121e482b642a02ceef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 76/99] fix: assembling block matrices and solvers changed the
 scales of the given matrices

---
 shenfun/matrixbase.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index d707fbe..cf84367 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1051,13 +1051,16 @@ class BlockMatrix:
                     self.mats[i][j] = [m]
                 else:
                     found = False
-                    for n in m0:
-                        if m == n:
-                            n += m
-                            found = True
-                            continue
+                    if isinstance(m, TPMatrix):
+                        for k, n in enumerate(m0):
+                            if m == n:
+                                # n may be used elsewhere, so not inplace
+                                m0[k] = n + m
+                                found = True
+                                break
                     if not found:
                         self.mats[i][j].append(m)
+        return self
 
     def get_mats(self, return_first=False):
         """Return flattened list of matrices in self
@@ -1612,8 +1615,12 @@ class TPMatrix:
         """Return copy of self.__add__(a) <==> self+a"""
         assert isinstance(a, TPMatrix)
         assert self == a
-        return TPMatrix(self.mats, self.space, self.trialspace, self.scale+a.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        tpmat = TPMatrix(self.mats, self.space, self.trialspace, self.scale+a.scale,
+                         self.global_index, self.testbase, self.trialbase)
+        tpmat.naxes = self.naxes
+        tpmat.pmat = self.pmat
+        tpmat._issimplified = self._issimplified
+        return tpmat
 
     def __iadd__(self, a):
         """self.__iadd__(a) <==> self += a"""
@@ -1710,10 +1717,11 @@ def get_simplified_tpmatrices(tpmats):
     B = [A[0]]
     for a in A[1:]:
         found = False
-        for b in B:
+        for i, b in enumerate(B):
             if a == b:
-                b += a
+                B[i] = b + a
                 found = True
+                break
         if not found:
             B.append(a)
     return B
-- 
2.43.0


From f27836f8e87451c71f9a43a42dd6983428946000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:54 +0000
Subject: [PATCH 77/99] fix: Chebyshev Biharmonic solver and matvec for odd and
 small numbers of quadrature points and for constant scales

---
 shenfun/chebyshev/la.py                  | 21 ++++++++++++++++-
 shenfun/optimization/cython/Matvec.pyx   | 22 ++++++++---------
 shenfun/optimization/cython/la.pyx       | 18 +++++++-------
 shenfun/optimization/numba/biharmonic.py | 30 +++++++++++-------------
 4 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 9277443..6c94d94 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -487,6 +487,11 @@ class Biharmonic:
         sii, siu, siuu = S[0], S[2], S[4]
         ail, aii, aiu = A[-2], A[0], A[2]
         bill, bil, bii, biu, biuu = B[-4], B[-2], B[0], B[2], B[4]
+        odd_size = sii.shape[0] % 2 == 1
+        if odd_size:
+            # One less odd than even dof. Pad with one item that is not a dof
+            sii, siu, siuu, ail, aii, aiu, bill, bil, bii, biu, biuu = [
+                np.append(d, 0) for d in (sii, siu, siuu, ail, aii, aiu, bill, bil, bii, biu, biuu)]
         M = sii[::2].shape[0]
         shape[S.axis] = M
         ss = copy(shape)
@@ -498,9 +503,21 @@ class Biharmonic:
         self.l1 = np.zeros(ss)
         self.ak = np.zeros(ss)
         self.bk = np.zeros(ss)
+        if len(shape) > 1:
+            # Scales are looked up for all items along the other axes
+            sc = list(shape)
+            sc[self.axis] = 1
+            self.alfa = alfa = np.broadcast_to(alfa, sc).copy()
+            self.beta = beta = np.broadcast_to(beta, sc).copy()
         self.LU_Biharmonic(a0, alfa, beta, sii, siu, siuu, ail, aii, aiu,
                            bill, bil, bii, biu, biuu, self.u0, self.u1,
                            self.u2, self.l0, self.l1, self.axis)
+        if odd_size:
+            # Decouple the item that is not a dof
+            for d, n in ((self.u0, 1), (self.u1, 2), (self.u2, 3), (self.l0, 2), (self.l1, 3)):
+                s = [1]+[slice(None)]*len(shape)
+                s[self.axis+1] = slice(M-n, M)
+                d[tuple(s)] = 1 if d is self.u0 else 0
         self.Biharmonic_factor_pr(self.ak, self.bk, self.l0, self.l1, self.axis)
 
     @staticmethod
@@ -555,7 +572,9 @@ class Biharmonic:
 
     def matvec(self, v, c):
         c[:] = 0
-        self.Biharmonic_matvec(v, c, self.a0, self.alfa, self.beta, self.S[0],
+        alfa = np.atleast_1d(self.alfa).astype(float)
+        beta = np.atleast_1d(self.beta).astype(float)
+        self.Biharmonic_matvec(v, c, self.a0, alfa, beta, self.S[0],
                                self.S[2], self.S[4], self.A[-2], self.A[0],
                                self.A[2], self.B[-4], self.B[-2], self.B[0],
                                self.B[2], self.B[4], self.axis)
diff --git a/shenfun/optimization/cython/Matvec.pyx b/shenfun/optimization/cython/Matvec.pyx
index a0d8c43..c2fe2ee 100644
--- a/shenfun/optimization/cython/Matvec.pyx
+++ b/shenfun/optimization/cython/Matvec.pyx
@@ -867,18 +867,16 @@ cdef void Biharmonic_matvec_ptr(T* const v,
     for i in range(M-4):
         udd[i] = a0*siuu[i] + bet*biuu[i]
 
-    i = M-1
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-2
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st]
-    i = M-3
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-4
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st]
-    i = M-5
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st] + udd[i]*v[(i+4)*st]
-    i = M-6
-    b[i*st] = ldd[i-4]*v[(i-4)*st]+ ld[i-2]* v[(i-2)*st] + dd[i]*v[i*st] + ud[i]*v[(i+2)*st] + udd[i]*v[(i+4)*st]
+    for i in range(max(M-6, 0), M):
+        b[i*st] = dd[i]*v[i*st]
+        if i > 1:
+            b[i*st] += ld[i-2]*v[(i-2)*st]
+        if i > 3:
+            b[i*st] += ldd[i-4]*v[(i-4)*st]
+        if i < M-2:
+            b[i*st] += ud[i]*v[(i+2)*st]
+        if i < M-4:
+            b[i*st] += udd[i]*v[(i+4)*st]
 
     s1 = 0.0
     s2 = 0.0
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 01d6f01..c13efe7 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -1046,9 +1046,9 @@ def LU_oe_Biharmonic_1D(bint odd,
 
     M = sii.shape[0]
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     c0[0] = a*sii[0] + b*aii[0] + c*bii[0]
     c0[1] = a*siu[0] + b*aiu[0] + c*biu[0]
@@ -1648,9 +1648,9 @@ def LU_Biharmonic_3D_n(np.int64_t axis,
 
     M = sii.shape[0]//2
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     if axis == 0:
         N1 = beta.shape[1]
@@ -1947,9 +1947,9 @@ def LU_Biharmonic_2D_n(np.int64_t axis,
 
     M = sii.shape[0]//2
 
-    c0.resize(M)
-    c1.resize(M)
-    c2.resize(M)
+    c0.resize(max(M, 5))
+    c1.resize(max(M, 5))
+    c2.resize(max(M, 5))
 
     if axis == 0:
         N1 = beta.shape[1]
diff --git a/shenfun/optimization/numba/biharmonic.py b/shenfun/optimization/numba/biharmonic.py
index 9fec816..8fe1888 100644
--- a/shenfun/optimization/numba/biharmonic.py
+++ b/shenfun/optimization/numba/biharmonic.py
@@ -98,9 +98,9 @@ def LU_oe_Biharmonic_1D(odd, a, b, c,
                         u0, u1, u2, l0, l1):
 
     M = sii.shape[0]
-    c0 = np.zeros(M)
-    c1 = np.zeros(M)
-    c2 = np.zeros(M)
+    c0 = np.zeros(max(M, 5))
+    c1 = np.zeros(max(M, 5))
+    c2 = np.zeros(max(M, 5))
 
     c0[0] = a*sii[0] + b*aii[0] + c*bii[0]
     c0[1] = a*siu[0] + b*aiu[0] + c*biu[0]
@@ -399,18 +399,16 @@ def Biharmonic_matvec1D(v, b, a0, alfa, beta,
     for i in range(N-4):
         udd[i] = a0*siuu[i] + beta*biuu[i]
 
-    i = N-1
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i]
-    i = N-2
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i]
-    i = N-3
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i] + ud[i]*v[i+2]
-    i = N-4
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i] + ud[i]*v[i+2]
-    i = N-5
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i] + ud[i]*v[i+2] + udd[i]*v[i+4]
-    i = N-6
-    b[i] = ldd[i-4]*v[i-4]+ ld[i-2]* v[i-2] + dd[i]*v[i] + ud[i]*v[i+2] + udd[i]*v[i+4]
+    for i in range(max(N-6, 0), N):
+        b[i] = dd[i]*v[i]
+        if i > 1:
+            b[i] += ld[i-2]*v[i-2]
+        if i > 3:
+            b[i] += ldd[i-4]*v[i-4]
+        if i < N-2:
+            b[i] += ud[i]*v[i+2]
+        if i < N-4:
+            b[i] += udd[i]*v[i+4]
 
     s1 = 0.0
     s2 = 0.0
@@ -442,7 +440,7 @@ def Biharmonic_matvec(v, b, a0, alfa, beta,
                       bill, bil, bii, biu, biuu, axis):
     n = v.ndim
     if n == 1:
-        Biharmonic_matvec1D(v, b, a0, alfa, beta,
+        Biharmonic_matvec1D(v, b, a0, np.atleast_1d(alfa).item(), np.atleast_1d(beta).item(),
                             sii, siu, siuu, ail, aii, aiu,
                             bill, bil, bii, biu, biuu)
     elif n == 2:
-- 
2.43.0


From 6647e4b0dc3dc78155ff61bf81fd91ec2d58b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 78/99] fix: Helmholtz solver with boundary matrices given as
 arguments

---
 shenfun/chebyshev/la.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 6c94d94..51881e3 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -223,6 +223,7 @@ class Helmholtz:
     def __init__(self, *args):
         if len(args) == 1:
             args = args[0]
+        args = list(args)
         self.bc_mats = []
         if isinstance(args[-1], TPMatrix):
             args = get_simplified_tpmatrices(args)
-- 
2.43.0


From 27689565529bac94c8fa99b7e56b07979086c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 79/99] fix: solver for two non-diagonal axes with complex
 matrices

---
 shenfun/la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 0ba84bc..98a2924 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -929,13 +929,13 @@ class SolverGeneric2ND:
             A0 = m.mats[naxes[0]].diags('csc')
             A1 = m.mats[naxes[1]].diags('csc')
             M0 = kron(A0, A1, 'csc')
-            M0 *= m.scale[tuple(sc)]
+            M0 = M0*m.scale[tuple(sc)]
             for m in self.tpmats[1:]:
                 A0 = m.mats[naxes[0]].diags('csc')
                 A1 = m.mats[naxes[1]].diags('csc')
                 M1 = kron(A0, A1, 'csc')
                 sc[diagonal_axis] = i if m.scale.shape[diagonal_axis] > 1 else 0
-                M1 *= m.scale[tuple(sc)]
+                M1 = M1*m.scale[tuple(sc)]
                 M0 = M0 + M1
         self.mats2D[i] = M0
         return M0
-- 
2.43.0


From 4a0214f6f0f513fe4be6ab802e932e543ce4a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 80/99] fix: low memory evaluation for a non-periodic second
 axis used the wavenumbers of the wrong axis

---
 shenfun/optimization/cython/evaluate.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 603076d..1176cef 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -949,8 +949,8 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
         for k in range(u.shape[0]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
-                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w1[m]*x2[i]))).real
-                    y2 = w0[k]*x0[i] + w1[m]*x2[i]
+                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w2[m]*x2[i]))).real
+                    y2 = w0[k]*x0[i] + w2[m]*x2[i]
                     yc = cos(y2)
                     ys = sin(y2)
                     ur = u[k, l, m].real
-- 
2.43.0


From d1c9ddbaf079e91ec7b7f06fa199108004ccb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 81/99] fix: low memory evaluation of non-contiguous arrays

---
 shenfun/tensorproductspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index e9557fe..45ecf63 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -792,6 +792,7 @@ class TensorProductSpace(PFFT):
         sl = -1
         x = []
         w = []
+        coefficients = np.ascontiguousarray(coefficients)
         for base in self:
             axis = base.axis
             if isinstance(base, R2C):
@@ -802,7 +803,7 @@ class TensorProductSpace(PFFT):
                 else:
                     last_conj_index = M
                 sl = self.local_slice()[axis].start
-            x.append(base.map_reference_domain(points[axis]))
+            x.append(np.ascontiguousarray(base.map_reference_domain(points[axis])))
             w.append(base.wavenumbers(bcast=False)[self.local_slice()[axis]].astype(float))
 
         if len(self) == 2:
-- 
2.43.0


From 65e9177b17f53a3efece71ac43f87874a3f1352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 82/99] fix: vandermonde transforms of collapsed Fourier axes

---
 shenfun/fourier/bases.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 78603e9..5e0fc77 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -129,7 +129,7 @@ class FourierBase(SpectralBase):
 
     # Reimplemented for efficiency (smaller array in *= when truncated)
     def forward(self, input_array=None, output_array=None, kind='fast'):
-        if kind != 'fast':
+        if kind != 'fast' and not self._is_collapsed:
             return SpectralBase.forward(self, input_array, output_array, kind=kind)
 
         if input_array is not None:
@@ -154,8 +154,14 @@ class FourierBase(SpectralBase):
             return SpectralBase.apply_inverse_mass(self, array)
         return array
 
+    @property
+    def _is_collapsed(self):
+        # Several Fourier axes are planned together. There is no
+        # Vandermonde matrix for such a transform
+        return self._planned_axes is not None and len(self._planned_axes) > 1
+
     def _evaluate_scalar_product(self, kind='fast'):
-        if kind != 'fast':
+        if kind != 'fast' and not self._is_collapsed:
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
         output = self.scalar_product.xfftn()
@@ -378,7 +384,7 @@ class R2C(FourierBase):
         return int(np.floor(self.padding_factor*self.N))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
-        if kind == 'vandermonde':
+        if kind == 'vandermonde' and not self._is_collapsed:
             assert abs(self.padding_factor-1) < 1e-8
             P = self.evaluate_basis_all(x=x)
             if output_array.ndim == 1:
@@ -401,7 +407,7 @@ class R2C(FourierBase):
 
                 output_array[:] = np.moveaxis(array, 0, self.axis)
             return
-        assert kind == 'fast'
+        assert kind == 'fast' or self._is_collapsed
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         self.backward.xfftn(normalise_idft=False)
@@ -524,10 +530,10 @@ class C2C(FourierBase):
         return 'C2C'
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
-        if kind == 'vandermonde':
+        if kind == 'vandermonde' and not self._is_collapsed:
             SpectralBase._evaluate_expansion_all(self, input_array, output_array, x, kind=kind)
             return
-        assert kind == 'fast'
+        assert kind == 'fast' or self._is_collapsed
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         self.backward.xfftn(normalise_idft=False)
-- 
2.43.0


From 64b80826b52c060a894751478ff34e3212859d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 83/99] fix: one-dimensional Chebyshev Helmholtz solver

---
 shenfun/optimization/cython/la.pyx      | 2 +-
 shenfun/optimization/numba/helmholtz.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index c13efe7..2ab3aa1 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -706,7 +706,7 @@ cdef void Poisson_Solve_ADD_1D_ptr(double* d,
 def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     n = d0.ndim
     if n == 1:
-        LU_Helmholtz_1D(A, B, A_s, B_s, neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A, B, np.asarray(A_s).item(), np.asarray(B_s).item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A, B, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index e8c1134..e0138bb 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -13,7 +13,7 @@ def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B, neumann)
 
     if n == 1:
-        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, np.asscalar(A_s), np.asscalar(B_s), neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, np.asarray(A_s).item(), np.asarray(B_s).item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A_0, A_2, A_4, B_m2, B_0, B_2, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
@@ -275,7 +275,7 @@ def Helmholtz_matvec(v, b, alfa, beta, A, B, axis):
     n = v.ndim
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B)
     if n == 1:
-        Helmholtz_matvec1D(v, b, np.asscalar(alfa), np.asscalar(beta), A_0, A_2, B_0)
+        Helmholtz_matvec1D(v, b, np.asarray(alfa).item(), np.asarray(beta).item(), A_0, A_2, B_0)
     elif n == 2:
         Helmholtz_matvec2D(v, b, alfa, beta, A_0, A_2, B_0, axis)
     elif n == 3:
-- 
2.43.0


From 5d086bb4ac818a63d51bb9d02bef328f0e5927b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 84/99] fix: one-dimensional Chebyshev Biharmonic solver

---
 shenfun/optimization/cython/la.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index 2ab3aa1..44898b0 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -974,7 +974,7 @@ def LU_Biharmonic(a0, alfa, beta, sii, siu, siuu, ail, aii, aiu,
                   bill, bil, bii, biu, biuu, u0, u1,
                   u2, l0, l1, axis):
     if l1.ndim == 2:
-        LU_Biharmonic_1D(a0, alfa, beta, sii, siu, siuu, ail, aii, aiu,
+        LU_Biharmonic_1D(np.asarray(a0).item(), np.asarray(alfa).item(), np.asarray(beta).item(), sii, siu, siuu, ail, aii, aiu,
                          bill, bil, bii, biu, biuu, u0, u1,
                          u2, l0, l1)
     elif l1.ndim == 3:
-- 
2.43.0


From 144fd595b75b83cf35eec33c61d51c54a1661f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 85/99] fix: Chebyshev Biharmonic solver on scaled domains

---
 shenfun/chebyshev/la.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 51881e3..17835d5 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -479,13 +479,18 @@ class Biharmonic:
             self.beta = beta = args[5]
 
         S, A, B = self.S, self.A, self.B
+        # The upper diagonals of S are computed by the solver, so the scale
+        # of the items of S (from, e.g., the domain) has to be part of a0
+        keyscale = getattr(S, '_keyscale', 1)
+        self.a0 = a0 = a0*keyscale
+        self._sdiags = [S[k]/keyscale for k in (0, 2, 4)]
         self.axis = S.axis
         T = S.tensorproductspace
         if T is None:
             shape = [S[0].shape]
         else:
             shape = list(T.shape(True))
-        sii, siu, siuu = S[0], S[2], S[4]
+        sii, siu, siuu = self._sdiags
         ail, aii, aiu = A[-2], A[0], A[2]
         bill, bil, bii, biu, biuu = B[-4], B[-2], B[0], B[2], B[4]
         odd_size = sii.shape[0] % 2 == 1
@@ -575,8 +580,8 @@ class Biharmonic:
         c[:] = 0
         alfa = np.atleast_1d(self.alfa).astype(float)
         beta = np.atleast_1d(self.beta).astype(float)
-        self.Biharmonic_matvec(v, c, self.a0, alfa, beta, self.S[0],
-                               self.S[2], self.S[4], self.A[-2], self.A[0],
+        self.Biharmonic_matvec(v, c, self.a0, alfa, beta, *self._sdiags,
+                               self.A[-2], self.A[0],
                                self.A[2], self.B[-4], self.B[-2], self.B[0],
                                self.B[2], self.B[4], self.axis)
         return c
-- 
2.43.0


From c50758562c49dd39d15e05b979aaae927e64ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 86/99] fix: point evaluation of distributed functions and
 expressions

---
 shenfun/forms/arguments.py    |  6 ++--
 shenfun/tensorproductspace.py | 66 ++++++++++++++++++++++++++++++-----
 2 files changed, 61 insertions(+), 11 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 63c9295..76dea6d 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -760,7 +760,7 @@ class Expr:
                     if not test_sp[axis].domain_factor() == 1:
                         P *= float(test_sp[axis].domain_factor())**(k)
                     if len(x) > 1:
-                        M.append(P[..., V.local_slice()[axis]])
+                        M.append(P[..., test_sp.local_slice()[axis]])
 
                     if isinstance(test_sp[axis], R2C) and len(x) > 1:
                         r2c = axis
@@ -769,7 +769,7 @@ class Expr:
                             last_conj_index = m-1
                         else:
                             last_conj_index = m
-                        sl = V.local_slice()[axis].start
+                        sl = test_sp.local_slice()[axis].start
 
                 bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
@@ -800,6 +800,8 @@ class Expr:
                     sc = sp.lambdify(sym0, sc)(*m)
                 output_array += sc*work
 
+        if len(x) > 1:
+            test_sp._allreduce(output_array)
         return output_array
 
     @property
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 45ecf63..71ddd51 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -686,8 +686,13 @@ class TensorProductSpace(PFFT):
             output_array = np.zeros(points.shape[1], dtype=self.forward.input_array.dtype)
         else:
             output_array[:] = 0
-        if len(self.get_nonperiodic_axes()) > 1:
+        axes = self.get_nonperiodic_axes()
+        if len(axes) > 1:
             method = 1
+        elif method == 0 and len(axes) == 1:
+            # The low-memory version requires a complete nonperiodic axis
+            if self.forward.output_pencil.subcomm[axes[0]].Get_size() > 1:
+                method = 1
         assert self.dimensions < 4, 'eval not implemented (yet) for higher dimensions'
         if method == 0:
             return self._eval_lm_cython(points, coefficients, output_array)
@@ -696,6 +701,54 @@ class TensorProductSpace(PFFT):
         else:
             return self._eval_python(points, coefficients, output_array)
 
+    def _allreduce(self, array):
+        """Return array summed over all processors of this space
+
+        Parameters
+        ----------
+        array : array
+            Local contributions on entry, and the sum on exit
+        """
+        for c in self.subcomm:
+            if c.Get_size() > 1:
+                array[...] = c.allreduce(array)
+        return array
+
+    def _apply_along_axis(self, axis, func, input_array, output_array):
+        """Call func for coefficient arrays aligned in axis
+
+        Parameters
+        ----------
+        axis : int
+            The axis func is operating along
+        func : callable
+            With signature func(input_array, output_array)
+        input_array : array
+            Local expansion coefficients
+        output_array : array
+            Local result
+
+        Returns
+        -------
+        array
+            output_array
+        """
+        pencilA = self.forward.output_pencil
+        if pencilA.subcomm[axis].Get_size() == 1:
+            func(input_array, output_array)
+            return output_array
+        pencilB = pencilA.pencil(axis)
+        transAB = pencilA.transfer(pencilB, output_array.dtype.char)
+        cA = np.array(input_array, dtype=output_array.dtype)
+        cB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+        cC = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+        transAB.forward(cA, cB)
+        func(cB, cC)
+        transAB.backward(cC, cA)
+        output_array[...] = cA
+        transAB.destroy()
+        return output_array
+
     def _eval_python(self, points, coefficients, output_array):
         """Evaluate Function at points, given expansion coefficients
 
@@ -772,8 +825,7 @@ class TensorProductSpace(PFFT):
                 out = out2
             previous_axes.append(axis)
         output_array[:] = out
-        output_array = comm.allreduce(output_array)
-        return output_array
+        return self._allreduce(output_array)
 
 
     def _eval_lm_cython(self, points, coefficients, output_array):
@@ -812,9 +864,7 @@ class TensorProductSpace(PFFT):
         elif len(self) == 3:
             output_array = cython.evaluate.evaluate_lm_3D(list(self.bases), output_array, coefficients, x[0], x[1], x[2], w[0], w[1], w[2], r2c, last_conj_index, sl)
 
-        output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
-        return output_array
+        return self._allreduce(np.atleast_1d(output_array))
 
     def _eval_cython(self, points, coefficients, output_array):
         """Evaluate Function at points, given expansion coefficients
@@ -850,9 +900,7 @@ class TensorProductSpace(PFFT):
         elif len(self) == 3:
             output_array = cython.evaluate.evaluate_3D(output_array, coefficients, P, r2c, last_conj_index, sl)
 
-        output_array = np.atleast_1d(output_array)
-        output_array = comm.allreduce(output_array)
-        return output_array
+        return self._allreduce(np.atleast_1d(output_array))
 
     def wavenumbers(self, scaled=False, eliminate_highest_freq=False):
         """Return list of wavenumbers
-- 
2.43.0


From 39730b4bee49e5ca3d72d782a83bda85b30e7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 87/99] fix: to_ortho and matvec in directions that are
 distributed

---
 shenfun/forms/arguments.py | 19 +++++------------
 shenfun/matrixbase.py      | 42 ++++++++------------------------------
 2 files changed, 14 insertions(+), 47 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 76dea6d..569556f 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1679,20 +1679,11 @@ class Function(ShenfunBaseArray, BasisFunction):
             if len(naxes) == 0:
                 output_array[:] = self
                 return output_array
-            axis = naxes[0]
-            base = space.bases[axis]
-            if not base.is_orthogonal:
-                output_array = base.to_ortho(self, output_array)
-            else:
-                output_array[:] = self
-
-            if len(naxes) > 1:
-                input_array = np.zeros_like(output_array.v)
-                for axis in naxes[1:]:
-                    base = space.bases[axis]
-                    input_array[:] = output_array
-                    if not base.is_orthogonal:
-                        output_array = base.to_ortho(input_array, output_array)
+            output_array[:] = self
+            for axis in naxes:
+                base = space.bases[axis]
+                if not base.is_orthogonal:
+                    space._apply_along_axis(axis, base.to_ortho, output_array.v.copy(), output_array.v)
         elif space.is_orthogonal:
             output_array[:] = self
         else:
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index cf84367..f77b741 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1481,47 +1481,23 @@ class TPMatrix:
         c.fill(0)
         if len(tpmat.naxes) == 0:
             c[:] = tpmat.scale*v
-        elif len(tpmat.naxes) == 1:
-            axis = tpmat.naxes[0]
-            rank = v.rank if hasattr(v, 'rank') else 0
-            if rank == 0:
-                c = tpmat.pmat.matvec(v, c, format=format, axis=axis)
-            else:
-                c = tpmat.pmat.matvec(v[tpmat.global_index[1]], c, format=format, axis=axis)
-            c[:] = c*tpmat.scale
-        elif len(tpmat.naxes) == 2:
-            # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
+        else:
+            # Non-diagonal axes may be non-aligned, hence possible transfers
             space = tpmat.space
             newspace = False
-            if space.forward.input_array.shape != space.forward.output_array.shape:
+            if hasattr(v, 'rank') and v.rank > 0:
+                v = v[tpmat.global_index[1]]
+            if tuple(space.forward.output_pencil.subshape) != v.shape:
                 space = space.get_unplanned(True) # in case self.space is padded
                 newspace = True
 
-            pencilA = space.forward.output_pencil
-            subcomms = [s.Get_size() for s in pencilA.subcomm]
-            assert subcomms[pencilA.axis] == 1
-            rank = v.rank if hasattr(v, 'rank') else 0
-            if rank > 0:
-                v = v[tpmat.global_index[1]]
             for axis in tpmat.naxes:
                 bb = tpmat.mats[axis]
-                if axis == pencilA.axis:
-                    c = bb.matvec(v, c, format=format, axis=axis)
-                else:
-                    # align in this non-periodic axis
-                    pencilB = pencilA.pencil(axis)
-                    transAB = pencilA.transfer(pencilB, c.dtype.char)
-                    cA = np.array(v, dtype=c.dtype)
-                    cB = np.zeros(transAB.subshapeB, dtype=c.dtype)
-                    cC = np.zeros(transAB.subshapeB, dtype=c.dtype)
-                    transAB.forward(cA, cB)
-                    cC = bb.matvec(cB, cC, format=format, axis=axis)
-                    transAB.backward(cC, c)
-                    transAB.destroy()
-                v = c.copy()
-            c *= tpmat.scale
+                w = v if isinstance(v, np.ndarray) and axis == tpmat.naxes[0] else c.copy()
+                space._apply_along_axis(axis, lambda x, y: bb.matvec(x, y, format=format, axis=axis), w, c)
+            c[:] = c*tpmat.scale
             if newspace:
-                space.destroy()
+                space.destroy(destroy_subcomm=False)
 
         return c
 
-- 
2.43.0


From 747f6e4391d95ba3565b68018b5e288a4671b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 88/99] fix: resizing of functions to fewer modes, of tensors
 and from odd to even sizes

---
 shenfun/forms/arguments.py | 141 ++++++++++++++-----------------------
 1 file changed, 52 insertions(+), 89 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 569556f..3c54d52 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1721,40 +1721,44 @@ class Function(ShenfunBaseArray, BasisFunction):
             Function of possibly different shape than self. Must have
             the same function_space
         """
-        from shenfun import VectorSpace
-        if self.ndim == 1:
-            assert u_hat.__class__ == self.__class__
-            assert self._same_basis(self.function_space(), u_hat.function_space()), \
-                "Can only assign on spaces with the same underlying bases"
-            if self.shape[0] < u_hat.shape[0]:
-                self.function_space()._padding_backward(self, u_hat)
-            elif self.shape[0] == u_hat.shape[0]:
-                u_hat[:] = self
-            elif self.shape[0] > u_hat.shape[0]:
-                self.function_space()._truncation_forward(self, u_hat)
-            return u_hat
-
         space = self.function_space()
         newspace = u_hat.function_space()
 
-        if isinstance(space, VectorSpace):
+        if space.is_composite_space:
+            assert newspace.is_composite_space and len(self) == len(u_hat)
             for i, self_i in enumerate(self):
-                u_hat[i] = self_i.assign(u_hat[i])
+                self_i.assign(u_hat[i])
             return u_hat
 
-        same_bases = True
-        for base0, base1 in zip(space.bases, newspace.bases):
-            if not self._same_basis(base0, base1):
-                same_bases = False
-                break
-        assert same_bases, "Can only assign on spaces with the same underlying bases"
+        if space.dimensions == 1:
+            assert u_hat.__class__ == self.__class__
+
+        bases = space.bases if space.dimensions > 1 else [space]
+        newbases = newspace.bases if newspace.dimensions > 1 else [newspace]
+        assert len(bases) == len(newbases) and \
+            all(self._same_basis(base0, base1) for base0, base1 in zip(bases, newbases)), \
+            "Can only assign on spaces with the same underlying bases"
 
-        N = []
-        for newbase in newspace.bases:
-            N.append(newbase.N)
+        N = [newbase.N for newbase in newbases]
+        return self.refine(N if len(N) > 1 else N[0], output_array=u_hat)
 
-        u_hat = self.refine(N, output_array=u_hat)
-        return u_hat
+    @staticmethod
+    def _resize(base, newbase, u, u_hat):
+        """Copy the coefficients ``u`` of ``base`` to the array ``u_hat`` with
+        the number of coefficients of ``newbase``. Both arrays must be aligned
+        in the direction of the bases.
+        """
+        if base.N == newbase.N:
+            u_hat[:] = u
+        elif base.N < newbase.N:
+            base._padding_backward(u, u_hat)
+        else:
+            newbase._truncation_forward(u, u_hat)
+            if base.bc:
+                # The boundary dofs are stored in the last positions
+                sl = base.get_bc_space().slice()
+                s = base.sl[slice(sl.start-sl.stop, None)]
+                u_hat[s] = u[s]
 
     def refine(self, N, output_array=None):
         """Return self with new number of quadrature points
@@ -1771,83 +1775,42 @@ class Function(ShenfunBaseArray, BasisFunction):
         returned array is padded with zeros.
 
         """
-        from shenfun.fourier.bases import R2C
-        from shenfun import VectorSpace
-
-        if self.ndim == 1:
-            assert isinstance(N, Number)
-            space = self.function_space()
-            if output_array is None:
-                refined_basis = space.get_refined(N)
-                output_array = Function(refined_basis)
-            output_array = self.assign(output_array)
-            return output_array
-
-        if isinstance(N, Number):
-            N = (N,)*len(self)
-        elif isinstance(N, (tuple, list, np.ndarray)):
-            assert len(N) == len(self.function_space())
-
         space = self.function_space()
+        if output_array is None:
+            if isinstance(N, Number) and space.dimensions > 1:
+                N = (N,)*space.dimensions
+            output_array = Function(space.get_refined(N))
+        newspace = output_array.function_space()
 
-        if isinstance(space, VectorSpace):
-            if output_array is None:
-                output_array = [None]*len(self)
+        if space.is_composite_space:
             for i, array in enumerate(self):
-                output_array[i] = array.refine(N, output_array=output_array[i])
-            if isinstance(output_array, list):
-                T = output_array[0].function_space()
-                VT = VectorSpace(T)
-                output_array = np.array(output_array)
-                output_array = Function(VT, buffer=output_array)
+                array.refine(N, output_array=output_array[i])
+            return output_array
+
+        if space.dimensions == 1:
+            self._resize(space, newspace, self, output_array)
             return output_array
 
         axes = [bx for ax in space.axes for bx in ax]
-        base = space.bases[axes[0]]
         global_shape = list(self.global_shape) # Global shape in spectral space
-        factor = N[axes[0]]/self.function_space().bases[axes[0]].N
-        if isinstance(base, R2C):
-            global_shape[axes[0]] = int((2*global_shape[axes[0]]-2)*factor)//2+1
-        else:
-            global_shape[axes[0]] = int(global_shape[axes[0]]*factor)
-        c1 = DistArray(global_shape,
-                       subcomm=self.pencil.subcomm,
-                       dtype=self.dtype,
-                       alignment=self.alignment)
-        if self.global_shape[axes[0]] <= global_shape[axes[0]]:
-            base._padding_backward(self, c1)
-        else:
-            base._truncation_forward(self, c1)
-        for ax in axes[1:]:
-            c0 = c1.redistribute(ax)
-            factor = N[ax]/self.function_space().bases[ax].N
-
-            # Get a new padded array
-            base = space.bases[ax]
-            if isinstance(base, R2C):
-                global_shape[ax] = int(base.N*factor)//2+1
-            else:
-                global_shape[ax] = int(global_shape[ax]*factor)
+        c0 = self
+        for ax in axes:
+            if ax != axes[0]:
+                c0 = c0.redistribute(ax)
+            base, newbase = space.bases[ax], newspace.bases[ax]
+            global_shape[ax] = newbase.shape(True)
             c1 = DistArray(global_shape,
                            subcomm=c0.pencil.subcomm,
-                           dtype=c0.dtype,
+                           dtype=self.dtype,
                            alignment=ax)
-
-            # Copy from c0 to d0
-            if self.global_shape[ax] <= global_shape[ax]:
-                base._padding_backward(c0, c1)
-            else:
-                base._truncation_forward(c0, c1)
+            self._resize(base, newbase, c0, c1)
+            c0 = c1
 
         # Reverse transfer to get the same distribution as u_hat
         for ax in reversed(axes[:-1]):
-            c1 = c1.redistribute(ax)
+            c0 = c0.redistribute(ax)
 
-        if output_array is None:
-            refined_space = space.get_refined(N)
-            output_array = Function(refined_space, buffer=c1)
-        else:
-            output_array[:] = c1
+        output_array[:] = c0
         return output_array
 
     def copy_to_flattened(self, f=None, j=(), dims=None, sl=None):
-- 
2.43.0


From c450b529ed8d397bc47131e1101672c8e8b58d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 89/99] fix: distribution of padded spaces and their scalar
 product

---
 shenfun/tensorproductspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 71ddd51..42914b0 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -503,8 +503,8 @@ class TensorProductSpace(PFFT):
                 self.xfftn[-1].forward.input_array.dtype == self.xfftn[-1].forward.output_array.dtype):
             dtype = self.xfftn[-1].forward.input_array.dtype
             shape[axes[-1]] = self.xfftn[-1].forward.input_array.shape[axes[-1]]
-        pencilA = Pencil(pencil.subcomm, shape, axes[0])
-        self.pencil[0] = pencilA
+        self.pencil[0] = pencil
+        pencilA = Pencil(pencil.subcomm, shape, axes[-1])
         for axes in self.axes[1:]:
             pencilB = pencilA.pencil(axes[-1])
             transBA = pencilA.transfer(pencilB, dtype)
@@ -537,7 +537,7 @@ class TensorProductSpace(PFFT):
             self.pencil[::-1], self)
         self.scalar_product = ScalarTransform(
             [o.scalar_product for o in self.xfftn[::-1]],
-            [o.forward for o in self.transfer[::-1]],
+            [o.backward for o in self.transfer[::-1]],
             self.pencil[::-1], self)
 
     def get_dealiased(self, padding_factor=1.5, dealias_direct=False):
-- 
2.43.0


From da7482b6a306fae21fe95c45ebabd90e319aadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 90/99] fix: unplanned and homogeneous copies of a tensor
 product space keep its distribution

---
 shenfun/tensorproductspace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 42914b0..1015fb3 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -613,7 +613,9 @@ class TensorProductSpace(PFFT):
         """
         bases = tuple([base.get_unplanned(**kwargs) for base in self.bases])
         if tensorproductspace:
-            return TensorProductSpace(comm, bases)
+            return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                      dtype=self.forward.input_array.dtype,
+                                      coordinates=self.coors.coordinates)
         return bases
 
     def get_homogeneous(self, **kwargs):
@@ -627,7 +629,9 @@ class TensorProductSpace(PFFT):
 
         """
         bases = tuple([base.get_homogeneous(**kwargs) for base in self.bases])
-        return TensorProductSpace(comm, bases)
+        return TensorProductSpace(self.subcomm, bases, axes=self.axes,
+                                  dtype=self.forward.input_array.dtype,
+                                  coordinates=self.coors.coordinates)
 
     def dtype(self, forward_output=False):
         if hasattr(self, 'forward'):
-- 
2.43.0


From 44a43aa053d0f1a58c5c0604bd92d2b0a9a695eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 91/99] fix: projection of a scalar with as many local rows as
 components

---
 shenfun/forms/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index c5acdcb..247d769 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -175,7 +175,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
         # Includes matrices for inhomogeneous boundary conditions
         output_array = la.Solver(B)(output_array)
 
-    elif T.coors.is_orthogonal and (len(output_array) == len(B)):
+    elif T.num_components() > 1 and T.coors.is_orthogonal and (len(output_array) == len(B)):
         for oa, b in zip(output_array.v, B):
             oa = b.solve(oa, oa)
 
-- 
2.43.0


From 766f1f5c9b1f70dac7cdb0814073182cda5066a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 92/99] fix: boundary values of distributed spaces

---
 shenfun/tensorproductspace.py | 50 ++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 1015fb3..f47de53 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -2010,6 +2010,8 @@ class BoundaryValues:
             b = Array(T)
             s = T.local_slice(False)[self.axis]
             num_bcs = self.bc.num_bcs()
+            # Global index of the bc dofs. Not necessarily on this processor
+            rows = [int(T.global_shape(False)[self.axis])-num_bcs+j for j in range(num_bcs)]
 
             for j, bci in enumerate(self.bc.orderedvals()):
                 if isinstance(bci, sp.Expr):
@@ -2023,11 +2025,11 @@ class BoundaryValues:
                     Yi = []
                     for sym in sym0:
                         k = 'xyzrs'.index(str(sym))
-                        Yi.append(X[k][this_base.si[j]])
+                        Yi.append(X[k][this_base.si[0]])
                     f_bci = lbci(*Yi)
                     # Put the value in the position of the bc dofs
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = f_bci
+                    if s.start <= rows[j] < s.stop:
+                        b[this_base.si[rows[j]-s.start]] = f_bci
 
                 elif isinstance(bci, Function):
                     # if bci is some Function that needs to be evaluated at the boundary
@@ -2048,12 +2050,12 @@ class BoundaryValues:
                     mesh.insert(self.axis, np.ones(len(mesh[0]))*dm)
                     xj = np.vstack(mesh)
                     newb = bci.function_space().eval(xj, bci).reshape(gs)
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = newb[sl]
+                    if s.start <= rows[j] < s.stop:
+                        b[this_base.si[rows[j]-s.start]] = newb[sl]
 
                 elif isinstance(bci, (Number, np.ndarray)):
-                    if s.stop == int(this_base.N*this_base.padding_factor):
-                        b[this_base.si[-num_bcs+j]] = bci
+                    if s.start <= rows[j] < s.stop:
+                        b[this_base.si[rows[j]-s.start]] = bci
 
                 else:
                     raise NotImplementedError
@@ -2081,8 +2083,9 @@ class BoundaryValues:
                     self.bcs[j] = b_hat[this_base.si[-num_bcs+j]].copy()
                 b_hat = T.forward(b).copy()
 
-                for j in range(self.bc.num_bcs()):
-                    self.bcs_final[j] = b_hat[this_base.si[-num_bcs+j]].copy()
+                for j in range(num_bcs):
+                    k = self._local_row(j)
+                    self.bcs_final[j] = 0 if k is None else b_hat[this_base.si[k]].copy()
 
             elif len(T.get_nonhomogeneous_axes()) == 2:
                 assert len(T.bases) == 2, 'Only implemented for 2D'
@@ -2090,6 +2093,7 @@ class BoundaryValues:
                 for axis, base in enumerate(T.bases):
                     if not base is this_base:
                         bases.append(base.get_unplanned())
+                        other_axis = axis
 
                 other_base = bases[0]
                 ua = Array(other_base)
@@ -2117,8 +2121,11 @@ class BoundaryValues:
                                 bco[key] = bcj
                         other_base.bc.bcs[:] = other_base.bcs.orderedvals()
                         other_base.bc.bcs_final[:] = other_base.bcs.orderedvals()
-                    ua[:] = b[this_base.si[-num_bcs+i]]
-                    self.bcs_final[i] = project(ua, other_base)
+                    ua[:] = 0
+                    if s.start <= rows[i] < s.stop:
+                        ua[T.local_slice(False)[other_axis]] = b[this_base.si[rows[i]-s.start]]
+                    T._allreduce(ua)
+                    self.bcs_final[i] = project(ua, other_base)[T.local_slice(True)[other_axis]]
 
     def _add_to_orthogonal(self, u, uh):
         """Add contribution from boundary functions to ``u``
@@ -2158,6 +2165,23 @@ class BoundaryValues:
         w0 = np.zeros_like(u)
         u -= M.matvec(u, w0, axis=self.base.axis)
 
+    def _local_row(self, i):
+        """Return local index of boundary dof `i` in fully transformed arrays,
+        or None if the dof is on another processor
+
+        Parameters
+        ----------
+        i : int
+            Number of the boundary dof
+        """
+        row = -self.bc.num_bcs()+i
+        T = self.tensorproductspace
+        if T is None or isinstance(T, SpectralBase):
+            return row
+        s = T.local_slice(True)[self.base.axis]
+        row += int(T.global_shape(True)[self.base.axis])
+        return row-s.start if s.start <= row < s.stop else None
+
     def set_boundary_dofs(self, u, final=False):
         """Apply boundary condition after solving, fixing boundary dofs
 
@@ -2175,7 +2199,9 @@ class BoundaryValues:
         M = self.bc.num_bcs()
         if final is True:
             for i in range(M):
-                u[self.base.si[-(M)+i]] = self.bcs_final[i]
+                k = self._local_row(i)
+                if k is not None:
+                    u[self.base.si[k]] = self.bcs_final[i]
         else:
             for i in range(M):
                 u[self.base.si[-(M)+i]] = self.bcs[i]
-- 
2.43.0


From 6993931e81f1aa90a464bc46135f289320206a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:00 +0000
Subject: [PATCH 93/99] fix: optimized Legendre/Chebyshev conversions along
 negative axes, of non-contiguous arrays, without output array, and all
 diagonals of odd sizes

---
 shenfun/optimization/cython/leg2chebm.pyx  |   9 +-
 shenfun/optimization/cython/transforms.pyx | 137 ++++++++++++++-------
 shenfun/optimization/numba/transforms.py   |   2 +
 3 files changed, 100 insertions(+), 48 deletions(-)

diff --git a/shenfun/optimization/cython/leg2chebm.pyx b/shenfun/optimization/cython/leg2chebm.pyx
index 7fc09f2..6de481c 100644
--- a/shenfun/optimization/cython/leg2chebm.pyx
+++ b/shenfun/optimization/cython/leg2chebm.pyx
@@ -62,6 +62,7 @@ cdef class FMMLevel:
                 if levels is None:
                     doms = np.cumsum(domains**np.arange(16))
                     levels = np.where((N//2-diagonals)/doms < maxs)[0][0]
+                levels = max(1, levels)
                 self.D = np.full(levels, domains, dtype=int)
 
             else:
@@ -140,6 +141,8 @@ cdef class Leg2Cheb(FMMLevel):
             int level
             list si = [slice(None)]*input_array.ndim
 
+        if axis < 0:
+            axis += input_array.ndim
         FMMLevel.__init__(self, input_array.shape[axis], diagonals=diagonals,
                           domains=domains, levels=levels, maxs=maxs, use_direct=use_direct)
         self._a = _Lambda(np.arange(self.Nn, dtype='d'))
@@ -164,7 +167,7 @@ cdef class Leg2Cheb(FMMLevel):
 
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array[...] = 0
-            FMMdirect1(input_array, self._output_array, self.axis, self._a, self.N, transpose)
+            FMMdirect1(input_array, self._output_array, self.axis, self._a, (self.N+1)//2, transpose)
         else:
             self.apply(input_array, self._output_array, transpose)
 
@@ -202,6 +205,8 @@ cdef class Cheb2Leg(FMMLevel):
             list sn1 = [slice(None)]*input_array.ndim
             np.ndarray[double] k
 
+        if axis < 0:
+            axis += input_array.ndim
         FMMLevel.__init__(self, input_array.shape[axis], diagonals=diagonals,
                           domains=domains, levels=levels, l2c=0, maxs=maxs, use_direct=use_direct)
 
@@ -233,7 +238,7 @@ cdef class Cheb2Leg(FMMLevel):
         w0[self.sn1] *= np.arange(1, self.N)[self.s0]
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array[...] = 0
-            FMMdirect4(w0, self._output_array, self.axis, self._dn[:self.N//2], self._a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self._dn, self._a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
         self._output_array *= (np.arange(self.N)+0.5)[self.s0]
diff --git a/shenfun/optimization/cython/transforms.pyx b/shenfun/optimization/cython/transforms.pyx
index 15b2e13..e90d958 100644
--- a/shenfun/optimization/cython/transforms.pyx
+++ b/shenfun/optimization/cython/transforms.pyx
@@ -48,11 +48,22 @@ cdef double sum(double* u, int N):
         s += u[i]
     return s
 
+cdef int pos(int axis, int ndim):
+    """Return the non-negative axis"""
+    return axis+ndim if axis < 0 else axis
+
 cdef void IterAllButAxis(funv f, np.ndarray[T, ndim=1] input_array, np.ndarray[T, ndim=1] output_array, int st, int N, int axis, tuple shapein, tuple shapeout, void* const data):
     cdef:
-        np.flatiter ita = np.PyArray_IterAllButAxis(np.PyArray_Reshape(input_array, shapein), &axis)
-        np.flatiter ito = np.PyArray_IterAllButAxis(np.PyArray_Reshape(output_array, shapeout), &axis)
-
+        int i
+        np.flatiter ita, ito
+
+    # input_array and output_array are raveled (C order) arrays of shapes shapein and shapeout
+    axis = pos(axis, len(shapein))
+    st = 1
+    for i in range(axis+1, len(shapein)):
+        st *= shapein[i]
+    ita = np.PyArray_IterAllButAxis(np.PyArray_Reshape(input_array, shapein), &axis)
+    ito = np.PyArray_IterAllButAxis(np.PyArray_Reshape(output_array, shapeout), &axis)
     while np.PyArray_ITER_NOTDONE(ita):
         f(<T* const>np.PyArray_ITER_DATA(ita), <T*>np.PyArray_ITER_DATA(ito), st, N, data)
         np.PyArray_ITER_NEXT(ita)
@@ -137,7 +148,7 @@ cpdef np.ndarray restricted_product(L, np.ndarray input_array, np.ndarray output
     cdef:
         int n = input_array.ndim
         int st, N
-        int M = output_array.shape[axis]
+        int M = output_array.shape[pos(axis, output_array.ndim)]
         str dtype = input_array.dtype.char
         tuple shapein
         tuple shapeout = np.shape(output_array)
@@ -156,12 +167,15 @@ cpdef np.ndarray restricted_product(L, np.ndarray input_array, np.ndarray output
     shapein = np.shape(input)
     N = input.shape[axis]
     st = input.strides[axis]//input.itemsize
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_restricted_product_ptr, np.PyArray_Ravel(input, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &r0)
+        IterAllButAxis[double](_restricted_product_ptr, np.PyArray_Ravel(input, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &r0)
     elif dtype == 'D':
-        IterAllButAxis[complex](_restricted_product_ptr, np.PyArray_Ravel(input, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &r0)
+        IterAllButAxis[complex](_restricted_product_ptr, np.PyArray_Ravel(input, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &r0)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
     return output_array
 
 ctypedef struct S0:
@@ -175,19 +189,22 @@ ctypedef struct S0:
 cpdef scalar_product(np.ndarray input_array, np.ndarray output_array, double[::1] x, double[::1] w, int axis, double[:, ::1] a):
     cdef:
         int n = input_array.ndim
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         str dtype = input_array.dtype.char
         tuple shapein = np.shape(input_array)
         tuple shapeout = np.shape(output_array)
-        S0 s0 = S0(&x[0], &w[0], &a[0, 0], output_array.shape[axis], a.shape[0], a.shape[1])
+        S0 s0 = S0(&x[0], &w[0], &a[0, 0], output_array.shape[pos(axis, output_array.ndim)], a.shape[0], a.shape[1])
 
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_scalar_product_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &s0)
+        IterAllButAxis[double](_scalar_product_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &s0)
     elif dtype == 'D':
-        IterAllButAxis[complex](_scalar_product_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &s0)
+        IterAllButAxis[complex](_scalar_product_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &s0)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 ctypedef struct E0:
     double* x
@@ -199,21 +216,24 @@ ctypedef struct E0:
 cpdef evaluate_expansion_all(np.ndarray input_array, np.ndarray output_array, double[::1] x, int axis, double[:, ::1] a):
     cdef:
         int n = input_array.ndim
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         str dtype = input_array.dtype.char
         tuple shapein = np.shape(input_array)
         tuple shapeout = np.shape(output_array)
-        E0 e0 = E0(&x[0], &a[0, 0], output_array.shape[axis], a.shape[0], a.shape[1])
+        E0 e0 = E0(&x[0], &a[0, 0], output_array.shape[pos(axis, output_array.ndim)], a.shape[0], a.shape[1])
 
     if not input_array.flags['C_CONTIGUOUS']:
         input_array = input_array.copy()
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_evaluate_expansion_all_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &e0)
+        IterAllButAxis[double](_evaluate_expansion_all_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &e0)
     elif dtype == 'D':
-        IterAllButAxis[complex](_evaluate_expansion_all_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shapein, shapeout, &e0)
+        IterAllButAxis[complex](_evaluate_expansion_all_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shapein, shapeout, &e0)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 @cython.cdivision(True)
 cdef void _evaluate_expansion_all_ptr(T* const ui,
@@ -541,10 +561,10 @@ cpdef _cheb2leg(T[::1] ui, T[::1] uo, double[::1] dn, double[::1] a):
     cdef DI di = DI(&a[0], &dn[0])
     _cheb2leg_ptr[T](&ui[0], &uo[0], ui.strides[0]/ui.itemsize, ui.shape[0], &di)
 
-cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array, int axis=0):
+cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array=None, int axis=0):
     cdef:
-        int N = input_array.shape[axis]
-        int st = input_array.strides[axis]//input_array.itemsize
+        int N = input_array.shape[pos(axis, input_array.ndim)]
+        int st = 0 # set by IterAllButAxis
         int Ne = N//2+N%2
         str dtype = input_array.dtype.char
         np.ndarray[double, ndim=1] k = np.arange(N, dtype='d')
@@ -557,31 +577,41 @@ cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array, int a
     dn[:] = _Lambda((k[::2]-2)/2)/k[::2]
     a[:] = 1/(2*_Lambda(k)*k*(k+0.5))
     a[0] = 2/np.sqrt(np.pi)
+    if output_array is None:
+        output_array = np.zeros_like(input_array)
     output_array.fill(0)
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[double](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d)
     elif dtype == 'D':
-        IterAllButAxis[complex](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[complex](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
     return output_array
 
-cpdef np.ndarray leg2cheb(np.ndarray input_array, np.ndarray output_array, int axis=0, int transpose=0):
+cpdef np.ndarray leg2cheb(np.ndarray input_array, np.ndarray output_array=None, int axis=0, int transpose=0):
     cdef:
-        int N = input_array.shape[axis]
-        int st = input_array.strides[axis]//input_array.itemsize
+        int N = input_array.shape[pos(axis, input_array.ndim)]
+        int st = 0 # set by IterAllButAxis
         str dtype = input_array.dtype.char
         np.ndarray[double, ndim=1] a = Lambda(np.arange(N, dtype=np.float64))
         DL d = DL(&a[0], transpose)
         tuple shape = np.shape(input_array)
 
+    if output_array is None:
+        output_array = np.zeros_like(input_array)
     output_array.fill(0)
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[double](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d)
     elif dtype == 'D':
-        IterAllButAxis[complex](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[complex](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
     return output_array
 
 @cython.cdivision(True)
@@ -690,16 +720,19 @@ cpdef void FMMcheb(np.ndarray input_array, np.ndarray output_array, int axis, in
         np.ndarray[long, ndim=1] uD = np.hstack((0, np.unique(D)))
         np.ndarray[long, ndim=1] cuD = np.cumsum(uD)
         DCN dc = DCN(Nn, &A[0], &T[0, 0, 0], &Th[0, 0, 0], &ThT[0, 0, 0], &Nk[0], &D[0], &Mmin[0], &uD[0], &cuD[0], len(uD), len(D), s, diags, trans)
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         dtype = input_array.dtype.char
         tuple shape = np.shape(input_array)
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_FMMcheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &dc)
+        IterAllButAxis[double](_FMMcheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &dc)
     elif dtype == 'D':
-        IterAllButAxis[complex](_FMMcheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &dc)
+        IterAllButAxis[complex](_FMMcheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &dc)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 @cython.cdivision(True)
 cdef void _divmod(size_t a, size_t b, size_t* i0, size_t* j0):
@@ -889,17 +922,20 @@ ctypedef struct D1:
 cpdef void FMMdirect1(np.ndarray input_array, np.ndarray output_array, int axis, double[::1] a, int n0, int trans):
     cdef:
         D1 d1 = D1(&a[0], n0, trans)
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         dtype = input_array.dtype.char
         tuple shape = np.shape(input_array)
 
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_FMMdirect1_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d1)
+        IterAllButAxis[double](_FMMdirect1_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d1)
     elif dtype == 'D':
-        IterAllButAxis[complex](_FMMdirect1_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d1)
+        IterAllButAxis[complex](_FMMdirect1_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d1)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 @cython.cdivision(True)
 cdef void _FMMdirect1_ptr(T* const u,
@@ -943,17 +979,20 @@ ctypedef struct D2:
 cpdef void FMMdirect2(np.ndarray input_array, np.ndarray output_array, int axis, double[::1] a, int h, int Nd, int n0, int trans):
     cdef:
         D2 d2 = D2(&a[0], h, Nd, n0, trans)
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         dtype = input_array.dtype.char
         tuple shape= np.shape(input_array)
 
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_FMMdirect2_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d2)
+        IterAllButAxis[double](_FMMdirect2_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d2)
     elif dtype == 'D':
-        IterAllButAxis[complex](_FMMdirect2_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d2)
+        IterAllButAxis[complex](_FMMdirect2_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d2)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 @cython.cdivision(True)
 cdef void _FMMdirect2_ptr(T* const u,
@@ -1005,18 +1044,21 @@ ctypedef struct D3:
 
 cpdef void FMMdirect3(np.ndarray input_array, np.ndarray output_array, int axis, double[::1] dn, double[::1] a, int h, int Nd, int n0):
     cdef:
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         dtype = input_array.dtype.char
         D3 d3 = D3(&dn[0], &a[0], h, Nd, n0)
         tuple shape = np.shape(input_array)
 
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_FMMdirect3_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d3)
+        IterAllButAxis[double](_FMMdirect3_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d3)
     elif dtype == 'D':
-        IterAllButAxis[complex](_FMMdirect3_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d3)
+        IterAllButAxis[complex](_FMMdirect3_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d3)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
 
 
 cdef void _FMMdirect3_ptr(T* const u,
@@ -1084,15 +1126,18 @@ cdef void _FMMdirect4_ptr(T* const u,
 
 cpdef void FMMdirect4(np.ndarray input_array, np.ndarray output_array, int axis, double[::1] dn, double[::1] a, int n0):
     cdef:
-        int st = input_array.strides[axis]//input_array.itemsize
-        int N = input_array.shape[axis]
+        int st = 0 # set by IterAllButAxis
+        int N = input_array.shape[pos(axis, input_array.ndim)]
         dtype = input_array.dtype.char
         D4 d4 = D4(&dn[0], &a[0], n0)
         tuple shape = np.shape(input_array)
 
+    out = np.PyArray_Ravel(output_array, np.NPY_CORDER) # a copy if output_array is not contiguous
     if dtype == 'd':
-        IterAllButAxis[double](_FMMdirect4_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d4)
+        IterAllButAxis[double](_FMMdirect4_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d4)
     elif dtype == 'D':
-        IterAllButAxis[complex](_FMMdirect4_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d4)
+        IterAllButAxis[complex](_FMMdirect4_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), out, st, N, axis, shape, shape, &d4)
     else:
         raise NotImplementedError
+    if not output_array.flags['C_CONTIGUOUS']:
+        output_array[...] = out.reshape(np.shape(output_array))
diff --git a/shenfun/optimization/numba/transforms.py b/shenfun/optimization/numba/transforms.py
index 9318788..92dbfbb 100644
--- a/shenfun/optimization/numba/transforms.py
+++ b/shenfun/optimization/numba/transforms.py
@@ -258,6 +258,7 @@ def leg2cheb(input_array, output_array=None, axis=0, transpose=False):
     else:
         output_array.fill(0)
     n = input_array.ndim
+    axis = axis % n
     N = input_array.shape[axis]
     k = np.arange(N)
     a = Omega(k)
@@ -296,6 +297,7 @@ def cheb2leg(input_array, output_array=None, axis=0):
     else:
         output_array.fill(0)
     n = input_array.ndim
+    axis = axis % n
     N = input_array.shape[axis]
     k = np.arange(N)
     k[0] = 1
-- 
2.43.0


From 956f24490d27479f369b42c86ab86e8bb4af26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:00 +0000
Subject: [PATCH 94/99] fix: plain and multipole Legendre/Chebyshev conversions
 for complex, multidimensional and odd-sized arrays

---
 shenfun/legendre/dlt.py | 92 +++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/shenfun/legendre/dlt.py b/shenfun/legendre/dlt.py
index da2d909..4fe6687 100644
--- a/shenfun/legendre/dlt.py
+++ b/shenfun/legendre/dlt.py
@@ -104,7 +104,7 @@ class DLT:
             axis = axes[-1]
         elif isinstance(axes, int):
             axis = axes
-        self.axis = axis
+        self.axis = axis = axis % input_array.ndim
         assert kind in ('forward', 'scalar product', 'backward')
         self.kind = kind
         self.sl = slicedict(axis=axis, dimensions=input_array.ndim)
@@ -392,11 +392,11 @@ def leg2cheb(cl, cc=None, axis=0, transpose=False):
     else:
         cc.fill(0)
 
-    if axis > 0:
+    if axis != 0:
         cl = np.moveaxis(cl, axis, 0)
         cc = np.moveaxis(cc, axis, 0)
     N = cl.shape[0]
-    k = np.arange(N)
+    k = np.arange(N, dtype=float)
     a = Lambda(k)
     sl = [None]*cc.ndim
     ck = np.full(N, np.pi/2); ck[0] = np.pi
@@ -414,7 +414,7 @@ def leg2cheb(cl, cc=None, axis=0, transpose=False):
             sl[0] = slice(n//2, N-n//2)
             cc[n:] += a[n//2]*a[tuple(sl)]*cx[:(N-n)]
 
-    if axis > 0:
+    if axis != 0:
         cl = np.moveaxis(cl, 0, axis)
         cc = np.moveaxis(cc, 0, axis)
     return cc
@@ -453,22 +453,27 @@ def cheb2leg(cc, cl=None, axis=0):
         cl = np.zeros_like(cc)
     else:
         cl.fill(0)
-    if axis > 0:
+    if axis != 0:
         cl = np.moveaxis(cl, axis, 0)
         cc = np.moveaxis(cc, axis, 0)
     N = cc.shape[0]
     k = np.arange(N, dtype=float)
     k[0] = 1
-    vn = cc*k
     a = 1/(2*Lambda(k)*k*(k+0.5))
-    k[0] = 0
     a[0] = 2/np.sqrt(np.pi)
+    sl = [None]*cc.ndim
+    sl[0] = slice(None)
+    sl = tuple(sl) # broadcast to ndims
+    vn = cc*k[sl]
+    k[0] = 0
+    k = k[sl]
+    a = a[sl]
     cl[:] = np.sqrt(np.pi)*a*vn
     for n in range(2, N, 2):
-        dn = Lambda(np.array([(n-2)/2]))/n
+        dn = Lambda(np.array([(n-2)/2]))[0]/n
         cl[:(N-n)] -= dn*a[n//2:(N-n//2)]*vn[n:]
     cl *= (k+0.5)
-    if axis > 0:
+    if axis != 0:
         cl = np.moveaxis(cl, 0, axis)
         cc = np.moveaxis(cc, 0, axis)
     return cl
@@ -497,7 +502,7 @@ class Leg2chebHaleTownsend:
         Parameter. Choose direct matvec approach for N < Nmin
     """
     def __init__(self, input_array, output_array=None, axis=0, nM=50, Nmin=40000):
-        self.axis = axis
+        self.axis = axis = axis % input_array.ndim
         self.N = input_array.shape[axis]
         self.L = None
         self.T = None
@@ -554,8 +559,8 @@ class Leg2chebHaleTownsend:
             return
 
         self.L = FunctionSpace(self.N, 'L')
-        self.U = FunctionSpace(self.N, 'U', quad='GC')
-        self.T = FunctionSpace(self.N, 'C', quad='GC')
+        self.U = FunctionSpace(self.N, 'U', quad='GC', dtype=input_array.dtype)
+        self.T = FunctionSpace(self.N, 'C', quad='GC', dtype=input_array.dtype)
         self.a = self.L.get_recursion_matrix(self.N+3, self.N+3).diags('dia').data
 
         if input_array.ndim > 1:
@@ -846,6 +851,7 @@ class FMMLevel:
     """
     def __init__(self, N, domains=None, levels=None, l2c=True, maxs=100, use_direct=-1):
         self.N = N
+        self.axis = 0
         self.use_direct = use_direct
         self._output_array = np.array([0])
         if N <= use_direct:
@@ -880,7 +886,6 @@ class FMMLevel:
         self.L = max(1, levels)
         Nb = get_number_of_blocks(self.L, self.D)
         #self.diags = diagonals
-        self.axis = 0
         # Create new (even) N with minimal size according to diags and N
         # Pad input array with zeros
         #s, rest = divmod(N//2-diagonals, Nb)
@@ -922,7 +927,8 @@ class FMMLevel:
         return M
 
     def plan(self, shape, dtype, axis, output_array=None, use_direct=-1):
-        if self._output_array.shape == shape and axis == self.axis and self._output_array.dtype == dtype:
+        axis = axis % len(shape)
+        if hasattr(self, 'sl') and self._output_array.shape == shape and axis == self.axis and self._output_array.dtype == dtype:
             return
         self.axis = axis
         self.sl = slicedict(axis=axis, dimensions=len(shape))
@@ -1050,10 +1056,9 @@ class FMMLeg2Cheb(FMMLevel):
             matrix and :math:`u` is the array of Legendre coefficients.
 
         """
-        self.plan(input_array.shape, input_array.dtype, self.axis, output_array, self.use_direct)
+        self.plan(input_array.shape, input_array.dtype, self.axis, None, self.use_direct)
         if input_array.shape[self.axis] <= self.use_direct and input_array.ndim == 1:
-            self._output_array[...] = 0
-            _leg2cheb(input_array, self._output_array, self.a, transpose)
+            leg2cheb(input_array, self._output_array, axis=0, transpose=transpose)
             if output_array is not None:
                 output_array[...] = self._output_array
                 return output_array
@@ -1063,12 +1068,15 @@ class FMMLeg2Cheb(FMMLevel):
             input_array[self.si[0]] *= 0.5
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect1(input_array, self._output_array, self.axis, self.a, self.N//2, transpose)
+            FMMdirect1(input_array, self._output_array, self.axis, self.a, (self.N+1)//2, transpose)
         else:
             self.apply(input_array, self._output_array, transpose)
         if transpose is False:
             self._output_array *= (2/np.pi)
             self._output_array[self.si[0]] *= 0.5
+        if output_array is not None:
+            output_array[...] = self._output_array
+            return output_array
         return self._output_array
 
     def apply(self, input_array, output_array, transpose):
@@ -1125,7 +1133,7 @@ class FMMCheb2Leg(FMMLevel):
     use_direct : int
         Use direct method if N is smaller than this number
     """
-    def __init__(self, input, output_array=None, diagonals=16, domains=None, levels=None, maxs=100, axis=0, use_direct=-1):
+    def __init__(self, input, output_array=None, domains=None, levels=None, maxs=100, axis=0, use_direct=-1):
         if isinstance(input, int):
             N = input
             shape = (N,)
@@ -1134,8 +1142,7 @@ class FMMCheb2Leg(FMMLevel):
             N = input.shape[axis]
             shape = input.shape
             dtype = input.dtype
-        FMMLevel.__init__(self, N, domains=domains,
-                          diagonals=diagonals, levels=levels, maxs=maxs, l2c=False, use_direct=use_direct)
+        FMMLevel.__init__(self, N, domains=domains, levels=levels, maxs=maxs, l2c=False, use_direct=use_direct)
         k = np.arange(self.Nn, dtype='d')
         k[0] = 1
         self.dn = Lambda((k[::2]-2)/2)/k[::2]
@@ -1155,16 +1162,15 @@ class FMMCheb2Leg(FMMLevel):
 
         """
         assert isinstance(input_array, np.ndarray)
-        self.plan(input_array.shape, input_array.dtype, self.axis, output_array, self.use_direct)
+        self.plan(input_array.shape, input_array.dtype, self.axis, None, self.use_direct)
         if input_array.shape[self.axis] <= self.use_direct and input_array.ndim == 1:
-            self._output_array[...] = 0
-            _cheb2leg(input_array, self._output_array, self.dn, self.a)
+            cheb2leg(input_array, self._output_array, axis=0)
             if output_array is not None:
                 output_array[...] = self._output_array
                 return output_array
             return self._output_array
 
-        self.sl = sl = slicedict(axis=self.axis, dimensions=input_array.ndim)
+        sl = self.sl
         si = [None]*input_array.ndim
         si[self.axis] = slice(None)
         w0 = input_array.copy()
@@ -1172,7 +1178,7 @@ class FMMCheb2Leg(FMMLevel):
 
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect4(w0, self._output_array, self.axis, self.dn[:self.N//2], self.a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self.dn, self.a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
 
@@ -1184,19 +1190,20 @@ class FMMCheb2Leg(FMMLevel):
 
     def apply(self, input_array, output_array):
         FMMcheb(input_array, output_array, self.axis, self.Nn, self.fk, self.Nk, self.T, self.Th, self.ThT, self.D, self.Mmin, self.s, self.diags, False)
-        FMMdirect4(input_array, output_array, self.axis, self.dn[:self.N//2], self.a[:self.N], self.diags)
+        FMMdirect4(input_array, output_array, self.axis, self.dn, self.a[:self.N], self.diags)
         FMMdirect3(input_array, output_array, self.axis, self.dn, self.a, 2*self.s, get_number_of_blocks(self.L, self.D), 2*self.diags)
 
-@runtimeoptimizer
-def _cheb2leg(u, v, dn, a):
-    pass
-
-@runtimeoptimizer
-def _leg2cheb(u, v, a, trans):
-    pass
+def _first_axis(u, v, axis, a):
+    """Return views of u and v with axis first, and coefficients a that
+    broadcast along this axis
+    """
+    u = np.moveaxis(u, axis, 0)
+    v = np.moveaxis(v, axis, 0)
+    return u, v, a.reshape((-1,)+(1,)*(u.ndim-1))
 
 @runtimeoptimizer
 def FMMdirect1(u, v, axis, a, n0, trans):
+    u, v, a = _first_axis(u, v, axis, a)
     N = u.shape[0]
     if trans is False:
         for n in range(0, n0):
@@ -1207,15 +1214,16 @@ def FMMdirect1(u, v, axis, a, n0, trans):
 
 @runtimeoptimizer
 def FMMdirect2(u, v, axis, a, h, Nb, n0, trans):
+    u, v, a = _first_axis(u, v, axis, a)
     N = v.shape[0]
     for k in range(Nb):
         i0 = k*h
         j0 = n0+i0
         for n in range(0, h, 2):
             a0 = i0+(n0+n)//2
-            Nm = min(N-(j0+n), h-n)
+            Nm = max(0, min(N-(j0+n), h-n))
             if trans is True:
-                v[j0+n:(j0+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[i0:i0+Nm]
+                v[j0+n:j0+n+Nm] += a[(n+n0)//2]*a[a0:a0+Nm]*u[i0:i0+Nm]
             else:
                 v[i0:(i0+Nm)] += a[(n+n0)//2]*a[a0:a0+Nm]*u[j0+n:j0+n+Nm]
 
@@ -1225,17 +1233,19 @@ def FMMdirect2(u, v, axis, a, h, Nb, n0, trans):
 
 @runtimeoptimizer
 def FMMdirect3(u, v, axis, dn, a, h, Nb, n0):
+    u, v, a = _first_axis(u, v, axis, a)
     N = v.shape[0]
     for k in range(Nb):
         i0 = k*h
         j0 = n0+i0
         for n in range(0, h, 2):
             a0 = i0+(n0+n)//2
-            Nm = min(N-(j0+n), h-n)
+            Nm = max(0, min(N-(j0+n), h-n))
             v[i0:(i0+Nm)] -= dn[(n+n0)//2]*a[a0:a0+Nm]*u[j0+n:j0+n+Nm]
 
 @runtimeoptimizer
 def FMMdirect4(u, v, axis, dn, a, n0):
+    u, v, a = _first_axis(u, v, axis, a)
     N = u.shape[0]
     v[:] += np.sqrt(np.pi)*a*u
     for n in range(1, n0):
@@ -1254,8 +1264,8 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
     wk = [None]*L
     ck = [None]*L
     for level in range(L):
-        wk[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax))
-        ck[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax))
+        wk[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax), dtype=input_array.dtype)
+        ck[level] = np.zeros((get_number_of_blocks(level, D), D[level], Mmax), dtype=input_array.dtype)
     for sigma in (0, 1):
         cia[:] = 0
         coa[:] = 0
@@ -1306,7 +1316,7 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
                     for block in range(get_number_of_blocks(level, D)):
                         i0, j0 = get_ij(level, block, s, D, diags)
                         for p in range(D[level]):
-                            coa[i0+p*s:i0+(p+1)*s] = np.dot(T[sigma], ck[level][block, p])
+                            coa[i0+p*s:i0+(p+1)*s] = np.dot(T[sigma], ck[level][block, p, :M0])
 
         else:
             for level in range(L-1, -1, -1):
@@ -1346,7 +1356,7 @@ def FMMcheb(input_array, output_array, axis, Nn, fk, Nk, T, Th, ThT, D, Mmin, s,
                     for block in range(get_number_of_blocks(level, D)):
                         j0, i0 = get_ij(level, block, s, D, diags)
                         for p in range(D[level]):
-                            coa[i0+(p+1)*s:i0+(p+2)*s] = np.dot(T[sigma], ck[level][block, p])
+                            coa[i0+(p+1)*s:i0+(p+2)*s] = np.dot(T[sigma], ck[level][block, p, :M0])
 
         output_array[sigma::2] = coa[:N//2+(N%2)*(1-sigma)]
 
-- 
2.43.0


From 3d5a8217237112e0c8c4d7522fb22dc4308b59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 95/99] fix: resizing keeps the complex Nyquist coefficients of
 multidimensional real functions, and takes sizes as an array

---
 shenfun/forms/arguments.py    | 47 +++++++++++++++++++++++++++++++++--
 shenfun/tensorproductspace.py |  2 +-
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 3c54d52..a732cb0 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -8,6 +8,7 @@ import sympy as sp
 from shenfun.config import config
 from shenfun.optimization import cython
 from shenfun.spectralbase import BoundaryConditions, Domain
+from mpi4py import MPI
 from mpi4py_fft import DistArray
 
 __all__ = ('Expr', 'BasisFunction', 'TestFunction', 'TrialFunction', 'Function',
@@ -1743,13 +1744,55 @@ class Function(ShenfunBaseArray, BasisFunction):
         return self.refine(N if len(N) > 1 else N[0], output_array=u_hat)
 
     @staticmethod
-    def _resize(base, newbase, u, u_hat):
+    def _fold_nyquist(base, bases, N, u_hat):
+        """Add the coefficients of wavenumber -N/2 to those of wavenumber N/2
+        for the real-to-complex ``base``. The former are the complex conjugates
+        of the latter with all other wavenumbers reversed.
+
+        Parameters
+        ----------
+        base : :class:`.SpectralBase`
+            The real-to-complex base
+        bases : sequence of :class:`.SpectralBase`
+            All bases of the tensor product space
+        N : int
+            Even number of quadrature points after truncation of base
+        u_hat : DistArray
+            Truncated array, aligned in the direction of base
+        """
+        others = [i for i in range(u_hat.ndim) if i != base.axis]
+        sl = u_hat.local_slice()
+        plane = np.zeros([u_hat.global_shape[i] for i in others], dtype=u_hat.dtype)
+        s = tuple(sl[i] for i in others)
+        plane[s] = u_hat[base.si[N//2]]
+        for comm in u_hat.subcomm:
+            comm.Allreduce(MPI.IN_PLACE, plane)
+        mirror = plane.conj()
+        for j, i in enumerate(others):
+            if bases[i].family() == 'fourier':
+                mirror = np.roll(np.flip(mirror, j), 1, j)
+        u_hat[base.si[N//2]] = (plane+mirror)[s]
+
+    @staticmethod
+    def _resize(base, newbase, u, u_hat, bases=None):
         """Copy the coefficients ``u`` of ``base`` to the array ``u_hat`` with
         the number of coefficients of ``newbase``. Both arrays must be aligned
         in the direction of the bases.
         """
         if base.N == newbase.N:
             u_hat[:] = u
+        elif base.__class__.__name__ == 'R2C' and u.ndim > 1:
+            # The Nyquist coefficient is real in 1D, but here it is complex
+            # since the remaining axes are in spectral space
+            N = min(base.N, newbase.N)
+            s = base.sl[slice(0, N//2+1)]
+            u_hat.fill(0)
+            u_hat[s] = u[s]
+            if N % 2 == 0: # Symmetric Fourier interpolator
+                if base.N < newbase.N:
+                    u_hat[base.si[N//2]] *= 0.5
+                else:
+                    Function._fold_nyquist(base, bases, N, u_hat)
         elif base.N < newbase.N:
             base._padding_backward(u, u_hat)
         else:
@@ -1803,7 +1846,7 @@ class Function(ShenfunBaseArray, BasisFunction):
                            subcomm=c0.pencil.subcomm,
                            dtype=self.dtype,
                            alignment=ax)
-            self._resize(base, newbase, c0, c1)
+            self._resize(base, newbase, c0, c1, space.bases)
             c0 = c1
 
         # Reverse transfer to get the same distribution as u_hat
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index f47de53..f729862 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -592,7 +592,7 @@ class TensorProductSpace(PFFT):
             N = N*np.array(self.global_shape())
         elif isinstance(N, (tuple, list, np.ndarray)):
             assert len(N) == len(self)
-        refined_bases = [base.get_refined(N[axis])
+        refined_bases = [base.get_refined(int(N[axis]))
                          for axis, base in enumerate(self.bases)]
         return TensorProductSpace(self.subcomm, refined_bases, axes=self.axes,
                                   dtype=self.dtype(),
-- 
2.43.0


From 80d793cbfca4a20e73cdb5471504c1f6aed13d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 96/99] fix: time integrators: backward Euler with Nyquist mask
 and first step, complex and component-wise linear operators, 1D and
 single-term operators

---
 shenfun/utilities/integrators.py | 159 ++++++++++++++-----------------
 1 file changed, 71 insertions(+), 88 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 4a40408..10a00bb 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -45,7 +45,7 @@ import numpy as np
 
 from shenfun import Function, TPMatrix, TrialFunction, TestFunction,\
     inner, la, Expr, CompositeSpace, BlockMatrix, SparseMatrix, \
-    get_simplified_tpmatrices, ScipyMatrix, Inner, SpectralMatrix
+    get_simplified_tpmatrices, ScipyMatrix, Inner
 
 __all__ = ('IRK3', 'BackwardEuler', 'RK4', 'ETDRK4', 'ETD',
            'IMEXRK3', 'IMEXRK011', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443')
@@ -94,6 +94,48 @@ class IntegratorBase:
     def NonlinearRHS(self, *args, **kwargs):
         return 0
 
+    def get_linear_operator(self):
+        """Return diagonal linear operator as an array (or number)"""
+        L = self.LinearRHS(TrialFunction(self.T), **self.params)
+        if isinstance(L, Expr):
+            L = inner(TestFunction(self.T), L)
+            L = L if isinstance(L, list) else [L]
+            if isinstance(L[0], TPMatrix):
+                L = get_simplified_tpmatrices(L)
+                if self.T.tensor_rank == 0:
+                    assert len(L) == 1
+                    L = L[0]
+            else:
+                L = sum(L[1:], L[0])
+        if isinstance(L, list):
+            assert self.T.tensor_rank == 1
+            scale = [0]*self.T.num_components()
+            for mat in L:
+                i, j = mat.global_index
+                assert mat.isidentity() and i == j
+                scale[i] = scale[i] + mat.scale
+            shape = np.broadcast_shapes(*[np.shape(s) for s in scale])
+            L = np.array([np.broadcast_to(s, shape) for s in scale])
+        elif isinstance(L, TPMatrix):
+            assert L.isidentity()
+            L = L.scale
+        elif isinstance(L, SparseMatrix):
+            L.simplify_diagonal_matrices()
+            L = L.scale
+        return np.atleast_1d(L)
+
+    @staticmethod
+    def contour_mean(f, z, M=50):
+        """Return mean value of function f over the unit circle around z"""
+        psi = np.zeros_like(z, dtype=np.result_type(z, float))
+        for k in range(1, M+1):
+            w = np.exp(np.pi*1j*(k-0.5)/M)
+            if np.iscomplexobj(z):
+                psi += (f(z+w)+f(z+w.conjugate()))/2
+            else:
+                psi += f(z+w).real
+        return psi/M
+
     def setup(self, dt):
         """Set up solver"""
         pass
@@ -171,6 +213,8 @@ class IRK3(IntegratorBase):
                 mats = inner(v, u-((a[rk]+b[rk])*dt/2)*u0)
             else:
                 mats = inner(v, u)
+            if isinstance(mats, TPMatrix):
+                mats = [mats]
             if self.T.dimensions == 1:
                 self.solver.append(la.Solver(mats))
 
@@ -188,6 +232,8 @@ class IRK3(IntegratorBase):
                 rhs_mats = inner(v, u+((a[rk]+b[rk])*dt/2)*u0)
             else:
                 rhs_mats = inner(v, u)
+            if isinstance(rhs_mats, TPMatrix):
+                rhs_mats = [rhs_mats]
             mat = ScipyMatrix if self.T.dimensions == 1 else BlockMatrix
             self.rhs_mats.append(mat(rhs_mats))
 
@@ -262,11 +308,15 @@ class BackwardEuler(IntegratorBase):
         self.params['dt'] = dt
         u = TrialFunction(self.T)
         v = TestFunction(self.T)
-        mats = inner(u-dt*self.LinearRHS(u), v)
+        L = self.LinearRHS(u)
+        mats = inner(u-dt*L if isinstance(L, Expr) else u, v)
         M = inner(u, v)
+        if isinstance(mats, TPMatrix):
+            mats = [mats]
+        self.start = True
 
         if self.T.dimensions == 1:
-            self.solver = la.Solve(mats)
+            self.solver = la.Solver(mats)
             self.rhs_mats = M
             return
 
@@ -284,8 +334,11 @@ class BackwardEuler(IntegratorBase):
     def compute_rhs(self, u, u_hat, dU, dU1):
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask:
+        if self.mask is not None:
             dU.mask_nyquist(self.mask)
+        if self.start: # No previous step
+            dU1[:] = dU
+            self.start = False
         w1 = dU*2*dt - dU1*dt
         dU1[:] = dU
         return w1
@@ -301,7 +354,7 @@ class BackwardEuler(IntegratorBase):
             dU = self.compute_rhs(u, u_hat, self.dU, self.dU1)
             dU += self.rhs_mats.matvec(u_hat, self.w0)
             u_hat = self.solver(dU, u=u_hat)
-            if self.mask:
+            if self.mask is not None:
                 u_hat.mask_nyquist(self.mask)
             t += dt
             tstep += 1
@@ -341,33 +394,9 @@ class ETD(IntegratorBase):
     def setup(self, dt):
         """Set up ETD ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
-        L = np.atleast_1d(L)
-        hL = L*dt
+        hL = self.get_linear_operator()*dt
         self.ehL = np.exp(hL)
-        M = 50
-        psi = self.psi = np.zeros(hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi += ((np.exp(ll)-1.)/ll).real
-        psi /= M
+        self.psi = self.contour_mean(lambda z: (np.exp(z)-1.)/z, hL)
 
     def solve(self, u, u_hat, dt, trange):
         """Integrate forward in time
@@ -425,7 +454,7 @@ class ETDRK4(IntegratorBase):
         self.dU = Function(T)
         self.dU0 = Function(T)
         self.V2 = Function(T)
-        self.psi = np.zeros((4,)+self.U_hat0.shape, dtype=float)
+        self.psi = None
         self.a = None
         self.b = [0.5, 0.5, 0.5]
         self.ehL = None
@@ -434,42 +463,14 @@ class ETDRK4(IntegratorBase):
     def setup(self, dt):
         """Set up ETDRK4 ODE solver"""
         self.params['dt'] = dt
-        u = TrialFunction(self.T)
-        v = TestFunction(self.T)
-        L = self.LinearRHS(u, **self.params)
-        if isinstance(L, Expr):
-            L = inner(v, L)
-            if isinstance(L, list):
-                if isinstance(L[0], TPMatrix):
-                    L = get_simplified_tpmatrices(L)[0]
-                elif isinstance(L[0], SpectralMatrix):
-                    L = sum(L[1:], L[0])
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-        L = np.atleast_1d(L)
-        hL = L*dt
+        hL = self.get_linear_operator()*dt
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
-        M = 50
-        psi = self.psi = np.zeros((4,) + hL.shape, dtype=float)
-        for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[0] += ((np.exp(ll)-1.)/ll).real
-            psi[1] += ((np.exp(ll)-ll-1.)/ll**2).real
-            psi[2] += ((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3).real
-            ll2 = hL/2.+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[3] += ((np.exp(ll2)-1.)/(ll2)).real
-
-        psi /= M
+        psi = self.psi = np.array([
+            self.contour_mean(lambda z: (np.exp(z)-1.)/z, hL),
+            self.contour_mean(lambda z: (np.exp(z)-z-1.)/z**2, hL),
+            self.contour_mean(lambda z: (np.exp(z)-0.5*z**2-z-1.)/z**3, hL),
+            self.contour_mean(lambda z: (np.exp(z)-1.)/z, hL/2.)])
         a = [psi[0]-3*psi[1]+4*psi[2]]
         a.append(2*psi[1]-4*psi[2])
         a.append(2*psi[1]-4*psi[2])
@@ -566,32 +567,14 @@ class RK4(IntegratorBase):
             self.setup(dt)
         t, end_time = trange
         tstep = 0
-        ut = TrialFunction(self.T)
-        vt = TestFunction(self.T)
-        L = self.LinearRHS(ut, **self.params)
-        if isinstance(L, Expr):
-            L = inner(vt, L)
-            L = get_simplified_tpmatrices(L)[0]
-        if isinstance(L, list):
-            assert self.T.tensor_rank == 1
-            assert L[0].isidentity()
-            L = L[0].scale
-            # Use only L[0] and let numpy broadcasting take care of the rest
-        elif isinstance(L, TPMatrix):
-            assert L.isidentity()
-            L = L.scale
-        elif isinstance(L, SparseMatrix):
-            L.simplify_diagonal_matrices()
-            L = L.scale
-
+        L = self.get_linear_operator()
         while t < end_time-1e-8:
             t += dt
             tstep += 1
             self.U_hat0[:] = self.U_hat1[:] = u_hat
             for rk in range(4):
                 dU = self.NonlinearRHS(u, u_hat, self.dU, **self.params)
-                if isinstance(L, np.ndarray):
-                    dU += L*u_hat
+                dU += L*u_hat
                 if rk < 3:
                     u_hat[:] = self.U_hat0 + self.b[rk]*dt*dU
                 self.U_hat1 += self.a[rk]*dt*dU
@@ -640,9 +623,9 @@ class IMEXRK3:
         if solver is None:
             if v.dimensions == 1:
                 self._solver = la.Solver
-            elif len(T.get_nondiagonal_axes().ndim) == 1:
+            elif len(T.get_nondiagonal_axes()) == 1:
                 self._solver = la.SolverGeneric1ND
-            elif len(T.get_nondiagonal_axes().ndim) == 2:
+            elif len(T.get_nondiagonal_axes()) == 2:
                self._solver = la.SolverGeneric2ND
             else:
                 raise NotImplementedError
-- 
2.43.0


From 6753c98a79703e97e61facc217df2ca7fe67c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 97/99] fix: Checkpoint replaces the stored checkpoint only
 when the new one is complete, and touches no file in other steps

---
 shenfun/io/__init__.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/shenfun/io/__init__.py b/shenfun/io/__init__.py
index 3956dbb..4b5adb8 100644
--- a/shenfun/io/__init__.py
+++ b/shenfun/io/__init__.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import shutil
 import numpy as np
 from mpi4py import MPI
 from mpi4py_fft.io import NCFile, HDF5File
@@ -73,22 +74,25 @@ class Checkpoint:
             self.f.close()
 
     def update(self, t, tstep):
-        if self.f is None:
-            self.open(mode='w')
-            self.f.attrs.create('tstep', 0)
-            self.f.attrs.create('t', 0.0)
-            self.close()
-
         kill = self.check_if_kill()
         if tstep % self.checkevery == 0 or kill:
-            if comm.Get_rank() == 0: # for safety
-                os.system(f'cp {self.filename}.chk.h5 {self.filename}.old.chk.h5')
-            self.open()
+            # Write everything to a new file that replaces the current
+            # checkpoint only when it is complete. As such there will be a
+            # complete checkpoint on disk at all times.
+            import h5py
+            name, new = self.filename+'.chk.h5', self.filename+'.new.chk.h5'
+            self.f = h5py.File(new, 'w', driver="mpio", comm=comm)
             for key, val in self.data.items():
                 self.write(int(key), val)
             self.f.attrs['tstep'] = tstep
             self.f.attrs['t'] = t
             self.close()
+            comm.barrier()
+            if comm.Get_rank() == 0:
+                if os.path.exists(name): # for safety
+                    shutil.copyfile(name, self.filename+'.old.chk.h5')
+                os.replace(new, name)
+            comm.barrier()
             if kill:
                 sys.exit(1)
 
-- 
2.43.0


From 1a9f8699f2529551abf60ef27179ae3084e4d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 98/99] fix: padded transforms of ChebyshevU spaces, changed
 padding factors, lists as padding factor, convolutions with output array and
 without truncation, 2/3-rule for small sizes

---
 shenfun/chebyshevu/bases.py   | 21 +++++++++++----------
 shenfun/forms/arguments.py    |  4 +++-
 shenfun/fourier/bases.py      |  6 ++++--
 shenfun/tensorproductspace.py | 22 +++++++++++++---------
 4 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index c9832fd..1e6355b 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -101,7 +101,6 @@ class Orthogonal(JacobiBase):
         if quad == 'GC':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=2)
             self._xfftn_bck = functools.partial(fftw.dstn, type=3)
-            self._sinGC = np.sin((np.arange(N)+0.5)*np.pi/N)
 
         elif quad == 'GU':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
@@ -228,15 +227,16 @@ class Orthogonal(JacobiBase):
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
 
+        M = self.scalar_product.input_array.shape[self.axis] # includes padding
         if self.quad == 'GU':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(M+1)*(np.arange(1, M+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*float(self.domain_factor())))
+            out *= (np.pi/(2*(M+1)*float(self.domain_factor())))
 
         elif self.quad == 'GC':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin((np.arange(M)+0.5)*np.pi/M))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*float(self.domain_factor())))
+            out *= (np.pi/(2*M*float(self.domain_factor())))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
@@ -247,18 +247,19 @@ class Orthogonal(JacobiBase):
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         output_array = self.backward.xfftn()
+        M = output_array.shape[self.axis] # includes padding
 
         if self.quad == "GU":
-            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(self.N)+1)*np.pi/(self.N+1))))
+            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(M)+1)*np.pi/(M+1))))
 
         elif self.quad == "GC":
-            s0 = self.sl[slice(self.N-1, self.N)]
-            se = self.sl[slice(0, self.N, 2)]
-            so = self.sl[slice(1, self.N, 2)]
+            s0 = self.sl[slice(M-1, M)]
+            se = self.sl[slice(0, M, 2)]
+            so = self.sl[slice(1, M, 2)]
             output_array *= 0.5
             output_array[se] += input_array[s0]/2
             output_array[so] -= input_array[s0]/2
-            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(self.N)+0.5)*np.pi/self.N)))
+            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(M)+0.5)*np.pi/M)))
 
     @property
     def is_orthogonal(self):
diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index a732cb0..acf14e8 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1629,11 +1629,13 @@ class Function(ShenfunBaseArray, BasisFunction):
                 # Note that the output_array is not the same shape as
                 # space.backward.output_array for spaces of rank > 0.
                 # Also, it is probably not safe to return space.backward.output_array
-                if hasattr(self, '_backward_work_array'):
+                padding = tuple(np.atleast_1d(padding_factor))
+                if getattr(self, '_backward_work_padding', None) == padding:
                     output_array = self._backward_work_array
                 else:
                     output_array = Array(space)
                     self._backward_work_array = output_array
+                    self._backward_work_padding = padding
             output_array = space.backward(self, output_array, kind=kind, mesh=mesh)
             return output_array
 
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index 5e0fc77..c98d3db 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -367,7 +367,7 @@ class R2C(FourierBase):
 
     def _get_truncarray(self, shape, dtype):
         shape = list(shape)
-        shape[self.axis] = int(shape[self.axis] / self.padding_factor)
+        shape[self.axis] = int(np.round(shape[self.axis] / self.padding_factor))
         shape[self.axis] = shape[self.axis]//2 + 1
         return fftw.aligned(shape, dtype=dtype)
 
@@ -474,6 +474,7 @@ class R2C(FourierBase):
         else:
             if uv is None:
                 uv = np.zeros(N+1, dtype=u.dtype)
+            uv[:] = 0
             Np = N if not N % 2 == 0 else N+1
             k1 = np.fft.fftfreq(Np, 1./Np).astype(int)
             cython.convolve.convolve_real_1D(u, v, uv, k1)
@@ -600,7 +601,7 @@ class C2C(FourierBase):
 
         elif self.dealias_direct:
             N = trunc_array.shape[self.axis]
-            su = self.sl[slice(N//3, -(N//3)+1)]
+            su = self.sl[slice(N//3, N-N//3+1)]
             padded_array[su] = 0
 
     def convolve(self, u, v, uv=None, fast=True):
@@ -639,6 +640,7 @@ class C2C(FourierBase):
 
             if uv is None:
                 uv = np.zeros(2*N, dtype=u.dtype)
+            uv[:] = 0
 
             Np = N if not N % 2 == 0 else N+1
             k = np.fft.fftfreq(Np, 1./Np).astype(int)
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index f729862..9a7ca7f 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -558,10 +558,12 @@ class TensorProductSpace(PFFT):
             padding_factor = (padding_factor,)*len(self)
         elif isinstance(padding_factor, (tuple, list, np.ndarray)):
             assert len(padding_factor) == len(self)
-        
-        if padding_factor in self._padded_space:
-            return self._padded_space[padding_factor]
-        
+            padding_factor = tuple(padding_factor)
+
+        key = (padding_factor, dealias_direct)
+        if key in self._padded_space:
+            return self._padded_space[key]
+
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
                         for axis, base in enumerate(self.bases)]
@@ -574,7 +576,7 @@ class TensorProductSpace(PFFT):
                                          dtype=self.forward.output_array.dtype,
                                          backward_from_pencil=self.forward.output_pencil,
                                          coordinates=self.coors.coordinates)
-        self._padded_space[padding_factor] = paddedspace
+        self._padded_space[key] = paddedspace
         return paddedspace
 
     def get_refined(self, N):
@@ -1876,15 +1878,17 @@ class Convolve:
 
     def __init__(self, padding_space):
         self.padding_space = padding_space
-        shape = padding_space.shape()
+        shape = padding_space.global_shape()
         bases = []
         for i, base in enumerate(padding_space.bases):
-            newbase = base.__class__(shape[i], padding_factor=1.0)
+            newbase = base.get_refined(shape[i], padding_factor=1, dealias_direct=False)
             bases.append(newbase)
         axes = []
         for axis in padding_space.axes:
-            axes.append(axis[0])
-        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes)
+            axes.extend(axis)
+        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes,
+                                      dtype=padding_space.forward.input_array.dtype,
+                                      coordinates=padding_space.coors.coordinates)
         self.newspace = newspace
 
     def __call__(self, a_hat, b_hat, ab_hat=None):
-- 
2.43.0


From 6a613c68a037b39a5143594ed4e8d774067f2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:12 +0000
Subject: [PATCH 99/99] fix: negative component indices, nested 1D composite
 spaces, block matrices: cached matrices after +=, empty rows and columns,
 only Fourier axes and distributed axes

---
 shenfun/forms/arguments.py |  1 +
 shenfun/matrixbase.py      | 33 +++++++++++++++++++++++++++++----
 shenfun/spectralbase.py    |  3 ++-
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index acf14e8..10da49d 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1400,6 +1400,7 @@ class ShenfunBaseArray(DistArray):
 
         if self._space.is_composite_space and isinstance(i, Integral):
             # Return view into composite Function
+            i = range(len(self._space))[i]
             space = self._space[i]
             offset = 0
             for j in range(i):
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index f77b741..016b179 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1036,6 +1036,8 @@ class BlockMatrix:
         a : :class:`.BlockMatrix` or list of :class:`.TPMatrix` instances
 
         """
+        self._Ai = None # The assembled matrices and the solver of the matrix without a
+        self.solver = None
         if isinstance(a, BlockMatrix):
             tpmats = a.get_mats()
         elif isinstance(a, (list, tuple)):
@@ -1116,7 +1118,7 @@ class BlockMatrix:
         v = np.expand_dims(v, 0) if nvars == 1 else v
         c.v.fill(0)
         use_scipy = config['matrix']['block']['use_scipy'] if use_scipy is None else use_scipy
-        if self.contains_bc_matrix():
+        if self.contains_bc_matrix() or self._has_distributed_axes():
             use_scipy = False
 
         if use_scipy:
@@ -1124,8 +1126,7 @@ class BlockMatrix:
             daxes = self.testbase.get_diagonal_axes()
             if len(daxes) == self.testbase.dimensions:
                 # Only Fourier
-                assert isinstance(self._Ai, spmatrix)
-                c.flatten()[:] = self._Ai * v.flatten()
+                c.v[:] = (self._Ai[0] * v.v.ravel()).reshape(c.v.shape)
             else:
                 if len(daxes) > 0:
                     daxes += 1
@@ -1158,6 +1159,13 @@ class BlockMatrix:
         v = v.reshape(v.shape[1:]) if nvars == 1 else v
         return c
 
+    def _has_distributed_axes(self):
+        """Return True if any nondiagonal axis is distributed"""
+        if self.testbase.dimensions == 1:
+            return False
+        subcomm = self.testbase.forward.output_pencil.subcomm
+        return any(subcomm[i].Get_size() > 1 for i in self.get_mats(True).naxes)
+
     def __getitem__(self, ij):
         return self.mats[ij[0]][ij[1]]
 
@@ -1237,7 +1245,11 @@ class BlockMatrix:
                     bm[-1].append(None)
                 else:
                     m = mij[0]
-                    if isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats) or len(m.naxes) == 0:
+                    if self.testbase.dimensions > 1 and len(m.naxes) == 0: # Only diagonal matrices, local part
+                        d = sum(np.broadcast_to(mj.get_simplified().scale, m.space.forward.output_array.shape) for mj in mij)
+                        d = sp_diags([d.ravel()], [0], format=format)
+
+                    elif isinstance(self.testbase, MixedFunctionSpace) or len(m.naxes) == len(m.mats):
                         d = m.diags(format)
                         for mj in mij[1:]:
                             d = d + mj.diags(format)
@@ -1264,6 +1276,19 @@ class BlockMatrix:
                             sc = mj.scale[tuple(ij)]
                             d = d + sc*mj.mats[mj.naxes[0]].diags(format)
                     bm[-1].append(d)
+        # Rows and columns without any matrices
+        dims = []
+        for space in (self.testbase, self.trialbase):
+            if space.dimensions > 1 and len(self.get_diagonal_axes()) == space.dimensions:
+                dims.append([int(np.prod(space.forward.output_array.shape))]*space.num_components())
+            else:
+                dims.append(np.diff(space._get_ndiag_slices_and_dims()[1]))
+        for i in range(self.dims[0]):
+            if all(b is None for b in bm[i]):
+                bm[i][0] = csr_matrix((dims[0][i], dims[1][0]))
+        for j in range(self.dims[1]):
+            if all(b[j] is None for b in bm):
+                bm[0][j] = csr_matrix((dims[0][0], dims[1][j]))
         return bmat(bm, format=format)
 
     def solve(self, b, u=None, constraints=()):
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 9a37719..dca84b5 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2190,7 +2190,8 @@ class VectorBasisTransform:
 
     def __call__(self, input_array, output_array, **kw):
         for i, transform in enumerate(self._transforms):
-            output_array[i] = transform(input_array[i], output_array[i], **kw)
+            output_array.__array__()[i] = transform(input_array.__array__()[i],
+                                                    output_array.__array__()[i], **kw)
         return output_array
 
 
-- 
2.43.0

