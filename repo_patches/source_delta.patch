From 48ab71fea695cf529cc983a5fafdb78eb5d1aaae Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 001/201] fix: a copied NURBS curve evaluates itself, not the
 curve it was copied from

---
 mmcore/geom/nurbs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..56cf930 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1792,7 +1792,6 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 07cc203fedfd146701ece37471ac2d0aaebcecfa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 002/201] fix: evaluating a NURBS curve does not hand out its
 cached array

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 56cf930..ef618dc 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1541,7 +1541,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 48e435aa89f5caf4a1643d977afc599d04be109a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 003/201] fix: a NURBS curve does not share its knot vector
 with the caller's array

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ef618dc..c7a76c1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
@@ -1304,7 +1304,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From f969dabe2a0d67b20e4fc9197bdad172d0a762c2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 004/201] fix: NURBSCurve.set updates the interval and the
 Greville abscissae

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c7a76c1..2d27c85 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1499,6 +1499,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From ba7b4a85d98176f6ee74a957662a7954a7d98e17 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 005/201] fix: inserting a knot updates the Greville abscissae

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2d27c85..c0b4613 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1744,7 +1744,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 2838a31483af61c6fe9fe4c551ec13c778fcaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 006/201] fix: inserting a knot keeps the shape of a rational
 NURBS curve

---
 mmcore/geom/nurbs.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c0b4613..ba665fd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1729,6 +1729,12 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
+        # Control points are stored as (x, y, z, w), knot insertion is linear in (x*w, y*w, z*w, w)
+        cdef int i
+        for i in range(n):
+            cpts[i, 0] *= cpts[i, 3]
+            cpts[i, 1] *= cpts[i, 3]
+            cpts[i, 2] *= cpts[i, 3]
         # Compute new knot vector
         self._control_points=np.empty((new_count,4))
 
@@ -1740,6 +1746,10 @@ cdef class NURBSCurve(ParametricCurve):
                                               cpts,
                                               t,
                                                 count, s_u, span,0,self._control_points  )
+        for i in range(new_count):
+            self._control_points[i, 0] /= self._control_points[i, 3]
+            self._control_points[i, 1] /= self._control_points[i, 3]
+            self._control_points[i, 2] /= self._control_points[i, 3]
 
         # Update curve
 
-- 
2.43.0


From 38179b6ce8f7b171645e84d74daeb81ceabb888e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 007/201] fix: knot removal compares points by their distance
 and keeps the points it computed

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ba665fd..c7c14cb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -573,7 +573,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
     cdef double temp=0.
     for i in range(dim):
 
-        temp+= pow(a[i]+b[i], 2)
+        temp+= pow(a[i]-b[i], 2)
 
     return sqrt(temp)
 
@@ -653,7 +653,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         else:
             j -= 1
     for k in range(i + 1, n):
-        memcpy(&ctrlpts_new[j, 0], &ctrlpts[k, 0], sizeof(double) * dim)
+        memcpy(&ctrlpts_new[j, 0], &ctrlpts_new[k, 0], sizeof(double) * dim)
         j += 1
 
     free(temp)
-- 
2.43.0


From 74bf8c42e06f8325e81d84d54262579d91954921 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 008/201] fix: knot refinement with a density above 1 uses only
 the distinct knots

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c7c14cb..9e95fd0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -683,6 +683,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
     knot_list = <double[:new_knot_len]>sorted_knots
+    usz = new_knot_len
 
 
     cdef double[:] rknots
-- 
2.43.0


From 37fd81fce8d5311ea479821c425e41f6d6f86437 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 009/201] fix: reversing a NURBS curve does not read outside
 its knot vector

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9e95fd0..644b50e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2070,7 +2070,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0]-1-i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 917b0e441c4ca038c0cac0b1f7a84f3b09b88a70 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 010/201] fix: flipping a NURBS curve reverses it

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 644b50e..58b342d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2042,7 +2042,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return reverse_curve(self)
 
 
 
-- 
2.43.0


From 48456a354b5226f5292927d74f3b74031f86d259 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 011/201] fix: a serialized NURBS curve does not end in
 uninitialised bytes

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 58b342d..ab38f02 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1816,7 +1816,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
-- 
2.43.0


From 15e546ba09fc29016c6a7cd81779a95d55e8d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 012/201] fix: trimming a NURBS curve yields the part between
 the two parameters

---
 mmcore/geom/nurbs.pyx | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ab38f02..b4ffd60 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2018,26 +2018,27 @@ cdef class NURBSCurve(ParametricCurve):
         curve.multiply_knot( t2)
 
         # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
-
-        # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
-
-        # Shift knot vector to start at 0
-        cdef double shift = new_knots[0]
+        cdef int p = curve._degree
         cdef int i
-        for i in range(new_knots.shape[0]):
-            new_knots[i]-=shift
-
+        cdef int span1 = p
+        cdef int span2 = curve._control_points.shape[0]
+        while curve._knots[span1 + 1] <= t1:
+            span1 += 1
+        while curve._knots[span2 - 1] >= t2:
+            span2 -= 1
+
+        # Extract relevant control points and knots, the new knot vector is clamped and starts at 0
+        cdef double[:,:] new_cpts = curve._control_points[span1 - p:span2].copy()
+        cdef double[:] new_knots = np.zeros(new_cpts.shape[0] + p + 1)
+        for i in range(span2 - span1 - 1):
+            new_knots[p + 1 + i] = curve._knots[span1 + 1 + i] - t1
+        for i in range(p + 1):
+            new_knots[new_knots.shape[0] - 1 - i] = t2 - t1
 
         # Update curve data
         curve._control_points = new_cpts
         curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From c2cac6348f81fff236a249133cc5cf9b9dc59cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 013/201] fix: derivatives of a rational NURBS curve take the
 weights into account

---
 mmcore/geom/nurbs.pyx | 48 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b4ffd60..e23ea33 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1118,6 +1118,44 @@ cdef public uint32_t VERSION=1
 cdef int MAGIC_BYTES_SIZE=4
 
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double[:,:] homogeneous_control_points(double[:,:] control_points):
+    cdef double[:,:] cpts = control_points.copy()
+    cdef int i, j
+    for i in range(cpts.shape[0]):
+        for j in range(3):
+            cpts[i, j] *= cpts[i, 3]
+    return cpts
+
+
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_curve_derivatives(double[:,:] CKw, double[:,:] CK) noexcept:
+    """
+    Derivatives of a rational curve from the derivatives of its homogeneous form (The NURBS Book, A4.2).
+
+    :param CKw: derivatives 0..d of (x*w, y*w, z*w, w), shape (>=d+1, 4)
+    :param CK: the result, shape (d+1, 3)
+    """
+    cdef int k, i, j
+    cdef double binomial
+    for k in range(CK.shape[0]):
+        for j in range(3):
+            CK[k, j] = CKw[k, j]
+        binomial = 1.
+        for i in range(1, k + 1):
+            binomial = binomial * (k - i + 1) / i
+            for j in range(3):
+                CK[k, j] -= binomial * CKw[i, 3] * CK[k - i, j]
+        for j in range(3):
+            CK[k, j] /= CKw[0, 3]
+
+
 cdef class NURBSCurve(ParametricCurve):
     @staticmethod
     cdef NURBSCurve create(double[:,:] control_points, int degree, double[:] knots, bint periodic):
@@ -1584,7 +1622,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-        curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
+        cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
+        curve_derivs_alg1(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw,self._periodic)
+        rational_curve_derivatives(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -1602,9 +1642,11 @@ cdef class NURBSCurve(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1] ))
+           cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
 
-           curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
+           curve_derivs_alg2(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw, PK,self._periodic)
+           rational_curve_derivatives(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From ea748d242ee5011570ec2380d54bf22b06853d38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 014/201] fix: the normal of a NURBS curve does not write past
 its buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e23ea33..4f5b3f1 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1677,7 +1677,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 4b010ccd9f16f3b0ca35e525fa0d066562257aef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 015/201] fix: the bounding box of a rational NURBS curve
 contains it

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4f5b3f1..d6cc683 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2011,7 +2011,7 @@ cdef class NURBSCurve(ParametricCurve):
     def bbox(self,double[:,:] result=None):
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        aabb(homogeneous_control_points(self._control_points), result)
         return result
 
     def astuple(self):
-- 
2.43.0


From 18d223b3f6649a015f686bc67c403f3ecbfbc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 016/201] fix: NURBS surfaces can be hashed and compared

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d6cc683..b5d0a71 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2619,7 +2619,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_flat_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2628,7 +2628,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From f3baf86c90793df7a53607e060b6c940d0c04ceb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 017/201] fix: surface derivatives are defined at the end of
 the domain

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b5d0a71..ea9539d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -978,7 +978,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
     cdef int basisdrv_size_u, basisdrv_size_v
 
     # Allocate memory and compute basis function derivatives for u and v directions
-    span[0] = find_span_inline(size[0], degree[0], u, knots_u, 0)
+    span[0] = find_span_inline(size[0] - 1, degree[0], u, knots_u, 0)
     basisdrv_size_u = (d[0] + 1) * (degree[0] + 1)
     basisdrv_u = <double*>malloc(basisdrv_size_u * sizeof(double))
     with gil:
@@ -986,7 +986,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
         ders_basis_funs(span[0], u, degree[0], d[0], knots_u, mbasisdrv_u)
 
-    span[1] = find_span_inline(size[1], degree[1], v, knots_v, 0)
+    span[1] = find_span_inline(size[1] - 1, degree[1], v, knots_v, 0)
     basisdrv_size_v = (d[1] + 1) * (degree[1] + 1)
     basisdrv_v = <double*>malloc(basisdrv_size_v * sizeof(double))
     with gil:
-- 
2.43.0


From 22ac1f3eb9ad0a4afe8ee39f72106ab8e984a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:05:57 +0000
Subject: [PATCH 018/201] fix: the derivative of a general parametric curve is
 a difference quotient

---
 mmcore/geom/parametric.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..0f7555f 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -68,9 +68,9 @@ cdef class ParametricCurve:
         t2 = t - DEFAULT_H
         self.cevaluate(t1,v1)
         self.cevaluate(t2,v2)
-        result[0]=(v1[0]- v2[0])*(0.5*DEFAULT_H)
-        result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-        result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+        result[0]=(v1[0]- v2[0])/(2*DEFAULT_H)
+        result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+        result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
 
     cpdef double[:] end(self):
@@ -110,9 +110,9 @@ cdef class ParametricCurve:
             t2 = t - DEFAULT_H
             self.cderivative(t1,v1)
             self.cderivative(t2,v2)
-            result[0] = (v1[0] - v2[0]) * (0.5 * DEFAULT_H)
-            result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-            result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+            result[0] = (v1[0] - v2[0]) / (2 * DEFAULT_H)
+            result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+            result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 97c8c77f16e6bee6093960323dfd011efc4f1987 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 019/201] fix: isocurves of a rational NURBS surface lie on it

---
 mmcore/numeric/intersection/ssx/boundary_intersection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/boundary_intersection.py b/mmcore/numeric/intersection/ssx/boundary_intersection.py
index 9cbedfd..a07e78e 100644
--- a/mmcore/numeric/intersection/ssx/boundary_intersection.py
+++ b/mmcore/numeric/intersection/ssx/boundary_intersection.py
@@ -266,6 +266,7 @@ def extract_isocurve(
 
             # Return curve with v-direction degree and knots since we're varying in v
 
+        control_points[:, :3] /= control_points[:, 3:]  # NURBSCurve takes cartesian points and weights
         cc=NURBSCurve(control_points, degree=surface.degree[1],knots=surface.knots_v)
         #cc.knots=surface.knots_v
 
@@ -293,6 +294,7 @@ def extract_isocurve(
         for i in range(m):  # iterate over u direction
             for j in range(degree_v + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[i, span - degree_v + j]
+        control_points[:, :3] /= control_points[:, 3:]  # NURBSCurve takes cartesian points and weights
         cc = NURBSCurve(control_points, surface.degree[0],surface.knots_u)
         #print('i',cc.knots,cc.interval())
         #cc.knots = surface.knots_u
-- 
2.43.0


From 95ecdb474f39587475e64259c564652cfff1a031 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 020/201] fix: derivatives of a ruled surface along its curves
 follow the chain rule

---
 mmcore/geom/parametric.pyx | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 0f7555f..dd000ca 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -702,16 +702,18 @@ cdef class Ruled(ParametricSurface):
         cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
         cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
         cdef double[:] temp=np.empty(3)
-        cdef double dv=1.-v
+        # chain rule: u runs over [0, 1], the curves over their own intervals
+        cdef double k0=(1.-v)*(self.c0._interval[1] - self.c0._interval[0])
+        cdef double k1=v*(self.c1._interval[1] - self.c1._interval[0])
 
         self.c1.cderivative(u2,temp)
-        temp[0]*=v
-        temp[1] *= v
-        temp[2] *= v
+        temp[0]*=k1
+        temp[1] *= k1
+        temp[2] *= k1
         self.c0.cderivative(u1,result)
-        result[0]*=dv
-        result[1] *= dv
-        result[2] *= dv
+        result[0]*=k0
+        result[1] *= k0
+        result[2] *= k0
         result[0]+=temp[0]
         result[1] += temp[1]
         result[2] += temp[2]
@@ -723,16 +725,19 @@ cdef class Ruled(ParametricSurface):
             cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
             cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
             cdef double[:] temp=np.empty(3)
-            cdef double dv=1.-v
+            cdef double d0=self.c0._interval[1] - self.c0._interval[0]
+            cdef double d1=self.c1._interval[1] - self.c1._interval[0]
+            cdef double k0=(1.-v)*d0*d0
+            cdef double k1=v*d1*d1
 
             self.c1.csecond_derivative(u2,temp)
-            temp[0]*=v
-            temp[1] *= v
-            temp[2] *= v
+            temp[0]*=k1
+            temp[1] *= k1
+            temp[2] *= k1
             self.c0.csecond_derivative(u1,result)
-            result[0]*=dv
-            result[1] *= dv
-            result[2] *= dv
+            result[0]*=k0
+            result[1] *= k0
+            result[2] *= k0
             result[0]+=temp[0]
             result[1] += temp[1]
             result[2] += temp[2]
-- 
2.43.0


From f97255f777edaee1680609693eac0a34d20fd17c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 021/201] fix: a cylinder may point along the negative x axis

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..c7ce3b6 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if abs(self.D_hat[0]) > 0.9:
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From d308c60e1fe63cb5c21b2f3b29b81efff7d1073e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 022/201] fix: second derivatives of a surface hold up to the
 ends of its domain

---
 mmcore/geom/parametric.pyx | 67 ++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index dd000ca..708ee1b 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -374,53 +374,42 @@ cdef class ParametricSurface:
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uu(self, double u, double v,double[:] result):
+        # central difference, moved inside the domain at its ends
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u- DEFAULT_H , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif u < DEFAULT_H:
-
-
-            self.cderivative_u(u + DEFAULT_H, v, dd)
-            self.cderivative_u(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
+        cdef double x=u
+        cdef int i
+        if x < self._interval[0][0] + DEFAULT_H:
+            x = self._interval[0][0] + DEFAULT_H
+        elif x > self._interval[0][1] - DEFAULT_H:
+            x = self._interval[0][1] - DEFAULT_H
+        self.cevaluate(x, v, dd)
+        self.cevaluate(x - DEFAULT_H, v, result)
+        for i in range(3):
+            result[i] -= 2. * dd[i]
+        self.cevaluate(x + DEFAULT_H, v, dd)
+        for i in range(3):
+            result[i] = (result[i] + dd[i]) / (DEFAULT_H * DEFAULT_H)
 
-        else:
-            self.cderivative_u(u , v, dd)
-            self.cderivative_u(u- DEFAULT_H, v, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     cdef void csecond_derivative_vv(self, double u, double v,double[:] result):
+        # central difference, moved inside the domain at its ends
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v- DEFAULT_H, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,2*DEFAULT_H,result)
-
-        elif v< DEFAULT_H:
-
-
-            self.cderivative_v(u , v+ DEFAULT_H, dd)
-            self.cderivative_v(u , v, result)
-            sub3d(dd,result,result)
-            vectors.scalar_div3d(result,DEFAULT_H,result)
-
-
-        else:
-            self.cderivative_v(u , v, dd)
-            self.cderivative_v(u, v- DEFAULT_H, result)
-            sub3d(dd, result, result)
-            vectors.scalar_div3d(result, DEFAULT_H, result)
+        cdef double x=v
+        cdef int i
+        if x < self._interval[1][0] + DEFAULT_H:
+            x = self._interval[1][0] + DEFAULT_H
+        elif x > self._interval[1][1] - DEFAULT_H:
+            x = self._interval[1][1] - DEFAULT_H
+        self.cevaluate(u, x, dd)
+        self.cevaluate(u, x - DEFAULT_H, result)
+        for i in range(3):
+            result[i] -= 2. * dd[i]
+        self.cevaluate(u, x + DEFAULT_H, dd)
+        for i in range(3):
+            result[i] = (result[i] + dd[i]) / (DEFAULT_H * DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From d3ef4e926429b0f01b905c4a86d2331af573137f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 023/201] fix: the plane of a surface at a point can be
 computed

---
 mmcore/geom/parametric.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 708ee1b..914de0f 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -448,12 +448,16 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cplane_at(self, double u, double v, double[:,:] result):
 
-        orig = self.cevaluate(u, v,result[0] )
+        cdef double[:] vec
+        self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
+        vec = vectors.scalar_unit(result[1])
+        result[1,:] = vec
         self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        vec = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
+        result[3,:] = vec
+        vec = vectors.scalar_cross(result[3], result[1])
+        result[2,:] = vec
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From f947601adfcd4833f0f570be2edd222de7bcce89 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:19:34 +0000
Subject: [PATCH 024/201] fix: knot refinement with a density above 2 keeps the
 end of the domain

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ea9539d..bc78c4d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -697,7 +697,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
             rknots[2 * i] = knot_list[i]
             rknots[2 * i + 1] = knot_list[i] + (knot_list[i + 1] - knot_list[i]) / 2.0
 
-        rknots[rknots_size-1] = knot_list[new_knot_len-1]
+        rknots[rknots_size-1] = knot_list[usz-1]
         knot_list = rknots
         usz = rknots_size
     cdef double[:] X = np.zeros(knot_list.shape[0] * degree, dtype=np.float64)
-- 
2.43.0


From 00bdf8b5316a0d66729aa608674b6f0ba8b5a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 025/201] fix: subdividing a surface with normalised knots
 still cuts at the given v

---
 mmcore/geom/nurbs.pyx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index bc78c4d..096517e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2902,10 +2902,6 @@ cpdef tuple subdivide_surface(NURBSSurface surface, double u=0.5,double v=0.5,do
     cdef NURBSSurface surf1, surf2, surf11, surf12, surf21, surf22
     surf1= surfs1[0]
     surf2 = surfs1[1]
-    if normalize_knots:
-        surf1.normalize_knots()
-        surf2.normalize_knots()
-
 
     surf11, surf12 = split_surface_v(surf1,v,tol)
     surf21, surf22 = split_surface_v(surf2,v,tol)
-- 
2.43.0


From 891dc7182a496a532525f484b9924aa550d81a3f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 026/201] fix: changing the degree of a NURBS surface updates
 its interval

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 096517e..5a09f76 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2442,6 +2442,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From 0cf06e90174e79df294f3854c9d2553036d9b384 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 027/201] fix: the control points of a NURBS curve can be
 assigned

---
 mmcore/geom/nurbs.pyx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5a09f76..a009bbd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1325,12 +1325,9 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-                self._control_points[:]=control_points
-        else:
-
-                self._control_points[:, :control_points.shape[1]] = control_points
+        cdef cnp.ndarray[double, ndim=2] new_points = np.ones((control_points.shape[0],4))
+        new_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_points
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From ccca38583ba46c5c88fae8ffd1f77022bb75ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 028/201] fix: a NURBS surface does not share its knot vectors
 with the caller's arrays

---
 mmcore/geom/nurbs.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a009bbd..cc11842 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2368,18 +2368,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val, dtype=np.float64)
         self._update_interval()
 
     @property
@@ -2427,7 +2427,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val, dtype=np.float64)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 2e0c11d16f309602b1f458288981fd26da011e8d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 029/201] fix: the bounding box of points has as many
 dimensions as the points

---
 mmcore/numeric/_aabb.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..82c2cbf 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,7 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,pts.shape[1]))
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From 1847a8104c18432dbb6af3898e1b8f8e01c7981d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 030/201] fix: the range in which a ray is inside a box is not
 cut at 1

---
 mmcore/numeric/_aabb.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 82c2cbf..3c85301 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -303,8 +303,6 @@ def ray_aabb_intersect(
 
             if tmin<= 0:
                 tmin = 0.
-            if tmax >= 1.:
-                tmax = 1.
             return [tmin,tmax]
 
     else:
-- 
2.43.0


From 61542b502f8b54ca2c2bfbd5c875823e16b229fa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 031/201] fix: Degree elevation of rational curves works on
 homogeneous control points

---
 mmcore/geom/curves/knot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..39c507f 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -864,7 +864,11 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            # Elevation is linear in the homogeneous control points (xw, yw, zw, w)
+            cpts_h = np.array(crv.control_pointsw)
+            cpts_h[:, :3] *= cpts_h[:, 3:]
+            new_cpts,new_deg = degree_elevation_bez( cpts_h,crv.degree, num=num)
+            new_cpts[:, :3] /= new_cpts[:, 3:]
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
-- 
2.43.0


From 4a813eb459aca344507963d6029930b282b23aac Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 032/201] fix: Ruled surface of rational curves uses
 homogeneous control points

---
 mmcore/construction/ruled.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..f6db8f7 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -91,6 +91,9 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
 
+    # Surface control points are homogeneous: (xw, yw, zw, w)
+    control_points[..., :3] *= control_points[..., 3:]
+
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
     v_knots = np.array([0., 0., 1., 1.])  # Linear interpolation in v direction
-- 
2.43.0


From 14648dfc83256e5fba089d7918d96754581fb222 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 033/201] fix: Joining two curves gives a valid knot vector and
 keeps the weights

---
 mmcore/geom/curves/knot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 39c507f..2418631 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1151,8 +1151,10 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = np.array(curve1.control_pointsw)
+    cpts2 = np.array(curve2.control_pointsw)
+    # A common factor of the weights does not change a curve, at the joint the weights have to agree
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1161,9 +1163,8 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     # Scale second knot vector to start where first one ends
 
 
-    # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    # Combine knot vectors, the joint is a knot of multiplicity equal to the degree
+    new_knots = np.concatenate([knots1[:-1], (knots1.max() + knots2 - knots2.min())[degree + 1:]])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From 4f2d9ec9751b242fd43a4509c147876075ba52ff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:49:36 +0000
Subject: [PATCH 034/201] fix: normalised curve knots end exactly at 1

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cc11842..1ff51ed 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1922,10 +1922,10 @@ cdef class NURBSCurve(ParametricCurve):
     cdef void cnormalize_knots(self):
         cdef double start=np.min(self._knots)
         cdef double end = np.max(self._knots)
-        cdef double d=1/(end-start)
+        cdef double d=end-start
         cdef int i
         for i in range(len(self._knots)):
-            self._knots[i]=((self._knots[i]-start)*d)
+            self._knots[i]=((self._knots[i]-start)/d)
         self.knots_update_hook()
 
     @cython.boundscheck(False)
-- 
2.43.0


From af9d06a7c3618807bc78fdbf74847b445e8c0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 035/201] fix: basis functions of the spline utilities use the
 left knot differences of their own degree

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index ea45390..0c91581 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -47,7 +47,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 852a06bbbd5d216874121079fcb84e607fad5752 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 036/201] fix: surface points of the spline utilities are
 accumulated in floating point

---
 mmcore/geom/curves/bspline_utils.py | 8 ++++----
 mmcore/geom/curves/curve_utils.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 00f87fa..cb7e9e2 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -100,14 +100,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -201,7 +201,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
             point_w = np.array(P[uspan - p + k][vspan - q + l])
             w = point_w[3]
@@ -210,7 +210,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 0c91581..4817056 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -95,14 +95,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -196,7 +196,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
             point_w = np.array(P[uspan - p + k][vspan - q + l])
             w = point_w[3]
@@ -205,7 +205,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From 893d6e4b4a980fa91ef66955224a2689169e0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 037/201] fix: de Boor basis functions sum to one at knots

---
 mmcore/geom/curves/deboor.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..abc687c 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -14,7 +14,10 @@ cdef double cdeboor(double[:] knots, double t, int i, int k) noexcept nogil:
     cdef double c1,c2;
 
     if k == 0:
-        return 1.0 if knots[i] <= t <= knots[i + 1] else 0.0
+        if knots[i] <= t < knots[i + 1]:
+            return 1.0
+        # the last non-empty span includes its end
+        return 1.0 if knots[i] < knots[i + 1] and t == knots[i + 1] == knots[knots.shape[0] - 1] else 0.0
     if knots[i + k] == knots[i]:
         c1 = 0.0
     else:
-- 
2.43.0


From 0e8a97eee3e56b08fa5da13b558f4439d6542513 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 038/201] fix: evaluate_nurbs_multi starts every point from
 zero

---
 mmcore/geom/curves/deboor.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index abc687c..b529d7c 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -58,6 +58,7 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt = xyz(0.,0.,0.)
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From 43c4dfc51a093584d79a49b8232d821d0519e14f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 039/201] fix: evaluating a NURBSpline does not hand out its
 cached array

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..66995cc 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -770,7 +770,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
     @cython.cdivision(True)
     @cython.initializedcheck(False)
     @cython.boundscheck(False)
-- 
2.43.0


From 728aa77ba8a76d67c770dd8886c4b569086f57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 040/201] fix: a NURBSpline does not share its knot vector with
 the caller's array

---
 mmcore/geom/curves/_nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 66995cc..ed9160e 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -433,7 +433,7 @@ cdef class NURBSpline(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
         self._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         if  periodic:
@@ -537,7 +537,7 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._knots)
     @knots.setter
     def knots(self, double[:] v):
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From a657a5fc1a1d42e65547945146a5f7ab67f2ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 041/201] fix: NURBSpline.set updates the interval and the
 Greville abscissae

---
 mmcore/geom/curves/_nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index ed9160e..29691e4 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -729,6 +729,7 @@ cdef class NURBSpline(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From ee93f167ef715abfeaeb2826e41e1807ae1d2fad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 042/201] fix: the normal of a NURBSpline does not write past
 its buffer

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 29691e4..264ef01 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -860,7 +860,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 7ddc4ae1adc28beb1a9a93e121a29092854f09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 043/201] fix: derivatives of a rational NURBSpline take the
 weights into account

---
 mmcore/geom/curves/_nurbs.pyx | 48 ++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 264ef01..c2a9b3f 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -406,6 +406,44 @@ cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noex
 
 
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double[:,:] homogeneous_control_points(double[:,:] control_points):
+    cdef double[:,:] cpts = control_points.copy()
+    cdef int i, j
+    for i in range(cpts.shape[0]):
+        for j in range(3):
+            cpts[i, j] *= cpts[i, 3]
+    return cpts
+
+
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_curve_derivatives(double[:,:] CKw, double[:,:] CK) noexcept:
+    """
+    Derivatives of a rational curve from the derivatives of its homogeneous form (The NURBS Book, A4.2).
+
+    :param CKw: derivatives 0..d of (x*w, y*w, z*w, w), shape (>=d+1, 4)
+    :param CK: the result, shape (d+1, 3)
+    """
+    cdef int k, i, j
+    cdef double binomial
+    for k in range(CK.shape[0]):
+        for j in range(3):
+            CK[k, j] = CKw[k, j]
+        binomial = 1.
+        for i in range(1, k + 1):
+            binomial = binomial * (k - i + 1) / i
+            for j in range(3):
+                CK[k, j] -= binomial * CKw[i, 3] * CK[k - i, j]
+        for j in range(3):
+            CK[k, j] /= CKw[0, 3]
+
+
 cdef class NURBSpline(ParametricCurve):
     cdef public double[:,:] _control_points
     cdef public int _degree
@@ -809,7 +847,9 @@ cdef class NURBSpline(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-        curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
+        cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
+        curve_derivs_alg1(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw,self._periodic)
+        rational_curve_derivatives(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -827,9 +867,11 @@ cdef class NURBSpline(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1] ))
+           cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
 
-           curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
+           curve_derivs_alg2(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw, PK,self._periodic)
+           rational_curve_derivatives(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 357df9d0f704d2c0be6dd6d7d3b92399f31e8f6b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 044/201] fix: a NURBSpline is periodic only if all of its
 wrapped control points agree

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index c2a9b3f..b9bbcf9 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -522,7 +522,7 @@ cdef class NURBSpline(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 2e85efdf369469c3358c259fa1eb6529d7bbe209 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 045/201] fix: a periodic NURBSpline can be opened

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index b9bbcf9..15487bd 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -683,7 +683,7 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self.is_periodic():
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 50c101a9a689407c487ca85945a8fbe460b6a345 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 046/201] fix: NURBSpline.create_circle is centred at its
 origin

---
 mmcore/geom/curves/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index f2c47f3..fd9a9b2 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -341,7 +341,7 @@ class NURBSpline(CNURBSpline, Curve):
                            [0., -radius, 0., 1.],
                            [radius, -radius, 0., w],
                            [radius, 0., 0., 1.]], dtype=float)
-        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] - origin))
+        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] + np.array(origin)))
 
         knots = np.array([0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi], dtype=float)
         mults = np.array([3, 2, 2, 2, 3], dtype=int)
-- 
2.43.0


From bd79d8c052ac4e6e443c3f8ec2ba123b75462ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 047/201] fix: a NURBS curve is periodic only if all of its
 wrapped control points agree

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1ff51ed..fc628fe 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1271,7 +1271,7 @@ cdef class NURBSCurve(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 9b627605c433a45e3c5fd20dd5e2493177728975 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 048/201] fix: a periodic NURBS curve can be opened

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 15487bd..0970b72 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -683,7 +683,7 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_periodic():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fc628fe..e17e5fa 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1449,7 +1449,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 9a84f62b80a8e45ba6d89d6cee35c5e4f781c613 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 049/201] fix: a copied periodic NURBSpline stays periodic

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0970b72..901a151 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -482,7 +482,7 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __deepcopy__(self, memodict={}):
-        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
+        obj=self.__class__(control_points=np.asarray(self._control_points).copy(), degree=self._degree, knots=np.asarray(self._knots).copy(), periodic=self._periodic)
 
         obj.weights=self.weights
 
-- 
2.43.0


From f5069e8808f726df2f6f2359c969424334ef68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 050/201] fix: splitting a rational NURBSpline keeps its shape

---
 mmcore/geom/curves/knot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 2418631..8948667 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -705,7 +705,7 @@ def nurbs_split(self, t: float) -> tuple:
         curve2_kv.insert(0, t)
 
     # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    cpts = np.array(temp_obj._control_points).tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
@@ -725,9 +725,13 @@ def nurbs_split(self, t: float) -> tuple:
 
 
 def insert_knot(self, t, num=1):
+    # Knot insertion is linear in the homogeneous control points
+    cpts = np.array(self._control_points)
+    cpts[:, :3] *= cpts[:, 3:]
     cpts, knots = knot_insertion(
-        self.degree, self.knots.tolist(), self._control_points, t, num=num
+        self.degree, self.knots.tolist(), cpts, t, num=num
     )
+    cpts[:, :3] /= cpts[:, 3:]
     self.set(control_points=np.array(cpts), knots=np.array(knots))
     return True
 
-- 
2.43.0


From 8f200ca4e64419f64340a162ac550c3219629aea Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 051/201] fix: the interval of a NURBS curve with unclamped
 knots is its domain

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e17e5fa..ae7b144 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1405,8 +1405,8 @@ cdef class NURBSCurve(ParametricCurve):
         self.knots_update_hook()
 
     cdef _update_interval(self):
-        self._interval[0] =  self._knots[0]
-        self._interval[1] = self._knots[self._knots.shape[0]-1]
+        self._interval[0] =  self._knots[self._degree]
+        self._interval[1] = self._knots[self._knots.shape[0]-self._degree-1]
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts):
         cdef int n = len(cpts)
         cdef int i
-- 
2.43.0


From 30b079f0817a2ec99bdaf7f7d5fe2f19497c652a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 052/201] fix: a periodic curve repeats outside of its domain

---
 mmcore/geom/curves/_nurbs.pyx | 26 ++++++++++++++++++++++++++
 mmcore/geom/nurbs.pyx         | 26 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 901a151..30e50b4 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -406,6 +406,22 @@ cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noex
 
 
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double wrap_parameter(int n, int p, double u, double[:] U) noexcept nogil:
+    """
+    The parameter of the domain [U[p], U[n+1]] of a periodic curve that corresponds to u, as in find_span.
+    """
+    cdef double period = U[n + 1] - U[p]
+    while u < U[p]:
+        u += period
+    while u > U[n + 1]:
+        u -= period
+    return u
+
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -731,6 +747,8 @@ cdef class NURBSpline(ParametricCurve):
         _result_buffer[2] = 0.
         _result_buffer[3] = 0.
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, _result_buffer, self._periodic)
 
         result[0] = _result_buffer[0]
@@ -753,6 +771,8 @@ cdef class NURBSpline(ParametricCurve):
         _result_buffer[2] = 0.
         _result_buffer[3] = 0.
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, _result_buffer, self._periodic)
 
         result[0] = _result_buffer[0]
@@ -790,6 +810,8 @@ cdef class NURBSpline(ParametricCurve):
         result[3] = 0.
 
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, result, self._periodic)
 
 
@@ -848,6 +870,8 @@ cdef class NURBSpline(ParametricCurve):
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
         cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_derivs_alg1(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw,self._periodic)
         rational_curve_derivatives(CKw, CK)
 
@@ -870,6 +894,8 @@ cdef class NURBSpline(ParametricCurve):
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1] ))
            cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
 
+           if self._periodic:
+               t = wrap_parameter(n, self._degree, t, self._knots)
            curve_derivs_alg2(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw, PK,self._periodic)
            rational_curve_derivatives(CKw, CK)
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ae7b144..df03170 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1118,6 +1118,22 @@ cdef public uint32_t VERSION=1
 cdef int MAGIC_BYTES_SIZE=4
 
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double wrap_parameter(int n, int p, double u, double[:] U) noexcept nogil:
+    """
+    The parameter of the domain [U[p], U[n+1]] of a periodic curve that corresponds to u, as in find_span.
+    """
+    cdef double period = U[n + 1] - U[p]
+    while u < U[p]:
+        u += period
+    while u > U[n + 1]:
+        u -= period
+    return u
+
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -1499,6 +1515,8 @@ cdef class NURBSCurve(ParametricCurve):
         _result_buffer[2] = 0.
         _result_buffer[3] = 0.
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, _result_buffer, self._periodic)
 
         result[0] = _result_buffer[0]
@@ -1521,6 +1539,8 @@ cdef class NURBSCurve(ParametricCurve):
         _result_buffer[2] = 0.
         _result_buffer[3] = 0.
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, _result_buffer, self._periodic)
 
         result[0] = _result_buffer[0]
@@ -1558,6 +1578,8 @@ cdef class NURBSCurve(ParametricCurve):
         result[3] = 0.
 
 
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_point(n, self._degree, self._knots, self._control_points, t, result, self._periodic)
 
 
@@ -1620,6 +1642,8 @@ cdef class NURBSCurve(ParametricCurve):
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
         cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
+        if self._periodic:
+            t = wrap_parameter(n, self._degree, t, self._knots)
         curve_derivs_alg1(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw,self._periodic)
         rational_curve_derivatives(CKw, CK)
 
@@ -1642,6 +1666,8 @@ cdef class NURBSCurve(ParametricCurve):
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1] ))
            cdef double[:,:] CKw = np.zeros((max(d + 1, <int>CK.shape[0]), 4))
 
+           if self._periodic:
+               t = wrap_parameter(n, self._degree, t, self._knots)
            curve_derivs_alg2(n, self._degree, self._knots, homogeneous_control_points(self._control_points), t, d, CKw, PK,self._periodic)
            rational_curve_derivatives(CKw, CK)
 
-- 
2.43.0


From 07f0ec1b4c22d27df4ff0664015eaed53c777357 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 053/201] fix: knot_insertion hands the knot vector on as an
 array

---
 mmcore/geom/curves/knot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 8948667..c2df564 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -449,7 +449,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, np.asarray(knotvector, dtype=float), k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From c81f324cb2e51f905154fadc7fbaa2a240f0bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 054/201] fix: NURBS derivatives of the spline utilities are
 computed in floating point

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 mmcore/geom/curves/curve_utils.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index cb7e9e2..f9106fe 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -185,7 +185,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 4817056..1535ec6 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -180,7 +180,7 @@ def calc_bspline_derivatives(p, U, P, u, nd):
         CK.append(tmp)
 
     for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+        CK.append(np.zeros(4))
 
     return CK
 
-- 
2.43.0


From 3c0adec4c5b0c5a4902d43d6c984932dc3443c6e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 055/201] fix: the control points of a NURBSpline can be
 assigned

---
 mmcore/geom/curves/_nurbs.pyx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 30e50b4..3499a22 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -576,12 +576,9 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
-        else:
-
-            self._control_points[:, :control_points.shape[1]] = control_points
+        cdef cnp.ndarray[double, ndim=2] new_points = np.ones((control_points.shape[0],4))
+        new_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_points
         self._evaluate_cached.cache_clear()
 
 
-- 
2.43.0


From 85c749ef98254ec4c5bd27780db0a7a042f4606a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 056/201] fix: GJK dropped the wrong vertex of a tetrahedron
 and compared cubic terms with a length

The two side faces of the simplex were swapped, the tolerance made the result depend on the scale of the model, and running out of iterations was reported as separation.
---
 mmcore/numeric/algorithms/_gjk.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index b563b27..cb30e18 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -55,7 +55,7 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
             Vec3<T> ab = b - a;
             Vec3<T> ao = {-a[0], -a[1], -a[2]};
 
-            if (dot(ab, ao) > tol) {
+            if (dot(ab, ao) > 0) {
                 d = cross(cross(ab, ao), ab);
             } else {
                 simplex.erase(simplex.begin());
@@ -72,7 +72,7 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
             Vec3<T> ao = {-a[0], -a[1], -a[2]};
             Vec3<T> abc = cross(ab, ac);
 
-            if (dot(cross(abc, ac), ao) > tol) {
+            if (dot(cross(abc, ac), ao) > 0) {
                 if (dot(ac, ao) > 0) {
                     simplex.erase(simplex.begin() + 1);
                     d = cross(cross(ac, ao), ac);
@@ -81,11 +81,11 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
                     return handleSimplex(simplex, d, tol);
                 }
             } else {
-                if (dot(cross(ab, abc), ao) > tol) {
+                if (dot(cross(ab, abc), ao) > 0) {
                     simplex.erase(simplex.begin());
                     return handleSimplex(simplex, d, tol);
                 } else {
-                    if (dot(abc, ao) > tol) {
+                    if (dot(abc, ao) > 0) {
                         d = abc;
                     } else {
                         std::swap(simplex[0], simplex[1]);
@@ -114,10 +114,10 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
                 simplex.erase(simplex.begin());
                 return handleSimplex(simplex, d, tol);
             } else if (dot(acd, ao) > 0) {
-                simplex.erase(simplex.begin() + 1);
+                simplex.erase(simplex.begin() + 2);  // the face a, c, d
                 return handleSimplex(simplex, d, tol);
             } else if (dot(adb, ao) > 0) {
-                simplex.erase(simplex.begin() + 2);
+                simplex.erase(simplex.begin() + 1);  // the face a, b, d
                 return handleSimplex(simplex, d, tol);
             } else {
                 return true;
@@ -185,5 +185,6 @@ bool gjk_collision_detection(const std::vector<Vec3<T>>& vertices1, const std::v
             }
         }
 
-        return false;
+        // No separating direction was found.
+        return true;
     }
\ No newline at end of file
-- 
2.43.0


From 680fabe1a27fb1e0f4a00546976a9e30a3c96601 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 057/201] fix: spherical separability took the gap between the
 directions for their wedge

Pieces of a curve and a surface that meet a second time were taken for separable; the linear program of the second test was always feasible.
---
 .../intersection/separability/spherical.py    | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/mmcore/numeric/intersection/separability/spherical.py b/mmcore/numeric/intersection/separability/spherical.py
index 321cd20..42357b5 100644
--- a/mmcore/numeric/intersection/separability/spherical.py
+++ b/mmcore/numeric/intersection/separability/spherical.py
@@ -1,12 +1,11 @@
 import numpy as np
-from scipy.optimize import linprog
-
 __all__=['spherical_separability']
 
 from mmcore.geom.nurbs import subdivide_surface, split_curve, NURBSSurface, NURBSCurve
 
 from mmcore.numeric.vectors import unit, dot, scalar_norm, scalar_unit
 from mmcore.numeric.interval import Interval,Comparison
+from mmcore.numeric.algorithms.cygjk import gjk
 
 
 def project_to_sphere(points, center):
@@ -25,9 +24,10 @@ def find_smallest_wedge(points_2d):
     angle_diffs = np.append(
         angle_diffs, 2 * np.pi - sorted_angles[-1] + sorted_angles[0]
     )
+    # The wedge is the complement of the largest gap between neighbouring angles.
     max_gap = np.argmax(angle_diffs)
-    start_angle = sorted_angles[max_gap]
-    end_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    start_angle = sorted_angles[(max_gap + 1) % len(sorted_angles)]
+    end_angle = start_angle + 2 * np.pi - angle_diffs[max_gap]
     return start_angle, end_angle
 
 
@@ -48,35 +48,28 @@ def spherical_bounding_box_test(points1, points2, center):
         wedge2_start, wedge2_end = find_smallest_wedge(plane_coords2)
 
         # Check if wedges are separated
-        if (wedge1_end < wedge2_start and wedge2_end > wedge1_start) or (
-            wedge2_end < wedge1_start and wedge1_end > wedge2_start
-        ):
+        # Only a wedge narrower than a half plane contains the hull of its points.
+        if wedge1_end - wedge1_start >= np.pi or wedge2_end - wedge2_start >= np.pi:
+            continue
+
+        if (wedge2_start - wedge1_start) % (2 * np.pi) > wedge1_end - wedge1_start and (
+            wedge1_start - wedge2_start
+        ) % (2 * np.pi) > wedge2_end - wedge2_start:
             return True  # Separating circle found
 
     return False  # No separating circle found
 
 
 def separating_circles_test(points1, points2, center):
-    """Perform separating circles test using linear programming."""
+    """Perform separating circles test: does a great circle have the two sets of directions on different sides?"""
     sphere_points1 = project_to_sphere(points1, center)
     sphere_points2 = project_to_sphere(points2, center)
 
-    m, n = len(sphere_points1), len(sphere_points2)
-
-    # Set up the linear programming problem
-    c = [0, 0, 0, 1]  # Objective function coefficients
-    A_ub = np.vstack(
-        (
-            np.hstack((-sphere_points1, -np.ones((m, 1)))),
-            np.hstack((sphere_points2, -np.ones((n, 1)))),
-        )
+    # The normal of such a circle has a positive dot product with every direction of the first set and with every
+    # reversed direction of the second one: it exists if and only if their convex hull doesn't contain the origin.
+    return not gjk(
+        np.vstack((sphere_points1, -sphere_points2)), np.zeros((1, 3)), tol=1e-12, max_iter=50
     )
-    b_ub = np.zeros(m + n)
-
-    # Solve the linear programming problem
-    res = linprog(c, A_ub=A_ub, b_ub=b_ub, method="highs")
-
-    return not res.success  # True if no separating plane was found
 
 
 def spherical_separability(surface_points, curve_points, intersection_point):
-- 
2.43.0


From dea5dfaa38df584092c5aaf5f3fc61e0080c8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 058/201] fix: curve x surface intersection gave up a piece
 once an intersection lay on its border

Split in the middle there, and leave a piece alone when an intersection found earlier is shown to be its only one.
---
 mmcore/numeric/intersection/csx/_ncsx.py | 39 +++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5e6af8d..b008968 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -68,19 +68,18 @@ class NURBSCurveSurfaceIntersector:
 
         new_point = self._find_new_intersection(curve, surface)
         (u0, u1), (v0, v1) = surface.interval()
+        t0, t1 = curve.interval()
+        # A piece that is as small as the precision can't be split any further.
+        splittable = min(t1 - t0, u1 - u0, v1 - v0) > 4 * self.ptol
         if new_point is None:
-            t0, t1 = curve.interval()
-
+            if not splittable or self._is_known_to_be_separable(curve, surface):
+                return
 
-            curve1, curve2 = split_curve(curve, (t0 + t1) * 0.5, normalize_knots=False)
+            curve1, curve2 = split_curve(curve, (t0 + t1) * 0.5, tol=self.ptol, normalize_knots=False)
             # normalize_curve_knots(curve1)
             # normalize_curve_knots(curve2)
             u,v=(u0 + u1) * 0.5, (v0 + v1) * 0.5
 
-
-            if abs(u - u0) < self.ptol or abs(u - u1) < self.ptol or abs(v - v0) < self.ptol or abs(v - v1) < self.ptol:
-
-                return
             surface1, surface2, surface3, surface4 = subdivide_surface(
                 surface, (u0 + u1) * 0.5, (v0 + v1) * 0.5, self.ptol, normalize_knots=False
             )
@@ -93,14 +92,16 @@ class NURBSCurveSurfaceIntersector:
 
             else:
                 self.intersections.append(("transversal", point, (t, u, v)))
-            if abs(u-u0)<self.ptol or abs(u-u1)<self.ptol or  abs(v-v0)<self.ptol or  abs(v-v1)<self.ptol:
-
-                return
-            if spherical_separability(
+            if not splittable or spherical_separability(
                 np.array(surface.control_points_flat), curve.control_points, point
             ):
                 return
 
+            # An intersection on the border of a piece doesn't split it: there, split in the middle.
+            t = self._split_parameter(t, t0, t1)
+            u = self._split_parameter(u, u0, u1)
+            v = self._split_parameter(v, v0, v1)
+
             curve1, curve2 = split_curve(curve, t, tol=self.ptol,normalize_knots=False)
             # normalize_curve_knots(curve1)
             # normalize_curve_knots(curve2)
@@ -128,6 +129,22 @@ class NURBSCurveSurfaceIntersector:
 
 
 
+    def _split_parameter(self, t, t0, t1):
+        if t - t0 <= self.ptol or t1 - t <= self.ptol:
+            return (t0 + t1) * 0.5
+        return t
+
+    def _is_known_to_be_separable(self, curve, surface):
+        # An already discovered intersection of the two pieces may be the only one (section 4.3)
+        t_range, (u_range, v_range) = curve.interval(), surface.interval()
+        return any(
+            self._is_valid_parameter(params, t_range, u_range, v_range)
+            and spherical_separability(
+                np.array(surface.control_points_flat), curve.control_points, point
+            )
+            for _, point, params in self.intersections
+        )
+
     def _get_interior_intersections(self, curve, surface):
         # Return list of already discovered intersection points interior to curve or surface
         return self.intersections
-- 
2.43.0


From 12a89b6f292d5f1d1749ccf373b241317ab9b088 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 059/201] fix: ccx of two implicit curves raised its result

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..99427cc 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,7 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
+        return curve_iix(
             curve1, curve2)
     else:
         raise ValueError(
-- 
2.43.0


From a4b6d8e84bf9c4179cde47afe636b1620372ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 060/201] fix: divide_interval let the last part reach beyond
 the end of the interval

---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 7982a3b8312ce6a3ea4a586abf8bf7a04a85c085 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 061/201] fix: curve x implicit intersection lost the roots
 near the ends of the searched intervals

---
 mmcore/numeric/divide_and_conquer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 4e7764f..58fc38b 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -511,9 +511,12 @@ def test_all_roots(fun, bounds, tol):
         return []
 
 
-    t_max, y_max = iterative_divide_and_conquer_min(lambda t: -fun(t), (t0, t1), tol)
+    # The search never reaches the ends of the interval, but there may be an extremum.
+    t_max, y_max = min(iterative_divide_and_conquer_min(lambda t: -fun(t), (t0, t1), tol),
+                       (t0, -fun(t0)), (t1, -fun(t1)), key=lambda x: x[1])
 
-    t_min, y_min = iterative_divide_and_conquer_min(fun, (t0, t1), tol)
+    t_min, y_min = min(iterative_divide_and_conquer_min(fun, (t0, t1), tol),
+                       (t0, fun(t0)), (t1, fun(t1)), key=lambda x: x[1])
     (t11, y11, typ11), (t21, y21, typ21) = sorted([(t_min, y_min, 0), (t_max, -y_max, 1)], key=lambda x: x[0])
 
     if sign(y11) != sign(y21):
-- 
2.43.0


From 88a6665b753420963ee8983d5200ae33466affe0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 062/201] fix: csx of a NURBS curve and surface without
 intersections raised

---
 mmcore/numeric/intersection/csx/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..bf0f656 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -249,9 +249,7 @@ def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
         ixs.sort(key=lambda x: x[2][0])
-        typs, pts,params=zip(*ixs)
-
-        return np.array(params)
+        return np.array([params for _, _, params in ixs]).reshape(-1, 3)
     elif hasattr(surface,'implicit'):
         return curve_implicit_intersection(curve,surface,tol=ptol)
     else:
-- 
2.43.0


From 141f3081759f84ea72f801229710ce4210adcec4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 063/201] fix: curve x curve intersection stopped searching a
 pair of pieces whose midpoints coincide

Other intersections of the same pieces, however large, were lost.
---
 mmcore/numeric/intersection/ccx/ccx.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 99427cc..c040822 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -248,23 +248,25 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
 
 
         if eager:
-            if not aabb_overlap(
-                    curve_aabb_eager(c1, bounds=t1_range, cnt=8),
-                    curve_aabb_eager(c2, bounds=t2_range, cnt=8),
-            ):
-                return []
+            box1 = curve_aabb_eager(c1, bounds=t1_range, cnt=8)
+            box2 = curve_aabb_eager(c2, bounds=t2_range, cnt=8)
 
         else:
-            if not aabb_overlap(
-                    curve_aabb(c1, bounds=t1_range, tol=tol_bbox),
-                    curve_aabb(c2, bounds=t2_range, tol=tol_bbox)):
-                return []
+            box1 = curve_aabb(c1, bounds=t1_range, tol=tol_bbox)
+            box2 = curve_aabb(c2, bounds=t2_range, tol=tol_bbox)
+
+        if not aabb_overlap(box1, box2):
+            return []
 
         t1_mid = t1_range[0] + (t1_range[1] - t1_range[0]) / 2
         t2_mid = t2_range[0] + (t2_range[1] - t2_range[0]) / 2
 
+        intersections = []
         if np.linalg.norm(np.array(c1(t1_mid)) - np.array(c2(t2_mid))) <= tol:
-            return [(t1_mid, t2_mid)]
+            intersections.append((t1_mid, t2_mid))
+            # Pieces much larger than the tolerance may well intersect elsewhere too
+            if max(np.ptp(box1, axis=0).max(), np.ptp(box2, axis=0).max()) <= 32 * tol:
+                return intersections
         c1_left = t1_range[0], t1_mid
         c1_right = t1_mid, t1_range[1]
         c2_left = t2_range[0], t2_mid
@@ -272,7 +274,6 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
         # c1_left, c1_right = split(c1, t1_mid)
         # c2_left, c2_right = split(c2, t2_mid)
 
-        intersections = []
         intersections.extend(recursive_intersect(c1, c2, c1_left, c2_left, tol))
         intersections.extend(recursive_intersect(c1, c2, c1_left, c2_right, tol))
         intersections.extend(recursive_intersect(c1, c2, c1_right, c2_left, tol))
-- 
2.43.0


From e6963204623b7a0f81643f53ceba3b7eeef0e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 064/201] fix: curve x curve intersection pruned with sampled
 boxes that need not hold the curve

---
 mmcore/numeric/aabb.py                 | 11 ++++++-
 mmcore/numeric/intersection/ccx/ccx.py | 41 ++++++++++----------------
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/mmcore/numeric/aabb.py b/mmcore/numeric/aabb.py
index 097337a..24015d5 100644
--- a/mmcore/numeric/aabb.py
+++ b/mmcore/numeric/aabb.py
@@ -108,4 +108,13 @@ def curve_aabb_eager(curve, bounds=None, cnt=8):
     bounds = bounds if bounds is not None else curve.interval()
 
     vals = np.linspace(*bounds, cnt, dtype=float)
-    return aabb(curve(vals))
+    pts = np.asarray(curve(vals))
+    box = aabb(pts)
+    # Rounding must not part the boxes of curves in one coordinate plane
+    pad = 8 * np.finfo(float).eps * np.abs(pts).max(axis=0)
+    if len(pts) > 2:
+        # Between the samples a smooth curve leaves their box by about an eighth of the second differences
+        pad += 0.5 * np.abs(pts[2:] - 2 * pts[1:-1] + pts[:-2]).max(axis=0)
+    box[0] -= pad
+    box[1] += pad
+    return box
diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index c040822..2afebd7 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -198,6 +198,19 @@ def _categorize_with_defaultdict(data, labels):
     for d, l in zip(data, labels):
         grouped[l].append(d)
     return dict(grouped)
+
+
+def _smooth_parts(curve, bounds, step=1.0):
+    """Parts of the interval no longer than the step and without knots inside, where samples can tell the shape of the curve."""
+    start, end = bounds
+    cuts = {float(start), float(end)}
+    if end - start > step:
+        cuts.update(float(part[0]) for part in divide_interval(start, end, step))
+    cuts.update(float(knot) for knot in getattr(curve, "knots", ()) if start < knot < end)
+    cuts = sorted(cuts)
+    return list(zip(cuts[:-1], cuts[1:]))
+
+
 def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bounds2=None, eager=True) -> list[
     tuple[float, float]]:
     """
@@ -286,37 +299,13 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
     curve1_bounds = curve1.interval() if bounds1 is None else bounds1
     curve2_bounds = curve2.interval() if bounds2 is None else bounds2
 
-    curve1_range = curve1_bounds[1] - curve1_bounds[0]
-    curve2_range = curve2_bounds[1] - curve2_bounds[0]
-
-    if curve1_range > 1.0 and curve2_range > 1.0:
-        for start1, end1 in divide_interval(*curve1_bounds, 1.0):
-            for start2, end2 in divide_interval(*curve2_bounds, 1.0):
-                result.extend(
-                    recursive_intersect(
-                        curve1, curve2, (start1, end1), (start2, end2), tol=tol
-                    )
-                )
-    elif curve1_range > 1.0:
-        start2, end2 = curve2_bounds
-        for start1, end1 in divide_interval(*curve1_bounds, 1.0):
+    for start1, end1 in _smooth_parts(curve1, curve1_bounds):
+        for start2, end2 in _smooth_parts(curve2, curve2_bounds):
             result.extend(
                 recursive_intersect(
                     curve1, curve2, (start1, end1), (start2, end2), tol=tol
                 )
             )
-    elif curve2_range > 1.0:
-        start1, end1 = curve1_bounds
-        for start2, end2 in divide_interval(*curve2_bounds, 1.0):
-            result.extend(
-                recursive_intersect(
-                    curve1, curve2, (start1, end1), (start2, end2), tol=tol
-                )
-            )
-    else:
-        result.extend(
-            recursive_intersect(curve1, curve2, curve1_bounds, curve2_bounds, tol)
-        )
 
     _,index=np.unique(np.round(result,int(np.abs(np.log10(tol)))), return_inverse=True,axis=0)
     return sorted((tuple(np.average(val,axis=0)) for val in _categorize_with_defaultdict(result, index.tolist()).values()),key=lambda x:x[0])
-- 
2.43.0


From 1a80ced9cf04d43312cf08830ea9d18cda36c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 065/201] fix: splitting at a parameter equal to a knot up to
 rounding gave pieces of another shape

---
 mmcore/geom/nurbs.pxd | 10 ++++++++++
 mmcore/geom/nurbs.pyx | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..2330425 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -272,6 +272,16 @@ cdef inline int find_multiplicity(double knot, double[:] knot_vector, double tol
             mult += 1
     return mult
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline double equal_knot(double t, double[:] knot_vector) noexcept nogil:
+    """The knot that find_multiplicity takes for t, or t itself when there is none."""
+    cdef int i
+    for i in range(knot_vector.shape[0]):
+        if fabs(t - knot_vector[i]) <= calc_epsilon(knot_vector[i]):
+            return knot_vector[i]
+    return t
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef inline double knot_insertion_alpha(double u, double[:] knotvector, int span, int idx, int leg)  noexcept nogil:
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index df03170..56d8475 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1792,6 +1792,7 @@ cdef class NURBSCurve(ParametricCurve):
         cdef double[:,:] cpts = self._control_points.copy()
 
         # Find knot span
+        t = equal_knot(t, self._knots)
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
@@ -2070,6 +2071,9 @@ cdef class NURBSCurve(ParametricCurve):
         # Normalize parameter range
         normalize_parameter_range(self._interval[0], self._interval[1], &t1, &t2)
 
+        t1 = equal_knot(t1, self._knots)
+        t2 = equal_knot(t2, self._knots)
+
         # Handle degenerate cases
         if abs(t2 - t1) < 1e-10:
             raise ValueError("Invalid trim range - start and end parameters too close")
@@ -2181,6 +2185,7 @@ cpdef tuple split_curve(NURBSCurve obj, double param, double tol=1e-7,bint norma
 
         raise ValueError("Cannot split from the domain edge ")
 
+    param = equal_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts , degree, param, knotvector, 0) - degree + 1
 
     s = find_multiplicity(param, knotvector,1e-12)
@@ -2266,6 +2271,7 @@ cpdef tuple split_curve2(NURBSCurve obj, double param, double tol=1e-12):
         fabs(param - obj._interval[0]) <= tol or fabs(param - obj._interval[1]) <= tol):
         raise ValueError("Cannot split from the domain edge")
 
+    param = equal_knot(param, knotvector)
     ks = find_span_inline(n_ctrlpts, degree, param, knotvector, 0) - degree + 1
     s = find_multiplicity(param, knotvector, 1e-12)
     r = degree - s
@@ -2680,6 +2686,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1]
 
         cdef double[:,:,:] cpts=self.control_points_view.copy()
+        t = equal_knot(t, self._knots_u)
         cdef int span = find_span_inline(self._size[0]-1,
             self._degree[0], t, self._knots_u, 0
         )
@@ -2741,6 +2748,7 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int new_count_v = self._size[1] + count
         cdef double[:,:,:] cpts=self.control_points_view.copy()
 
+        t = equal_knot(t, self._knots_v)
         cdef int span = find_span_inline(self._size[1]-1,
             self._degree[1], t, self._knots_v, 0
         )
@@ -2795,6 +2803,7 @@ cpdef tuple split_surface_u(NURBSSurface obj, double param, double tol=1e-7) :
 
 
         raise ValueError("Cannot split from the domain edge")
+    param = equal_knot(param, knots_u)
     ks = find_span_inline(size_u, degree_u, param, knots_u, 0) - degree_u + 1
     s = find_multiplicity(param, knots_u, 1e-12)
     r = degree_u - s
@@ -2864,6 +2873,7 @@ cpdef tuple split_surface_v(NURBSSurface obj, double param,double tol=1e-7) :
     if param <= obj._interval[1][0] or param >= obj._interval[1][1] or fabs(param - obj._interval[1][0]) <= tol or fabs(
             param - obj._interval[1][1]) <= tol:
         raise ValueError("Cannot split from the domain edge")
+    param = equal_knot(param, knots_v)
     ks = find_span_inline(size_v, degree_v, param, knots_v, 0) - degree_v + 1
     s = find_multiplicity(param, knots_v,1e-12)
     r = degree_v - s
-- 
2.43.0


From 7882e5583ea7dbc09911506dd9f9c59c2455c92c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 066/201] fix: curve x surface intersection lost intersections
 at the corners of the searched pieces

---
 mmcore/numeric/intersection/csx/_ncsx.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index b008968..91bc0fa 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -167,6 +167,11 @@ class NURBSCurveSurfaceIntersector:
             max_iter=5
         )
 
+        if result is not None:
+            # An intersection on the border of the piece may be found beyond it by a rounding error
+            bounded = np.clip(result, (t0, u0, v0), (t1, u1, v1))
+            if np.all(np.abs(bounded - result) <= self.ptol):
+                result = bounded
         # print(result)
         if (
             result is not None
-- 
2.43.0


From d4ee33be31a04705efb94941e2a8fbd799bd314b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 067/201] fix: surfaces whose boxes are flat, like planes, had
 no intersections

---
 mmcore/numeric/gauss_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..926fc2f 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -437,7 +437,9 @@ def _detect_intersections_deep(g1, g2, chs:dict,tol=0.01, dbg: DebugTree = None)
     ii=np.zeros((2,3))
     aabb_intersection(bb1,bb2,ii)
 
-    if np.min(ii[1]-ii[0]) < tol:
+    # A flat patch has a flat box, that is no reason to drop it
+    thin = np.minimum(bb1[1] - bb1[0], bb2[1] - bb2[0]) < tol
+    if np.any((ii[1] - ii[0] < tol) & ~thin):
         # Бокс не маленький, но очень плоский. объекты не пересекаются
         #dddd[2] = True
 
-- 
2.43.0


From e12d41c323286ec14a9f025eb376e0ab543ec25f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 068/201] fix: branches of a surface intersection next to a
 traced one were dropped

---
 .../intersection/ssx/surface_surface.py       | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 2b8375c..c068eef 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -469,6 +469,28 @@ class MarchingMethod(SSXMethod):
         )
 
 
+    def _passed(self, start, start_uv1, start_uv2, end, end_uv1, end_uv2, step):
+        """
+        Indices of the start points that belong to the piece of the curve from start to end: those close to
+        the chord, as far as the curve can leave it. Other branches nearby keep their start points.
+        """
+        start, end = np.array(start, dtype=float), np.array(end, dtype=float)
+        d = end - start
+        length = scalar_norm(d)
+        ixs = self.kd.query_ball_point(end, 2 * step)
+        if len(ixs) == 0 or length == 0.0:
+            return self.kd.query_ball_point(end, 40 * self.tol)
+        d /= length
+        pts = self.kd.data[ixs] - start
+        t = np.clip(pts @ d, 0.0, length)
+        dist = np.linalg.norm(pts - t[:, np.newaxis] * d, axis=1)
+        bend = 0.0
+        for uv1, uv2 in ((start_uv1, start_uv2), (end_uv1, end_uv2)):
+            tangent = self.calculate_intersection_step_data(self.s1, self.s2, uv1, uv2).tangent
+            bend += scalar_norm(np.cross(tangent, d))
+        limit = 40 * self.tol + 4 * bend * length
+        return [i for i, r in zip(ixs, dist) if r <= limit]
+
     def solve(self, initial_uv1, initial_uv2):
         #print(f'{self.__class__}.solve({initial_uv1,initial_uv2})')
         use_kd = self.kd is not None
@@ -487,7 +509,7 @@ class MarchingMethod(SSXMethod):
 
 
         if use_kd:
-            ixss.update(self.kd.query_ball_point(xyz1, step * 2))
+            ixss.update(self._passed(xyz1_init, initial_uv1, initial_uv2, xyz1, uv1_new, uv2_new, step))
 
         uvs = [(uv1_new, uv2_new)]
         pts = [xyz1]
@@ -504,11 +526,11 @@ class MarchingMethod(SSXMethod):
                 terminator = TerminatorType.EDGE
                 break
             (xyz1, uv1_new), (xyz2, uv2_new), step, terminator = res
+            if use_kd:
+                ixss.update(self._passed(pts[-1], uv1, uv2, xyz1, uv1_new, uv2_new, step))
             pts.append(xyz1)
             uvs.append((uv1_new, uv2_new))
             steps.append(step)
-            if use_kd:
-                ixss.update(self.kd.query_ball_point(xyz1, step * 2))
 
             if terminator is TerminatorType.EDGE:
                 break
-- 
2.43.0


From 96fec3fd0b10852e25b8ab636f91a2fb8e883e8f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 069/201] fix: tracing a straight surface intersection divided
 by its zero curvature

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index c068eef..7fc5fcc 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -408,6 +408,7 @@ class MarchingMethod(SSXMethod):
 
     def calculate_step(self, curvature_vector):
         K = scalar_norm(curvature_vector)
+        K = max(K, 1e-9)  # along a straight line the curvature is zero
 
         r = 1 / K
 
-- 
2.43.0


From 93a15f1aa79d2d1ef5b9526fa5741996e2d800d1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 070/201] fix: interpolating a row with few distinct points
 raised

---
 mmcore/geom/curves/knot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index c2df564..4d30a19 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -217,6 +217,7 @@ def interpolate_curve(points, degree,  use_centripetal=False, tol=1e-5):
 
     # Number of control points
     num_points = len(points)
+    degree = min(degree, num_points - 1)
 
     # Get uk
     uk = compute_params_curve(points, use_centripetal)
-- 
2.43.0


From a012f0a2024451e3355b7f470fe321d439a3521a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 071/201] fix: a long last step of a traced intersection was
 sent to the end of another branch

---
 .../intersection/ssx/surface_surface.py       | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 7fc5fcc..69e5cfc 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -236,14 +236,30 @@ class SSXMethod:
             not (self.s2_interval[1][0] <= v2 <= self.s2_interval[1][1]),
         )
 
-    def handle_edge(self, xyz_better, uvb1_better, uvb2_better):
+    def exit_point(self, step_data: IntersectionStepData, xyz_better, uvb1_better, uvb2_better):
+        """The point where the step from step_data.first.pt to xyz_better leaves the domain of a surface."""
+        t = 1.0
+        for old, new, interval in (
+                (step_data.first.uv, uvb1_better, self.s1_interval),
+                (step_data.second.uv, uvb2_better, self.s2_interval),
+        ):
+            for a, b, (lower, upper) in zip(old, new, interval):
+                if b < lower:
+                    t = min(t, (a - lower) / (a - b))
+                elif b > upper:
+                    t = min(t, (upper - a) / (b - a))
+        return step_data.first.pt + max(t, 0.0) * (xyz_better - step_data.first.pt)
+
+    def handle_edge(self, step_data: IntersectionStepData, xyz_better, uvb1_better, uvb2_better):
         if any(self.handle_inside(*uvb1_better, *uvb2_better)):
             if self.boundary_terminators is not None:
                 (
                     xyz_better,
                     uvb1_better,
                     uvb2_better,
-                ) = self.boundary_terminators.get_closest(xyz_better)
+                ) = self.boundary_terminators.get_closest(
+                    self.exit_point(step_data, xyz_better, uvb1_better, uvb2_better)
+                )
 
             return True, (xyz_better, uvb1_better, uvb2_better)
 
@@ -380,7 +396,7 @@ class MarchingMethod(SSXMethod):
 
 
         is_edge, (pt_better, uv1_better, uv2_better) = self.handle_edge(
-            pt_better, uv1_better, uv2_better
+            intersection_step_data, pt_better, uv1_better, uv2_better
         )
         if is_edge:
             return (
-- 
2.43.0


From a898ffa438fd1db0f57a31f074f24202634cd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 072/201] fix: the step along nearly straight or sharply bent
 intersections was not a number

---
 mmcore/numeric/intersection/ssx/surface_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 69e5cfc..a8c705d 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -426,9 +426,9 @@ class MarchingMethod(SSXMethod):
         K = scalar_norm(curvature_vector)
         K = max(K, 1e-9)  # along a straight line the curvature is zero
 
-        r = 1 / K
+        r = max(1 / K, self.tol)
 
-        step = np.sqrt(r ** 2 - (r - self.tol) ** 2) * 2
+        step = np.sqrt(self.tol * (2 * r - self.tol)) * 2
         return step
 
     def calculate_new_plane(self, ders: IntersectionStepData, step):
-- 
2.43.0


From ba9b9dbfa6b8b968e295fcdcc9920ca513dec178 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 073/201] fix: intersecting planes divided by a zero pivot

---
 mmcore/numeric/plane/cplane.pyx | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..eb1a9de 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -12,15 +12,11 @@ cnp.import_array()
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -28,15 +24,11 @@ cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 12b6d3ccfe176f4bba5db7815a4b330be5fb8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 074/201] fix: planes_planes_intersect returned nothing

---
 mmcore/numeric/plane/cplane.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index eb1a9de..d37577e 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -324,7 +324,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
-
+    return result
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 9ab68606a4c4fb4394dcea0ce9e1cba004dc2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 075/201] fix: plane_plane_intersection of two grids of planes
 used the first grid twice

---
 mmcore/numeric/plane/cplane.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index d37577e..06a0f6e 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -430,7 +430,7 @@ def plane_plane_intersection(a, b, result=None):
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
             result.reshape((b_new_shape[0],2,3))
-- 
2.43.0


From 0f2876bfe93dbf328f7d1b9daeb9eee6218ba123 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 076/201] fix: plane_plane_intersection of a plane and a grid
 of planes kept the grid's shape

---
 mmcore/numeric/plane/cplane.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 06a0f6e..b9fc68f 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -457,7 +457,7 @@ def plane_plane_intersection(a, b, result=None):
         raise ValueError("The arguments are totally incorrect!")
     if a_reshaped or b_reshaped:
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(b_initial_shape)-2)]),2,3))
     else:
         return result
 
-- 
2.43.0


From f1ec32f2556ae27003dbfe5b3cedec0c3044e6de Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 077/201] fix: plane_plane_intersection of one plane and many
 gives the lines the directions it gives one by one

---
 mmcore/numeric/plane/cplane.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index b9fc68f..5b334ae 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -448,7 +448,8 @@ def plane_plane_intersection(a, b, result=None):
     elif len(b.shape) == 3 and len(a.shape) == 2:
         if result is None:
             result = np.empty((len(b), 2, 3))
-        cplanes_plane_intersect( b,a,result)
+        for i in range(len(b)):
+            cplane_plane_intersect(a, b[i], result[i])
     elif len(a.shape)==2 and len(b.shape)==2:
         if result is None:
             result = np.empty(( 2, 3))
-- 
2.43.0


From f9d17cd741503588d83f72fdc67d322bc5c75079 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 078/201] fix: plane_from_normal2 gives a right-handed frame

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..d7fa229 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -77,7 +77,7 @@ def plane_from_normal2(origin, normal, tol=1e-5):
     else:
         normal = scalar_unit(normal)
     xaxis = scalar_unit(perp_to_vector(normal))
-    yaxis = scalar_unit(_mycross(xaxis, normal))
+    yaxis = scalar_unit(_mycross(normal, xaxis))
     return np.array([origin, xaxis, yaxis, normal])
 
 
-- 
2.43.0


From c6314b4b6d2cb79a6bd14de45fe7cfa2be4d7838 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 079/201] fix: plane_from_eq gives an origin on the plane

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index d7fa229..b281ea4 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = N * (-d / scalar_norm(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From a1c36e7baf8aa938fd2119d23153fe8243b162b9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 080/201] fix: plane_ray_intersection accepts an origin and a
 normal

---
 mmcore/numeric/plane/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index b281ea4..0083159 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -200,6 +200,7 @@ def plane_ray_intersection(plane, ray):
     :param ray: A ray represented by a origin and a direction
     :return: intersection point
     """
+    pln = plane
     if plane.shape[0]==4:
 
         pln=np.zeros((2,3))
-- 
2.43.0


From 8dcb887cfb4dc74df300deaf32c2a4dd3f1fa81b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 081/201] fix: batched dot products were added to uninitialised
 memory

---
 mmcore/numeric/vectors.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..92ee6de 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -78,7 +78,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +91,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 6e1a05edcda97fb2286fefc04bc74fd079c0c328 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 082/201] fix: batched matrix products were added to
 uninitialised memory

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 92ee6de..778ab66 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -58,7 +58,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     cdef int cols_A = vec_a.shape[2]
     cdef int rows_B = vec_b.shape[1]
     cdef int cols_B = vec_b.shape[2]
-    cdef double[:,:,:] result=np.empty((l,rows_A,cols_B))
+    cdef double[:,:,:] result=np.zeros((l,rows_A,cols_B))
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
-- 
2.43.0


From 678a3f3354c7f882454463eeafc670eeac695a88 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 083/201] fix: gram_schmidt read past the end of its vectors

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 778ab66..1985f20 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -255,7 +255,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 5e63838e66e2be39ffcbc0de594014154fd71400 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 084/201] fix: courtesan_to_cylindrical gives cylindrical
 coordinates

---
 mmcore/numeric/vectors.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1985f20..7fbaf18 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -307,8 +307,8 @@ cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef int i
     for i in range(xyz.shape[0]):
         XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(XsqPlusYsq)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From 95624a288e6ba6caeedd78259adc66f455e8a06e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 085/201] fix: closest points on rays and lines that do not
 start at the origin are on them

---
 mmcore/numeric/vectors.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 7fbaf18..4b81a70 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -450,6 +450,9 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
     res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
     res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0] += start[0]
+    res[1] += start[1]
+    res[2] += start[2]
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -463,7 +466,11 @@ cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     p[0] = point[0] - start[0]
     p[1] = point[1] - start[1]
     p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    p = vector_projection(p, direction)
+    p[0] += start[0]
+    p[1] += start[1]
+    p[2] += start[2]
+    return p
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From f592b8a4b6e435099bb88468259d485be1f60f9f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 086/201] fix: many Jacobians can be inverted at once

---
 mmcore/numeric/vectors.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 4b81a70..8fbe815 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -421,9 +421,8 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
-        with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+        status=np.empty((J.shape[0],), dtype=np.intc)
+        cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 2c9c739501ccac9bff54e39d136fd4c678eb9095 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 087/201] fix: unique reallocated memory that belongs to its
 arrays

---
 mmcore/numeric/algorithms/_unique.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..81c9136 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -100,7 +100,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     }
     if (n == 1) {
         *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
         result[0] = arr[0];
         return 1;
     }
@@ -108,8 +107,7 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     // Sort the array
     qsort(arr, n, sizeof(double), compare2);
 
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
+    // The caller owns the memory of the result, at least n items
     int j = 0;
 
     // Add the first element
@@ -122,8 +120,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
-- 
2.43.0


From 65b8f98253c52f84e11d361bc9229cf2d88e1001 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 088/201] fix: deleting a key from an AVL tree mixed up the
 data of the keys left

---
 mmcore/ds/tree/avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..dec5312 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -333,6 +333,7 @@ class AVL(object):
 
                     if successor:
                         self.node.key = successor.key
+                        self.node.data = successor.data
 
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
-- 
2.43.0


From 9dfccdc7f17a65269d721047f78c3dfc8a84ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 089/201] fix: setting the data of a key already in an AVL tree
 did nothing

---
 mmcore/ds/tree/avl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index dec5312..5e6e74c 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -140,6 +140,9 @@ class AVL(object):
         # Insert key to the right subtree
         elif key > self.node.key:
             self.node.right.insert(key, data)
+        # The key is there already: replace its data
+        else:
+            self.node.data = data
 
         # Rebalance tree if needed
         self.rebalance()
-- 
2.43.0


From 68e963f56b1e2513c82b90f32d5c1aec749a0184 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 090/201] fix: an item appended to an AVL tree was lost when
 its key was taken

---
 mmcore/ds/tree/avl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 5e6e74c..16c8b8a 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -148,7 +148,13 @@ class AVL(object):
         self.rebalance()
 
     def append(self, data=None):
-        return self.insert(self.height + 1, data)
+        if self.node is None:
+            return self.insert(0, data)
+        # The next key after the largest one
+        last = self.node
+        while last.right.node:
+            last = last.right.node
+        return self.insert(last.key + 1, data)
 
     def rebalance(self):
         """
-- 
2.43.0


From e1a5d76e319a40d90d6d11d143417459e3821274 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 091/201] fix: an empty circular list gave one item, None

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..da0b169 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 59dffb91a813aed5f987032dd6016b2cefd4f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 092/201] fix: inserting at the start of a circular list put
 the item after the first one

---
 mmcore/ds/cdll/cdll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index da0b169..85f3f4a 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -147,7 +147,8 @@ class CDLL:
             node.previous = node
         else:
             temp = self.head
-            for _ in range(index - 1):
+            # the node that comes before the new one: the last one for index 0
+            for _ in range((index - 1) % self.count):
                 temp = temp.next
             temp.next.previous = node
             node.next, node.previous = temp.next, temp
-- 
2.43.0


From 9bb7b3c1cd858c8076ba89276b0c88fcfd173fcf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 093/201] fix: a node appended to an empty circular list kept
 its old links

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 85f3f4a..531a5d2 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -126,6 +126,8 @@ class CDLL:
     def append_node(self, node):
         if self.head is None:
             self.head = node
+            node.next = node
+            node.previous = node
             self.count = 1
         else:
             node.previous = self.head.previous
-- 
2.43.0


From fcd48109b03fd2ad907cf18750b51ce93e0bdf2d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 094/201] fix: removing the last or a missing item of a
 circular list damaged it

---
 mmcore/ds/cdll/cdll.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 531a5d2..8ec4e02 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -172,16 +172,12 @@ class CDLL:
     def remove_by_index(self, index):
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
-        if self.count == 1:
-            self.head = None
-            self.count = 0
-            return
         target = self.head
         for _ in range(index):
             target = target.next
 
         if target is self.head:
-            self.head = self.head.next
+            self.head = self.head.next if self.count > 1 else None
 
 
         target.previous.next, target.next.previous = target.next, target.previous
@@ -196,13 +192,16 @@ class CDLL:
             if (temp.data == data):
 
                 if temp is self.head:
-                    self.head = self.head.next
+                    self.head = self.head.next if self.count > 1 else None
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
                 self.count -= 1
                 break
 
             temp = temp.next
+        else:
+            # nothing to remove
+            return
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From d7eb33095823788607e80967e43f0f8c35ca68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 095/201] fix: a negative index before the start of a circular
 list gave its first item

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 8ec4e02..cb5ad7b 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -219,7 +219,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From 7980e922493666b2c8c2b89fbea246426294b625 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 096/201] fix: a node put in place of another in a circular
 list was not linked to the node before it

---
 mmcore/ds/cdll/cdll.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index cb5ad7b..0300690 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -245,6 +245,8 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
+            node.next = node
+            node.previous = node
             self.head =  node
 
             return
@@ -254,17 +256,12 @@ class CDLL:
 
 
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From 6dd904eeb0fa27e977653e00340b1f4fb94e93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 097/201] fix: points that share a coordinate with a splitting
 one could not be deleted from a k-d tree

---
 mmcore/ds/bkdtree.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..6289545 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -214,16 +214,23 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # Then, we have to remove that min from the left subtree; what is left
+                # of it is not below the new splitting value, so it goes to the right
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
         else:
             # Not the node to delete, search left or right
+            size = node.size
             if point[current_axis] <= node.point[current_axis]:
                 node.left = self._delete_rec(node.left, point, depth + 1)
-            else:
+            if point[current_axis] > node.point[current_axis] or (
+                point[current_axis] == node.point[current_axis]
+                and _update_size(node) == size
+            ):
+                # points that share the splitting value can be on either side
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
         _update_size(node)
-- 
2.43.0


From 44efd7114af2fdc78426bc915c20b73d4cdddf74 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 098/201] fix: a k-d tree gave fewer neighbours than asked for

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 6289545..b9802f7 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -326,11 +326,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From afa11b6f74f3cbefa3be2d9493de3f5ff8094d4b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 099/201] fix: building a k-d tree reordered the list handed in

---
 mmcore/ds/bkdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index b9802f7..ff42142 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -90,7 +90,7 @@ class BalancedKDTree:
             for p in points:
                 if len(p) != dim:
                     raise ValueError("All points must have the same dimension.")
-            self.root = _build_balanced(points, depth=0)
+            self.root = _build_balanced(list(points), depth=0)
 
     def _is_unbalanced(self, node):
         """
-- 
2.43.0


From 99638608c4393fb1f4ff948572a6cd3052f27e48 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 100/201] fix: a search in an R-tree missed rectangles inserted
 after the first split

---
 mmcore/ds/tree/rtree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..1246127 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,9 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            # every node on the way to the leaf has to hold the new rectangle
+            if node.mbr is not None:
+                node.mbr = node.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
@@ -109,7 +112,7 @@ class RStarTree:
             # Create a new root
             new_root = Node()
             new_root.add_child(node, update_mbr=False)
-            new_root.add_child(new_node, update_mbr=False)
+            new_root.add_child(new_node)
             self.root = new_root
         else:
             parent = self._find_parent(self.root, node)
@@ -143,8 +146,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From 8a135b6d4abaedfd13f6827da4b8bbe3df582bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 101/201] fix: the sweep line did not report where a segment
 starts or ends on another one

---
 .../numeric/algorithms/sweep_line/sweep_intersector.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..b1c5bef 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -133,6 +133,9 @@ class SweepIntersector():
                         sit = it;
                     else:   # passing segment
                         self.Y_structure.changeInf(sit,None)
+                        # <pSweep> is inside <s>, and on another segment too
+                        if s.p1 != v and s.p2 != v:
+                            self.isectDict[self.original[s]].append((v.x,v.y))
                         sit = self.Y_structure.pred(sit)
                         if (sr is not s) and (sr.p2 is self.pSweep):
                             self.assoc[s] = s
@@ -287,12 +290,6 @@ class SweepIntersector():
                 if q:
                     self.Y_structure.changeInf(sit0, self.X_structure.insert(q,sit0))
 
-                    # insert intersection point into result dictionary
-                    if s0.p1 != q and s0.p2 != q:
-                        self.isectDict[self.original[s0]].append((q.x,q.y))
-                    if s1.p1 != q and s1.p2 != q:
-                        self.isectDict[self.original[s1]].append((q.x,q.y))
-
     @staticmethod
     def inorderExtend(segment, v1, v2, points):
         # Extend a segment <segment> by <points> that are on
-- 
2.43.0


From 9c528ee60a6e6f6843b826cf4282be5923b8227b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 102/201] fix: deleting a key from a skip list deleted the keys
 before it, and locating one gave the first

---
 mmcore/numeric/algorithms/sweep_line/skiplist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 8511082..caec382 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -86,6 +86,7 @@ class SkipList():
             )
             if node.key == key:
                 return_value = node
+                prevs[level] = node.prev[level]
             else:
                 prevs[level] = node
 
@@ -125,6 +126,7 @@ class SkipList():
 
         for level in range(len(node.succ)):
             update[level].succ[level] = node.succ[level]
+            node.succ[level].prev[level] = update[level]
 
         # trim not used head pointers
         for i in reversed(range(len(self.head.succ))):
-- 
2.43.0


From 5ee3d8ec5837dd5a271b6379847a6f334a3e4155 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 103/201] fix: the difference of two intervals did not hold the
 differences of their numbers

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From f8816aed52a9ed71c06c7f32aa4e3d90aa4c77cb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 104/201] fix: an interval times or over a negative number had
 its ends swapped

---
 mmcore/numeric/interval/_interval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..6fd6d0c 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,16 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        products = [self.low * other, self.upp * other]
+        return Interval(min(products), max(products))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        quotients = [self.low / other, self.upp / other]
+        return Interval(min(quotients), max(quotients))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From 77684be65816e17e263ec8172dd56eb4be4ddf64 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 105/201] fix: dividing by an interval around zero gave a
 bounded interval

---
 mmcore/numeric/interval/_interval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 6fd6d0c..b34a219 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -54,9 +54,10 @@ class Interval:
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
-
-            reciprocals = [1 / other.low, 1 / other.upp]
-            return self * Interval(min(reciprocals), max(reciprocals))
+            if other.low < 0 < other.upp:
+                # The quotients are not bounded
+                return Interval(float('-inf'), float('inf'))
+            return self * ~other
         quotients = [self.low / other, self.upp / other]
         return Interval(min(quotients), max(quotients))
 
-- 
2.43.0


From 6c7ddfcac71ca7c9680742753b5922da697bc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 106/201] fix: powers of intervals around zero and with
 negative exponents missed numbers

---
 mmcore/numeric/interval/_interval.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b34a219..f88220e 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -156,10 +156,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -201,7 +198,10 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
+        if exp < 0:
+            return ~(self ** -exp)
         if exp % 2 == 0:
-            return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
+            low = 0 if exp and self.low < 0 < self.upp else min(self.low ** exp, self.upp ** exp)
+            return Interval(low, max(self.low ** exp, self.upp ** exp))
         else:
             return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
-- 
2.43.0


From 1234ab0e33c623508d526cf4dae1745d41a6b68f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 107/201] fix: an interval around a number was taken to be
 greater than it

---
 mmcore/numeric/interval/_interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index f88220e..539602a 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -74,7 +74,9 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        if self.upp < other:
+            return Comparison.TRUE
+        return Comparison.FALSE if self.low > other else Comparison.MAYBE
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From f18a63c37cf32a8a274bab7622b8fca9bd978ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 108/201] fix: an interval could not be made from its tuple

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 539602a..e65566f 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -187,7 +187,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From c7b6ad6a9544c14e7c6a6a579bfa5bf6f0c59efa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 109/201] fix: the parts of a bounding box split anywhere but
 in its middle were not its parts

---
 mmcore/geom/bvh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..debefd0 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -30,10 +30,9 @@ class BoundingBox:
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
 
     def split(self, axis=0, parameter=0.5):
-        left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
-        return left, right
+        right_min, left_max = np.copy(self.min_point), np.copy(self.max_point)
+        right_min[axis] = left_max[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis]) * parameter
+        return BoundingBox(self.min_point, left_max), BoundingBox(right_min, self.max_point)
 
     def get_corners(self):
         return get_aabb_corners_numpy(self.min_point, self.max_point)
-- 
2.43.0


From 57b53d70b4fd9aa50b5343fe0737403a01d7998d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 110/201] fix: a bounding box evaluated to points outside of it

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index debefd0..ecfc0e2 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -57,7 +57,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + (self.max_point - self.min_point) * uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From 7c8cd6f15bd5fca73cf5f73356af60fde1c9fccc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 111/201] fix: a bounding box kept its old size and centre when
 expanded

---
 mmcore/geom/bvh/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ecfc0e2..28f5df7 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -114,8 +114,7 @@ class BoundingBox:
             max(self.max_point[1], other.max_point[1]),
             max(self.max_point[2], other.max_point[2]),
         )
-        self.min_point[:]=new_min
-        self.max_point[:]=new_max
+        self.__init__(new_min, new_max)
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From 72e5b352ceebca85784706955e4bc3ee2c4dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 112/201] fix: building a bounding volume hierarchy reordered
 the list handed in

---
 mmcore/geom/bvh/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 28f5df7..feaeec5 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -364,7 +364,8 @@ def split_objects(objects):
     axis = np.argmax(max_centroid - min_centroid)
 
     # Sort objects along chosen axis by centroids
-    objects.sort(
+    objects = sorted(
+        objects,
         key=lambda obj: (
             obj.bounding_box.min_point[axis] + obj.bounding_box.max_point[axis]
         )
-- 
2.43.0


From eb7aae9b9430a92519d79cbd186bcc41ecdbce23 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 113/201] fix: a ray could not be intersected with a bounding
 volume hierarchy

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index feaeec5..eb62e42 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -843,7 +843,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 12b12e6881afc001c23a00e7c3e71b582baa3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 114/201] fix: the closest box found in a bounding volume
 hierarchy was not always the closest

---
 mmcore/geom/bvh/__init__.py | 39 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index eb62e42..797f20a 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -558,27 +558,26 @@ def _find_closest_breadth(bvh:BVHNode, point:NDArray[float])->tuple[list[Object3
     elif (bvh.left is not None) and (bvh.right  is not None):
         left_sd=sd_aabb(bvh.left.bounding_box._arr, point)
         right_sd = sd_aabb(bvh.right.bounding_box._arr, point)
-        if left_sd<right_sd:
-            return _find_closest_breadth(
-                bvh.left,point
-            )
-        elif left_sd>right_sd:
-            return _find_closest_breadth(
-                bvh.right,point
-            )
+        if left_sd<=right_sd:
+            near, far, far_sd = bvh.left, bvh.right, right_sd
         else:
-            left_obj, left_sd=_find_closest_breadth(
-                bvh.left, point
-            )
-            right_obj, right_sd=_find_closest_breadth(
-                bvh.right, point
-            )
-            if left_sd<right_sd:
-                return left_obj,left_sd
-            elif left_sd>right_sd:
-                return right_obj,right_sd
-            else:
-                return left_obj+right_obj,left_sd
+            near, far, far_sd = bvh.right, bvh.left, left_sd
+
+        near_obj, near_sd=_find_closest_breadth(
+            near, point
+        )
+        # An object is never closer than the box of the node it is in
+        if far_sd>near_sd:
+            return near_obj,near_sd
+        far_obj, far_sd=_find_closest_breadth(
+            far, point
+        )
+        if near_sd<far_sd:
+            return near_obj,near_sd
+        elif near_sd>far_sd:
+            return far_obj,far_sd
+        else:
+            return near_obj+far_obj,near_sd
 
     else:
         raise ValueError(f"Unknown condition: {bvh.bounding_box._arr.tolist()}, {bvh.left},{bvh.right}")
-- 
2.43.0


From 8b475636bac8bf246e1666dbdcb84308f4f7501e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 115/201] fix: segments and rays went through flat triangles of
 a mesh

---
 mmcore/geom/bvh/__init__.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 797f20a..650faa6 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -776,10 +776,9 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 
         if not aabb_intersect_fast_3d(current_bvh.bounding_box._arr,bb):
             continue
+        # The segment itself goes on: what a flat box leaves of it is a point, and rounding can put it off the box
         out = np.empty((2, 3))
-        current_segment = segment_aabb_clip(current_bvh.bounding_box._arr, segment,out )
-
-        if current_segment is None:
+        if segment_aabb_clip(current_bvh.bounding_box._arr, segment,out ) is None:
             continue
 
         if current_bvh.object is not None:
@@ -796,9 +795,9 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
                     c[ixs] = current_bvh.object.objects[ixs].c
 
                 point, flag = intersect_triangles_segment_one(a[:current_size], b[:current_size],
-                                                         c[:current_size], current_segment[0], current_segment[1], out_point)
+                                                         c[:current_size], segment[0], segment[1], out_point)
             else:
-                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,current_segment[0],current_segment[1],out_point)
+                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,segment[0],segment[1],out_point)
             if flag!=0:
                 return True,out_point,current_bvh.object
 
@@ -825,6 +824,19 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 # 120625
 
 from mmcore.numeric.vectors import dot_array_x_vec
+def _ray_segment(bvh:BVHNode, ray:Ray):
+    """
+    The segment of the ray from its origin to behind the box of the hierarchy, None if it misses the box.
+    (What lies inside of the box may be a single point, when the box is flat.)
+    """
+    segment=np.empty((2,3))
+    if segment_aabb_clip(bvh.bounding_box._arr, ray._arr, segment) is None:
+        return None
+    segment[0] = ray.start
+    segment[1] += ray.direction/MAX_FLOAT64*(1.0+scalar_norm(bvh.bounding_box.dims))
+    return segment
+
+
 def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
     """
     Determines the intersection of a BVH (Bounding Volume Hierarchy) node with a given ray.
@@ -842,7 +854,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
+    segm=_ray_segment(bvh, ray)
     if segm is None:
         return []
     else:
@@ -883,12 +895,10 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     :rtype: list[tuple[Point, Triangle, float]]
     """
     maybe = []
-    segment_out = np.empty((2,3))
-    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr, ray._arr,segment_out)
+    segment = _ray_segment(triangles_bvh, ray)
     if segment is None:
         return maybe
-    segment=segment_out
-    direction=segment[1]-segment[0]
+    direction=ray.direction/MAX_FLOAT64
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-- 
2.43.0


From 04bcae5a55c46f20ca9d4f51539b2a3d464fa7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 116/201] fix: remove a knot several times from the control
 points of the previous removal

---
 mmcore/geom/nurbs.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 56d8475..565d277 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -603,20 +603,20 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
     cdef double[:] ptn = np.zeros(dim, dtype=np.float64)
 
     for t in range(num):
-        memcpy(&temp[0], &ctrlpts[first - 1, 0], sizeof(double) * dim)
-        memcpy(&temp[(last - first + 2) * dim], &ctrlpts[last + 1, 0], sizeof(double) * dim)
+        memcpy(&temp[0], &ctrlpts_new[first - 1, 0], sizeof(double) * dim)
+        memcpy(&temp[(last - first + 2) * dim], &ctrlpts_new[last + 1, 0], sizeof(double) * dim)
         i = first
         j = last
         ii = 1
         jj = last - first + 1
         remflag = False
 
-        while j - i >= t:
+        while j - i > t:
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-                temp[ii * dim + k] = (ctrlpts[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
-                temp[jj * dim + k] = (ctrlpts[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
+                temp[ii * dim + k] = (ctrlpts_new[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
+                temp[jj * dim + k] = (ctrlpts_new[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
             i += 1
             j -= 1
             ii += 1
@@ -629,7 +629,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             for k in range(dim):
                 ptn[k] = (alpha_i * temp[(ii + t + 1) * dim + k]) + ((1.0 - alpha_i) * temp[(ii - 1) * dim + k])
-            if point_distance(&ctrlpts[i, 0], &ptn[0], dim) <= tol:
+            if point_distance(&ctrlpts_new[i, 0], &ptn[0], dim) <= tol:
                 remflag = True
 
         if remflag:
-- 
2.43.0


From d8e0e360d66ee20ad6ff8bb290987cc02e6b9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 117/201] fix: clipping a polygon by one apart from it gives an
 empty list

---
 mmcore/geom/polygon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 72622fd..83338e5 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -128,6 +128,9 @@ def clip(subjectPolygon, clipPolygon):
         cp2 = clipVertex
         inputList = outputList
         outputList = []
+        if len(inputList) == 0:
+            # nothing is left of the subject
+            break
         s = inputList[-1]
         for subjectVertex in inputList:
             e = subjectVertex
-- 
2.43.0


From 53939e4f61b7b8e748b7ea969412bff5553db91c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 118/201] fix: a vertex level with corners of a polygon, or
 beyond 1e6, is tested against it correctly

---
 mmcore/geom/polygon.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 83338e5..4ea4d6c 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -207,10 +207,13 @@ class Vertex:
         an odd number means it lies INSIDE it.
         """
         winding_number = 0
-        infinity = Vertex((1000000, self.y))
         for q in poly.__iter__():
-            if not q.intersect and intersect(self, infinity, q, poly.next(q.next)):
-                winding_number += 1
+            if not q.intersect:
+                n = poly.next(q.next)
+                # each edge holds its lower end only, so that a corner level with the point is counted once
+                if (q.y > self.y) != (n.y > self.y):
+                    if self.x < q.x + (self.y - q.y) * (n.x - q.x) / (n.y - q.y):
+                        winding_number += 1
 
         return (winding_number % 2) != 0
 
-- 
2.43.0


From c8dfa60b21fa1ee16c66c8006e9e3de3adc8510d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 119/201] fix: set operations on polygons that are apart or
 nested

---
 mmcore/geom/polygon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 4ea4d6c..e323c50 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -456,13 +456,15 @@ class Polygon:
                             pass  # this simply means intersect() returned None
 
         # phase two - identify entry/exit points
-        s_entry ^= self.head.isInside(clip)
+        s_inside, c_inside = self.head.isInside(clip), clip.head.isInside(self)
+        s_whole, c_whole = s_inside == s_entry, c_inside == c_entry
+        s_entry ^= s_inside
         for s in self.__iter__():
             if s.intersect:
                 s.entry = s_entry
                 s_entry = not s_entry
 
-        c_entry ^= clip.head.isInside(self)
+        c_entry ^= c_inside
         for c in clip.__iter__():
             if c.intersect:
                 c.entry = c_entry
@@ -496,7 +498,11 @@ class Polygon:
             list.append(clipped)
 
         if not list:
-            list.append(self)
+            # the boundaries do not cross: each counts as a whole or not at all
+            if s_whole:
+                list.append(self)
+            if c_whole:
+                list.append(clip)
 
         return list
 
-- 
2.43.0


From d00cbaaa6a2b04e6c382525d7cc8f40c709cc25c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 120/201] fix: a ruled surface maps [0, 1] onto the domains of
 its curves, in its derivatives too

---
 mmcore/geom/surfaces/__init__.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..8652887 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -451,35 +451,37 @@ class Ruled(Surface):
         super().__init__()
         self.c1, self.c2 = c1, c2
         self._intervals = np.array([np.array(c1.interval()), np.array(c2.interval())])
-        self._remap_u = scalar_dot(np.array((0., 1.)), self._intervals[0])
-        self._remap_v = scalar_dot(np.array((0., 1.)), self._intervals[1])
-        self._remap_uv = np.array([self._remap_u, self._remap_v])
+        self._start_uv = np.array(self._intervals[:, 0], dtype=float)
+        self._remap_uv = np.array(self._intervals[:, 1] - self._intervals[:, 0], dtype=float)
+        self._remap_u, self._remap_v = self._remap_uv
 
     def derivative_v(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
         return self.c2.evaluate(uc1uc2[1]) - np.array(self.c1.evaluate(uc1uc2[0]))
 
     def derivative_u(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return uv[1] * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        return (uv[1] * self._remap_v * np.asarray(self.c2.derivative(uc1uc2[1]))
+                + (1. - uv[1]) * self._remap_u * np.asarray(self.c1.derivative(uc1uc2[0])))
 
     def second_derivative_uu(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
-        return uv[1] * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.second_derivative(uc1uc2[0])
+        return (uv[1] * self._remap_v ** 2 * np.asarray(self.c2.second_derivative(uc1uc2[1]))
+                + (1. - uv[1]) * self._remap_u ** 2 * np.asarray(self.c1.second_derivative(uc1uc2[0])))
 
     def second_derivative_vv(self, uv):
         return np.zeros(3)
 
     def _remap_param(self, t):
-        return self._remap_uv * t
+        return self._start_uv + self._remap_uv * t
 
     def evaluate(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
         return (1. - uv[1]) * self.c1.evaluate(uc1uc2[0]) + uv[1] * self.c2.evaluate(uc1uc2[1])
     def evaluate_v2(self, u, v):
-        uc1uc2 = self._remap_uv * u
+        uc1uc2 = self._remap_param(u)
 
         return (1. - v) * self.c1.evaluate(uc1uc2[0]) + v * self.c2.evaluate(uc1uc2[1])
 
-- 
2.43.0


From fe94f84c329c04c881b105e49d99d52103130838 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 121/201] fix: the frame of a surface at a point is orthonormal

---
 mmcore/geom/surfaces/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 8652887..57c5274 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -264,6 +264,7 @@ class Surface:
         arr[1] /= scalar_norm(arr[1])
         arr[2] /= scalar_norm(arr[2])
         arr[2]-= arr[1]*scalar_dot(arr[2],arr[1])
+        arr[2] /= scalar_norm(arr[2])
 
 
         #n = scalar_cross(arr[0],    arr[1])
-- 
2.43.0


From f4077ff703a92e729c0bf109c70ba712fc13fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 122/201] fix: an isocurve without given ends runs over the
 whole domain

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 57c5274..c0b4baf 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -302,7 +302,7 @@ class Surface:
 
     def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
         start, end = self.interval()
-        kfc = list((*start, *end))
+        kfc = [start[0], end[0], start[1], end[1]]
         for i, val in enumerate((u0, v0, u1, v1)):
             if val < min(start):
                 continue
-- 
2.43.0


From f511dedc0758917d7a8cbf5f60989c540c41b36a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 123/201] fix: the hierarchy of a trim polygon is built from
 its corners

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index c0b4baf..bbe5810 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -123,7 +123,7 @@ class CurveOnSurface(Curve):
             self._polygon = self.curve(np.linspace(*self.curve.interval(), 50))[:, :2]
         self._edges = [(self._polygon[i], self._polygon[(i + 1) % len(self._polygon)]) for i in
                        range(len(self._polygon))]
-        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._edges))
+        self._bvh_uv_root = polygon_build_bvh(tuple(tuple(i) for i in self._polygon))
 
     def plane_at(self, t):
         O = self.evaluate(t)
-- 
2.43.0


From f9eaa6207512403d1e5579ad21cd421acb2eba64 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 124/201] fix: the local search for a closest point on a curve
 passes the domain as bounds, not as the step

---
 mmcore/numeric/closest_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 42a97b5..7358447 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -301,7 +301,7 @@ def local_closest_point_on_curve(curve, t0, point, tol=1e-3, **kwargs):
         # C' (u) •(C(u) - P)
         return scalar_dot(curve.derivative(t), curve.evaluate(t) - point)
 
-    dfun = bounded_fdm(fun, curve.interval())
+    dfun = bounded_fdm(fun, bounds=curve.interval())
     res = newton(fun, t0, fprime=dfun, tol=tol, **kwargs)
     return res, np.linalg.norm(curve.evaluate(res) - point)
 
-- 
2.43.0


From 3d5dbaf3212cb2511b371dd65ea8e188889f3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 125/201] fix: point inversion on a curve returns the parameter
 that met the tolerances, and measures the angle to the point

---
 mmcore/numeric/algorithms/point_inversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..88a128e 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -56,7 +56,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
 
         ui1 = ui - fi / fpi
 
-        if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+        step = abs(ui1 - ui) * scalar_norm(C_prime)
+        ui = ui1
+        if step <= tol1:
             break
         C_point = curve.evaluate(ui1)
 
@@ -65,10 +67,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         C_prime = curve.derivative(ui1)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
         C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
 
     return ui
 
-- 
2.43.0


From e0c3c9c4b8ccfc11d949d6c33b73ee0966d22289 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 126/201] fix: the vectorized minimum search goes on until
 every range is within the tolerance

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 58fc38b..b657f29 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -231,7 +231,7 @@ def divide_and_conquer_min_2d_vectorized(f, x_range, y_range, tol=1e-6):
     tol=tol/2
     x_min, x_max = x_range
     y_min, y_max = y_range
-    while np.all((x_max - x_min) > tol) or np.all((y_max - y_min) > tol):
+    while np.any((x_max - x_min) > tol) or np.any((y_max - y_min) > tol):
         x_mid = (x_min + x_max) / 2
         y_mid = (y_min + y_max) / 2
         # Evaluate the function at the corners and midpoints of the edges
-- 
2.43.0


From de2a40ffc10883246ce27eab8c08288bc507e275 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 127/201] fix: the closest point on a surface is in its domain
 also for a point beside its edge in the bounding tree

---
 mmcore/numeric/closest_point.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 7358447..60a5369 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -366,6 +366,9 @@ def closest_point_on_surface(self: Surface, pt, tol=1e-3, bounds=None):
         uv = newtons_method(wrp1, initial, tol=tol)
         if uv is None:
             raise ValueError('Newtons method failed to converge')
+        if not (umin <= uv[0] <= umax and vmin <= uv[1] <= vmax):
+            # The unbounded search left the surface: the closest point is on its boundary.
+            return np.array(divide_and_conquer_min_2d(wrp, (umin, umax), (vmin, vmax), tol))
         return uv
 
 
-- 
2.43.0


From 8a2334c86ca4ee7e9ce5be28f8d51dbe18d16465 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 128/201] fix: closest points on a surface are not limited to
 the boxes of the tree around the point

---
 mmcore/numeric/closest_point.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 60a5369..db643d2 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -392,15 +392,16 @@ def closest_points_on_surface(surface, pts, tol=1e-6):
 
     for i, pt in enumerate(pts):
         objects = contains_point(surface.tree, pt)
-        if len(objects) == 0:
-            uvs[i] = np.array(
-                divide_and_conquer_min_2d(objective, *surface.interval(), tol=tol)
-            )
-        else:
+        uvs[i] = np.array(
+            divide_and_conquer_min_2d(objective, *surface.interval(), tol=tol)
+        )
+        if len(objects) != 0:
+            # The boxes around the point are a good place to look, but the
+            # closest point need not be in their part of the surface.
             uvs_ranges = np.array(
                 list(itertools.chain.from_iterable(o.uvs for o in objects))
             )
-            uvs[i] = np.array(
+            uv = np.array(
                 divide_and_conquer_min_2d(
                     objective,
                     (np.min(uvs_ranges[..., 0]), np.max(uvs_ranges[..., 0])),
@@ -408,6 +409,8 @@ def closest_points_on_surface(surface, pts, tol=1e-6):
                     tol=tol,
                 )
             )
+            if objective(*uv) < objective(*uvs[i]):
+                uvs[i] = uv
     return uvs
 
 
-- 
2.43.0


From 97d907f74998a688014daf4837c5fe3d2676cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 129/201] fix: the finite differences of a function leave the
 point they are taken at alone, and take integer points

---
 mmcore/numeric/fdm.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..12bf331 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -430,7 +430,7 @@ def hessian(f, point, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     n = point.size
     H = np.zeros((n, n))
     fp = f(point)
@@ -472,15 +472,15 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
-
-        point[i] += h
+        value = point[i]
+        point[i] = value + h
         f_plus_h = f(point)
-        point[i] -= 2 * h
+        point[i] = value - h
         f_minus_h = f(point)
-        point[i] += h
+        point[i] = value
         grad[i] = (f_plus_h - f_minus_h) / (2 * h)
     return grad
 
@@ -560,7 +560,7 @@ def hessian_multi(f, points, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     n = points.shape[-1]
     H = np.zeros((points.shape[0], n, n))
     fp = f(points.T)
@@ -615,7 +615,7 @@ def gradient_multi(f, points, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     grad = np.zeros(points.shape)
 
     for i in range(points.shape[-1]):
-- 
2.43.0


From a16000ac201e793d4345d90cc7948d8e7d9b4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 130/201] fix: dz/dx divides by the derivative of x

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 12bf331..68a2d0a 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -197,7 +197,7 @@ class FDM:
         :return:
         """
         res = np.atleast_2d(self(t))
-        return res[..., 2] / res[..., 1]
+        return res[..., 2] / res[..., 0]
 
     def dzdy(self, t):
         """
-- 
2.43.0


From 5f7fe9fda551859293e7cb3dd05188a8b10705a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 131/201] fix: the numerical jacobian has a row for each
 function and a column for each variable

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 68a2d0a..f745716 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -600,7 +600,7 @@ def jac(fun, h=DEFAULT_H):
         H = np.eye(inp) * h
         z = np.zeros((inp, inp))
         for i in range(inp):
-            z[i, :] = (fun(t + H[i]) - fun(t - H[i])) / (2 * h)
+            z[:, i] = (fun(t + H[i]) - fun(t - H[i])) / (2 * h)
         return z
 
     return jac_wrap
-- 
2.43.0


From e2ce1fe29ef566fa3cdc72ffb5f5f23357e87d25 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 132/201] fix: the search for a minimum on an interval works
 when it is at an end

---
 mmcore/numeric/bisection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/bisection.py b/mmcore/numeric/bisection.py
index 39179cc..ae316b9 100644
--- a/mmcore/numeric/bisection.py
+++ b/mmcore/numeric/bisection.py
@@ -97,7 +97,7 @@ def scalar_min_1d(f, start, end, step=0.001, divs=32):
         if abs(t[0] - t[1]) <= step:
             return t[i]
         else:
-            ixs = np.array([i - 1, i + 1], int)
+            ixs = np.array([max(i - 1, 0), min(i + 1, divs - 1)], int)
 
             return wrap(t[ixs[0]], t[ixs[1]])
 
-- 
2.43.0


From 593679828fc36a0f990e5d7fcd74a367469dc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 133/201] fix: the search for all minima starts Newton's method
 from arrays

---
 mmcore/numeric/divide_and_conquer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index b657f29..fb4af37 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -462,7 +462,7 @@ def find_all_minima(f, x_range, y_range, grid_density=11, tol=1e-6):
     for x in x_vals:
         for y in y_vals:
             # Perform local minimization using scipy's minimize
-            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), [x, y], tol=tol2, max_iter=8,
+            result, *other = newtons_method(lambda coords: f(coords[0], coords[1]), np.array([x, y]), tol=tol2, max_iter=8,
                                             no_warn=True, full_return=True)
 
             if result is not None:
-- 
2.43.0


From 944009ef9aa7a761cba3ab7aac1c2e773e101830 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 134/201] fix: the search for a minimum in three or more
 variables looks at all the corners and midpoints

---
 mmcore/numeric/divide_and_conquer.py | 71 ++--------------------------
 1 file changed, 5 insertions(+), 66 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index fb4af37..0056c82 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -302,51 +302,10 @@ def divide_and_conquer_min_3d(f, x_range, y_range, z_range, tol=1e-3):
         y_mid = (y_min + y_max) / 2
         z_mid = (z_min + z_max) / 2
 
-        # Evaluate the function at the corners of the cube and midpoints of the edges
-        f000 = f(x_min, y_min, z_min)
-        f100 = f(x_max, y_min, z_min)
-        f010 = f(x_min, y_max, z_min)
-        f110 = f(x_max, y_max, z_min)
-        f001 = f(x_min, y_min, z_max)
-        f101 = f(x_max, y_min, z_max)
-        f011 = f(x_min, y_max, z_max)
-        f111 = f(x_max, y_max, z_max)
-
-        f_mid_x_min_y_min = f(x_mid, y_min, z_min)
-        f_mid_x_max_y_min = f(x_mid, y_max, z_min)
-        f_mid_x_min_y_max = f(x_min, y_mid, z_min)
-        f_mid_x_max_y_max = f(x_max, y_mid, z_min)
-        f_mid_z_min = f(x_mid, y_mid, z_min)
-
-        f_mid_x_min_z_max = f(x_min, y_min, z_mid)
-        f_mid_x_max_z_max = f(x_max, y_min, z_mid)
-        f_mid_y_min_z_max = f(x_min, y_max, z_mid)
-        f_mid_y_max_z_max = f(x_max, y_max, z_mid)
-        f_mid_z_max = f(x_mid, y_mid, z_max)
-
-        f_mid_xyz = f(x_mid, y_mid, z_mid)
-
-        # Create a list of (value, coordinates) pairs
+        # Evaluate the function at the corners of the cube, the midpoints of the edges and of the faces, and the center
         candidates = [
-            (f000, (x_min, y_min, z_min)),
-            (f100, (x_max, y_min, z_min)),
-            (f010, (x_min, y_max, z_min)),
-            (f110, (x_max, y_max, z_min)),
-            (f001, (x_min, y_min, z_max)),
-            (f101, (x_max, y_min, z_max)),
-            (f011, (x_min, y_max, z_max)),
-            (f111, (x_max, y_max, z_max)),
-            (f_mid_x_min_y_min, (x_mid, y_min, z_min)),
-            (f_mid_x_max_y_min, (x_mid, y_max, z_min)),
-            (f_mid_x_min_y_max, (x_min, y_mid, z_min)),
-            (f_mid_x_max_y_max, (x_max, y_mid, z_min)),
-            (f_mid_z_min, (x_mid, y_mid, z_min)),
-            (f_mid_x_min_z_max, (x_min, y_min, z_mid)),
-            (f_mid_x_max_z_max, (x_max, y_min, z_mid)),
-            (f_mid_y_min_z_max, (x_min, y_max, z_mid)),
-            (f_mid_y_max_z_max, (x_max, y_max, z_mid)),
-            (f_mid_z_max, (x_mid, y_mid, z_max)),
-            (f_mid_xyz, (x_mid, y_mid, z_mid))
+            (f(*coords), coords)
+            for coords in itertools.product((x_min, x_mid, x_max), (y_min, y_mid, y_max), (z_min, z_mid, z_max))
         ]
 
         # Find the minimum value and its coordinates
@@ -383,28 +342,8 @@ def divide_and_conquer_min_nd(f, bounds, tol=1e-6):
     while any((maxs[i] - mins[i]) > tol for i in range(n_vars)):
         mids = [(mins[i] + maxs[i]) / 2 for i in range(n_vars)]
 
-        # Evaluate function depending on the dimensionality of the problem
-        candidates = []
-
-        # For the 2D case, consider dividing along one dimension to generate two curves
-        if n_vars == 2:
-            for i in range(n_vars):
-                for corner in [0, 1]:
-                    point = [mins[j] if j != i else (mins[i] + maxs[i]) / 2 for j in range(n_vars)]
-                    candidates.append((f(*point), point))
-
-        # For the 3D case, consider dividing along two dimensions to generate four surfaces
-        elif n_vars == 3:
-            for corner in itertools.product([0, 1], repeat=2):  # Generate four surfaces
-                point = [mins[i] if corner[i % 2] == 0 else maxs[i] for i in range(n_vars)]
-                candidates.append((f(*point), point))
-
-        # For higher dimensions, we consider more flexible subdivision strategies
-        else:
-            for corner in itertools.product([0, 1], repeat=n_vars):
-                # Generate all corner points
-                point = [mins[i] if corner[i] == 0 else maxs[i] for i in range(n_vars)]
-                candidates.append((f(*point), point))
+        # Evaluate the function at the corners and at the midpoints along every subset of the variables
+        candidates = [(f(*point), point) for point in itertools.product(*zip(mins, mids, maxs))]
 
         # Find the minimum value and its coordinates
         min_val, min_coords = min(candidates, key=lambda item: item[0])
-- 
2.43.0


From 0ff1d5c0d12bffb6b9322e46048d596049f4b71b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 135/201] fix: the step of the second differences is not so
 small that rounding drowns them

---
 mmcore/numeric/newton/cnewton.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..9763c7b 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -27,6 +27,8 @@ from libc.math cimport fabs
 
 
 cdef double DEFAULT_H = 1e-7
+# Second differences divide by the square of the step: it has to be larger.
+cdef double DEFAULT_HESSIAN_H = 1e-5
 
 cdef inline void swap_rows(double[:, :] LU, Py_ssize_t row1, Py_ssize_t row2) noexcept nogil:
     cdef Py_ssize_t n = LU.shape[1]
@@ -103,7 +105,7 @@ cdef inline bint solve(double[:, :] A, double[:] b, double[:] result):
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-def hessian(f, double[:] point, double h=DEFAULT_H):
+def hessian(f, double[:] point, double h=DEFAULT_HESSIAN_H):
     """
     Calculate the Hessian matrix of a given function `f` at a given `point`.
 
-- 
2.43.0


From 1756f525c8f56739228e17924a59fafe7f5b2861 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 136/201] fix: Newton's method for systems solves for the
 unknowns in their order when rows were exchanged

---
 mmcore/numeric/newton/cnewton.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 9763c7b..6a452c1 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -316,7 +316,7 @@ cdef inline int lu_factorize(double[:, ::1] A,
 cdef inline int lu_solve(double[:, ::1] A,
              int n,
              int[::1] pivot_indices,
-             double[::1] b) noexcept nogil:
+             double[::1] b):
     """
     Solve A x = b after A has been LU-factorized in place.
     pivot_indices is the list of row permutations done during factorization.
@@ -326,6 +326,7 @@ cdef inline int lu_solve(double[:, ::1] A,
     cdef:
         int i, j
         double sum_val
+        double[::1] x = np.empty(n, dtype=np.float64)
 
     # 1. Forward substitution for L
     for i in range(n):
@@ -343,6 +344,12 @@ cdef inline int lu_solve(double[:, ::1] A,
             return 1  # singular
         b[pivot_indices[i]] = sum_val / A[pivot_indices[i], i]
 
+    # 3. The i-th unknown was found in the row of the i-th pivot
+    for i in range(n):
+        x[i] = b[pivot_indices[i]]
+    for i in range(n):
+        b[i] = x[i]
+
     return 0
 
 
-- 
2.43.0


From ec39393e7085f1ad983e143c99ea7a29a37de6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 137/201] fix: the dot product of geom.vec is defined

---
 mmcore/geom/vec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..b3a7c2c 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,7 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    return np.sum(np.multiply(a, b), axis=-1)
 
 def perp2d(v):
     """
-- 
2.43.0


From d8ce1b584c9d09c5b9f4cf7c760e1a23c139d473 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 138/201] fix: the angle between unit vectors allows for the
 rounding of their product

---
 mmcore/geom/vec/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index b3a7c2c..7b3aa5a 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -58,10 +58,11 @@ def angle(a, b):
             raise ValueError("Both input vectors must be normalized.")
 
     cos_angle = np.dot(a, b)
-    if cos_angle < -1 or cos_angle > 1:
+    if cos_angle < -1 - 1e-9 or cos_angle > 1 + 1e-9:
         raise ValueError("Dot product must be in the range [-1, 1]. Please check your input vectors.")
 
-    return np.arccos(np.dot(a, b))
+    # The product of unit vectors can exceed the range by rounding.
+    return np.arccos(np.clip(cos_angle, -1.0, 1.0))
 
 
 
-- 
2.43.0


From 3dd1b81a72d6e4300e223df286da1cfee38b20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 139/201] fix: unit takes lists and whole numbers

---
 mmcore/geom/vec/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 7b3aa5a..37e568f 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -131,6 +131,7 @@ def unit(v: 'list|tuple|np.ndarray') -> np.ndarray:
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
 
+    v = np.asarray(v, dtype=float)
     return np.array(vectors.scalar_unit(v) )if len(v.shape)==1 else np.array(vectors.unit(v))
 
 
-- 
2.43.0


From 0457f9ea5c04917e9ab0adb4bf46b962613a1098 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 140/201] fix: orthonormalize leaves its arguments alone

---
 mmcore/geom/vec/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 37e568f..026b5a9 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -303,7 +303,7 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
@@ -312,8 +312,8 @@ Out:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
-    w -= v * np.dot(v, w)
+    w = w - u * np.dot(u, w)
+    w = w - v * np.dot(v, w)
 
     # Re-normalize w
     if (np.linalg.norm(w) > 1e-10):
-- 
2.43.0


From 26768eb50aa9c83563e249dfba0a7ce4e441073a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 141/201] fix: operations of vectors in place keep the vector

---
 mmcore/api/_base_vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index d77e1b5..3d199d3 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -32,6 +32,7 @@ class BaseVector(Base):
             self._array += other._array
         else:
             self._array += other
+        return self
 
     def __mul__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -44,6 +45,7 @@ class BaseVector(Base):
             self._array *= other._array
         else:
             self._array *= other
+        return self
 
     def __sub__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -56,6 +58,7 @@ class BaseVector(Base):
             self._array -= other._array
         else:
             self._array -= other
+        return self
 
     def __eq__(self, other: V):
         return np.allclose(self._array, other._array)
-- 
2.43.0


From 85de8b35902ac6abeb597f2f9ee776ac511b15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 142/201] fix: angles and parallelism of vectors do not depend
 on their length

---
 mmcore/api/_base_vectors.py | 4 ++--
 mmcore/api/vectors.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 3d199d3..d4a1701 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -88,7 +88,7 @@ class BaseVector(Base):
         vector : The vector to measure the angle to.
         The angle in radians between this vector and the specified vector.
         """
-        return angle(self._array, vector._array)
+        return angle(unit(self._array), unit(vector._array))
 
     def is_equal(self, vector: Type[Self]) -> bool:
         """
@@ -138,7 +138,7 @@ class BaseVector(Base):
         vector : The vector to test parallelism to.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(abs(self.dot(vector)), 1.0)
+        return np.isclose(abs(self.dot(vector)), self.length * vector.length)
 
     def is_perpendicular(self, vector: Type[Self]) -> bool:
         """
diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index a405c84..3bb89f9 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -61,7 +61,7 @@ class Vector2D(BaseVector):
         vector : The vector to compare with for parallelism.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(scalar_dot(self._array, vector._array), 1)
+        return super().is_parallel(vector)
 
     def is_perpendicular(self, vector: Vector2D) -> bool:
         """
-- 
2.43.0


From 91730bc5622e90a35061acd877c5660fc0d5fcba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 143/201] fix: the length of a vector in space

---
 mmcore/api/vectors.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 3bb89f9..dabc520 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -236,13 +236,6 @@ class Vector3D(BaseVector):
         m.translation = self
         return m
 
-    @property
-    def length(self) -> float:
-        """
-        Get the length of this vector.
-        """
-        return dist(self._array)
-
     @property
     def x(self) -> float:
         """
-- 
2.43.0


From 8c32fb6c9300240ed297a614f916c56157cc72dd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 144/201] fix: vectors are transformed by matrices

---
 mmcore/api/vectors.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index dabc520..d879a65 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -106,8 +106,7 @@ class Vector2D(BaseVector):
         matrix : The Matrix2D object that defines the transformation.
         Returns true if successful.
         """
-        self._array[:] = matrix._array.dot(self._array)
-
+        self._array[:] = (matrix @ self)._array
         return True
 
     def as_point(self) -> Point2D:
@@ -225,7 +224,7 @@ class Vector3D(BaseVector):
         matrix : The transformation matrix.
         Returns true if successful.
         """
-        self._array[:] = matrix.m.dot(self._array)
+        self._array[:] = (matrix @ self)._array
         return True
 
     def __array__(self, dtype=float):
-- 
2.43.0


From 31b7c7d7dd8e1e12255af68cfa082b4d3d137b9d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 145/201] fix: matrices are created from their cells

---
 mmcore/api/vectors.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index d879a65..b4b5968 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -335,11 +335,10 @@ class Matrix2D(BaseMatrix):
     def __init__(self, arr=None):
         super().__init__()
         self._array = (
-            np.zeros([3, 3])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
+            np.eye(3)
+            if arr is None
+            else np.array(arr, float).reshape((3, 3))
         )
-        self.set_to_identity()
 
     @staticmethod
     def cast(arg) -> Matrix2D:
@@ -469,11 +468,10 @@ class Matrix3D(BaseMatrix):
     def __init__(self, arr=None):
         super().__init__()
         self._array = (
-            np.zeros([4, 4])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
+            np.eye(4)
+            if arr is None
+            else np.array(arr, float).reshape((4, 4))
         )
-        self.set_to_identity()
 
     @classmethod
     def create(cls) -> Matrix3D:
-- 
2.43.0


From b02a7663c8e66f97be5f15ea05ae79a998616826 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 146/201] fix: the axes and the origin of a coordinate system
 are the columns of its matrix

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index b4b5968..02aae6d 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -301,7 +301,7 @@ def _construct_affine2d(origin, xaxis, yaxis):
     t = np.array(origin)  # translation along x, y and z axis
 
     # Construct the 4x4 affine matrix
-    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)])
+    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)]).T
 
     return affine_matrix
 
@@ -320,7 +320,7 @@ def _construct_affine3d(origin, xaxis, yaxis, zaxis):
     # Construct the 4x4 affine matrix
     affine_matrix = np.array(
         [np.append(x, 0), np.append(y, 0), np.append(z, 0), np.append(t, 1)]
-    )
+    ).T
 
     return affine_matrix
 
-- 
2.43.0


From 55477f390c1ef88503dc5c80d5962f7e239f0487 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 147/201] fix: matrices that align coordinate systems map one
 to the other

---
 mmcore/api/vectors.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 02aae6d..21f1433 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -390,10 +390,14 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis)
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis)
+        from_ = _construct_affine2d(
+            fromOrigin.as_array(), fromXAxis.as_array(), fromYAxis.as_array()
+        )
+        to_ = _construct_affine2d(
+            toOrigin.as_array(), toXAxis.as_array(), toYAxis.as_array()
+        )
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(self, _from: Vector2D, to: Vector2D) -> bool:
@@ -539,12 +543,20 @@ class Matrix3D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(
-            fromOrigin, fromXAxis, fromYAxis, fromZAxis
+        from_ = _construct_affine3d(
+            fromOrigin.as_array(),
+            fromXAxis.as_array(),
+            fromYAxis.as_array(),
+            fromZAxis.as_array(),
+        )
+        to_ = _construct_affine3d(
+            toOrigin.as_array(),
+            toXAxis.as_array(),
+            toYAxis.as_array(),
+            toZAxis.as_array(),
         )
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis, toZAxis)
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = to_.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(
-- 
2.43.0


From 87d7b07c594e7d295edde31004d091e3f0d2d57b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 148/201] fix: rotations about a point leave the point where it
 is

---
 mmcore/api/vectors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 21f1433..d827e9d 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -414,13 +414,15 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to the matrix of rotation by the specified angle, through the specified origin.
         """
+        self.set_to_identity()
         self._array[:2, :2] = np.array(
             [[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]]
         )
 
         if origin is not None:
             # If the rotation center is not at the origin, translate
-            self._array[:2, 2] = origin - origin @ self._array[:2, :2]
+            origin = np.asarray(origin)
+            self._array[:2, 2] = origin - self._array[:2, :2] @ origin
         return True
 
     def get_as_coordinate_system(self) -> tuple[Point2D, Vector2D, Vector2D]:
@@ -588,9 +590,11 @@ class Matrix3D(BaseMatrix):
                 "Axis and origin must be Vector3D and Point3D instances respectively"
             )
 
+        axis, origin = unit(axis.as_array()), origin.as_array()
         r = R.from_rotvec(np.radians(angle) * axis)
+        self.set_to_identity()
         self._array[:3, :3] = r.as_matrix()
-        self._array[:3, 3] = origin
+        self._array[:3, 3] = origin - self._array[:3, :3] @ origin
         return True
 
     @property
-- 
2.43.0


From f07b09d91366a8b74f8c0450d1358d5c10d9d429 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 149/201] fix: the rotation from one direction in space to
 another

---
 mmcore/api/vectors.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index d827e9d..fdb959d 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -567,17 +567,19 @@ class Matrix3D(BaseMatrix):
         """
         Sets to the matrix of rotation that would align the 'from' vector with the 'to' vector.
         """
-        rotvec = _from.cross(to)
+        a, b = unit(_from.as_array()), unit(to.as_array())
+        rotvec = np.asarray(cross(a, b))
         if np.allclose(rotvec, 0):
             # Vectors are either parallel or opposite
-            if _from.dot(to) < 0 and axis is not None:
-                # Vectors are opposite, use given axis for rotation
-                rotvec = axis
-        else:
-            return False
-
-        ang = np.arccos(np.clip(_from.dot(to), -1.0, 1.0))
-        r = R.from_rotvec(ang * rotvec.as_array())
+            if np.dot(a, b) > 0:
+                return self.set_to_identity()
+            if axis is None:
+                return False
+            # Vectors are opposite, use given axis for rotation
+            rotvec = axis.as_array()
+
+        r = R.from_rotvec(np.arccos(np.clip(np.dot(a, b), -1.0, 1.0)) * unit(rotvec))
+        self.set_to_identity()
         self._array[:3, :3] = r.as_matrix()
         return True
 
-- 
2.43.0


From 74d083949c997f9d367046ac3edd03367f037f7e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 150/201] fix: bounding boxes of whole numbers

---
 mmcore/api/bbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..ea280fa 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -34,7 +34,7 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         self.max = self.__point_class__()
         self.min = self.__point_class__()
         if pts is not None:
-            self.set_from_array(np.array(pts))
+            self.set_from_array(np.array(pts, dtype=float))
 
     def __array__(self, dtype=float):
         return np.array([self.max._array, self.min._array], dtype=dtype)
-- 
2.43.0


From 86b8050be984d2a061f572e1981d06f2ab7b6660 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 151/201] fix: a bounding box created from two points or copied
 has its minimum and maximum in place

---
 mmcore/api/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index ea280fa..1f5a504 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point)
+        self.max = cls.__point_class__.cast(max_point)
         return self
 
     @classmethod
-- 
2.43.0


From ce03865f961c88594e519aa5a3ddf342d8d61500 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 152/201] fix: a bounding box in space contains a point only
 within its height

---
 mmcore/api/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 1f5a504..4fad223 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -321,7 +321,9 @@ class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
         """
 
         return (
-            self.max.x >= point.x >= self.min.x and self.max.y >= point.y >= self.min.y
+            self.max.x >= point.x >= self.min.x
+            and self.max.y >= point.y >= self.min.y
+            and self.max.z >= point.z >= self.min.z
         )
 
     def expand(self, point: Point3D) -> bool:
-- 
2.43.0


From f7676c3f1ed07186a1a68c0bcfc89be422fc15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 153/201] fix: plane bounding boxes that cross each other have
 an intersection

---
 mmcore/api/bbox.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 4fad223..f07bf33 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -273,14 +273,15 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return True
 
     def intersection(self, other: BoundingBox2D):
-        pts = []
-        for pt in self.to_vertices():
-            if other.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        for pt in other.to_vertices():
-            if self.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        return BoundingBox2D.create_from_array(np.array(pts))
+        # If the bounding boxes do not intersect, return None.
+        if not self.intersects(other):
+            return None
+        return BoundingBox2D.create_from_array(
+            [
+                np.maximum(self.min._array, other.min._array),
+                np.minimum(self.max._array, other.max._array),
+            ]
+        )
 
 
 class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
-- 
2.43.0


From 1be985024fe291fd26fbc2d9a0f7222f8349ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 154/201] fix: the parameters of the intersection of two lines
 have the right sign

---
 mmcore/api/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index 62d9045..d6dd91d 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -349,7 +349,7 @@ def line_line_intersection(
         # Lines are parallel, return None
         return False, np.nan, np.nan
     else:
-        w = start1 - start2
+        w = start2 - start1
         # Calculate parameters for point of intersection
         s1 = (
             dot(cross(w._array, vec2._array), cross_product)
-- 
2.43.0


From c6d0e69149c5c5da8c2d8c64af9fef6e27079929 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 155/201] fix: lines of the object API can be created

---
 mmcore/api/curves.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index d6dd91d..d01e948 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -225,6 +225,9 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
     def __call__(self, t):
         return self.start_point._array + self.direction._array * t
 
+    def evaluate(self, t):
+        return self(t)
+
     @property
     def origin(self) -> Point3D:
         """
-- 
2.43.0


From b987531dcba1feac9920124d047eb93cf3742d28 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 156/201] fix: lines in space intersect where they meet, at the
 parameters of each

---
 mmcore/api/curves.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mmcore/api/curves.py b/mmcore/api/curves.py
index d01e948..9163a8d 100644
--- a/mmcore/api/curves.py
+++ b/mmcore/api/curves.py
@@ -171,14 +171,13 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
     def intersect_with_line(
         self, line: Union[Line3D, InfiniteLine3D], rtol=1e-5, atol=1e-5
     ) -> tuple[bool, float, float]:
-        t1, t2, z = line_line_tsz(
-            (self.start_point._array, self.end_point._array),
-            (line.start_point._array, line.end_point._array),
-        )
+        _, t1, t2 = line_line_intersection(self, line)
+        # Skew lines have a gap, for parallel ones the parameters are nan.
+        z = self(t1) - line(t2)
 
         if isinstance(line, InfiniteLine3D):
             return (
-                all([np.allclose(z, 0, rtol=rtol, atol=atol), (0 <= t1 <= 1)]),
+                bool(np.allclose(z, 0, rtol=rtol, atol=atol)),
                 t1,
                 t2,
             )
@@ -187,7 +186,6 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
                 all(
                     [
                         np.allclose(z, 0, rtol=rtol, atol=atol),
-                        (0 <= t1 <= 1),
                         (0 <= t2 <= 1),
                     ]
                 ),
@@ -204,11 +202,11 @@ class BaseLine3D(Curve3D, metaclass=ABCMeta):
         Returns a collection of the intersection points
         """
         if isinstance(curve, Line3D):
-            success, t = self.intersect_with_line(curve)
+            success, *t = self.intersect_with_line(curve)
             if not success:
                 return []
             else:
-                return [(Point3D(self(tt[0])), tt) for tt in t]
+                return [(Point3D(self(t[0])), t)]
         return super().intersect_with_curve(curve)
 
     @abstractmethod
@@ -426,10 +424,9 @@ class Line3D(BaseLine3D):
     def intersect_with_line(
         self, line: Union[Line3D, InfiniteLine3D], rtol=1e-5, atol=1e-5
     ) -> tuple[bool, float, float]:
-        t1, t2, z = line_line_tsz(
-            (self.start_point._array, self.end_point._array),
-            (line.start_point._array, line.end_point._array),
-        )
+        _, t1, t2 = line_line_intersection(self, line)
+        # Skew lines have a gap, for parallel ones the parameters are nan.
+        z = self(t1) - line(t2)
 
         if isinstance(line, InfiniteLine3D):
             return (
-- 
2.43.0


From 6075c06e0bf48526ce29bb60e51444f4a149b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 157/201] fix: binomial coefficients past the table are not
 read from beside it

---
 mmcore/numeric/binom.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmcore/numeric/binom.pyx b/mmcore/numeric/binom.pyx
index 67df244..61c9063 100644
--- a/mmcore/numeric/binom.pyx
+++ b/mmcore/numeric/binom.pyx
@@ -3,6 +3,8 @@ cimport cython
 
 cimport numpy as cnp
 
+from math import comb
+
 
 cnp.import_array()
 cdef public double[31][31] binomial_coefficients=[[1.0,
@@ -975,5 +977,9 @@ cdef public double binomial_coefficient(int i, int j) noexcept nogil:
 @cython.wraparound(False)
 @cython.cdivision(True)
 def binomial_coefficient_py(int i, int j):
+    if j < 0 or j > i:
+        return 0.0
+    if i > 30:
+        return float(comb(i, j))
     return binomial_coefficients[i][j]
 
-- 
2.43.0


From 5c8e181514bb9b4bf1d08844d1d5261ceb421e49 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 158/201] fix: a polynomial patch is converted between its
 monomial and its Bezier form, not relabelled

---
 mmcore/numeric/monomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..2ceeb5f 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -295,12 +295,14 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(monomial_to_bezier(self.coeffs), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        if not np.allclose(np.array(surf.control_points_w)[..., 3], 1.):
+            raise NotImplementedError("The transformation for rational surfaces has not been implemented at this time.")
+        return cls(bezier_to_monomial(np.array(surf.control_points)))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From 85ce678df565720e85161a04c854298c5b0c9038 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 159/201] fix: the cross product of two polynomial patches does
 not print its indices

---
 mmcore/numeric/monomial.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 2ceeb5f..23c2153 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,8 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
-
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
         result[i, j, 0] += (
-- 
2.43.0


From 5b467f143bc0976093f66057a7deee4402be903c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 160/201] fix: the derivative of a polynomial patch of degree
 zero is a zero patch, not an empty one

---
 mmcore/numeric/monomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 23c2153..c07b62a 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -227,13 +227,13 @@ def monomial_partial_derivatives(coeffs):
     """
     n, m, dim = coeffs.shape
 
-    # Partial derivative with respect to u
-    du_coeffs = np.zeros((n - 1, m, dim))
+    # Partial derivative with respect to u. The derivative of a constant is the zero constant
+    du_coeffs = np.zeros((max(n - 1, 1), m, dim))
     for i in range(1, n):
         du_coeffs[i - 1, :, :] = i * coeffs[i, :, :]
 
     # Partial derivative with respect to v
-    dv_coeffs = np.zeros((n, m - 1, dim))
+    dv_coeffs = np.zeros((n, max(m - 1, 1), dim))
     for j in range(1, m):
         dv_coeffs[:, j - 1, :] = j * coeffs[:, j, :]
 
-- 
2.43.0


From 6eb1fbfd0824505fe6e2edab83a355d37b8bb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 161/201] fix: mmcore.numeric.gauss_map can be imported first

---
 mmcore/numeric/gauss_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 926fc2f..87c0494 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -8,8 +8,6 @@ from mmcore.geom.nurbs import NURBSSurface, subdivide_surface, decompose_surface
 from mmcore.numeric.algorithms.quicksort import unique
 
 from mmcore.numeric.algorithms.surface_area import v_min
-from mmcore.numeric.intersection.csx import nurbs_csx
-from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
 from mmcore.numeric.monomial import bezier_to_monomial, monomial_to_bezier
 from mmcore.numeric.vectors import unit, scalar_dot, scalar_norm
 from mmcore.numeric.algorithms.cygjk import gjk
@@ -648,6 +646,8 @@ def detect_intersections(surf1, surf2, tol=0.1, debug_tree: DebugTree=None) -> l
 
 if __name__ == "__main__":
     from mmcore._test_data import ssx as td
+    from mmcore.numeric.intersection.csx import nurbs_csx
+    from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
 
     S1, S2 = td[1]
     TOL=1e-2
-- 
2.43.0


From 51ba742e375a7aebb4d2d99e3f5134fe21de37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 162/201] fix: is_bezier looks at the knots of both directions

---
 mmcore/numeric/gauss_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 87c0494..4767736 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -108,11 +108,11 @@ def cross_product(a, b):
 
 
 def is_bezier(surface: NURBSSurface):
-    kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
-    if kv.shape[0] < 2 or ku.shape[0] < 2:
+    ku, kv = np.unique(surface.knots_u).shape[0], np.unique(surface.knots_v).shape[0]
+    if kv < 2 or ku < 2:
         raise ValueError("Degenerated patch")
 
-    return kv.shape[0] == 2 and ku.shape[0] == 2
+    return kv == 2 and ku == 2
 
 
 def normalize_polynomial(v, epsilon=1e-10):
-- 
2.43.0


From d1b5f97299f76426849d1df47b00491c4b5bfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 163/201] fix: the Gauss map of a rational patch multiplies
 polynomials, not their coefficients one by one

---
 mmcore/numeric/gauss_map.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 4767736..0a62307 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -86,6 +86,16 @@ def compute_partial_derivative(coeffs, variable):
     return deriv
 
 
+def product(a, b):
+    """Compute product of two polynomial patches of the same degree, one of which may be scalar."""
+    n, m, _ = a.shape
+    result = np.zeros((2 * n - 1, 2 * m - 1, max(a.shape[2], b.shape[2])))
+    for i in range(n):
+        for j in range(m):
+            result[i : i + n, j : j + m] += a[i, j] * b
+    return result
+
+
 def cross_product(a, b):
     """Compute cross product of two 3D polynomial patches."""
     n, m, _ = a.shape
@@ -154,11 +164,10 @@ def compute_gauss_mapw(control_points, weights=None):
 
     if weights is not None:
         # Handle rational case
-        w = F[:, :, -1]
-        Fu = Fu[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fu[:, :, -1:]
-        Fv = Fv[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fv[:, :, -1:]
-        Fu = Fu / (w ** 2)[:, :, np.newaxis]
-        Fv = Fv / (w ** 2)[:, :, np.newaxis]
+        # The common factor 1/w**2 of the derivatives is positive, it does not change the direction of the normal
+        P, w = F[:, :, :3], F[:, :, -1:]
+        Fu = product(Fu[:, :, :3], w) - product(P, Fu[:, :, -1:])
+        Fv = product(Fv[:, :, :3], w) - product(P, Fv[:, :, -1:])
 
     N = cross_product(Fu, Fv)
     #N_normalized = normalize_polynomial(N)
-- 
2.43.0


From 464b5abdfac298523ba0fd01548637a3f7fc675e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 164/201] fix: the difference of two implicit shapes is the
 first without the second, not the other way round

---
 mmcore/geom/implicit/implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..a1e4e47 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,7 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +451,7 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From 95fa1aa8dbcff440097b072f7370e947e9feb881 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 165/201] fix: the intersection of two plane implicit shapes
 can be created

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index a1e4e47..945a661 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From e50101f655b0497cb36a129e375707cbca3f9515 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 166/201] fix: implicit shapes are evaluated at many points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 945a661..270a85d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From 6447f97307d4994a956daee24f911e97ad86b83c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 167/201] fix: the tree of a plane implicit shape is built, in
 the bounds it was given

---
 mmcore/geom/implicit/implicit.py    | 1 +
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 270a85d..316558d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -262,6 +262,7 @@ class Implicit2D(Implicit):
 
     def build_tree(self, depth=3):
         self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        self._tree.build(depth=depth)
 
 
 from mmcore.numeric.fdm import DEFAULT_H
diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2c82dd8 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
-- 
2.43.0


From 5bdd07e90f39512a5a6c4da8963920c13fd0e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 168/201] fix: the tree of an implicit body takes bounds of any
 sequence type, those of the primitives included

---
 mmcore/geom/implicit/tree/tree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree3d.py b/mmcore/geom/implicit/tree/tree3d.py
index 3a6b705..175523b 100644
--- a/mmcore/geom/implicit/tree/tree3d.py
+++ b/mmcore/geom/implicit/tree/tree3d.py
@@ -18,7 +18,7 @@ class ImplicitTree3D:
 
     def build_tree(self):
         minb, maxb = self.bounds
-        self._tree = build_tree3d(minb, maxb, self.depth)
+        self._tree = build_tree3d(tuple(minb), tuple(maxb), self.depth)
 
     def collapse(self):
         self._collapsed_tree = collapse3d(getattr(self.shape, 'implicit', self.shape), self._tree)
-- 
2.43.0


From 282cdb78068483d15079cd5408d747ad258149b6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 169/201] fix: the relative tolerance of implicit features is
 the one given

---
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index 2c82dd8..2354ac0 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -82,7 +82,7 @@ def implicit_find_features(sdfs, nodes, rtol=None, atol=None):
     if atol:
         kws['atol'] = atol
     if rtol:
-        kws['rtol'] = atol
+        kws['rtol'] = rtol
     last = None
     for node in nodes:
         success, res = _find_feature(sdfs, node, node_norm)
-- 
2.43.0


From 93fc5788b74da8e928aa3981396695e02fb096eb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 170/201] fix: the circle of dual contouring is a circle also
 for arrays

---
 mmcore/geom/implicit/dc/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index c14c0f3..3e36f08 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -39,14 +39,17 @@ def circle(center: Point, r: float) -> Shape:
     def _circle(p: Point) -> float:
         if isinstance(p, np.ndarray) and p.ndim >= 1:
             return (
-                math.sqrt(
+                np.sqrt(
                     np.sum(
-                        np.array(center).reshape(
-                            (2, *np.ones((len(p.shape) - 1,), dtype=int))
+                        (
+                            np.array(center).reshape(
+                                (2, *np.ones((len(p.shape) - 1,), dtype=int))
+                            )
+                            - p
                         )
-                        - p
+                        ** 2,
+                        axis=0,
                     )
-                    ** 2
                 )
                 - r
             )
-- 
2.43.0


From 1a15984cdfa15eae5dd3816fe532ef1577405e1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 171/201] fix: dual contouring does not print its cells

---
 mmcore/geom/implicit/dc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 3e36f08..7997414 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -207,10 +207,7 @@ def index(shape: Shape, cell: Cell) -> int:
     (xmin, ymin), (xmax, ymax) = cell
     pts = [(x, y) for y in [ymin, ymax] for x in [xmin, xmax]]
 
-    res = sum(2 ** (3 - i) if shape(pt) < 0 else 0 for i, pt in enumerate(pts))
-
-    print(pts, res)
-    return res
+    return sum(2 ** (3 - i) if shape(pt) < 0 else 0 for i, pt in enumerate(pts))
 
 
 def edges(shape: Shape, cell: Cell) -> list[tuple[Side, Side]]:
-- 
2.43.0


From 47f1f64285b899fd1fe4df06e89b1bfedbe9b21c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 172/201] fix: traversing a tree keeps the filter below the
 first level

---
 mmcore/geom/implicit/dc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 7997414..dfa7851 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -180,7 +180,7 @@ def trav(
         if fltr(tree, ch):
             cb(tree, ch)
         else:
-            trav(ch, cb)
+            trav(ch, cb, fltr)
 def foldTree(tree: Tree, quad: Cell, root, empty, full, leaf) -> float:
     if isinstance(tree, Root):
         (xmin, ymin), (xmax, ymax) = quad
-- 
2.43.0


From 4879510fb66d227af56b085f8e529916835222f1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 173/201] fix: dual contouring connects cells that are above
 each other where they touch

---
 mmcore/geom/implicit/dc/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index dfa7851..5feba73 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -377,18 +377,19 @@ def edgeProcH(shape, tree1, tree2):
 
 
 def edgeProcV(shape, tree1, tree2):
+    # tree1 is below tree2: the upper row of tree1 (c, d) meets the lower row of tree2 (a, b)
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
         return [(feature(shape, tree1.data), feature(shape, tree2.data))]
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
-        _, _, c, d = tree2.a, tree2.b, tree2.c, tree2.d
-        return edgeProcV(shape, tree1, c) + edgeProcV(shape, tree1, d)
+        a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
+        return edgeProcV(shape, tree1, a) + edgeProcV(shape, tree1, b)
     elif isinstance(tree1, Root) and isinstance(tree2, Leaf):
-        a, b, _, _ = tree1.a, tree1.b, tree1.c, tree1.d
-        return edgeProcV(shape, a, tree2) + edgeProcV(shape, b, tree2)
+        _, _, c, d = tree1.a, tree1.b, tree1.c, tree1.d
+        return edgeProcV(shape, c, tree2) + edgeProcV(shape, d, tree2)
     elif isinstance(tree1, Root) and isinstance(tree2, Root):
-        a, b, _, _ = tree1.a, tree1.b, tree1.c, tree1.d
-        _, _, c, d = tree2.a, tree2.b, tree2.c, tree2.d
-        return edgeProcV(shape, a, c) + edgeProcV(shape, b, d)
+        _, _, c, d = tree1.a, tree1.b, tree1.c, tree1.d
+        a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
+        return edgeProcV(shape, c, a) + edgeProcV(shape, d, b)
     else:
         return []
 
-- 
2.43.0


From 12c6c5596d2a4333dec38cd89cbc9df7d0d6f411 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 174/201] fix: dual contouring connects two cells only where
 the contour crosses their common side

---
 mmcore/geom/implicit/dc/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/dc/__init__.py b/mmcore/geom/implicit/dc/__init__.py
index 5feba73..ae2e96f 100644
--- a/mmcore/geom/implicit/dc/__init__.py
+++ b/mmcore/geom/implicit/dc/__init__.py
@@ -359,9 +359,22 @@ def faceProc(shape, t):
         return []
 
 
+def edgeLeaf(shape, leaf1, leaf2, axis):
+    """The contour goes from one cell to the next one only where it crosses the side they share"""
+    (min1, max1), (min2, max2) = leaf1.data, leaf2.data
+    i = 1 - axis
+    ends = [max(min1[i], min2[i]), min(max1[i], max2[i])]
+    signs = [
+        shape((max1[0], t) if axis == 0 else (t, max1[1])) < 0 for t in ends
+    ]
+    if signs[0] == signs[1]:
+        return []
+    return [(feature(shape, leaf1.data), feature(shape, leaf2.data))]
+
+
 def edgeProcH(shape, tree1, tree2):
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
-        return [(feature(shape, tree1.data), feature(shape, tree2.data))]
+        return edgeLeaf(shape, tree1, tree2, 0)
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
         a, _, c, _ = tree2.a, tree2.b, tree2.c, tree2.d
         return edgeProcH(shape, tree1, a) + edgeProcH(shape, tree1, c)
@@ -379,7 +392,7 @@ def edgeProcH(shape, tree1, tree2):
 def edgeProcV(shape, tree1, tree2):
     # tree1 is below tree2: the upper row of tree1 (c, d) meets the lower row of tree2 (a, b)
     if isinstance(tree1, Leaf) and isinstance(tree2, Leaf):
-        return [(feature(shape, tree1.data), feature(shape, tree2.data))]
+        return edgeLeaf(shape, tree1, tree2, 1)
     elif isinstance(tree1, Leaf) and isinstance(tree2, Root):
         a, b, _, _ = tree2.a, tree2.b, tree2.c, tree2.d
         return edgeProcV(shape, tree1, a) + edgeProcV(shape, tree1, b)
-- 
2.43.0


From 9a6c908f33e5d3f6c892230ed0128deae2f16a43 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 175/201] fix: the parameter of the closest point of a circle
 is that of the point, on the lower half too

---
 mmcore/geom/circle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..37ce725 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -78,7 +78,7 @@ class Circle2D(Curve, Implicit2D):
         N = self._implicit_normal(v)
         nn = np.linalg.norm(N)
         nu = N / nn
-        return v - (nu * (nn - self.r)), np.arccos(nu[0])
+        return v - (nu * (nn - self.r)), np.arctan2(nu[1], nu[0]) % PI2
 
 
 
@@ -157,4 +157,4 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
 def closest_point_on_circle_2d(circle: Circle2D, pt: np.ndarray):
     un = circle.normal(pt)
 
-    return np.arccos(un[0]) - PI05
+    return np.arctan2(un[1], un[0]) % PI2
-- 
2.43.0


From 7555995d64ab1b3a93df307bba90ef0c446752f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 176/201] fix: tangents from a point touch the circle

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 37ce725..528e98d 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -144,7 +144,7 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
     direct = pt[:2] - circle.origin[:2]
     b = np.hypot(*direct)  # hypot() also works here
     th = np.arccos(a / b)  # angle theta
-    d = np.arctan2(direct[0], direct[1])  # direction angle of point P from C
+    d = np.arctan2(direct[1], direct[0])  # direction angle of point P from C
     d1 = d + th  # direction angle of point T1 from C
     d2 = d - th  # direction angle of point T2 from C
 
-- 
2.43.0


From bced6bd217bf503bd9b85fd7fc67b5e6a055d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 177/201] fix: circles touching each other intersect at
 numbers, in the plane of the circles

---
 mmcore/geom/circle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 528e98d..483ec21 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -122,12 +122,12 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     d = np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
 
     # Check if the circles intersect
-    if d > r1 + r2 or d < np.abs(r2 - r1):
+    if d > r1 + r2 or d < np.abs(r2 - r1) or d == 0:
         raise ValueError("Circles do not intersect")
 
     # Compute the coordinates of the intersection points
     a = (r1 ** 2 - r2 ** 2 + d ** 2) / (2 * d)
-    h = np.sqrt(r1 ** 2 - a ** 2)
+    h = np.sqrt(max(r1 ** 2 - a ** 2, 0.0))
     xm = x1 + a * (x2 - x1) / d
     ym = y1 + a * (y2 - y1) / d
     xs1 = xm - h * (y2 - y1) / d
@@ -135,7 +135,8 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     ys1 = ym + h * (x2 - x1) / d
     ys2 = ym - h * (x2 - x1) / d
 
-    return np.array([(xs1, ys1, c1.origin[-1]), (xs2, ys2, c2.origin[-1])], float)
+    z1, z2 = (c.origin[2] if len(c.origin) > 2 else 0.0 for c in (c1, c2))
+    return np.array([(xs1, ys1, z1), (xs2, ys2, z2)], float)
 
 
 def tangents_lines(circle: Circle2D, pt: np.ndarray):
-- 
2.43.0


From ca8461eb6145754e5a45e55072ebac86ab3afaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 178/201] fix: intersection_curve_point asked for gradients and
 success gives a pair

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..7fb3757 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -141,7 +141,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From c749f30a55b276b575d6ffb47911e265256c168e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 179/201] fix: surface_plane gives a frame

---
 mmcore/numeric/algorithms/implicit_point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 7fb3757..40a7115 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -215,8 +215,8 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
-    nv = _normalize3d(nv)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = _normalize3d(_resolve_grad(fun, grad)(p))
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
         tv1 = np.array([nv[1], -nv[0], 0])
-- 
2.43.0


From 1bee3f0a7ed751d01d6bafd6ccdf010e13d3c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 180/201] fix: tracing through a singular point does not print

---
 mmcore/numeric/marching.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..0812294 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -134,7 +134,6 @@ def marching_intersection_curve_points(
         # check to the point 2 steps earlier. In this case, I'm unrolling the tangent, so I've managed to get through
         # all the singularity curves I've tested so far.
         if len(points) > 1 and scalar_norm(p1 - points[len(points) - 2]) < step / 2:
-            print(0, 0)
             p1, _f1_val, _f2_val, _g1, _g2 = intersection_curve_point(f1, f2, p - step * unit_tangent, grad_f1, grad_f2,
                                                                       tol=tol, return_grads=True)
 
-- 
2.43.0


From 5d3143d851d9dd2f1791fed1742e7da62ac43074 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 181/201] fix: the raster search differs in both directions,
 and steps towards the curve of a distance function

---
 mmcore/numeric/marching.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index 0812294..fa97995 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -155,8 +155,9 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
-                    f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
+            x, y = xy
+            return (f(np.array((x + DEFAULT_H, y))) - f(np.array((x - DEFAULT_H, y)))) / (2 * DEFAULT_H), (
+                    f(np.array((x, y + DEFAULT_H))) - f(np.array((x, y - DEFAULT_H)))) / (2 * DEFAULT_H)
 
     x_vals = np.linspace(x_min, x_max, nx)
     y_vals = np.linspace(y_min, y_max, ny)
@@ -168,7 +169,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     if general_implicit:
         curve_pt = lambda pt: curve_point(f, pt)
     else:
-        curve_pt = lambda pt: pt + grad * f_val
+        curve_pt = lambda pt: pt - grad_f * f_val
     for i, x in enumerate(x_vals):
         for j, y in enumerate(y_vals):
             xy[:] = x, y
-- 
2.43.0


From 9f791515dbab9621a4528d30231a7b1f06d5d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 182/201] fix: a point with parallel gradients off the surfaces
 is not a point of their intersection

---
 mmcore/numeric/algorithms/implicit_point.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 40a7115..37ef620 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,14 +102,24 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    solved = solve2x2(J, -g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
     i = 0
 
     success = True
-    while d > tol:
+    while d > tol or not solved:
+
+        if not solved:
+            # The gradients are parallel, there is no step to make
+            qk_next = qk
+            if abs(f1) <= tol and abs(f2) <= tol:
+                break
+            if not no_err:
+                raise ValueError('Parallel gradients, No convergence')
+            success = False
+            break
 
         if i > max_iter:
             if not no_err:
@@ -129,7 +139,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        solved = solve2x2(J, -g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From fb194ae44594ab58b4b93cf0fcee28c496c84dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 183/201] fix: a parametrized implicit curve has planes

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 316558d..f5028f0 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -501,7 +501,7 @@ class ParametrizedImplicit2D(Implicit2D, Curve):
         return self._parametric_form.derivative(t)[:2]
     def plane_at(self, t):
         return plane_on_curve(
-            (*self.evaluate(t),0), (*self.tangent(t),0), (*self.second_derivative(t),0)
+            np.array((*self.evaluate(t), 0.)), np.array((*self.tangent(t), 0.)), np.array((*self.second_derivative(t), 0.))
         )
     def second_derivative(self, t):
         return self._parametric_form.second_derivative(t)[:2]
-- 
2.43.0


From eb0fbb06b0f08194b3bc02d761cda913c4cbdd50 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 184/201] fix: normals and planes of curves are found for
 single parameters

---
 mmcore/numeric/numeric.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..435c471 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -32,16 +32,18 @@ def plane_on_curve(O, T, D2):
         plane_on_curve(O, T, D2)
     """
     # Gram-Schmidt process on T and D2 to obtain orthogonal normal
-    N = unit(gram_schmidt(T, D2))
+    N = normal_at(T, D2)
     # Cross product of T and N to obtain the binormal
-    B = cross(T, N)
+    B = scalar_cross(np.asarray(T, float), N)
     # Return array containing origin, tangent, normal and binormal
     return np.array([O, T, N, B])
 
 
 def normal_at(D1, D2):
-    N = unit(gram_schmidt(unit(D1), D2))
-    return N
+    D1, D2 = np.asarray(D1, float), np.asarray(D2, float)
+    T = D1 / np.sqrt(np.sum(D1 * D1, axis=-1, keepdims=True))
+    N = D2 - T * np.sum(T * D2, axis=-1, keepdims=True)
+    return N / np.sqrt(np.sum(N * N, axis=-1, keepdims=True))
 
 
 def swap_z_to_first_der(pln):
-- 
2.43.0


From 8892ef0cf3ad5c10718900960bfa45fd46859f94 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 185/201] fix: a step that is not a number is not the end of
 the search for an intersection

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 37ef620..896bc94 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -109,7 +109,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     i = 0
 
     success = True
-    while d > tol or not solved:
+    while not d <= tol or not solved:
 
         if not solved:
             # The gradients are parallel, there is no step to make
-- 
2.43.0


From ee47be89e7d5b1d298a920e30d75d37efa6d1088 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 186/201] fix: gradients parallel up to rounding give no step
 to an intersection

---
 mmcore/numeric/algorithms/implicit_point.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 896bc94..7496de6 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -49,6 +49,16 @@ def curve_point(func, initial_point: np.ndarray = None, delta=0.001, grad=None):
     return new_point
 
 
+def _solve_step(J, g, alpha_beta):
+    """
+    Solve for the step. Gradients that are parallel up to rounding give no step: the solution would be huge terms that
+    cancel.
+    """
+    if not J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0] > 1e-14 * J[0, 0] * J[1, 1]:
+        return False
+    return solve2x2(J, -g, alpha_beta)
+
+
 def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=100, return_grads=False, no_err=False):
     """
         Intersection curve point between two curves.
@@ -102,7 +112,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    solved = solve2x2(J, -g, alpha_beta)
+    solved = _solve_step(J, g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
@@ -139,7 +149,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        solved = solve2x2(J, -g, alpha_beta)
+        solved = _solve_step(J, g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From c62841cc660d59a8a63fa342857009d3c738fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 187/201] fix: the derivatives of a curve keep to its own
 domain and are as exact at its ends as inside

---
 mmcore/geom/curves/curve.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..fe43395 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -205,23 +205,28 @@ class Curve:
         :param t:float
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
-        if (1 - DEFAULT_H) >= t >= DEFAULT_H:
-            return (
-                    (self.evaluate(t + DEFAULT_H) - self.evaluate(t - DEFAULT_H))
-                    / 2
-                    / DEFAULT_H
-            )
-        elif t <= DEFAULT_H:
-            return (self.evaluate(t + DEFAULT_H) - self.evaluate(t)) / DEFAULT_H
-        else:
-            return (self.evaluate(t) - self.evaluate(t - DEFAULT_H)) / DEFAULT_H
+        return self._difference(self.evaluate, t)
+
+    def _difference(self, fun, t):
+        # Central difference, at the ends of the domain one-sided of the same order
+        start, end = self.interval()
+        if t - DEFAULT_H < start and t + 2 * DEFAULT_H <= end:
+            return (4 * fun(t + DEFAULT_H) - 3 * fun(t) - fun(t + 2 * DEFAULT_H)) / 2 / DEFAULT_H
+        elif t + DEFAULT_H > end and t - 2 * DEFAULT_H >= start:
+            return (3 * fun(t) - 4 * fun(t - DEFAULT_H) + fun(t - 2 * DEFAULT_H)) / 2 / DEFAULT_H
+        return (fun(t + DEFAULT_H) - fun(t - DEFAULT_H)) / 2 / DEFAULT_H
 
     def second_derivative(self, t):
         return self._derivatives[2](t)
 
     def add_derivative(self):
 
-        self._derivatives.append(fdm(self._derivatives[-1]))
+        previous = self._derivatives[-1]
+
+        def derivative(t):
+            return self._difference(previous, t)
+
+        self._derivatives.append(derivative)
         return len(self._derivatives)
 
     def __call__(
-- 
2.43.0


From 1bf7d0e0338bbffa6db3c90535f849a2f5e61d89 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 188/201] fix: a trimmed curve has a start, and the second
 derivative of its curve

---
 mmcore/geom/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index fe43395..360ab75 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -382,11 +382,11 @@ class TrimmedCurve(Curve):
         self.curve = curve
         self.trim = start, end
         self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.derivative
+        self.second_derivative = self.curve.second_derivative
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From 0edddd8a68027e451e258cf9304d43024f8281b8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 189/201] fix: the parameter at a length is that of the curve
 as it is now, counted from the start asked for

---
 mmcore/geom/curves/curve.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 360ab75..cf75d79 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -29,6 +29,7 @@ class Curve:
     """
     _tree = None
     _interval = None
+    _length_evaluator = None
 
     def __init__(self, init_derivatives=True):
         super().__init__()
@@ -58,6 +59,7 @@ class Curve:
 
         self._evaluate_cached.cache_clear()
         self._evaluate_length_cached.cache_clear()
+        self._length_evaluator = None
 
     @property
     def tree(self):
@@ -303,11 +305,12 @@ class Curve:
         :param kwargs: Additional keyword arguments to be passed.
         :return: The parameter value at the specified length.
         """
-        if hasattr(self,'_length_evaluator'):
-            return self._length_evaluator(length)
-        else:
-            self._length_evaluator=length_evaluator(self,tol)
-
+        start, end = self.interval()
+        key = float(start), float(end), tol
+        if self._length_evaluator is None or self._length_evaluator[0] != key:
+            self._length_evaluator = key, length_evaluator(self, tol)
+        if t0 is not None:
+            length = length + self.evaluate_length((start, t0), tol=tol)
 
         #start, end = self.interval()
         #t0 = t0 if t0 is not None else start
@@ -321,7 +324,7 @@ class Curve:
         #return newton(
         #    func, res[0], tol=tol, x1=t1_limit, **kwargs
         #)
-        return self._length_evaluator(length)
+        return self._length_evaluator[1](length)
 
     def apply_operator(self, other, op: Callable):
         if isinstance(other, Curve):
-- 
2.43.0


From b7ed1755e62e94d9dca3c6b72f28e5df2ce1ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 190/201] fix: a reparametrized curve has lengths to a
 tolerance, parameters at lengths and circles of curvature

---
 mmcore/geom/curves/curve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index cf75d79..d946da1 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -550,8 +550,11 @@ def length_evaluator(curve,tol):
 
 class ReparametrizedCurve(Curve):
     def __init__(self, curve:Curve, parametrization:interp1d):
+        super().__init__(init_derivatives=False)
         self.curve=curve
         self.parametrization=parametrization
+        # The class has its own
+        del self.evaluate_multi
         self._interval = parametrization.x.min(), parametrization.x.max()
     def evaluate_curve_parameter(self, t):
         return self.parametrization(t)
@@ -559,8 +562,8 @@ class ReparametrizedCurve(Curve):
         return self._interval
     def evaluate(self, t):
         return self.curve.evaluate(float(self.parametrization(t)))
-    def evaluate_length(self, bounds):
-        return self.curve.evaluate_length(tuple(self.parametrization(bounds)))
+    def evaluate_length(self, bounds, tol=1e-3):
+        return self.curve.evaluate_length(tuple(self.parametrization(bounds)), tol)
     def tangent(self, t):
         return self.curve.tangent(self.parametrization(t))
     def normal(self, t):
@@ -579,7 +582,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(self.parametrization(t))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From b88e498c14f5ac95068ac2635217a8e20102408a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 191/201] fix: the derivatives of a reparametrized curve follow
 the chain rule

---
 mmcore/geom/curves/curve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index d946da1..f34c86f 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -568,10 +568,15 @@ class ReparametrizedCurve(Curve):
         return self.curve.tangent(self.parametrization(t))
     def normal(self, t):
         return self.curve.normal(self.parametrization(t))
+    def _speed(self, t):
+        # The parametrization is linear between its points
+        x, y = self.parametrization.x, self.parametrization.y
+        i = min(max(int(np.searchsorted(x, t, side='right')) - 1, 0), len(x) - 2)
+        return (y[i + 1] - y[i]) / (x[i + 1] - x[i])
     def derivative(self, t):
-        return self.curve.derivative(self.parametrization(t))
+        return self.curve.derivative(self.parametrization(t)) * self._speed(t)
     def second_derivative(self, t):
-        return self.curve.second_derivative(self.parametrization(t))
+        return self.curve.second_derivative(self.parametrization(t)) * self._speed(t) ** 2
     def evaluate_multi(self, t):
 
         return self.curve.evaluate_multi(self.parametrization(t))
-- 
2.43.0


From 90c10066b40a83f5f66a632231a8d72176fe7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 192/201] fix: an offset curve has an offset

---
 mmcore/geom/curves/offset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..5b20a31 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -40,7 +40,7 @@ class OffsetCurve(Curve):
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From 4f1089e4254d8b2794b82e19f3d0363fa8549736 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 193/201] fix: solve3x2 leaves its columns alone, takes arrays,
 and gives the unknowns in order

---
 mmcore/numeric/numeric.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 435c471..554d147 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -419,10 +419,12 @@ def solve3x2(col0, col1, d0, d1, d2):
     pivot_ratio = 0.0
     err = float('inf')
 
+    # The elimination is in place
+    col0, col1 = list(col0), list(col1)
     i = np.argmax([abs(val) for val in col0 + col1])
-    if i >= 3:
+    swapped = i >= 3
+    if swapped:
         col0, col1 = col1, col0
-        x, y = y, x
 
     if max(map(abs, col0 + col1)) == 0.0:
         return 0, x, y, err, pivot_ratio
@@ -468,6 +470,9 @@ def solve3x2(col0, col1, d0, d1, d2):
             d1 += -col1[1] * d2
         x, y, err = d0, d2, d1
 
+    if swapped:
+        x, y = y, x
+
     return 2, x, y, err, pivot_ratio
 
 
-- 
2.43.0


From 6462efc4e5d019becf53e4f50b80b1c4171da736 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 194/201] fix: rational curves and surfaces are written to STEP
 with their weights

---
 mmcore/compat/step/step_writer.py | 49 ++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 5a42245..6577268 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -264,6 +264,17 @@ class StepWriter:
 
     def add_b_spline_curve_with_knots(self, curve:NURBSCurve, name:str=''):
         unique_knots,mult= get_knot_multiplicities(curve.knots.tolist())
+        weights=[float(w) for w in curve.weights]
+        if len(set(weights))>1:
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_CURVE',()),
+                p21.entity('B_SPLINE_CURVE',(int(curve.degree),[self.add_cartesian_point(pt) for pt in curve.control_points],UNSPECIFIED,FALSE,FALSE)),
+                p21.entity('B_SPLINE_CURVE_WITH_KNOTS',(mult,unique_knots,UNSPECIFIED)),
+                p21.entity('CURVE',()),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM',()),
+                p21.entity('RATIONAL_B_SPLINE_CURVE',(weights,)),
+                p21.entity('REPRESENTATION_ITEM',(name,))
+            ])
         return self.add_entity(p21.entity('B_SPLINE_CURVE_WITH_KNOTS',
                                           (
                                               name,
@@ -462,10 +473,34 @@ class StepWriter:
         self.step_file.data[0].instances.update({entity_id:p21.complex_entity_instance(entity_id, entities)})
         return entity_id
 
-    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
-
+    def add_b_spline_surface_with_knots(self, surf:NURBSSurface, name:str=''):
         unique_knots_u, mult_u = get_knot_multiplicities(surf.knots_u.tolist())
         unique_knots_v, mult_v = get_knot_multiplicities(surf.knots_v.tolist())
+        points=[[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points]
+        degree=int(surf.degree[0]),int(surf.degree[1])
+        weights=[[float(pt[3]) for pt in pts] for pts in surf.control_points_w]
+        if len(set(w for row in weights for w in row))>1:
+            return self.add_complex_entity([
+                p21.entity('BOUNDED_SURFACE',()),
+                p21.entity('B_SPLINE_SURFACE',(*degree,points,UNSPECIFIED,FALSE,FALSE,FALSE)),
+                p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED)),
+                p21.entity('GEOMETRIC_REPRESENTATION_ITEM',()),
+                p21.entity('RATIONAL_B_SPLINE_SURFACE',(weights,)),
+                p21.entity('REPRESENTATION_ITEM',(name,)),
+                p21.entity('SURFACE',())
+            ])
+        return self.add_entity(
+            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
+                name,
+                *degree,
+                points,
+                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
+                )
+            )
+        )
+
+    def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
+
         boundaries=extract_surface_boundaries(surf)
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
@@ -481,15 +516,7 @@ class StepWriter:
                                 )
                             ) for boundary in boundaries])),
                         ),
-                        self.add_entity(
-                            p21.entity('B_SPLINE_SURFACE_WITH_KNOTS',(
-                                name,
-                                int(surf.degree[0]),int(surf.degree[1]),
-                                [[self.add_cartesian_point(pt) for pt in pts] for pts in surf.control_points],
-                                UNSPECIFIED,FALSE,FALSE,FALSE, mult_u,mult_v,unique_knots_u,unique_knots_v,UNSPECIFIED
-                                )
-                            )
-                        ),
+                        self.add_b_spline_surface_with_knots(surf,name),
                         TRUE,
                         name
                     ),
-- 
2.43.0


From 23249ef9cd438669b2726b17ab538a1c63d861a9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 195/201] fix: the edges around a surface written to STEP run
 head to tail and share vertices

---
 mmcore/compat/step/step_writer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 6577268..77643f6 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -501,7 +501,10 @@ class StepWriter:
 
     def add_nurbs_surface(self, surf:NURBSSurface,color=(0.5,0.5,0.5), name:str=''):
 
-        boundaries=extract_surface_boundaries(surf)
+        along_v0,along_v1,along_u0,along_u1=extract_surface_boundaries(surf)
+        v00,v01,v10,v11=[self.add_vertex_point(tuple(pt)) for pt in (along_v0.start(),along_v0.end(),along_v1.start(),along_v1.end())]
+        # Head to tail around the surface, so that adjacent edges share a vertex.
+        boundaries=((along_u0,v00,v10,True),(along_v1,v10,v11,True),(along_u1,v01,v11,False),(along_v0,v00,v01,False))
         shell= self.add_shell_based_surface_model(
                 (self.add_open_shell(
                     (self.add_advanced_face(
@@ -510,11 +513,12 @@ class StepWriter:
                         self.add_edge_loop([
                             self.add_oriented_edge(
                                 self.add_edge_curve(
-                                    self.add_cartesian_point(tuple(boundary.start())),
-                                    self.add_cartesian_point(tuple(boundary.end())),
+                                    start,
+                                    end,
                                     self.add_b_spline_curve_with_knots(boundary)
-                                )
-                            ) for boundary in boundaries])),
+                                ),
+                                orientation=orientation
+                            ) for boundary,start,end,orientation in boundaries])),
                         ),
                         self.add_b_spline_surface_with_knots(surf,name),
                         TRUE,
-- 
2.43.0


From de5646c236e9f2e1d22b561f800633d6db91c081 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 196/201] fix: the contexts of a product written to STEP are a
 set

---
 mmcore/compat/step/step_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 77643f6..67a70a3 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -244,7 +244,7 @@ class StepWriter:
         self._2 = self.add_entity(
             p21.entity('APPLICATION_PROTOCOL_DEFINITION', ('international standard', 'automotive_design', 2000, self._1)))
         self._3 = self.add_entity(p21.entity('PRODUCT_CONTEXT', ('', self._1, 'mechanical')))
-        self._4 = self.add_entity(p21.entity('PRODUCT', ('Document', 'Document', p21.UnsetParameter('$'), (self._3))))
+        self._4 = self.add_entity(p21.entity('PRODUCT', ('Document', 'Document', p21.UnsetParameter('$'), (self._3,))))
         self._5 = self.add_entity(p21.entity('PRODUCT_DEFINITION_FORMATION', ('', p21.UnsetParameter('$'), self._4)))
         self._6 = self.add_entity(p21.entity('PRODUCT_DEFINITION_CONTEXT', ('part definition', self._1, 'design')))
         self._7 = self.add_entity(p21.entity('PRODUCT_DEFINITION', ('design', p21.UnsetParameter('$'), self._5, self._6)))
-- 
2.43.0


From 7d3012a8d57381dedd563221dcfef8192c84e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 197/201] fix: a plane is written to STEP by its normal and its
 first axis

---
 mmcore/compat/step/step_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 67a70a3..940fa6b 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -417,15 +417,16 @@ class StepWriter:
 
             p21.entity('REPRESENTATION_CONTEXT',('ID1', '3D'))])
         return self._context3
-    def add_axis_axis2_placement_3d(self, origin, x_axis,y_axis,name=''):
-        return self.add_entity(p21.entity('AXIS2_PLACEMENT_3D', (name,origin,x_axis,y_axis)))
+    def add_axis_axis2_placement_3d(self, origin, z_axis,x_axis,name=''):
+        return self.add_entity(p21.entity('AXIS2_PLACEMENT_3D', (name,origin,z_axis,x_axis)))
 
     def add_plane(self,plane):
         origin=self.add_cartesian_point(plane[0])
         xaxis=self.add_direction(plane[1])
         yaxis = self.add_direction(plane[2])
+        zaxis = self.add_direction(plane[3])
 
-        xy=self.add_axis_axis2_placement_3d(origin,xaxis,yaxis)
+        xy=self.add_axis_axis2_placement_3d(origin,zaxis,xaxis)
 
         return (origin, xaxis,yaxis,xy)
 
-- 
2.43.0


From f9ab71dc645c54ef2046df4a607cc71ac2c0db7a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 198/201] fix: a STEP assignment is parsed with digits in its
 name, and with quotes and parentheses in its strings

---
 mmcore/compat/step/step_writer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmcore/compat/step/step_writer.py b/mmcore/compat/step/step_writer.py
index 940fa6b..b1927fb 100644
--- a/mmcore/compat/step/step_writer.py
+++ b/mmcore/compat/step/step_writer.py
@@ -29,7 +29,7 @@ def parse_assignment(assignment_str):
     assignment_str = assignment_str.strip().rstrip(';')
 
     # Regex to match the pattern: #number=FUNCTION_NAME(args)
-    match = re.match(r'#\d+\s*=\s*([A-Z_]+)\s*\((.*)\)', assignment_str)
+    match = re.match(r'#\d+\s*=\s*([A-Z][A-Z0-9_]*)\s*\((.*)\)', assignment_str)
     if not match:
         raise ValueError("String does not match the expected format.")
 
@@ -82,7 +82,13 @@ def parse_arguments(arg_str):
             i += 1
             start = i
             while i < len(arg_str) and count > 0:
-                if arg_str[i] == '(':
+                if arg_str[i] in ("'", '"'):
+                    # Parentheses inside a quoted string do not nest
+                    end = arg_str.find(arg_str[i], i + 1)
+                    if end < 0:
+                        raise ValueError("Unbalanced quotes in arguments.")
+                    i = end
+                elif arg_str[i] == '(':
                     count += 1
                 elif arg_str[i] == ')':
                     count -= 1
@@ -122,7 +128,7 @@ def process_token(token):
     """
     # If the token starts and ends with quotes, strip them and return as string
     if (token.startswith("'") and token.endswith("'")) or (token.startswith('"') and token.endswith('"')):
-        return token[1:-1]
+        return token[1:-1].replace(token[0] * 2, token[0])
 
     # Try to convert to integer
     try:
-- 
2.43.0


From 19ea22a358e183ecb390d511abfa53d0ce8a9224 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 199/201] fix: a boolean operation of curves that do not meet

---
 mmcore/geom/curves/curve_bool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 505fdf8..1e48d2e 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -68,11 +68,16 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
     # Verify curves are closed?
 
     # Find all curve intersections
-    first, second = zip(*ccx(curve1, curve2))
+    intersections = ccx(curve1, curve2)
 
     # Split both curves at intersection points
-    segments1 = split_curve_multiple(curve1, np.unique(first))
-    segments2 = split_curve_multiple(curve2, np.unique(second))
+    if len(intersections) > 0:
+        first, second = zip(*intersections)
+        segments1 = split_curve_multiple(curve1, np.unique(first))
+        segments2 = split_curve_multiple(curve2, np.unique(second))
+    else:
+        # Apart or one inside another: each curve is a whole segment
+        segments1, segments2 = [curve1], [curve2]
 
 
     segments = []
-- 
2.43.0


From 25a84726cb98c7eaf36570265fba6644ae5c49ba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 200/201] fix: the ray that tells inside from outside leaves
 the curve, however far it starts

---
 mmcore/geom/curves/curve_bool.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve_bool.py b/mmcore/geom/curves/curve_bool.py
index 1e48d2e..a69fdcc 100644
--- a/mmcore/geom/curves/curve_bool.py
+++ b/mmcore/geom/curves/curve_bool.py
@@ -44,6 +44,15 @@ def unique_with_tolerance(arr, tolerance):
     return np.array(unique_values)
 
 
+def _ray_end(point, box_min, box_max):
+    """
+    End of a ray from the point that leaves the box, whatever the distance. The ray is slightly
+    inclined: corners of curves are often level with each other.
+    """
+    length = max(box_max[0] - point[0], 0.) + scalar_norm(box_max - box_min)
+    return point + np.array([1., 0.0437, 0.]) * length
+
+
 def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
                             operation: BooleanOperationType = BooleanOperationType.UNION) -> List[NURBSCurve]:
     """
@@ -89,7 +98,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_2 - min_2) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, _ray_end(mid, min_2, max_2)]), degree=1)
         rtct = list(zip(*ccx(ray, curve2, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
@@ -124,7 +133,7 @@ def curve_boolean_operation(curve1: NURBSCurve, curve2: NURBSCurve,
         t0, t1 = seg.interval()  # Use start of segment
 
         mid = np.array(seg.evaluate((t0 + t1) / 2))
-        ray = NURBSCurve(np.array([mid, mid + np.array([1, 0, 0.]) * scalar_norm(max_1 - min_1) * 2]), degree=1)
+        ray = NURBSCurve(np.array([mid, _ray_end(mid, min_1, max_1)]), degree=1)
         rtct = list(zip(*ccx(ray, curve1, tol=1e-7)))
         if len(rtct) == 0:
             rt = ()
-- 
2.43.0


From efe4a438a465c9fcc5e3c2e4d6841e3ff554824e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:34:31 +0000
Subject: [PATCH 201/201] fix: a Coons patch does not hand out its cached array

Changing the point returned by evaluate changed every later answer at the same parameters.
---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index bbe5810..2622cba 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -596,7 +596,7 @@ class Coons(Surface):
         #print(f'{self}.evaluate({uv})')
         #return self._rc.evaluate(uv) + self._rd.evaluate(uv[::-1]) - self._rcd.evaluate(uv)
 
-        return self._cached_eval(*uv)
+        return np.array(self._cached_eval(*uv))
     def evaluate_v2(self, u, v):
 
         return self._rc.evaluate_v2(u,v) + self._rd.evaluate_v2(v,u) - self._rcd.evaluate_v2(u,v)
-- 
2.43.0

