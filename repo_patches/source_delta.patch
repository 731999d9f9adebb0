From ef08d66fa204db0eacd3f9fac72559c26e0d2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 001/107] fix: align hfarray operands in comparison, floor
 division, modulo and in-place operators

---
 hftools/dataset/arrayobj.py | 94 +++++++++++++++++++++++++++++++++++++
 1 file changed, 94 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..657738b 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -353,6 +353,32 @@ def check_instance(func):
     return a
 
 
+def check_hfarray(func):
+    u"""Align *self* and *other* when both are hfarrays, all other operands
+    are passed on unchanged.
+    """
+    def a(self, other):
+        if isinstance(other, _hfarray):
+            self, other = make_same_dims(self, other)
+        return func(self, other)
+    return a
+
+
+def check_inplace(func):
+    u"""Align the hfarray *other* to the dims of *self*, which can not change
+    in an inplace operation.
+    """
+    def a(self, other):
+        if isinstance(other, _hfarray):
+            for dim in other.dims:
+                if dim not in self.dims:
+                    msg = "%r not present in dims %r" % (dim, self.dims)
+                    raise DimensionMismatchError(msg)
+            other = change_shape(other, self.dims)
+        return func(self, other)
+    return a
+
+
 def replace_dim(dims, olddim, newdim):
     out = []
     for d in dims:
@@ -745,6 +771,74 @@ class _hfarray(ndarray):
     def __eq__(self, other):
         return ndarray.__eq__(self, other)
 
+    @check_hfarray
+    def __ne__(self, other):
+        return ndarray.__ne__(self, other)
+
+    @check_hfarray
+    def __lt__(self, other):
+        return ndarray.__lt__(self, other)
+
+    @check_hfarray
+    def __le__(self, other):
+        return ndarray.__le__(self, other)
+
+    @check_hfarray
+    def __gt__(self, other):
+        return ndarray.__gt__(self, other)
+
+    @check_hfarray
+    def __ge__(self, other):
+        return ndarray.__ge__(self, other)
+
+    @check_hfarray
+    def __floordiv__(self, other):
+        return ndarray.__floordiv__(self, other)
+
+    @check_hfarray
+    def __mod__(self, other):
+        return ndarray.__mod__(self, other)
+
+    @check_inplace
+    def __iadd__(self, other):
+        return ndarray.__iadd__(self, other)
+
+    @check_inplace
+    def __isub__(self, other):
+        return ndarray.__isub__(self, other)
+
+    @check_inplace
+    def __imul__(self, other):
+        return ndarray.__imul__(self, other)
+
+    @check_inplace
+    def __itruediv__(self, other):
+        return ndarray.__itruediv__(self, other)
+
+    @check_inplace
+    def __ifloordiv__(self, other):
+        return ndarray.__ifloordiv__(self, other)
+
+    @check_inplace
+    def __imod__(self, other):
+        return ndarray.__imod__(self, other)
+
+    @check_inplace
+    def __ipow__(self, other):
+        return ndarray.__ipow__(self, other)
+
+    @check_inplace
+    def __iand__(self, other):
+        return ndarray.__iand__(self, other)
+
+    @check_inplace
+    def __ior__(self, other):
+        return ndarray.__ior__(self, other)
+
+    @check_inplace
+    def __ixor__(self, other):
+        return ndarray.__ixor__(self, other)
+
     @check_instance
     def __rdiv__(self, other):
         return np.divide(other, self)
-- 
2.43.0


From c9f73bde9887896646219ddcce526e2806bc174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:55 +0000
Subject: [PATCH 002/107] fix: hfarray.take keeps the labels of the taken
 elements

---
 hftools/dataset/arrayobj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 657738b..6b6f9f3 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -592,10 +592,13 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
-        newdims[axis] = newdim
+        if np.ndim(indices) == 0:
+            del newdims[axis]
+        else:
+            newdata = olddim.data.take(np.asarray(indices), mode=mode)
+            newdims[axis] = olddim.__class__(olddim, data=newdata)
         data.dims = Dims(newdims)
         return data
 
-- 
2.43.0


From 6437eeee8a1bd5e5d318782aca3860303ba45764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:55 +0000
Subject: [PATCH 003/107] fix: labels follow the elements when indexing
 hfarrays with lists and arrays

---
 hftools/dataset/arrayobj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6b6f9f3..926368a 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -694,6 +694,9 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif (isinstance(idx, (list, ndarray)) and np.ndim(idx) == 1 and
+                  not isinstance(idx, hfarray)):
+                dims.append(dim[np.asarray(idx) if len(idx) else slice(0)])
             else:
                 dims.append(dim_in_indices.get(dim.name, dim))
         if ellipsis_and_ints:
-- 
2.43.0


From 702839eec908f2888d53e755350886d25b17a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:55 +0000
Subject: [PATCH 004/107] fix: accept negative axis in hfarray reductions and
 squeeze

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 926368a..95d7def 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -1070,7 +1070,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax + a.ndim if ax < 0 else ax)
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From 4b14b11c5e2a23d9ce218de972ae0627471d9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:55 +0000
Subject: [PATCH 005/107] fix: hfarray.std and hfarray.var respect ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 95d7def..52b3687 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -920,7 +920,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -940,7 +941,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From 10e30ca202f45631fe292a5c8e935a7ba963310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 006/107] fix: dims without elements have an outputformat

---
 hftools/dataset/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..fe48271 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,9 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if len(self._data) == 0:
+                return "%.16e"
+            elif is_integer(self._data[0]):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From c6b9c5365b868fd9775842d84a5c8fede61caafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:55 +0000
Subject: [PATCH 007/107] fix: dims that compare equal have equal hashes, an
 unset outputformat stays unset in copies and slices

---
 hftools/dataset/dim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index fe48271..d9471a2 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -53,7 +53,7 @@ class DimBase(object):
             dim_data = Name.data
             dim_name = Name.name
             dim_unit = Name.unit
-            dim_outputformat = Name.outputformat
+            dim_outputformat = Name._outputformat
         else:
             dim_data = data
             dim_name = Name
@@ -124,7 +124,7 @@ class DimBase(object):
              self._unit, self._outputformat)
         try:
             b = (other.sortprio, other.name, other.__class__, other._data,
-                 other._unit, self._outputformat)
+                 other._unit, other._outputformat)
         except AttributeError:
             a = self.name
             b = other
@@ -135,7 +135,7 @@ class DimBase(object):
              self._unit, self._outputformat)
         try:
             b = (other.sortprio, other.name, other.__class__, other._data,
-                 other._unit, self._outputformat)
+                 other._unit, other._outputformat)
         except AttributeError:
             a = self.name
             b = other
@@ -155,11 +155,11 @@ class DimBase(object):
             return self
         elif isinstance(index, slice):
             a = self.__class__(self.name, self.data[index], unit=self.unit,
-                               outputformat=self.outputformat)
+                               outputformat=self._outputformat)
             return a
         elif isinstance(index, np.ndarray):
             a = self.__class__(self.name, self.data[index], unit=self.unit,
-                               outputformat=self.outputformat)
+                               outputformat=self._outputformat)
             return a
         else:
             raise IndexError("Must index with slice")
-- 
2.43.0


From b97e59cab3e1a203306139fd4a9f1b179c4f8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:55 +0000
Subject: [PATCH 008/107] fix: hfarray.add_dim keeps unit and outputformat

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 52b3687..877d3a1 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -1028,7 +1028,8 @@ class _hfarray(ndarray):
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        return self.__class__(out, dims=dims, copy=False, unit=self.unit,
+                              outputformat=self.outputformat)
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From 139447cc2e25cfe175a8158a8f26429ee44392f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:39 +0000
Subject: [PATCH 009/107] fix: arrays can be used together with other indices
 when indexing hfarrays

---
 hftools/dataset/arrayobj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 877d3a1..d826349 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -633,7 +633,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
@@ -652,7 +653,7 @@ class _hfarray(ndarray):
         ellips_count = len([i for i in indices
                             if isinstance(i, type(Ellipsis))])
         if ellips_count == 1:
-            i = indices.index(Ellipsis)
+            i = [i is Ellipsis for i in indices].index(True)
             indices = (indices[:i] + (slice(None),) *
                        (self.ndim - (len(x) - 1)) + indices[i + 1:])
         elif ellips_count > 1:
-- 
2.43.0


From 8f1f9136cfc27478f0f5f11a9451e2a659feb03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:14 +0000
Subject: [PATCH 010/107] fix: multiports keep their reference impedance,
 conversions do not overwrite their source

---
 hftools/networks/multiports.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..cdc2342 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -98,8 +98,9 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
+        if (isinstance(data, self.__class__) and
+                (Z0 is None or Z0 == data.Z0)):
+            self.Z0 = data.Z0
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
@@ -114,6 +115,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -143,6 +146,11 @@ class _MultiPortArray(_hfarray):
                              for (x, size) in zip(defaultdims, shape))
                 dims = dims + (DimMatrix_i("i", data.shape[-2]),
                                DimMatrix_j("j", data.shape[-1]))
+        if isinstance(data, _MultiPortArray) and not (
+                isinstance(data, subtype) and
+                (Z0 is None or Z0 == data.Z0)):
+            # __init__ replaces the elements with the converted ones
+            copy = True
         out = _hfarray.__new__(subtype, data, dims=dims, dtype=dtype,
                                copy=copy, order=order, subok=subok,
                                ndmin=ndmin, unit=unit)
@@ -155,7 +163,7 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            return self.__class__(x, dims=self.dims, copy=False)
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
@@ -210,7 +218,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
@@ -329,7 +339,9 @@ This model may be of any dimension.
 """
     shortname = "S"
 
-    def __init__(self, data, dims=None, copy=True, Z0=50., info=None, unit=None):
+    def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
+        if Z0 is None and not isinstance(data, SArray):
+            Z0 = 50.
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, info=info, unit=unit)
 
     @property
-- 
2.43.0


From c2f38454772b29eeb7c87e73d39d77ddf6172e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:14 +0000
Subject: [PATCH 011/107] fix: convert multiports of any size

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index cdc2342..9b117ff 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    N = a.shape[-1]
+    tau1 = P[..., :N, :N]
+    sigma1 = P[..., :N, N:]
+    tau2 = P[..., N:, :N]
+    sigma2 = P[..., N:, N:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From c7f28298d1d60888b02397b57e706b1637609c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:14 +0000
Subject: [PATCH 012/107] fix: converting multiports with integer elements does
 not truncate

---
 hftools/networks/multiports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 9b117ff..5b17d94 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -152,6 +152,8 @@ class _MultiPortArray(_hfarray):
                 (Z0 is None or Z0 == data.Z0)):
             # __init__ replaces the elements with the converted ones
             copy = True
+            if dtype is None and data.dtype.kind in "biu":
+                dtype = np.float64
         out = _hfarray.__new__(subtype, data, dims=dims, dtype=dtype,
                                copy=copy, order=order, subok=subok,
                                ndmin=ndmin, unit=unit)
-- 
2.43.0


From 620e2d2ad0759c29411f30d6f404745f94ddbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 013/107] fix: cascading and deembedding real and complex
 S-parameters keeps the imaginary part

---
 hftools/networks/spar_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..c46316e 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -23,7 +23,8 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    res = S1.__class__(np.zeros(maxshape, np.result_type(S1, S2)),
+                       dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
@@ -49,7 +50,7 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = X.__class__(np.zeros(maxshape, np.result_type(X, e)), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -80,7 +81,7 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = X.__class__(np.zeros(maxshape, np.result_type(X, e)), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From 035e345fe76153632b721c0dbe84fb8c3bc34730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 014/107] fix: cascadeS cascades all its arguments

---
 hftools/networks/spar_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index c46316e..4b9bf1f 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -31,6 +31,8 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
-- 
2.43.0


From 7bf5cd9f6d660226595f6d3b5bb287340f0c1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 015/107] fix: cascade and deembed use the same reference
 impedance for all networks

---
 hftools/networks/multiports.py     | 16 +++++++---------
 hftools/networks/spar_functions.py | 13 ++++++++++---
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 5b17d94..64e899f 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -181,7 +181,7 @@ class _MultiPortArray(_hfarray):
         Converts *self* and *other* to S-parameters first if necessary.
         """
         a = SArray(self)
-        b = SArray(other)
+        b = SArray(other, Z0=a.Z0)
         return self.__class__(cascadeS(a, b))
 
     def deembed(self, left=None, right=None):
@@ -192,16 +192,14 @@ class _MultiPortArray(_hfarray):
         """
         if left is None and right is None:
             return self
-        elif left is None:
-            return self.__class__(deembedright(SArray(self),
-                                               SArray(right)))
+        S = SArray(self)
+        if left is None:
+            return self.__class__(deembedright(S, SArray(right, Z0=S.Z0)))
         elif right is None:
-            return self.__class__(deembedleft(SArray(left),
-                                              SArray(self)))
+            return self.__class__(deembedleft(SArray(left, Z0=S.Z0), S))
         else:
-            return self.__class__(deembed(SArray(left),
-                                          SArray(self),
-                                          SArray(right)))
+            return self.__class__(deembed(SArray(left, Z0=S.Z0), S,
+                                          SArray(right, Z0=S.Z0)))
 
     def __getattr__(self, key):
         try:
diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 4b9bf1f..af4c4aa 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -12,6 +12,13 @@ from hftools.dataset import make_same_dims, _DimMatrix, hfarray
 from hftools.math import det, inv, matrix_multiply
 
 
+def keep_Z0(res, S):
+    """Give *res* the same reference impedance as *S*."""
+    if hasattr(S, "Z0"):
+        res.Z0 = S.Z0
+    return res
+
+
 def cascadeS(S1, S2, *rest):
     """Cascade arrays containing S-parameters.
     """
@@ -30,7 +37,7 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
-    res = S1.__class__(res, dims=S1.dims)
+    res = keep_Z0(S1.__class__(res, dims=S1.dims), S1)
     if rest:
         return cascadeS(res, *rest)
     return res
@@ -63,7 +70,7 @@ def deembedleft(e, X):
     res[..., 1, 1] = e22
     res = res / denom
     res[..., 1, 1] = res[..., 1, 1] + X[..., 1, 1]
-    res = klass(res, dims=dims)
+    res = keep_Z0(klass(res, dims=dims), X)
     return res
 
 
@@ -90,7 +97,7 @@ def deembedright(X, e):
     res[..., 1, 1] = (X[..., 1, 1] - e[..., 1, 1])
     res = res / denom
     res[..., 0, 0] = res[..., 0, 0] + X[..., 0, 0]
-    res = klass(res, dims=dims)
+    res = keep_Z0(klass(res, dims=dims), X)
     return res
 
 
-- 
2.43.0


From 1a8d138d820e98a631dc12b0415a491c0c5b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 016/107] fix: make_reciprocal keeps the sign of the
 transmission

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index af4c4aa..fedeae5 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -160,7 +160,7 @@ def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
-- 
2.43.0


From 8338fb385f18ccb6394212037dd5e2ea2ae53cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:43 +0000
Subject: [PATCH 017/107] fix: multiport conversion handles dimensions in any
 order

---
 hftools/networks/multiports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 64e899f..cdc23c4 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -110,6 +110,7 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = res.reorder_dimensions(*self.dims)
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From 63a2f878d42145922676b15ff5793a81fc4dc1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:16 +0000
Subject: [PATCH 018/107] fix: add_dim works for multiports

---
 hftools/dataset/arrayobj.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index d826349..120ab88 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -1024,13 +1024,12 @@ class _hfarray(ndarray):
         if dim in self.dims:
             return self
         axis = min(axis, self.ndim)
-        out = self[(slice(None), ) * axis + (None, )]
+        out = ndarray.__getitem__(self, (slice(None), ) * axis + (None, ))
         if len(dim.data) > 1:
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False, unit=self.unit,
-                              outputformat=self.outputformat)
+        return self.__class__(out, dims=dims, copy=False)
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From c2c042d09a3ac9cb1fc974be1059696d21eebdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:38 +0000
Subject: [PATCH 019/107] fix: element accessors exist on computed multiports

---
 hftools/networks/multiports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index cdc23c4..3b5badd 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -163,6 +163,7 @@ class _MultiPortArray(_hfarray):
     def __array_finalize__(self, obj):
         _hfarray.__array_finalize__(self, obj)
         self.Z0 = getattr(obj, "Z0", 50.)
+        self._attrfuns = getattr(obj, "_attrfuns", {})
 
     def view(self, dtype=None, type=None):
         if type is None:
-- 
2.43.0


From b9752a2b07aa21321ff94b538d17d3780eb43089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:49 +0000
Subject: [PATCH 020/107] fix: make_passive_svd multiplies plain matrices

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index fedeae5..42a3c41 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -134,7 +134,7 @@ def make_passive_svd(S, delta=1e-6):
         s = abs(s) - 1
         s[s < 0] = 0
         s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
+        delta = np.dot(np.dot(u, s), v)
         out.append(ss - delta)
     return S.__class__(out, dims=S.dims)
 
-- 
2.43.0


From 442738a0c60223a97dfd45c7f92d8082328db416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:29 +0000
Subject: [PATCH 021/107] fix: make_matrix keeps the imaginary part of all
 elements

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..0779640 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From b980db4c9f9c579763eb61da8bf3440c626f0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:29 +0000
Subject: [PATCH 022/107] fix: inv and det use the matrix dimensions wherever
 they are

---
 hftools/math.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0779640..198f9a3 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -13,7 +13,7 @@ from numpy import pi, exp, array, zeros, sqrt
 from numpy.lib.stride_tricks import broadcast_arrays, as_strided
 
 from hftools.dataset import make_same_dims_list, hfarray,\
-    DimMatrix_i, DimMatrix_j
+    DimMatrix_i, DimMatrix_j, _DimMatrix
 from hftools.dataset.arrayobj import _hfarray, make_same_dims
 
 
@@ -371,8 +371,19 @@ class broadcast_matrices(object):
             yield [x.__getitem__(index) for x in broadcasted]
 
 
+def matrix_dims_last(A):
+    """Move DimMatrix_i and DimMatrix_j last, other dimensions keep their
+    order.
+    """
+    def order(i):
+        dim = A.dims[i]
+        return dim.sortprio if isinstance(dim, _DimMatrix) else 0
+    return A.transpose(*sorted(range(A.ndim), key=order))
+
+
 def inv(A):
     inv = linalg.inv
+    A = matrix_dims_last(A)
     result = inv(A)
     result = hfarray(result, dims=A.dims)
     return result
@@ -410,6 +421,7 @@ def flatten_non_matrix(A):
 
 def det(A):
     det = linalg.det
+    A = matrix_dims_last(A)
     result = det(A)
     result = hfarray(result, dims=A.dims[:-2])
     return result
-- 
2.43.0


From 5a272f171fc160429cd58eabb8f3f2696fbb1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:30 +0000
Subject: [PATCH 023/107] fix: multiport conversion handles any matrix labels

---
 hftools/networks/multiports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 3b5badd..261f6aa 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -110,7 +110,8 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
-                res = res.reorder_dimensions(*self.dims)
+                names = [dim.name for dim in self.dims]
+                res = res.reorder_dimensions(*names)
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From dbcb923db443b5e5beaf27ef778ba95b040e73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:01 +0000
Subject: [PATCH 024/107] fix: rows and columns of matrix products and
 solutions are labelled like the factors

---
 hftools/math.py                | 29 ++++++++++++++++++++++++++---
 hftools/networks/multiports.py |  2 +-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 198f9a3..d33be22 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -401,6 +401,23 @@ def matrix_multiply_old(A, B):
     return result
 
 
+def matrix_result_dims(dims, idim, jdim, shape):
+    """Label the matrix dimensions, last in *dims*, like *idim* and *jdim*."""
+    out = list(dims)
+    for axis, labels in ((-2, idim), (-1, jdim)):
+        if labels is not None:
+            out[axis] = out[axis].__class__(out[axis], data=labels.data)
+        elif out[axis].fullsize() != shape[axis]:
+            out[axis] = out[axis].__class__(out[axis], data=shape[axis])
+    return tuple(out)
+
+
+def get_matrix_dim(x, cls):
+    for dim in getattr(x, "dims", ()):
+        if isinstance(dim, cls):
+            return dim
+
+
 def matrix_multiply(a, b):
     """Multiply arrays of matrices.
 
@@ -409,7 +426,9 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
-    return hfarray(res, dims=A.dims)
+    dims = matrix_result_dims(A.dims, get_matrix_dim(a, DimMatrix_i),
+                              get_matrix_dim(b, DimMatrix_j), res.shape)
+    return hfarray(res, dims=dims)
 
 
 def flatten_non_matrix(A):
@@ -430,7 +449,9 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    dims = matrix_result_dims(bb.dims, get_matrix_dim(A, DimMatrix_j),
+                              get_matrix_dim(b, DimMatrix_j), x.shape)
+    result = hfarray(x, dims=dims)
     if squeeze:
         result = result.squeeze()
     return result
@@ -440,8 +461,10 @@ def lstsq(A, b, squeeze=True):
     lstsq = np.linalg.lstsq
     res = broadcast_matrices((A, b))
     x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
-    xdims = res._broadcasted[0].dims
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
+    xdims = matrix_result_dims(res._broadcasted[0].dims,
+                               get_matrix_dim(A, DimMatrix_j),
+                               get_matrix_dim(b, DimMatrix_j), xempty.shape)
     xresult = hfarray(xempty, dims=xdims)
 
     for a, b, rx in broadcast_matrices((A, b, xresult)):
diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 261f6aa..c2c381c 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -74,7 +74,7 @@ def convert(fromP, toP, a):
     sigma2 = P[..., N:, N:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
-    res = matrix_multiply(A, B)
+    res = hfarray(matrix_multiply(A, B), dims=A.dims)
     return res, A, B
 
 
-- 
2.43.0


From ce49619470d96ca1a9baecb312b3641f87e43e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:02 +0000
Subject: [PATCH 025/107] fix: lstsq solves for all combinations of outer
 dimensions

---
 hftools/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index d33be22..0dfebeb 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -467,8 +467,8 @@ def lstsq(A, b, squeeze=True):
                                get_matrix_dim(b, DimMatrix_j), xempty.shape)
     xresult = hfarray(xempty, dims=xdims)
 
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
+    for index, (a, b) in zip(np.ndindex(*res.outershape), res):
+        xresult[index], _, _, _ = lstsq(a, b)
     return xresult
 
 
-- 
2.43.0


From 766168cdb94d33dd39cb137ac16740fd44a56c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:51 +0000
Subject: [PATCH 026/107] fix: only names of matrix elements access matrix
 elements, values are placed by dimension

---
 hftools/dataset/dataset.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..3cfa103 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -25,7 +25,7 @@ import numpy.random as rnd
 from numpy import zeros, array, linspace
 
 from hftools.dataset.arrayobj import hfarray, ismatrix,\
-    remove_rep, _hfarray
+    remove_rep, _hfarray, change_shape
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
 from hftools.utils import warn, stable_uniq
@@ -179,7 +179,7 @@ class DataDict(dict):
         return self.order + dir(type(self)) + list(self.__dict__.keys())
 
 reg_matrix_name = re.compile("([_A-Za-z]([_A-Za-z0-9]*"
-                             "[_A-Za-z])?)([0-9][0-9])")
+                             "[_A-Za-z])?)([1-9][1-9])$")
 
 
 def is_matrix_name(x):
@@ -190,6 +190,17 @@ def is_matrix_name(x):
         return None, None
 
 
+def matrix_element_index(data, elem):
+    """Index of the matrix element *elem* in *data*"""
+    idx = [slice(None)] * data.ndim
+    for axis, dim in enumerate(data.dims):
+        if isinstance(dim, DimMatrix_i):
+            idx[axis] = elem[0]
+        elif isinstance(dim, DimMatrix_j):
+            idx[axis] = elem[1]
+    return tuple(idx)
+
+
 def change_dim(ds, olddimclass=DimSweep, newdimclass=DiagAxis):
     for x in ds.ivardata.values():
         if isinstance(x, olddimclass):
@@ -293,8 +304,7 @@ class DataBlock(object):
         if mname:
             data = self.vardata[mname]
             if ismatrix(data):
-                idx = (Ellipsis,) + elem
-                return data[idx]
+                return data[matrix_element_index(data, elem)]
             else:
                 msg = "No matrix with name %r is available"
                 msg = msg % mname
@@ -326,9 +336,9 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
-                idx = (Ellipsis,) + elem
-                self.vardata[mname][idx] = value
+            if ((mname in self.vardata and ismatrix(self.vardata[mname]) and
+                 not ismatrix(value))):
+                self._set_matrix_element(mname, elem, value)
             else:
                 if (key in self.ivardata):
                     olddim = self.ivardata[key]
@@ -344,6 +354,18 @@ class DataBlock(object):
                     if dim.name not in self.ivardata:
                         self.ivardata[dim.name] = dim
 
+    def _set_matrix_element(self, mname, elem, value):
+        data = self.vardata[mname]
+        idx = matrix_element_index(data, elem)
+        dtype = np.result_type(data, value)
+        if np.issubdtype(data.dtype, np.number) and dtype != data.dtype:
+            data = data.astype(dtype)
+        elemdims = data[idx].dims
+        if all(dim in elemdims for dim in value.dims):
+            value = change_shape(value, elemdims)
+        data[idx] = value
+        self.vardata[mname] = data
+
     def __setattr__(self, key, value):
         try:
             object.__getattribute__(self, key)
-- 
2.43.0


From a2e9bc52cc8225e379d17eb62d5b01396bf0ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:45 +0000
Subject: [PATCH 027/107] fix: hyper keeps the values at the labels they belong
 to and refuses incomplete hypercubes

---
 hftools/dataset/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 3cfa103..2c10ec2 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -702,10 +702,13 @@ class DataBlock(object):
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
-        sortdata.append(range(len(sortdata[0])))
-
-        sortorder = sorted(zip(*sortdata))
-        sortorderidx = [x[-1] for x in sortorder]
+        positions = list(zip(*[[list(dim.data).index(x) for x in data]
+                               for dim, data in zip(dims, sortdata)]))
+        if sorted(positions) != list(np.ndindex(*dims_shape)):
+            msg = "Values of %r do not form a hypercube" % (list(dimnames),)
+            raise ValueError(msg)
+        sortorderidx = sorted(range(len(positions)),
+                              key=positions.__getitem__)
 
         for dim in dims:
             out.ivardata[dim.name] = dim
-- 
2.43.0


From 260ee8066c74dbeb8c9e202a0f2a49c0618b4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:07 +0000
Subject: [PATCH 028/107] fix: remove_rep collapses repetitions in the same
 order for all variables and keeps units

---
 hftools/dataset/arrayobj.py | 38 +++++++++++++++++++++----------------
 hftools/dataset/dataset.py  |  5 +++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 120ab88..96d1d93 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -266,31 +266,37 @@ def remove_tail(x):
     return outa
 
 
-def remove_rep(data, newdimname="AllReps"):
+def remove_rep(data, newdimname="AllReps", repdims=None):
     u"""Collapse all DimRep dimensions to single dimension
+
+    *repdims* DimRep dimensions in the order they should be collapsed,
+              the ones *data* does not have are added. Default is to use the
+              ones in *data*.
     """
     order = [(i, dim) for i, dim in enumerate(data.dims)
              if isinstance(dim, DimRep)]
-#    pdb.set_trace()
 
     if order:
-        dims = list(zip(*order))[1]
-
-        newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
-        shapes = [data.shape[i] for i, _ in order]
-        repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        first = order[0][0]
+        if repdims is None:
+            repdims = [dim for _, dim in order]
+        before = data.dims[:first]
+        after = tuple(dim for dim in data.dims[first:]
+                      if not isinstance(dim, DimRep))
+        newdata = change_shape(data, before + tuple(repdims) + after)
+        a = np.array(newdata)
+        N = first + len(repdims)
+        repshape = tuple(a.shape[first + i] if dim in data.dims
+                         else len(dim.data) for i, dim in enumerate(repdims))
+        a = np.broadcast_to(a, a.shape[:first] + repshape + a.shape[N:])
+        repsize = int(np.multiply.reduce(repshape))
+        a = a.reshape(a.shape[:first] + (repsize,) + a.shape[N:])
+        dims = before + (DimRep(newdimname, repsize),) + after
     else:
         dims = data.dims
         a = data
-    return data.__class__(a, dims=dims, copy=False)
+    return data.__class__(a, dims=dims, copy=False, unit=data.unit,
+                          outputformat=data.outputformat)
 
 
 def make_fullcomplex_array(a):
diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2c10ec2..fc5f017 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -666,6 +666,7 @@ class DataBlock(object):
 
     def remove_rep(self, newdimname="AllReps"):
         out = DataBlock()
+        out.blockname = self.blockname
         out.comments = self.comments
         dims = [x for x in self.ivardata.values() if isinstance(x, DimRep)]
         fullshape = tuple(x.data.shape[0] for x in dims)
@@ -678,9 +679,9 @@ class DataBlock(object):
             a[...] = dim.data[sliceidx]
             a = np.array(a, copy=False)
             a.shape = (newdim.data.shape[0],)
-            out[dim.name] = hfarray(a, dims=(newdim,))
+            out[dim.name] = hfarray(a, dims=(newdim,), unit=dim.unit)
         for x in self.vardata:
-            out[x] = remove_rep(self[x], newdimname)
+            out[x] = remove_rep(self.vardata[x], newdimname, dims)
         return out
 
     def hyper(self, dimnames, replacedim, indexed=False, all=True):
-- 
2.43.0


From 6b165868df52af069d529fec0cbafd28313c0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:02 +0000
Subject: [PATCH 029/107] fix: replacing a dimension by one with the same name
 keeps the order of the dimensions

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index fc5f017..f1a8792 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -139,6 +139,8 @@ class DataDict(dict):
 
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if newname == oldname:
+            return
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 008616ff5958b89c0188e6b33583347ef234a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:28 +0000
Subject: [PATCH 030/107] fix: filter selects by value, filter and sort keep
 dimensions no variable uses

---
 hftools/dataset/dataset.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index f1a8792..189104d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -442,12 +442,9 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            values = set(np.array(boolarray).flat)
+            boolarray = hfarray([x in values for x in localdim.data],
+                                dims=(localdim,), dtype=bool)
 
         out = DataBlock()
         out.blockname = self.blockname
@@ -457,6 +454,9 @@ class DataBlock(object):
         olddim = boolarray.dims[0]
         newdim = olddim.__class__(olddim, data=olddim.data[boolarray])
 
+        for name, dim in self.ivardata.items():
+            out.ivardata[name] = newdim if name == olddim.name else dim
+
         for v in self.vardata.keys():
             data = self.vardata[v].view()
             try:
@@ -503,6 +503,9 @@ class DataBlock(object):
         out.comments = self.comments
         out.xname = self.xname
 
+        for name, ivar in self.ivardata.items():
+            out.ivardata[name] = ivar
+
         for v in self.vardata.keys()[:]:
             data = self.vardata[v].view()
             try:
-- 
2.43.0


From 968ba0883fac12ae069dc543ecd40db91e6c9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:50 +0000
Subject: [PATCH 031/107] fix: interpolate selects along the interpolated
 dimension in the order asked for

---
 hftools/dataset/dataset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 189104d..466bf1a 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -752,8 +752,11 @@ class DataBlock(object):
 
     def interpolate(self, variable, defaultmode=None):
         out = DataBlock()
+        out.blockname = self.blockname
+        out.comments = self.comments
         for k, v in self.vardata.items():
-            out[k] = interpolate(variable, self[k], defaultmode)
+            out[k] = interpolate(variable, self.vardata[k].view(),
+                                 defaultmode)
         return out
 
 
@@ -771,14 +774,11 @@ def interpolate(newx, y, defaultmode=None):
     dimidx = olddims.matching_index(newx)
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
-        bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        oldvalues = list(oldx.data)
+        if not all(x in oldvalues for x in newx.data):
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        indices = [oldvalues.index(x) for x in newx.data]
+        data = np.take(np.array(y, copy=False), indices, axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From a66dcfb9089e074e41e4f0a6ec0de554afc2a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:20 +0000
Subject: [PATCH 032/107] fix: datablocks made from a datablock do not share
 arrays with it, setting a variable does not forget xname

---
 hftools/dataset/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 466bf1a..7fc0368 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -229,8 +229,10 @@ class DataBlock(object):
         db = DataBlock()
         db.blockname = self.blockname
         for v in vars:
-            if v in self:
-                db[v] = self[v]
+            if v in self.ivardata:
+                db[v] = self.ivardata[v]
+            elif v in self:
+                db[v] = self[v].view()
         return db
 
     def replace_dim(self, olddim, newdim):
@@ -335,8 +337,6 @@ class DataBlock(object):
         else:
             if self._xname is None and value.dims:
                 self._xname = value.dims[0].name
-            else:
-                self._xname = None
             mname, elem = is_matrix_name(key)
             if ((mname in self.vardata and ismatrix(self.vardata[mname]) and
                  not ismatrix(value))):
@@ -722,7 +722,7 @@ class DataBlock(object):
         for k, v in self.vardata.items():
             if replacedim not in v.dims:
                 if all:
-                    out[k] = v
+                    out[k] = v.view()
                 1 + 0  # coverage.py bug necessary to get coverage for
                        # continue on next line
                 continue
-- 
2.43.0


From 4e37efd7fe34a8b4c3cca87dc867381f2e378a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:12 +0000
Subject: [PATCH 033/107] fix: xname follows a renamed dimension

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 7fc0368..bf9effc 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -251,6 +251,8 @@ class DataBlock(object):
             newdim = newdim(olddim)
         self.ivardata.rename(olddim.name, newdim.name)
         self.ivardata[newdim.name] = newdim
+        if self._xname == olddim.name:
+            self._xname = newdim.name
         for v in self.vardata.values():
             v.replace_dim(olddim, newdim)
 
-- 
2.43.0


From 9e00d31d85d8ed699c47c95ea32bc6de64bab558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:14 +0000
Subject: [PATCH 034/107] fix: datablocks with empty dimensions can be printed

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index bf9effc..6a3c12f 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -542,7 +542,7 @@ class DataBlock(object):
             else:
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
             tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
-            if self.report_minmax:
+            if self.report_minmax and self.ivardata[name].data.size:
                 value, unit = (fmt % self.ivardata[name].data.max()).split(" ")
                 tofmt["maxvalue"] = value
                 tofmt["maxunit"] = unit
-- 
2.43.0


From 3a785d8c5d4eca38f518639b26f1116574453bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:25 +0000
Subject: [PATCH 035/107] fix: datablocks can be sorted along a dimension with
 one element

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6a3c12f..0b31a0b 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -483,7 +483,9 @@ class DataBlock(object):
         return out
 
     def sort(self, dim):
-        dim = hfarray(dim, copy=False).squeeze()
+        dim = hfarray(dim, copy=False)
+        if dim.ndim > 1:
+            dim = dim.squeeze()
         if dim.ndim > 1:
             msg = "sort can only get sort direction from array with"\
                   " one dimension"
-- 
2.43.0


From 9ed56befc27f189ed944cb190b3c287b650d99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:44 +0000
Subject: [PATCH 036/107] fix: convert_matrices_to_elements handles matrices
 without other dimensions and dimensions in any order, does not share arrays

---
 hftools/dataset/dataset.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 0b31a0b..451ab99 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -79,9 +79,12 @@ def convert_matrices_to_elements(db, formatelement=None):
         if ismatrix(v):
             for i, _ in enumerate(v.dims[v.dims_index("i")].data, 1):
                 for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
-                    out[formatelement(k, i, j)] = v[..., i - 1, j - 1]
+                    idx = matrix_element_index(v, (i - 1, j - 1))
+                    out[formatelement(k, i, j)] = hfarray(
+                        v[idx], dims=matrix_outer_dims(v), unit=v.unit,
+                        outputformat=v.outputformat)
         else:
-            out[k] = v
+            out[k] = v.view()
     return out
 
 
@@ -203,6 +206,12 @@ def matrix_element_index(data, elem):
     return tuple(idx)
 
 
+def matrix_outer_dims(data):
+    """Dimensions of *data* except the matrix dimensions"""
+    return tuple(dim for dim in data.dims
+                 if not isinstance(dim, (DimMatrix_i, DimMatrix_j)))
+
+
 def change_dim(ds, olddimclass=DimSweep, newdimclass=DiagAxis):
     for x in ds.ivardata.values():
         if isinstance(x, olddimclass):
@@ -364,7 +373,7 @@ class DataBlock(object):
         dtype = np.result_type(data, value)
         if np.issubdtype(data.dtype, np.number) and dtype != data.dtype:
             data = data.astype(dtype)
-        elemdims = data[idx].dims
+        elemdims = matrix_outer_dims(data)
         if all(dim in elemdims for dim in value.dims):
             value = change_shape(value, elemdims)
         data[idx] = value
@@ -717,8 +726,8 @@ class DataBlock(object):
         if sorted(positions) != list(np.ndindex(*dims_shape)):
             msg = "Values of %r do not form a hypercube" % (list(dimnames),)
             raise ValueError(msg)
-        sortorderidx = sorted(range(len(positions)),
-                              key=positions.__getitem__)
+        sortorderidx = array(sorted(range(len(positions)),
+                                    key=positions.__getitem__), dtype=int)
 
         for dim in dims:
             out.ivardata[dim.name] = dim
-- 
2.43.0


From a0e8b03beb99de2eebec3a2cecd93987204df2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:49 +0000
Subject: [PATCH 037/107] fix: arrays with collapsed repetitions are writeable

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 96d1d93..e40648a 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -288,7 +288,8 @@ def remove_rep(data, newdimname="AllReps", repdims=None):
         N = first + len(repdims)
         repshape = tuple(a.shape[first + i] if dim in data.dims
                          else len(dim.data) for i, dim in enumerate(repdims))
-        a = np.broadcast_to(a, a.shape[:first] + repshape + a.shape[N:])
+        a = np.array(np.broadcast_to(a, a.shape[:first] + repshape +
+                                     a.shape[N:]))
         repsize = int(np.multiply.reduce(repshape))
         a = a.reshape(a.shape[:first] + (repsize,) + a.shape[N:])
         dims = before + (DimRep(newdimname, repsize),) + after
-- 
2.43.0


From 477b49865f01e92125513f3ecb42ce4f8a1a73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:11 +0000
Subject: [PATCH 038/107] fix: DataDict.pop, popitem, clear and update keep the
 order in step

---
 hftools/dataset/dataset.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 451ab99..2d90749 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -140,6 +140,24 @@ class DataDict(dict):
             self.order.append(key)
         return a
 
+    def update(self, *k, **kw):
+        for key, value in dict(*k, **kw).items():
+            self[key] = value
+
+    def pop(self, key, *default):
+        value = dict.pop(self, key, *default)
+        del self[key]
+        return value
+
+    def popitem(self):
+        for key in reversed(self.keys()):
+            return key, self.pop(key)
+        raise KeyError("popitem(): dictionary is empty")
+
+    def clear(self):
+        dict.clear(self)
+        del self.order[:]
+
     def rename(self, oldname, newname):
         vdata = self[oldname]
         if newname == oldname:
-- 
2.43.0


From f9d7204b15fc949334c07019097e2fc0f02ff4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:44 +0000
Subject: [PATCH 039/107] fix: items a DataDict is created with can be renamed

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2d90749..a78a1b2 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -162,7 +162,7 @@ class DataDict(dict):
         vdata = self[oldname]
         if newname == oldname:
             return
-        if newname not in self.order:
+        if newname not in self.order and oldname in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
         self[newname] = vdata
-- 
2.43.0


From fd5f8c7ebafc4b21ec834ef6beb4b2788bdb767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:55 +0000
Subject: [PATCH 040/107] fix: copies of datablocks and comments are
 independent, datablocks can be deep copied

---
 hftools/dataset/dataset.py     | 2 ++
 hftools/file_formats/common.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index a78a1b2..7825f3b 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -346,6 +346,8 @@ class DataBlock(object):
             raise KeyError("No data named %r is available" % (key,))
 
     def __getattr__(self, key):
+        if key.startswith("__") or "vardata" not in self.__dict__:
+            raise AttributeError(key)
         try:
             return self.__getitem__(key)
         except KeyError as exc:
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..cb28972 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -179,7 +179,7 @@ class Comments(object):
     def __init__(self, fullcomments=None, **kw):
         if fullcomments is None:
             fullcomments = []
-        self.fullcomments = fullcomments
+        self.fullcomments = list(fullcomments)
         self.property = {}
         self.property.update(kw)
         self.add_from_comments(fullcomments)
@@ -202,7 +202,8 @@ class Comments(object):
     def copy(self):
         out = Comments()
         out.fullcomments = self.fullcomments[:]
-        out.property = self.property.copy()
+        for k, v in self.property.items():
+            out.property[k] = v.copy() if hasattr(v, "copy") else v
         return out
 
     def table(self):
-- 
2.43.0


From b4ff5a1787c3f66acd243bc8ce1e99dd59f0f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:35 +0000
Subject: [PATCH 041/107] fix: make_reciprocal does not modify its argument

---
 hftools/networks/spar_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 42a3c41..55fbc54 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -157,6 +157,7 @@ def make_passive_eig(S, delta=1e-6):
 
 
 def make_reciprocal(S):
+    S = S.copy()
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-- 
2.43.0


From 11b5eb56fcd7fb73083ff5ad21bdc968f69ded83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:12 +0000
Subject: [PATCH 042/107] fix: numbers with exponents and bracketed units are
 converted completely

---
 hftools/constants/si_units.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..1f95b4a 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,8 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][-+]?[0-9]+)?"
+                       r"(?![-+0-9.:])")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
@@ -77,7 +78,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From c1f450a56ee2a5038d1cdaa502c4b6298aa47ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:59 +0000
Subject: [PATCH 043/107] fix: datablocks without variables can be saved as
 spdata

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index cb28972..6e76123 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -388,7 +388,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From a06e0c088a60284342effcf1191c64b165f246b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:28 +0000
Subject: [PATCH 044/107] fix: saving matrices does not depend on the order of
 their dimensions nor change them

---
 hftools/file_formats/common.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 6e76123..f387724 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -18,7 +18,8 @@ import itertools
 import time
 import datetime
 import numpy as np
-from hftools.dataset import hfarray, ismatrix, DataBlock
+from hftools.dataset import hfarray, ismatrix, DataBlock, DimMatrix_i,\
+    DimMatrix_j, _DimMatrix
 from hftools.constants import convert_with_unit,\
     string_number_with_unit_to_value
 from hftools.utils import to_numeric
@@ -314,6 +315,14 @@ def get_dims_names(*a):
     return tuple([x.name for x in a])
 
 
+def matrix_dims_last(a):
+    """Return matrix *a* with its rows and columns as the last dimensions"""
+    dims = [dim for dim in a.dims if not isinstance(dim, _DimMatrix)]
+    for cls in (DimMatrix_i, DimMatrix_j):
+        dims.extend([dim for dim in a.dims if isinstance(dim, cls)])
+    return a.reorder_dimensions(*dims)
+
+
 def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
     fullheader = []
     fullcolumns = []
@@ -432,18 +441,19 @@ def db_iterator(indb, fmt_block_generator):
     datablock = {}
     used_ivars = set()
     for vname in indb.vardata.keys():
-        if ismatrix(indb.vardata[vname]):
-            dimsnames = get_dims_names(*indb[vname].dims)[:-2]
-            names = get_dims_names(*indb[vname].dims)[-2:]
+        value = indb[vname]
+        if ismatrix(value):
+            value = matrix_dims_last(value)
+            dimsnames = get_dims_names(*value.dims)[:-2]
+            names = get_dims_names(*value.dims)[-2:]
             used_ivars = used_ivars.union(names)
         else:
-            dimsnames = get_dims_names(*indb[vname].dims)
+            dimsnames = get_dims_names(*value.dims)
 
         q = datablock.setdefault(dimsnames, DataBlock())
         if q.comments is None:
             q.comments = indb.comments
-        q[vname] = indb[vname]
-        q[vname].outputformat = indb[vname].outputformat
+        q[vname] = value
 
     #
     #Collect dangling ivars
@@ -451,7 +461,9 @@ def db_iterator(indb, fmt_block_generator):
     for names in datablock.keys():
         used_ivars = used_ivars.union(names)
 
-    for vname in set(indb.ivardata).difference(used_ivars):
+    for vname in indb.ivardata.keys():
+        if vname in used_ivars:
+            continue
         q = datablock.setdefault((vname,), DataBlock())
         if q.comments is None:
             q.comments = Comments()
-- 
2.43.0


From 85f1dec2def2db8884b491496ebb9ddb56d59faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:16 +0000
Subject: [PATCH 045/107] fix: complex columns and matrices keep their unit and
 imaginary part when read

---
 hftools/file_formats/readbase.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..51cd5e8 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -141,8 +141,12 @@ def make_cplx(dataset):
             if vname in dataset:
                 pass  # Already scalar data present
             else:
-                dataset[vname] = (dataset[alt["Re"][-1]] +
-                                  dataset[alt["Im"][-1]] * 1j)
+                value = (dataset[alt["Re"][-1]] +
+                         dataset[alt["Im"][-1]] * 1j)
+                rest = alt["Re"][1]
+                if rest == alt["Im"][1] and reg_varunit.match(vname + rest):
+                    vname = vname + rest  # Same unit
+                dataset[vname] = value
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
@@ -383,13 +387,17 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
+            units = set(block[elem].unit for elem in elems)
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            if len(units) == 1:
+                block[vname].unit = units.pop()
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From c1ee328101a5901823abcb61dd9009af0926483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 046/107] fix: units of outer dimensions are saved in spdata
 files

---
 hftools/file_formats/common.py | 2 +-
 hftools/file_formats/spdata.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index f387724..5ee39bb 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -417,7 +417,7 @@ def make_block_iterator(data, first=False):
         sweepvars = []
         for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):
             fmt = getattr(dim, "outputformat", "%.16e")
-            sweepvars.append((iname, fmt, dim[i]))
+            sweepvars.append((iname, fmt, hfarray(dim[i], unit=dim.unit)))
         if dimsnames:
             header = [dimsnames[0]] + data.vardata.keys()
             columns = dimsdata[:1] + [col[(slice(None), ) + idx]
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..2c3ea3d 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,8 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -161,6 +162,7 @@ def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
     for iname, fmt, value in sweepvars:
+        iname = format_unit_header(iname, value)
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
     outheader = format_complex_header(header, columns,
-- 
2.43.0


From a7cd8623471431a8e8214310aab0e3e87988d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:38 +0000
Subject: [PATCH 047/107] fix: hyper keeps the comments

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 7825f3b..3a67942 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -727,6 +727,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
-- 
2.43.0


From fa76a13585dc13f77666c4573168fc306300b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:53 +0000
Subject: [PATCH 048/107] fix: merging blocks keeps values with the block they
 come from and refuses blocks that do not match

---
 hftools/file_formats/merge.py | 102 ++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 37 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..11a9a19 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,7 +12,7 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError, HFToolsIOError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
 from hftools.file_formats.common import Comments
@@ -155,56 +155,84 @@ def get_partials(db):
     return partials
 
 
+def common_unit(values):
+    """Unit of all values, None if they have different units"""
+    units = set(x.unit for x in values)
+    if len(units) == 1:
+        return units.pop()
+    return None
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
 
+    # Blocks with the same partial dimensions belong together
     for b in blocks:
-        parts = get_partials(b)
-        partgroup = dimpartialgroups.setdefault(tuple(parts.keys()), {})
-        for k, v in parts.items():
-            partgroup.setdefault(k, []).extend(v)
-
-    for idx, dims in enumerate(dimpartialgroups.values(), 1):
-        for k, v in dims.items():
-            dims = (DimSweep("INDEX%s" % idx, len(v)),)
+        names = tuple(get_partials(b).keys())
+        for key in dimpartialgroups:
+            if set(key) == set(names):
+                names = key
+        dimpartialgroups.setdefault(names, []).append(b)
+
+    usednames = set(name for b in blocks for name in b.ivardata)
+    indexdims = {}
+    idx = 0
+    for names, group in dimpartialgroups.items():
+        idx += 1
+        while "INDEX%s" % idx in usednames:
+            idx += 1
+        dims = (DimSweep("INDEX%s" % idx, len(group)),)
+        indexdims[names] = dims
+        for k in names:
+            if k in db:
+                msg = "Can not merge blocks, %r is not in the same kind of "\
+                      "blocks" % k
+                raise HFToolsIOError(msg)
+            v = [b.ivardata[k] for b in group]
             db[k] = hfarray([x.data[0] for x in v],
-                            dims=dims, unit=v[0].unit)
+                            dims=dims, unit=common_unit(v))
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
-        v = []
-        for b in blocks:
-            if vname not in b:
-                continue
-            partials = get_partials(b)
-            v.append(b[vname])
-        if v:
-            k = tuple(partials.keys())
-            if k:
-                ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-            else:
-                ri = tuple()
-            try:
-                value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
-            except UnicodeError:
-                for x in v:
-                    if np.issubdtype(x.dtype, np.unicode_) and x.shape == ():
-                        x.shape = (1,)
-                q = np.array(v)
-                q.shape = q.shape[:-1]
-                value = hfarray(q, dims=ri + v[0].dims, unit=v[0].unit)
-
-            if v[0].dims and isinstance(v[0].dims[0], DimSweep):
-                value = value.reorder_dimensions(v[0].dims[0])
-            db[vname] = value
+        found = [b for b in blocks if vname in b.vardata]
+        v = [b.vardata[vname] for b in found]
+        if len(v) == 1:
+            db[vname] = v[0].copy()
+            continue
+        if any(x.dims != v[0].dims for x in v):
+            msg = "Can not merge blocks, %r does not have the same "\
+                  "dimensions in all of them" % vname
+            raise HFToolsIOError(msg)
+        for names, group in dimpartialgroups.items():
+            if names and [id(b) for b in group] == [id(b) for b in found]:
+                ri = indexdims[names]
+                break
+        else:
+            msg = "Can not merge blocks, %r is missing in some of them" % vname
+            raise HFToolsIOError(msg)
+        unit = common_unit(v)
+        try:
+            value = hfarray(v, dims=ri + v[0].dims, unit=unit)
+        except UnicodeError:
+            for x in v:
+                if np.issubdtype(x.dtype, np.unicode_) and x.shape == ():
+                    x.shape = (1,)
+            q = np.array(v)
+            q.shape = q.shape[:-1]
+            value = hfarray(q, dims=ri + v[0].dims, unit=unit)
+
+        if v[0].dims and isinstance(v[0].dims[0], DimSweep):
+            value = value.reorder_dimensions(v[0].dims[0])
+        db[vname] = value
     cmt = Comments()
     for block in blocks:
         if block.comments:
-- 
2.43.0


From fcf3dcb2fdc37f3a31f36545beed23d03228340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:23 +0000
Subject: [PATCH 049/107] fix: names starting with digits and with text can be
 sorted together

---
 hftools/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..193e499 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -152,7 +152,9 @@ reg_split = re.compile("[^0-9]+|[0-9]+")
 
 
 def split_num(string):
-    return [to_numeric(x, False) for x in reg_split.findall(string)], string
+    # numbers sort before text
+    return [(0, int(x)) if x[0] in "0123456789" else (1, x)
+            for x in reg_split.findall(string)], string
 
 
 def lex_order(lista):
-- 
2.43.0


From 1e2019bcb7e75e04af5f07384f37ca029834fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:43 +0000
Subject: [PATCH 050/107] fix: selecting variables and splitting matrices keep
 the comments

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 3a67942..3360cd5 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -71,6 +71,7 @@ def yield_dim_consistent_datablocks(db):
 def convert_matrices_to_elements(db, formatelement=None):
     out = DataBlock()
     out.blockname = db.blockname
+    out.comments = db.comments
     if formatelement is None:
         def formatelement(varname, i, j):
             return "%s%s%s" % (varname, i, j)
@@ -255,6 +256,7 @@ class DataBlock(object):
     def keep_variables(self, vars):
         db = DataBlock()
         db.blockname = self.blockname
+        db.comments = self.comments
         for v in vars:
             if v in self.ivardata:
                 db[v] = self.ivardata[v]
-- 
2.43.0


From 62db8171160c280b8dfbbcef0f0d84bf9a69b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:05 +0000
Subject: [PATCH 051/107] fix: merging refuses blocks that disagree about a
 dimension

---
 hftools/file_formats/merge.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 11a9a19..b762ff6 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -163,6 +163,13 @@ def common_unit(values):
     return None
 
 
+def same_dims(a, b):
+    """True if the dimensions in *a* and *b* have the same labels and units"""
+    def key(dim):
+        return dim.__class__, dim.name, list(dim.data), dim.unit
+    return list(map(key, a)) == list(map(key, b))
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
@@ -198,6 +205,11 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
+            elif not isinstance(v, DimPartial):
+                if k in db.vardata or not same_dims([db.ivardata[k]], [v]):
+                    msg = "Can not merge blocks, %r is not the same "\
+                          "dimension in all of them" % k
+                    raise HFToolsIOError(msg)
         for k in b.vardata.keys():
             if k not in varnames:
                 varnames.append(k)
@@ -208,7 +220,7 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         if len(v) == 1:
             db[vname] = v[0].copy()
             continue
-        if any(x.dims != v[0].dims for x in v):
+        if not all(same_dims(x.dims, v[0].dims) for x in v):
             msg = "Can not merge blocks, %r does not have the same "\
                   "dimensions in all of them" % vname
             raise HFToolsIOError(msg)
-- 
2.43.0


From b244355af4851b92f05ec9e5c62a4856c0177ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:45 +0000
Subject: [PATCH 052/107] fix: touchstone files with one frequency can be read

---
 hftools/file_formats/touchstone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..cf185e2 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,9 +80,9 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.))
     n = 1  # number of ports
-    for n in range(1, max_N):
+    for n in range(1, max_N + 1):
         N = 2 * n ** 2 + 1  # number of data points per frequency
         output, noise = _process_data(data, N)
         if output:
-- 
2.43.0


From d591a3b030d8312c469b9f497309a5b72647c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:10 +0000
Subject: [PATCH 053/107] fix: reference impedance of touchstone files is 50
 Ohm unless specified

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index cf185e2..6212e00 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -153,7 +153,7 @@ def proc_info(info, f, data, fn, noisedata):
         info = freq_mult, twoporttype, datatype, rtype, z0 = info_list
     elif len(info_list) == 3:
         info = freq_mult, twoporttype, datatype = info_list
-        z0 = 1.
+        z0 = 50.
     else:
         msg = ("# format should only have 5 values this one has %d" %
                len(info_list))
-- 
2.43.0


From 490d708cf62c892d92c76379971c143c985c9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 054/107] fix: touchstone files with unsorted frequencies are
 not read as files with more ports

---
 hftools/file_formats/touchstone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 6212e00..58b396c 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -107,6 +107,8 @@ def _process_data(data, N):
                     current_row.extend(rad)
             else:
                 current_row.extend(rad)
+        elif len(rad) % 2:  # continued lines only hold pairs of values
+            return None, None
         else:
             current_row.extend(rad)
 
-- 
2.43.0


From ffca9e199a9f8cbfabfe82835894eadebc87c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 055/107] fix: touchstone files hold S-parameters of any size,
 their reference impedance and frequencies in Hz

---
 hftools/file_formats/touchstone.py | 58 ++++++++++++++++++------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 58b396c..ee8d64c 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -24,8 +24,9 @@ from hftools.math import dB_angle_to_complex, mag_angle_to_complex,\
     re_im_to_complex
 from hftools.dataset import DataBlock, DimSweep, hfarray,\
     make_matrix, DimMatrix_i, DimMatrix_j
+from hftools.constants import unit_to_multiplier
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix
+    make_col_from_matrix, matrix_dims_last, format_unit_header
 from hftools.file_formats.readbase import Token
 from hftools.file_formats.readbase import ReadFileFormat
 
@@ -229,29 +230,42 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
+    S = matrix_dims_last(db.S)
+    if S.ndim != 3:
+        msg = "Can only save S-parameters with one sweep, not %r" % (S.dims,)
+        raise TouchstoneError(msg)
+    freq = hfarray(S.dims[0])
+    if freq.unit:
+        mul = unit_to_multiplier(freq.unit)[0]
+    else:
+        mul = 1
+    if "Z0" in db:
+        z0 = db.Z0
+    else:
+        z0 = getattr(S, "Z0", 50)
+    # Two-ports are stored S11 S21 S12 S22, others row by row
+    _, columns = make_col_from_matrix(["S"], [S], "%s[%s,%s]",
+                                      fortranorder=S.shape[-2:] == (2, 2))
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+        properties = {}
+        if db.comments:
+            properties = db.comments.property
+            for comment in db.comments.fullcomments:
+                fil.write("!" + comment)
+                fil.write("\n")
         for k, v in db.vardata.items():
-            if v.shape == ():
-                fil.write("!%s: %s\n" % (k, v.outputformat % v))
-#            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
-
-
-        header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
-        fmts = [x.outputformat for x in columns]
-
-        for row in zip(*columns):
-            out = []
-            for elem, fmt in zip(row, fmts):
-                if iscomplexobj(elem):
-                    out.append(fmt % elem.real)
-                    out.append(fmt % elem.imag)
-                else:
-                    out.append(fmt % elem)
+            if v.shape == () and k not in ("Z0", "FILENAME"):
+                if k in properties and np.all(properties[k] == v):
+                    continue  # Already in the comments
+                name = format_unit_header(k, v)
+                fil.write("!%s: %s\n" % (name, v.outputformat % v))
+        fil.write("#HZ S RI R %.16g\n" % z0)
+
+        for row in zip(freq, *columns):
+            out = [freq.outputformat % (row[0] * mul)]
+            for elem, col in zip(row[1:], columns):
+                out.append(col.outputformat % elem.real)
+                out.append(col.outputformat % elem.imag)
             fil.write("\t".join(out))
             fil.write("\n")
 
-- 
2.43.0


From b96d539d19225d26c106f99e29b7cc5f6af4b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:59 +0000
Subject: [PATCH 056/107] fix: MDIF files can be read, incomplete CITI and MDIF
 files give ParseError

---
 hftools/file_formats/mdif.py     |  4 ++++
 hftools/file_formats/readbase.py | 17 +++++++----------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..dbc1946 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -199,6 +199,10 @@ class ReadMDIFFileFormat(ReadFileFormat):
         """
         while True:
             comments = ManyOptional("COMMENT")(stream)
+            token = next(stream, None)
+            if token is None:  # End of file
+                return
+            stream.push(token)
 
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 51cd5e8..112c897 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -68,14 +68,11 @@ def ManyOptional(name, func=None):
 
     def ManyOptional(stream):
         tokens = []
-        current_token = next(stream)
-        while current_token.tag == name:
+        for current_token in stream:
+            if current_token.tag != name:
+                stream.push(current_token)
+                break
             tokens.append(func(current_token.rad))
-            try:
-                current_token = next(stream)
-            except StopIteration:
-                return tokens
-        stream.push(current_token)
         return tokens
     return ManyOptional
 
@@ -102,11 +99,11 @@ def OneOf(names, error, func=None):
 
     def One(stream):
         tokens = []
-        current_token = next(stream)
-        if current_token.tag in names:
+        current_token = next(stream, None)
+        if current_token is not None and current_token.tag in names:
             tokens.append(current_token.rad)
         else:
-            raise Exception(error)
+            raise ParseError(error)
         return tokens
     return One
 
-- 
2.43.0


From 4826485046bd74993aa2d0e6b650cae51e2943c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:31 +0000
Subject: [PATCH 057/107] fix: CITI files keep values with their labels for any
 order of dimensions, units and matrices

---
 hftools/file_formats/citi.py       | 136 ++++++++++++++++-------------
 hftools/file_formats/common.py     |  24 ++++-
 hftools/file_formats/touchstone.py |  12 +--
 3 files changed, 99 insertions(+), 73 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..66a1764 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -20,10 +20,10 @@ import re
 
 import numpy as np
 from numpy import array, iscomplexobj, pi
-import hftools.dataset
-from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
+from hftools.dataset import DataBlock, DimSweep, hfarray
 from hftools.core.exceptions import HFToolsIOError
-from hftools.file_formats.common import Comments
+from hftools.file_formats.common import Comments, in_si_unit,\
+    matrix_dims_last, make_col_from_matrix, scalar_comments
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
     ReadFileFormat, Optional, OneOf
@@ -37,7 +37,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile("[-+0-9eE.]|inf|nan", re.I)
 
 
 class ReadCITIFileFormat(ReadFileFormat):
@@ -114,6 +114,8 @@ class ReadCITIFileFormat(ReadFileFormat):
         comments.extend(ManyOptional("COMMENT")(stream))
         datanames = ManyOptional("DATADEF")(stream)
         comments.extend(ManyOptional("COMMENT")(stream))
+        if not varnames and not datanames:
+            raise CITIFileError("No VAR or DATA in file")
         block = DataBlock()
         block.blockname = name[0]
         for name, typ, N in varnames:
@@ -150,6 +152,12 @@ class ReadCITIFileFormat(ReadFileFormat):
             datalist.shape = shape
             block[name] = hfarray(datalist, dims=dims)
             One("DATA_LIST_END", "Missing END")(stream)
+        ManyOptional("COMMENT")(stream)
+        # Only the first package of a file is read
+        token = next(stream, None)
+        if token is not None and token.tag != "CITIFILE":
+            msg = "Expected end of file on line: %s, got %r"
+            raise CITIFileError(msg % (token.lineno, token.rad))
         yield block
 
     def make_block_complex(self, block):
@@ -175,68 +183,69 @@ def handle_data(data, typ):
         raise CITIFileError("Unknown Vartype %r" % (typ,))
 
 
+def make_columns(block):
+    """Return names and arrays, without matrices and with the same dimensions
+    in the same order, of the variables of *block* stored in a CITI file.
+    """
+    names = []
+    values = []
+    for name, value in block.vardata.items():
+        if value.dims and is_numlike(value):
+            names.append(name)
+            values.append(matrix_dims_last(in_si_unit(value)))
+    header, columns = make_col_from_matrix(names, values, "%s%s%s")
+    for idx, value in enumerate(columns):
+        if set(value.dims) != set(columns[0].dims):
+            msg = ("Can only save variables with the same dimensions %r, "
+                   "variable %s has %r")
+            raise CITIFileError(msg % (columns[0].dims, header[idx],
+                                       value.dims))
+        columns[idx] = value.reorder_dimensions(*columns[0].dims)
+    for dim in columns[0].dims if columns else ():
+        if not is_numlike(dim.data):
+            raise CITIFileError("Can only save numeric dimensions, not %r" %
+                                dim)
+    return header, columns
+
+
 def format_citi_block(inblock):
-    block = DataBlock()
-    for k, v in inblock.vardata.items():
-        block[k] = v
-    block.blockname = inblock.blockname
-    block.comments = inblock.comments
+    header, columns = make_columns(inblock)
+    dims = columns[0].dims if columns else ()
     yield "CITIFILE A.01.01"
 
-    if block.comments:
-        for comment in block.comments.fullcomments:
+    if inblock.comments:
+        for comment in inblock.comments.fullcomments:
             yield "!" + comment.lstrip("!")
-    else:
-        pass
-    yield "NAME %s" % block.blockname
-
-    for name, value in block.ivardata.items():
-        if is_numlike(value.data) and not isinstance(value, _DimMatrix):
-            yield "VAR %s MAG %s" % (name, value.data.shape[0])
-
-    for name, value in block.vardata.items():
-        if is_numlike(value):
-            if hftools.dataset.ismatrix(value):
-                names = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
-                        names.append("%s%s%s" % (name, i + 1, j + 1))
-            else:
-                names = [name]
-            for n in names:
-                if iscomplexobj(value):
-                    yield "DATA %s RI" % (n)
-                else:
-                    yield "DATA %s MAG" % (n)
-
-    for name, value in block.ivardata.items():
-        if is_numlike(value.data) and not isinstance(value, _DimMatrix):
-            yield "VAR_LIST_BEGIN"
-            fmt = value.outputformat
-            for rad in value.data:
-                yield fmt % rad
-            yield "VAR_LIST_END"
-
-    for name, value in block.vardata.items():
-        if is_numlike(value):
-            if hftools.dataset.ismatrix(value):
-                values = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
-                        values.append(value[..., i, j])
-            else:
-                values = [value]
-            for val in values:
-                yield "BEGIN"
-                if iscomplexobj(val):
-                    fmt = "%s,%s" % (val.outputformat, val.outputformat)
-                    for rad in val.flat:
-                        yield fmt % (rad.real, rad.imag)
-                else:
-                    fmt = val.outputformat
-                    for rad in val.flat:
-                        yield fmt % rad
-                yield "END"
+    for comment in scalar_comments(inblock):
+        yield "!" + comment
+    yield "NAME %s" % inblock.blockname
+
+    for dim in dims:
+        yield "VAR %s MAG %s" % (dim.name, dim.data.shape[0])
+
+    for name, value in zip(header, columns):
+        if iscomplexobj(value):
+            yield "DATA %s RI" % name
+        else:
+            yield "DATA %s MAG" % name
+
+    for dim in dims:
+        yield "VAR_LIST_BEGIN"
+        value = in_si_unit(hfarray(dim))
+        for rad in value:
+            yield value.outputformat % rad
+        yield "VAR_LIST_END"
+
+    for value in columns:
+        yield "BEGIN"
+        if iscomplexobj(value):
+            fmt = "%s,%s" % (value.outputformat, value.outputformat)
+            for rad in value.flat:
+                yield fmt % (rad.real, rad.imag)
+        else:
+            for rad in value.flat:
+                yield value.outputformat % rad
+        yield "END"
 
 
 def is_citi(filename, rad):
@@ -246,8 +255,9 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
+    lines = list(format_citi_block(db))
     with open(filename, "w") as fil:
-        for rad in format_citi_block(db):
+        for rad in lines:
             fil.write(rad)
             fil.write("\n")
 
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 5ee39bb..15d4756 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -21,7 +21,7 @@ import numpy as np
 from hftools.dataset import hfarray, ismatrix, DataBlock, DimMatrix_i,\
     DimMatrix_j, _DimMatrix
 from hftools.constants import convert_with_unit,\
-    string_number_with_unit_to_value
+    string_number_with_unit_to_value, unit_to_multiplier
 from hftools.utils import to_numeric
 
 _examples = """
@@ -323,6 +323,28 @@ def matrix_dims_last(a):
     return a.reorder_dimensions(*dims)
 
 
+def in_si_unit(a):
+    """Return *a* in SI unit, for file formats that do not store units"""
+    mul, unit = unit_to_multiplier(a.unit) if a.unit else (1, None)
+    if mul == 1:
+        return a
+    return hfarray(np.asarray(a) * mul, dims=a.dims, unit=unit,
+                   outputformat="%.16e")
+
+
+def scalar_comments(db, skip=()):
+    """Yield comments for variables without dimensions in *db*, unless they
+    are in the comments already.
+    """
+    properties = db.comments.property if db.comments else {}
+    for k, v in db.vardata.items():
+        if v.shape == () and k != "FILENAME" and k not in skip:
+            if k in properties and np.all(properties[k] == v):
+                continue
+            fmt = "%s" if np.iscomplexobj(v) else v.outputformat
+            yield "%s: %s" % (format_unit_header(k, v), fmt % v)
+
+
 def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
     fullheader = []
     fullcolumns = []
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index ee8d64c..f80cd57 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -26,7 +26,7 @@ from hftools.dataset import DataBlock, DimSweep, hfarray,\
     make_matrix, DimMatrix_i, DimMatrix_j
 from hftools.constants import unit_to_multiplier
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, matrix_dims_last, format_unit_header
+    make_col_from_matrix, matrix_dims_last, scalar_comments
 from hftools.file_formats.readbase import Token
 from hftools.file_formats.readbase import ReadFileFormat
 
@@ -247,18 +247,12 @@ def save_touchstone(db, filename):
     _, columns = make_col_from_matrix(["S"], [S], "%s[%s,%s]",
                                       fortranorder=S.shape[-2:] == (2, 2))
     with open(filename, "w") as fil:
-        properties = {}
         if db.comments:
-            properties = db.comments.property
             for comment in db.comments.fullcomments:
                 fil.write("!" + comment)
                 fil.write("\n")
-        for k, v in db.vardata.items():
-            if v.shape == () and k not in ("Z0", "FILENAME"):
-                if k in properties and np.all(properties[k] == v):
-                    continue  # Already in the comments
-                name = format_unit_header(k, v)
-                fil.write("!%s: %s\n" % (name, v.outputformat % v))
+        for comment in scalar_comments(db, skip=["Z0"]):
+            fil.write("!%s\n" % comment)
         fil.write("#HZ S RI R %.16g\n" % z0)
 
         for row in zip(freq, *columns):
-- 
2.43.0


From 235343b0d4a59e2df242ec8686a2f347eca0f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:04 +0000
Subject: [PATCH 058/107] fix: MDIF files hold the values of all blocks, blocks
 that do not fit are refused

---
 hftools/dataset/dataset.py   |  13 +--
 hftools/file_formats/mdif.py | 174 +++++++++++++++++++++--------------
 2 files changed, 111 insertions(+), 76 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 3360cd5..cdaccaa 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -57,15 +57,16 @@ def subset_datablock_by_dims(db, dims):
 
 
 def yield_dim_consistent_datablocks(db):
-    dimset = set()
+    dimset = []
     for v in db.vardata.values():
-        dimset.add(v.dims)
+        if v.dims not in dimset:
+            dimset.append(v.dims)
     while dimset:
-        longest = sorted(dimset, key=len)[-1]
+        longest = max(dimset, key=len)
         yield longest, subset_datablock_by_dims(db, longest)
-        dimset.discard(longest)
-        if len(longest) > 1:
-            dimset.discard(longest[1:])
+        dimset.remove(longest)
+        if len(longest) > 1 and longest[1:] in dimset:
+            dimset.remove(longest[1:])
 
 
 def convert_matrices_to_elements(db, formatelement=None):
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index dbc1946..fc6afb3 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -26,9 +26,9 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob
-from hftools.file_formats.common import Comments,\
-    format_complex_header, format_elem
+from hftools.utils import glob, is_numlike
+from hftools.file_formats.common import Comments, format_elem, in_si_unit,\
+    scalar_comments
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -60,13 +60,19 @@ class GetData(object):
 
     def parse_data(self, datastream):
         vardata = DataDict()
-        while True:
+        if not datastream or len(datastream) % len(self.parse_stream):
+            raise MDIFError("Incomplete data for header %r" % self.header)
+        while datastream:
             for lineparser in self.parse_stream:
-                linedata = datastream.pop(0).split()
-                for func, varname in lineparser:
-                    vardata.setdefault(varname, []).append(func(linedata))
-            if not datastream:
-                break
+                line = datastream.pop(0)
+                linedata = line.split()
+                try:
+                    for func, varname in lineparser:
+                        vardata.setdefault(varname, []).append(func(linedata))
+                except IndexError:
+                    raise MDIFError("Too few values in line %r" % line)
+                if linedata:
+                    raise MDIFError("Too many values in line %r" % line)
         return vardata
 
     def parse_header(self, head):
@@ -155,7 +161,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
@@ -205,7 +211,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             stream.push(token)
 
             def split_eq(rad):
-                return [x.strip() for x in rad.split("=")]
+                return [x.strip() for x in rad.split("=", 1)]
             var = ManyOptional("VAR", split_eq)(stream)
             blockname = One("BEGIN", "Must have Begin after VARs")(stream)
             attribs = ManyOptional("ATTRIB", split_eq)(stream)
@@ -216,11 +222,17 @@ class ReadMDIFFileFormat(ReadFileFormat):
             yield out
 
     def parse_blocks(self, stream):
+        properties = {}
         for comments, vars, blockname, header, attribs, data in stream:
+            if not header:
+                raise MDIFError("No header in block %r" % blockname[0])
             db = DataBlock()
             db.blockname = blockname = blockname[0]
             #self.header = header = header[0]
             db.comments = Comments(comments)
+            # Comments hold for all following blocks
+            properties.update(db.comments.property)
+            db.comments.property.update(properties)
             #data = numpy.array(data)
             dd = self.proc_data(header, data[:])
             for vname in dd:
@@ -235,7 +247,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             self.make_matrices(db, sum(header, []))
             yield db
 
-    def proc_attrib(self, var):
+    def proc_value(self, var):
         varname, value = var
         varname, vartype = varname.split('(')
         vartype = vartype.strip(")")
@@ -243,20 +255,22 @@ class ReadMDIFFileFormat(ReadFileFormat):
             varname = varname[len("sweep."):]
         if vartype == "real":
             value = float(value)
+        elif vartype == "integer":
+            value = int(value)
+        elif vartype == "complex":
+            value = complex(*[float(x) for x in value.split()])
+        elif vartype == "string":
+            value = value.strip('"')
         else:
-            raise Exception("%r not an implemented var type" % vartype)
+            raise MDIFError("%r not an implemented var type" % vartype)
+        return varname, value
+
+    def proc_attrib(self, var):
+        varname, value = self.proc_value(var)
         return varname, hfarray(value)
 
     def proc_var(self, var):
-        varname, value = var
-        varname, vartype = varname.split('(')
-        vartype = vartype.strip(")")
-        if varname.startswith("SWEEP."):
-            varname = varname[len("sweep."):]
-        if vartype == "real":
-            value = float(value)
-        else:
-            raise Exception("%r not an implemented var type" % vartype)
+        varname, value = self.proc_value(var)
         i = DimPartial(varname, np.array([value]))
         return i
 
@@ -288,7 +302,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             X = np.concatenate(arrays, 1)
             I, J = map(set, zip(*a))
             X.shape = X.shape[:1] + (len(I), len(J))
-            db.vardata[matrix] = make_matrix(X, dims)
+            db[matrix] = make_matrix(X, dims)
             idx = min([db.vardata.order.index("%s[%s,%s]" % (matrix, i, j))
                        for i, j in a])
             for i, j in a:
@@ -304,7 +318,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             dims = db.vardata["%s[%s]" % (matrix, i)].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
-            db.vardata[matrix] = make_vector(X, dims)
+            db[matrix] = make_vector(X, dims)
             idx = min([db.vardata.order.index("%s[%s]" % (matrix, i))
                        for i, in a])
             for i, in a:
@@ -331,16 +345,32 @@ class ReadMDIFFileFormat(ReadFileFormat):
 def simple_merge_blocks(blocks):
     if len(blocks) == 1:
         return blocks[0]
-    ri = DimRep("INDEX", len(blocks))
+    first = blocks[0]
+    for b in blocks[1:]:
+        same = (set(b.vardata) == set(first.vardata) and
+                set(b.ivardata) == set(first.ivardata))
+        for k in first.vardata if same else ():
+            same = same and b.vardata[k].dims == first.vardata[k].dims
+        for k, dim in first.ivardata.items() if same else ():
+            same = same and (isinstance(dim, DimPartial) or
+                             np.array_equal(b.ivardata[k].data, dim.data))
+        if not same:
+            raise MDIFError("Blocks named %r do not have the same variables "
+                            "and dimensions" % first.blockname)
+    index = len(blocks)
+    if "INDEX" in first.ivardata:  # saved by save_mdif
+        index = [b.ivardata["INDEX"].data[0] for b in blocks]
+    ri = DimRep("INDEX", index)
     out = DataBlock()
-    #import pdb;pdb.set_trace()
+    out.blockname = first.blockname
     for k in blocks[0].vardata:
-        out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
+        out[k] = hfarray([np.asarray(b[k]) for b in blocks],
+                         dims=(ri,) + blocks[0][k].dims,
+                         unit=blocks[0][k].unit)
         if blocks[0][k].dims:
             out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
     for k in blocks[0].ivardata:
-        if isinstance(blocks[0].ivardata[k], DimPartial):
+        if k != "INDEX" and isinstance(blocks[0].ivardata[k], DimPartial):
             out[k] = hfarray([b.ivardata[k].data[0] for b in blocks],
                              dims=(ri,))
     c = []
@@ -464,41 +494,37 @@ def fixnames(mdif):
             v = shorten_name(b.vardata, v)
 
 
+def mdif_header(name, value):
+    """Return *name* with the MDIF type of *value*"""
+    if not is_numlike(value):
+        return "%s(string)" % name
+    elif np.iscomplexobj(value):
+        return "%s(complex)" % name
+    else:
+        return "%s(real)" % name
+
+
 def fmt_mdif_block(dims, db):
-    dimnames = [x.name for x in dims]
-    fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
-        for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
-#            import pdb;pdb.set_trace()
-            yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
-        blockname = db.blockname
-        if blockname is None:
-            blockname = "DATABLOCK"
-        yield ["BEGIN %s" % blockname]
-
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
-        attribheader = format_complex_header(attribnames, attribdata,
-                                             "%s(real)", "%s(complex)",
-                                             None, unit_fmt=False)
-        for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
-
-        header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
-
-                                if v.dims == dims])
-        header = (dims[0].name, ) + header
-
-        idx = (Ellipsis,) + coord
-        columns = [col[idx] for col in columns]
-        columns = [hfarray(dims[0])] + columns
-        outheader = format_complex_header(header, columns,
-                                          "%s(real)", "%s(complex)",
-                                          None, unit_fmt=False)
-
-        yield ["% " + " ".join(outheader)]
+    sweeps = [in_si_unit(hfarray(x)) for x in dims]
+    attribs = [(k, in_si_unit(v)) for (k, v) in db.vardata.items()
+               if v.dims == dims[1:] and k not in ("FILENAME", "Created")]
+    variables = [(dims[0].name, sweeps[0])]
+    variables += [(k, in_si_unit(v)) for (k, v) in db.vardata.items()
+                  if v.dims == dims]
+    for idx in itertools.product(*[range(len(x)) for x in sweeps[1:]]):
+        for dim, sweep, i in zip(dims[1:], sweeps[1:], idx):
+            yield ["VAR SWEEP.%s = %s" % (mdif_header(dim.name, sweep),
+                                          sweep.outputformat % sweep[i])]
+        yield ["BEGIN %s" % db.blockname]
+
+        for name, data in attribs:
+            value = " ".join(format_elem(data.outputformat, data[idx]))
+            yield ["# %s = %s" % (mdif_header(name, data), value)]
+
+        yield ["% " + " ".join(mdif_header(*x) for x in variables)]
+        columns = [sweeps[0]] + [x[(slice(None),) + idx]
+                                 for _, x in variables[1:]]
         fmts = [x.outputformat for x in columns]
-#        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
             for elem, fmt in zip(row, fmts):
@@ -508,21 +534,29 @@ def fmt_mdif_block(dims, db):
 
 
 def loop_db(db):
-    for dims, subset in yield_dim_consistent_datablocks(db):
+    blockname = db.blockname or "DATABLOCK"
+    for n, (dims, subset) in enumerate(yield_dim_consistent_datablocks(db)):
         if not dims:
             continue
+        # Blocks with the same name have the same variables
+        subset.blockname = "%s_%d" % (blockname, n) if n else blockname
         for rad in fmt_mdif_block(dims, subset):
             yield rad
 
 
 def save_mdif(db, filename):
-    fil = open(filename, "w")
-    fil.write("!Created: %s\n" % time.asctime())
-    #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db)):
-        fil.write("\t".join(rad))
-        fil.write("\n")
-    fil.close()
+    lines = ["!Created: %s" % time.asctime()]
+    if db.comments:
+        lines.extend("!" + x for x in db.comments.fullcomments
+                     if not x.startswith("Created:"))
+    db = convert_matrices_to_elements(db)
+    if all(len(dims) != 1 for dims, _ in yield_dim_consistent_datablocks(db)):
+        lines.extend("!" + x for x in scalar_comments(db, skip=["Created"]))
+    lines.extend("\t".join(rad) for rad in loop_db(db))
+    with open(filename, "w") as fil:
+        for rad in lines:
+            fil.write(rad)
+            fil.write("\n")
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From aea1113ad0c6176cab1aff0ff6743246525ae4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:59 +0000
Subject: [PATCH 059/107] fix: MDIF files keep matrices of different sizes,
 vectors, units of comments and single VARs

---
 hftools/dataset/dataset.py     |  2 ++
 hftools/file_formats/common.py |  9 +++++++--
 hftools/file_formats/mdif.py   | 24 +++++++++++++++++-------
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index cdaccaa..c549659 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -691,6 +691,8 @@ class DataBlock(object):
                     varnames.extend(self.comments.property)
             for varname in varnames:
                 unit = guess_unit_from_varname(varname)
+                if unit is None:
+                    continue
                 if varname in self and self[varname].unit is None:
                     if varname in self.ivardata:
                         olddim = self.ivardata[varname]
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 15d4756..f9e13a8 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -332,14 +332,19 @@ def in_si_unit(a):
                    outputformat="%.16e")
 
 
+def in_comments(db, name):
+    """True if the value of variable *name* is a property of the comments"""
+    properties = db.comments.property if db.comments else {}
+    return name in properties and bool(np.all(properties[name] == db[name]))
+
+
 def scalar_comments(db, skip=()):
     """Yield comments for variables without dimensions in *db*, unless they
     are in the comments already.
     """
-    properties = db.comments.property if db.comments else {}
     for k, v in db.vardata.items():
         if v.shape == () and k != "FILENAME" and k not in skip:
-            if k in properties and np.all(properties[k] == v):
+            if in_comments(db, k):
                 continue
             fmt = "%s" if np.iscomplexobj(v) else v.outputformat
             yield "%s: %s" % (format_unit_header(k, v), fmt % v)
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index fc6afb3..2dc77b4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -28,7 +28,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
 
 from hftools.utils import glob, is_numlike
 from hftools.file_formats.common import Comments, format_elem, in_si_unit,\
-    scalar_comments
+    in_comments, scalar_comments
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -315,7 +315,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db[matrix] = make_vector(X, dims)
@@ -504,14 +504,19 @@ def mdif_header(name, value):
         return "%s(real)" % name
 
 
-def fmt_mdif_block(dims, db):
+def fmt_mdif_block(dims, db, partials=()):
     sweeps = [in_si_unit(hfarray(x)) for x in dims]
     attribs = [(k, in_si_unit(v)) for (k, v) in db.vardata.items()
-               if v.dims == dims[1:] and k not in ("FILENAME", "Created")]
+               if v.dims == dims[1:] and k not in ("FILENAME", "Created") and
+               not in_comments(db, k)]
     variables = [(dims[0].name, sweeps[0])]
     variables += [(k, in_si_unit(v)) for (k, v) in db.vardata.items()
                   if v.dims == dims]
     for idx in itertools.product(*[range(len(x)) for x in sweeps[1:]]):
+        for dim in partials:
+            value = in_si_unit(hfarray(dim))
+            yield ["VAR SWEEP.%s = %s" % (mdif_header(dim.name, value),
+                                          value.outputformat % value[0])]
         for dim, sweep, i in zip(dims[1:], sweeps[1:], idx):
             yield ["VAR SWEEP.%s = %s" % (mdif_header(dim.name, sweep),
                                           sweep.outputformat % sweep[i])]
@@ -533,14 +538,15 @@ def fmt_mdif_block(dims, db):
         yield ["END"]
 
 
-def loop_db(db):
+def loop_db(db, partials=()):
     blockname = db.blockname or "DATABLOCK"
     for n, (dims, subset) in enumerate(yield_dim_consistent_datablocks(db)):
         if not dims:
             continue
         # Blocks with the same name have the same variables
         subset.blockname = "%s_%d" % (blockname, n) if n else blockname
-        for rad in fmt_mdif_block(dims, subset):
+        subset.comments = db.comments
+        for rad in fmt_mdif_block(dims, subset, partials):
             yield rad
 
 
@@ -549,10 +555,14 @@ def save_mdif(db, filename):
     if db.comments:
         lines.extend("!" + x for x in db.comments.fullcomments
                      if not x.startswith("Created:"))
+    # VARs of files with one block
+    partials = [dim for k, dim in db.ivardata.items() if k != "FILEINDEX" and
+                isinstance(dim, DimPartial) and dim.data.shape == (1,) and
+                not any(dim in v.dims for v in db.vardata.values())]
     db = convert_matrices_to_elements(db)
     if all(len(dims) != 1 for dims, _ in yield_dim_consistent_datablocks(db)):
         lines.extend("!" + x for x in scalar_comments(db, skip=["Created"]))
-    lines.extend("\t".join(rad) for rad in loop_db(db))
+    lines.extend("\t".join(rad) for rad in loop_db(db, partials))
     with open(filename, "w") as fil:
         for rad in lines:
             fil.write(rad)
-- 
2.43.0


From 3ae0fb85f6b40f53ee4dc287e7ce40fd792c9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:33 +0000
Subject: [PATCH 060/107] fix: units of dimensions in HDF5 version 0.1 files
 are text

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..bd0f2da 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -104,7 +104,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From 0a721d275a3e132e52b3c935a24bc651bd2d9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:16 +0000
Subject: [PATCH 061/107] fix: HDF5 version 0.2 files keep comments, block name
 and dimensions; appending keeps labels and refuses what does not fit

---
 hftools/file_formats/hdf5/v_02.py | 128 ++++++++++++++++++++++--------
 1 file changed, 95 insertions(+), 33 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..b3f633f 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -15,7 +15,8 @@ except ImportError:  # pragma: no cover
 
 import numpy as np
 from hftools.dataset import DimRep, DimSweep, hfarray, DataBlock,\
-    DimMatrix_i, DimMatrix_j, DimPartial
+    DimMatrix_i, DimMatrix_j, DimPartial, _DimMatrix
+from hftools.dataset.dim import DimAnonymous, DiagAxis
 from hftools.py3compat import PY3, cast_unicode
 from hftools.dataset.comments import Comments
 #from hftools.file_formats.hdf5.hdf5 import hdf5context
@@ -26,6 +27,8 @@ dimrep = {"DimRep": DimRep,
           "DimMatrix_i": DimMatrix_i,
           "DimMatrix_j": DimMatrix_j,
           "DimPartial": DimPartial,
+          "DimAnonymous": DimAnonymous,
+          "DiagAxis": DiagAxis,
           }
 
 
@@ -41,29 +44,31 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(X, size=None):
+    """Dimension stored in dataset *X*, of length *size*"""
+    dimcls = dimrep[cast_unicode(X.attrs.get("dimtype", "DimSweep"))]
+    data = cast_arrays_from_hdf5(X)
+    if issubclass(dimcls, _DimMatrix) and size not in (None, len(data)):
+        # Matrices of different sizes
+        data = range(size)
+    return dimcls(unescape_varname(X.name.strip("/")), data,
+                  unit=X.attrs.get("unit", None),
+                  outputformat=X.attrs.get("outputformat", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
-    for x in X.dims:
+    for x, size in zip(X.dims, X.shape):
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
-
-    unit = X.attrs.get("unit", None)
-    outputformat = X.attrs.get("outputformat", None)
-    dtype = X.attrs.get("dtype", None)
-    if len(dims) == len(X.dims):
-        return hfarray(X.value, dims=dims, unit=unit,
-                       dtype=dtype, outputformat=outputformat)
-    else:
-        dimcls = dimrep[X.attrs.get("dimtype", "DimSweep")]
-        dim = dimcls(X.name.strip("/"), X[...], unit=unit)
-        return hfarray(X.value, dims=(dim,), unit=unit,
-                       dtype=dtype, outputformat=outputformat)
+            dims.append(getdim(x[0], size))
+
+    if len(dims) != len(X.dims):
+        dims = (getdim(X),)
+    return hfarray(cast_arrays_from_hdf5(X), dims=dims,
+                   unit=X.attrs.get("unit", None),
+                   outputformat=X.attrs.get("outputformat", None))
 
 
 def cast_arrays_to_hdf5(data):
@@ -80,6 +85,16 @@ def cast_arrays_to_hdf5(data):
     return data
 
 
+def cast_arrays_from_hdf5(X):
+    dtype = X.attrs.get("dtype", None)
+    if dtype is None:
+        return X[()]
+    dtype = np.dtype(cast_unicode(dtype))
+    if dtype.kind == "U":  # of any length
+        return np.array(X[()], dtype=np.unicode_)
+    return np.array(X[()], dtype=dtype)
+
+
 def create_dataset(db, key, data, expandable=False):
     if "/" in key:
         raise Exception("/ illegal character for variable name in hdf5 file")
@@ -105,7 +120,15 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
-        db.comments = Comments()
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
+                db[uk] = getdim(filehandle[k])
+        db.blockname = filehandle.attrs.get("blockname", None)
+        comments = filehandle.attrs.get("comments", [])
+        db.comments = Comments([cast_unicode(x) for x in comments])
+        if kw.get("property_to_vars", False):
+            db.values_from_property()
         return db
     else:
         raise IOError("filehandle should be a h5py File, is: %r" % filehandle)
@@ -127,6 +150,11 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
+    if db.blockname is not None:
+        filehandle.attrs["blockname"] = db.blockname
+    if db.comments and db.comments.fullcomments:
+        comments = np.array(db.comments.fullcomments, dtype=object)
+        filehandle.attrs.create("comments", comments, dtype=h5py_string_dtype)
     for k, v in db.ivardata.items():
         ek = escape_varname(k)
         create_dataset(filehandle, ek, v.data)
@@ -138,15 +166,16 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
 
     if expandable:
         data = np.array(expanddim.data)
-        filehandle.create_dataset(expanddim.name, data=data, maxshape=(None,))
-        filehandle[expanddim.name].attrs["dtype"] = data.dtype.str
+        name = escape_varname(expanddim.name)
+        filehandle.create_dataset(name, data=data, maxshape=(None,))
+        filehandle[name].attrs["dtype"] = data.dtype.str
         expanddim_class = expanddim.__class__.__name__
-        filehandle[expanddim.name].attrs["dimtype"] = expanddim_class
+        filehandle[name].attrs["dimtype"] = expanddim_class
         if expanddim.unit:
-            filehandle[expanddim.name].attrs["unit"] = expanddim.unit
+            filehandle[name].attrs["unit"] = expanddim.unit
         if expanddim.outputformat:
             outputformat = expanddim.outputformat
-            filehandle[expanddim.name].attrs["outputformat"] = outputformat
+            filehandle[name].attrs["outputformat"] = outputformat
 
     for k, v in db.vardata.items():
         ek = escape_varname(k)
@@ -158,8 +187,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            dim = filehandle[escape_varname(dv.name)]
+            filehandle[ek].dims.create_scale(dim)
+            filehandle[ek].dims[idx].attach_scale(dim)
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
@@ -183,18 +213,50 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
-
+    # Check everything before the file is changed
+    data = {}
     for k, v in filehandle.items():
         uk = unescape_varname(k)
-        if uk in db.ivardata or uk == expanddim.name:
+        if "dimtype" in v.attrs:
             continue
         if uk not in db.vardata:
             raise ValueError("Variable %r missing in db, can not append" % uk)
+        data[k] = match_data(db[uk], getvar(filehandle, k), uk, expanddim)
+    for k in db.vardata:
+        if escape_varname(k) not in data:
+            raise ValueError("Variable %r missing in file, can not append" % k)
+
+    index = filehandle[escape_varname(expanddim.name)]
+    idx = index[-1] + 1
+    expand_dataset(index, 1, 0)
+    index[-1] = idx
+    for k, v in data.items():
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
-        diskdata[s] = cast_arrays_to_hdf5(db[uk])
+        diskdata[s] = cast_arrays_to_hdf5(v)
+
+
+def match_data(value, ondisk, name, expanddim):
+    """Return *value* with dimensions and type of *ondisk*"""
+    dims = tuple(dim for dim in ondisk.dims if dim.name != expanddim.name)
+    same = set(dim.name for dim in dims) == set(x.name for x in value.dims)
+    for dim in dims if same else ():
+        other = value.dims[value.dims_index(dim.name)]
+        same = same and (np.array_equal(dim.data, other.data) and
+                         dim.unit == other.unit)
+    if not same:
+        raise ValueError("Variable %r has dimensions %r in file, can not "
+                         "append %r" % (name, dims, value.dims))
+    if value.unit != ondisk.unit:
+        raise ValueError("Variable %r has unit %r in file, can not append "
+                         "unit %r" % (name, ondisk.unit, value.unit))
+    if not (np.can_cast(value.dtype, ondisk.dtype, "same_kind") and
+            (value.dtype.kind in "SU") == (ondisk.dtype.kind in "SU")):
+        raise ValueError("Variable %r has type %s in file, can not append "
+                         "type %s" % (name, ondisk.dtype, value.dtype))
+    value = value.reorder_dimensions(*[dim.name for dim in dims])
+    if ondisk.dtype.kind == "U":
+        return np.asarray(value)
+    return np.asarray(value).astype(ondisk.dtype)
-- 
2.43.0


From caf177cfe8afe2f2f73787ff04af22814283eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 062/107] fix: HDF5 version 0.1 files keep strings, names with
 slashes and matrices of different sizes

---
 hftools/file_formats/hdf5/v_01.py | 60 ++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index bd0f2da..f6c7ff8 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -16,12 +16,39 @@ except ImportError:  # pragma: no cover
 import hftools
 import numpy as np
 from hftools.dataset import DimRep, hfarray, DataBlock
-from hftools.dataset.dim import DimBase
+from hftools.dataset.dim import DimBase, _DimMatrix
 from hftools.file_formats.common import Comments
 
 from hftools.py3compat import string_types, cast_unicode, cast_bytes
 
 
+h5py_string_dtype = h5py.special_dtype(vlen=type(u""))
+
+
+def escape_varname(x):
+    return x.replace("/", "\\")
+
+
+def unescape_varname(x):
+    return x.replace("\\", "/")
+
+
+def cast_data(data):
+    """Return *data* as stored in file and its dtype when that differs"""
+    if data.dtype.name.startswith("datetime64"):
+        return data.astype(np.uint64), data.dtype.name
+    elif data.dtype.kind == "U":
+        return np.asarray(data).astype(h5py_string_dtype), "str"
+    return data, ""
+
+
+def resize_dim(dim, size):
+    """Matrices may be of different sizes"""
+    if isinstance(dim, _DimMatrix) and len(dim.data) != size:
+        return dim.__class__(dim, range(size))
+    return dim
+
+
 def unpack_dim(dim):
     return dim.__class__.__name__, dim.name, dim.unit
 
@@ -45,31 +72,20 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
 #        pdb.set_trace()
 
     for k in db.vardata:
-        datadtype = ""
-        data = db[k]
+        data, datadtype = cast_data(db[k])
         if data.ndim:
-            if data.dtype.name.startswith("datetime64"):
-                datadtype = data.dtype.name
-                data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data, compression=compression, )
+            dset = vardata.create_dataset(escape_varname(k), data=data, compression=compression, )
             klass, name, unit = zip(*[unpack_dim(dim) for dim in db[k].dims])
         else:
-            if data.dtype.name.startswith("datetime64"):
-                datadtype = data.dtype.name
-                data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data) #can not compress scalars
+            dset = vardata.create_dataset(escape_varname(k), data=data) #can not compress scalars
             name = []
         dset.attrs[r"info\name"] = list(map(cast_bytes, name))
         dset.attrs[r"data\unit"] = cast_bytes(db[k].unit if db[k].unit is not None else "None")
         dset.attrs[r"data\dtype"] = datadtype
 
     for k in db.ivardata:
-        datadtype = ""
-        data = hfarray(db.ivardata[k])
-        if data.dtype.name.startswith("datetime64"):
-            datadtype = data.dtype.name
-            data = data.astype(np.uint64)
-        dset = ivardata.create_dataset(k, data=data, compression=compression)
+        data, datadtype = cast_data(hfarray(db.ivardata[k]))
+        dset = ivardata.create_dataset(escape_varname(k), data=data, compression=compression)
         klass, name, unit = unpack_dim(db.ivardata[k])
         dset.attrs[r"info\class"] = klass
         dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
@@ -108,16 +124,18 @@ def read_hdf5(h5file, name="datablock", **kw):
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-        dim = dimcls(k, vdata, unit=unit)
-        db[k] = dim
+        uk = unescape_varname(k)
+        dim = dimcls(uk, vdata, unit=unit)
+        db[uk] = dim
     for k in vardata:
         v = vardata[k]
         datadtype = v.attrs[r"data\dtype"] or None
-        dims = tuple(db.ivardata[cast_unicode(dimname)] for dimname in v.attrs[r"info\name"])
+        dims = tuple(resize_dim(db.ivardata[cast_unicode(dimname)], size)
+                     for dimname, size in zip(v.attrs[r"info\name"], v.shape))
         unit = cast_unicode(v.attrs.get(r"data\unit", "none"))
         if unit.lower() == "none":
             unit = None
-        db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
+        db[unescape_varname(k)] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
     if isinstance(h5file, string_types):
         fil.close()
 
-- 
2.43.0


From f63545d1d5d039935e327d4bf8a6b824f12379f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:54 +0000
Subject: [PATCH 063/107] fix: text files are written in the encoding they are
 read with, read_data reads HDF5 and cp1252 files

---
 hftools/file_formats/__init__.py   |  4 +++-
 hftools/file_formats/citi.py       |  7 ++-----
 hftools/file_formats/common.py     | 10 ++++++++++
 hftools/file_formats/mdif.py       | 10 ++++------
 hftools/file_formats/touchstone.py | 31 ++++++++++++++----------------
 5 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..1531824 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,8 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    # Any file can be decoded, also binary files
+    fil = io.open(fname, encoding="latin-1")
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 66a1764..8c86591 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -23,7 +23,7 @@ from numpy import array, iscomplexobj, pi
 from hftools.dataset import DataBlock, DimSweep, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, in_si_unit,\
-    matrix_dims_last, make_col_from_matrix, scalar_comments
+    matrix_dims_last, make_col_from_matrix, scalar_comments, write_lines
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
     ReadFileFormat, Optional, OneOf
@@ -256,10 +256,7 @@ def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
     lines = list(format_citi_block(db))
-    with open(filename, "w") as fil:
-        for rad in lines:
-            fil.write(rad)
-            fil.write("\n")
+    write_lines(filename, lines)
 
 
 def read_citi(filnamn, make_complex=True, property_to_vars=True,
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index f9e13a8..f15981e 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -13,6 +13,7 @@ hftools.file_formats.common
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -23,6 +24,15 @@ from hftools.dataset import hfarray, ismatrix, DataBlock, DimMatrix_i,\
 from hftools.constants import convert_with_unit,\
     string_number_with_unit_to_value, unit_to_multiplier
 from hftools.utils import to_numeric
+from hftools.py3compat import cast_unicode
+
+
+def write_lines(filename, lines, encoding="cp1252"):
+    """Write *lines* to *filename* in the encoding files are read with"""
+    text = u"".join(cast_unicode(rad) + u"\n" for rad in lines)
+    text.encode(encoding)  # before an existing file is overwritten
+    with io.open(filename, "w", encoding=encoding) as fil:
+        fil.write(text)
 
 _examples = """
 !START Time : 2010-10-19 16:01:26
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 2dc77b4..49219b2 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -16,6 +16,7 @@ MDIF
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -28,7 +29,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
 
 from hftools.utils import glob, is_numlike
 from hftools.file_formats.common import Comments, format_elem, in_si_unit,\
-    in_comments, scalar_comments
+    in_comments, scalar_comments, write_lines
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -137,7 +138,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             filenames = [filename]
         objs = {}
         for idx, fname in enumerate(filenames):
-            with open(fname) as fil:
+            with io.open(fname, encoding="cp1252") as fil:
                 res = obj.do_file(fil)
                 for k, v in res.items():
                     if isinstance(v, list):
@@ -563,10 +564,7 @@ def save_mdif(db, filename):
     if all(len(dims) != 1 for dims, _ in yield_dim_consistent_datablocks(db)):
         lines.extend("!" + x for x in scalar_comments(db, skip=["Created"]))
     lines.extend("\t".join(rad) for rad in loop_db(db, partials))
-    with open(filename, "w") as fil:
-        for rad in lines:
-            fil.write(rad)
-            fil.write("\n")
+    write_lines(filename, lines)
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index f80cd57..5701931 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -26,7 +26,7 @@ from hftools.dataset import DataBlock, DimSweep, hfarray,\
     make_matrix, DimMatrix_i, DimMatrix_j
 from hftools.constants import unit_to_multiplier
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, matrix_dims_last, scalar_comments
+    make_col_from_matrix, matrix_dims_last, scalar_comments, write_lines
 from hftools.file_formats.readbase import Token
 from hftools.file_formats.readbase import ReadFileFormat
 
@@ -246,22 +246,19 @@ def save_touchstone(db, filename):
     # Two-ports are stored S11 S21 S12 S22, others row by row
     _, columns = make_col_from_matrix(["S"], [S], "%s[%s,%s]",
                                       fortranorder=S.shape[-2:] == (2, 2))
-    with open(filename, "w") as fil:
-        if db.comments:
-            for comment in db.comments.fullcomments:
-                fil.write("!" + comment)
-                fil.write("\n")
-        for comment in scalar_comments(db, skip=["Z0"]):
-            fil.write("!%s\n" % comment)
-        fil.write("#HZ S RI R %.16g\n" % z0)
-
-        for row in zip(freq, *columns):
-            out = [freq.outputformat % (row[0] * mul)]
-            for elem, col in zip(row[1:], columns):
-                out.append(col.outputformat % elem.real)
-                out.append(col.outputformat % elem.imag)
-            fil.write("\t".join(out))
-            fil.write("\n")
+    lines = []
+    if db.comments:
+        lines.extend("!" + x for x in db.comments.fullcomments)
+    lines.extend("!" + x for x in scalar_comments(db, skip=["Z0"]))
+    lines.append("#HZ S RI R %.16g" % z0)
+
+    for row in zip(freq, *columns):
+        out = [freq.outputformat % (row[0] * mul)]
+        for elem, col in zip(row[1:], columns):
+            out.append(col.outputformat % elem.real)
+            out.append(col.outputformat % elem.imag)
+        lines.append("\t".join(out))
+    write_lines(filename, lines)
 
 
 def read_touchstone(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From 81badb75195469b5c36ad7da6f44c3d9143faa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:25 +0000
Subject: [PATCH 064/107] fix: read_data recognises MDIF files without VAR,
 lists of MDIF files; an interrupted save does not leave a broken cache

---
 hftools/file_formats/__init__.py | 18 +++++++++++-------
 hftools/file_formats/mdif.py     |  7 +++++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index 1531824..f9bcaa4 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -64,13 +64,12 @@ def read_data(filename, merge=True, guess_unit=True,
         filenames = filename
     else:
         filenames = [filename]
-    for f in filenames:
-        files = glob.glob(f)
-        if len(files) != 0:
-            fname = files[0]
-            break
-    else:
+    files = [fname for f in filenames for fname in glob.glob(f)]
+    if not files:
         raise IOError("No files match pattern %r" % filename)
+    fname = files[0]
+    if len(files) == 1:
+        filename = fname
     # Any file can be decoded, also binary files
     fil = io.open(fname, encoding="latin-1")
     for rad in fil:
@@ -101,7 +100,12 @@ def read_to_cache(filename, cachename=None, cachedir=None,
     if not cachename.exists() or reread:
         data = read_data(filename, verbose=verbose)
         yield data, True
-        save_hdf5(data, cachename)
+        # An interrupted save must not be taken for the cached data
+        tmpname = cachename + ".tmp"
+        save_hdf5(data, tmpname)
+        if cachename.exists():
+            cachename.remove()
+        tmpname.rename(cachename)
     else:
         data = read_hdf5(cachename)
         yield data, False
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 49219b2..6dd58d4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -37,7 +37,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*(VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"BEGIN[\t ]+[^\t ]+[\t ]*$)")
 
 
 def is_mdif(filename, rad):
@@ -132,7 +133,9 @@ class ReadMDIFFileFormat(ReadFileFormat):
                   make_matrix=make_matrix, merge=merge, verbose=verbose, **kw)
         obj.filename = filename
 
-        if multiple_files:
+        if multiple_files and isinstance(filename, (list, tuple)):
+            filenames = [fname for f in filename for fname in glob(f)]
+        elif multiple_files:
             filenames = glob(filename)
         else:
             filenames = [filename]
-- 
2.43.0


From 11d21e962b8c76fe66761295f63cc0c923d81533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:35 +0000
Subject: [PATCH 065/107] fix: block names which are paths can be saved in HDF5
 files

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 hftools/file_formats/hdf5/v_02.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index f6c7ff8..39a37e2 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -61,7 +61,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
     if db.blockname is None:
         blockname = "None"
     else:
-        blockname = db.blockname
+        blockname = u"%s" % db.blockname
     grp.attrs["Blockname"] = blockname
     vardata = grp.create_group("vardata")
     ivardata = grp.create_group("ivardata")
diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index b3f633f..cce89ac 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -151,7 +151,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
     if db.blockname is not None:
-        filehandle.attrs["blockname"] = db.blockname
+        filehandle.attrs["blockname"] = u"%s" % db.blockname
     if db.comments and db.comments.fullcomments:
         comments = np.array(db.comments.fullcomments, dtype=object)
         filehandle.attrs.create("comments", comments, dtype=h5py_string_dtype)
-- 
2.43.0


From eb13e5b2ae4bc3301b66a92a44cebf68c24fcd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:44 +0000
Subject: [PATCH 066/107] fix: SI formatting of numbers from 1e24, tiny numbers
 and nan

---
 hftools/constants/si_units.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 1f95b4a..bad6808 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
@@ -106,7 +106,8 @@ def _help_format_sci(value, digs):
     mul = e % 3
     if (e >= 0 and e < 3):
         return m * 10 ** mul, 0
-    return (value * 10 ** -(e - mul), e - mul)
+    e = min(max(e - mul, -24), 24)
+    return (value * 10 ** -e, e)
 
 
 def mantissa(x):
@@ -122,9 +123,11 @@ def mantissa(x):
 
 def format_number(number, fmt="%(num)s %(unit)s",
                   unit="", digs=3, greek=False):
-    if np.isinf(number):
+    if np.isinf(number) or np.isnan(number):
         prefix = ""
-        if number > 0:
+        if np.isnan(number):
+            num = "nan"
+        elif number > 0:
             num = "inf"
         else:
             num = "-inf"
-- 
2.43.0


From 1a1936f9f6a92b943b60011a5753a9c2a91097a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:06 +0000
Subject: [PATCH 067/107] fix: configuration files keep values over write and
 reload, lookup through lists, failed writes keep the file

---
 hftools/file_formats/config.py | 76 +++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..70f3bdd 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -18,6 +18,7 @@ import yaml
 from collections import OrderedDict
 from hftools.constants import siprefixes
 from hftools import path
+from hftools.py3compat import cast_unicode
 
 
 def convert_si_value(value):
@@ -54,7 +55,7 @@ def find_next_dict(dct):
         parent = dct.parent
     except AttributeError:
         return None
-    if isinstance(parent, dict):
+    if isinstance(parent, (dict, MergedDicts)):
         return parent
     else:
         return find_next_dict(parent)
@@ -74,7 +75,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
@@ -103,7 +105,9 @@ class LexicalScopeDict(OrderedDict):
         return out
 
     def copy(self):
-        return LexicalScopeDict(OrderedDict.copy(self))
+        out = LexicalScopeDict(self)
+        out.parent = self.parent
+        return out
 
     def __repr__(self):
         return dict.__repr__(self)
@@ -117,13 +121,14 @@ class MergedDicts(object):
     def copy(self):
         m = MergedDicts()
         m.dicts = self.dicts[:]
+        m.parent = self.parent
         return m
 
     def __contains__(self, key):
         for dct in self.dicts:
             if key in dct:
                 return True
-        if self.parent:
+        if self.parent is not None:
             return key in self.parent
         return False
 
@@ -139,7 +144,7 @@ class MergedDicts(object):
                 return dct[key]
             except KeyError:
                 pass
-        if self.parent:
+        if self.parent is not None:
             return self.parent[key]
         raise KeyError("Unknown key %r" % key)
 
@@ -164,6 +169,13 @@ def ensure_standard(obj, parent):
     return l
 
 
+def write_yaml(data, filename):
+    # Data that can not be written must not destroy the file
+    text = yaml.dump(data, Dumper=StandardDumper, default_flow_style=False)
+    with io.open(filename, "w", encoding="utf-8") as stream:
+        stream.write(cast_unicode(text))
+
+
 class LexicalConfig(LexicalScopeDict):
     def __init__(self, filename):
         LexicalScopeDict.__init__(self)
@@ -174,17 +186,17 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                self.update(yaml.load(stream, Loader=LexicalLoader) or {})
+            for value in self.values():
+                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                    value.parent = self
         except IOError:
             print("missing config file %r" % self.filename)
 
     def write(self, filename=None):
         if filename is None:
             filename = self.filename
-        with io.open(filename, "w", encoding="utf-8") as stream:
-            yaml.dump(self.convert_to_standard(), stream,
-                      Dumper=StandardDumper,
-                      default_flow_style=False)
+        write_yaml(self.convert_to_standard(), filename)
 
 
 class Config(dict):
@@ -197,16 +209,14 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
     def write(self, filename=None):
         if filename is None:
             filename = self.filename
-        with io.open(filename, "w", encoding="utf-8") as stream:
-            yaml.dump(dict(self), stream, Dumper=StandardDumper,
-                      default_flow_style=False)
+        write_yaml(dict(self), filename)
 
 
 class SIValue(float):
@@ -227,21 +237,16 @@ def convert_or_none(x):
 
 def sivalue_representer(dumper, data):
     if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
+        return dumper.represent_float(float(data))
 
 
 
 def timeintervall_representer(dumper, data):
-    tremain = data.total_seconds()
-    days = tremain // (3600 * 24)
-    tremain = tremain - days * 3600 * 24
-    hours = tremain // (3600)
-    tremain = tremain - hours * 3600
-    minutes = tremain // 60
-    tremain = tremain - minutes * 60
-    seconds = tremain
+    days = data.days
+    hours, tremain = divmod(data.seconds, 3600)
+    minutes, seconds = divmod(tremain, 60)
     out = []
     if days:
         out.append(u"%s days" % days)
@@ -249,35 +254,38 @@ def timeintervall_representer(dumper, data):
         out.append(u"%s hours" % hours)
     if minutes:
         out.append(u"%s minutes" % minutes)
-    if seconds:
+    if data.microseconds:
+        out.append(u"%d.%06d seconds" % (seconds, data.microseconds))
+    elif seconds or not out:
         out.append(u"%s seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall', u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
-                          r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
+                          r"[ \t]*(((?!m$)[dcmunpfakMGTPE])?"
+                          r"(Hz|V|A|m|s|W|Ohm)?)?$")
 
 reg_percent_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                                r"[ \t]*(%|ppm|ppb)$")
 
 
-regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?")
+regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?$")
 regtimeshort = re.compile(r"[0-9][0-9]:[0-9][0-9]")
 regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
-                              r" [0-9][0-9]:[0-9][0-9]")
+                              r" [0-9][0-9]:[0-9][0-9]$")
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-timeintervallpattern = rec(r'^(([0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
+timeintervallpattern = rec(r'^((-?[0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:hour|hours))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:minutes|minute))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:second|seconds))?$')
@@ -413,7 +421,7 @@ def lexical_scope_dict_representer(dumper, data):
 
 
 def lexical_scope_list_representer(dumper, data):
-    return dumper.represent_mapping(u'tag:yaml.org,2002:seq', data)
+    return dumper.represent_sequence(u'tag:yaml.org,2002:seq', data)
 
 
 StandardDumper.add_representer(SIValue, sivalue_representer)
-- 
2.43.0


From ced014ef92733f970d7078a37332aa8de067d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:29 +0000
Subject: [PATCH 068/107] fix: smoothing along other axes, of integers and of
 the last sample, unwrap_phase of integers

---
 hftools/math.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0dfebeb..c5475b2 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -132,7 +132,7 @@ def _unwrap_phase(data, deg=False):
        >>> unwrap_phase(hfarray(y))
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
-    result = data.real * 0
+    result = data.real * 0.
     a = angle(data[0])
     a0 = np.median(array(a.flat[0], copy=False))
     add_pos = abs(a - a0 + 2 * pi) < 2
@@ -204,7 +204,9 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
-    newdata = np.empty_like(data)
+    newdata = np.empty_like(data, dtype=np.result_type(data, float))
+    axis = axis % data.ndim
+    before = (slice(None), ) * axis
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +215,10 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            window = before + (slice(i - wid, i + wid + odd), )
+            newdata[before + (i, )] = np.mean(data[window], axis)
         else:
-            newdata[i] = data[i]
+            newdata[before + (i, )] = data[before + (i, )]
     return newdata
 
 
@@ -243,8 +246,8 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
 
     """
     import scipy
-    newdata = np.empty_like(y)
-    size = x.shape[axis] - 1
+    newdata = np.empty_like(y, dtype=np.result_type(y, float))
+    size = x.shape[axis]
     if aperture % 2 == 0:
         odd = 0
     else:
-- 
2.43.0


From b26015fffcc4ae4a7635136134476214313491d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:56 +0000
Subject: [PATCH 069/107] fix: Rn computed from a chain representation was
 twice as large

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..84fe236 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -91,7 +91,7 @@ class NoisyTwoport(object):
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
-            Rn = CA11.real
+            Rn = CA11.real / 2
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
             Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
-- 
2.43.0


From ebf57e6964d774b94d1d7190fe10d94302635f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:09 +0000
Subject: [PATCH 070/107] fix: elements of a matrix in a DataBlock can be set
 to plain numbers

---
 hftools/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c549659..a148ece 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -369,7 +369,7 @@ class DataBlock(object):
             if self._xname is None:
                 self._xname = value.name
         else:
-            if self._xname is None and value.dims:
+            if self._xname is None and getattr(value, "dims", ()):
                 self._xname = value.dims[0].name
             mname, elem = is_matrix_name(key)
             if ((mname in self.vardata and ismatrix(self.vardata[mname]) and
@@ -397,7 +397,8 @@ class DataBlock(object):
         if np.issubdtype(data.dtype, np.number) and dtype != data.dtype:
             data = data.astype(dtype)
         elemdims = matrix_outer_dims(data)
-        if all(dim in elemdims for dim in value.dims):
+        if (hasattr(value, "dims") and
+                all(dim in elemdims for dim in value.dims)):
             value = change_shape(value, elemdims)
         data[idx] = value
         self.vardata[mname] = data
-- 
2.43.0


From 1eacb09d9dd10452c673fb30715ecaca4067beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:46 +0000
Subject: [PATCH 071/107] fix: comments with a unit and text instead of a
 number can be read

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0


From 9434ea5ddc793e759e3fc94dbf72fb8fbd13cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:25 +0000
Subject: [PATCH 072/107] fix: Smith and polar chart grids draw with current
 matplotlib

---
 hftools/plotting/smith.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..3459ba0 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -88,13 +88,10 @@ class MyCircle(object):
         if self.t1 is None or self.t2 is None:
             return plt.Circle((self.x, self.y), self.r, *k, **kw)
         else:
-            pars = ((self.x, self.y),
-                    self.flipx * 2 * self.r,
-                    self.flipy * 2 * self.r,
-                    0,
-                    self.t1,
-                    self.t2)
-            return Arc(*(pars + k), **kw)
+            return Arc((self.x, self.y),
+                       self.flipx * 2 * self.r,
+                       self.flipy * 2 * self.r,
+                       angle=0, theta1=self.t1, theta2=self.t2, *k, **kw)
 
 
 class MyLine(object):
@@ -252,7 +249,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, angle=0, theta1=t1, theta2=t2,
+                         color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +284,8 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, angle=0, theta1=t1, theta2=t2,
+                     fc="w", ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From bc04b16d8b9a9243987041ea89741c11ffb07627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:54 +0000
Subject: [PATCH 073/107] fix: zero susceptance line runs between its own ends

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 3459ba0..125a4f6 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -211,8 +211,8 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-- 
2.43.0


From 5e6105d47c74edca5cc464875284515a2ce769a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:17 +0000
Subject: [PATCH 074/107] fix: magnitude, phase and part projections plot plain
 arrays

---
 hftools/plotting/helper.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..f44cfc1 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -626,19 +626,24 @@ def cplx_polar_projection(x, y):
         theta = np.angle(y)
     return theta, r
 
+
+def _with_dims(values, y):
+    """Give *values* the dims of *y*, if it has any.
+    """
+    if hasattr(y, "dims"):
+        return hfarray(values, dims=y.dims)
+    return values
+
 _projfun = dict(db=lambda x, y: (x, hftools.math.dB(y)),
                 db10=lambda x, y: (x, 10 * np.log10(abs(y))),
-                mag=lambda x, y: (x, hfarray(np.abs(y), dims=y.dims)),
-                mag_square=lambda x, y: (x, hfarray(np.abs(y) ** 2,
-                                                    dims=y.dims)),
-                rad=lambda x, y: (x, hfarray(np.angle(y, deg=False),
-                                             dims=y.dims)),
-                deg=lambda x, y: (x, hfarray(np.angle(y, deg=True),
-                                             dims=y.dims)),
+                mag=lambda x, y: (x, _with_dims(np.abs(y), y)),
+                mag_square=lambda x, y: (x, _with_dims(np.abs(y) ** 2, y)),
+                rad=lambda x, y: (x, _with_dims(np.angle(y, deg=False), y)),
+                deg=lambda x, y: (x, _with_dims(np.angle(y, deg=True), y)),
                 unwraprad=lambda x, y: (x, unwrap_phase(y)),
                 unwrapdeg=lambda x, y: (x, unwrap_phase(y, deg=True)),
-                imag=lambda x, y: (x, hfarray(np.imag(y), dims=y.dims)),
-                real=lambda x, y: (x, hfarray(np.real(y), dims=y.dims)),
+                imag=lambda x, y: (x, _with_dims(np.imag(y), y)),
+                real=lambda x, y: (x, _with_dims(np.real(y), y)),
                 groupdelay=lambda x, y: delay(x, y),
                 cplxpolar=cplx_polar_projection)
 _projfun["x-si"] = lambda x, y: (x, y)
-- 
2.43.0


From fcfd77c52974fb4ef764109a889046e1f978cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:42 +0000
Subject: [PATCH 075/107] fix: projected plots are labelled with the unit of
 what they show

---
 hftools/plotting/helper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index f44cfc1..19d1bad 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -351,6 +351,7 @@ class HFToolsAxes(Axes):
 
             if projection in _projfun:
                 x, y = _projfun[projection](x, y)
+                yunit = _projunit.get(projection, yunit)
                 lines = self._plot_helper(x, y, *args, **kwargs)
             elif np.iscomplexobj(y):
                 xunit = yunit
@@ -649,6 +650,10 @@ _projfun = dict(db=lambda x, y: (x, hftools.math.dB(y)),
 _projfun["x-si"] = lambda x, y: (x, y)
 _projfun[None] = lambda x, y: (x, y)
 
+#Unit of the plotted quantity when it is not the unit of the data
+_projunit = dict(db="dB", db10="dB", rad="rad", unwraprad="rad",
+                 deg=u"\xb0", unwrapdeg=u"\xb0", groupdelay="s")
+
 
 def is_in_ipython():
     """Funktionen returnerar True om scriptet kors under ipython
-- 
2.43.0


From 1d35b564a229a244f2126b476a31aca126759da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:08 +0000
Subject: [PATCH 076/107] fix: polar plot of a plain complex array uses its
 angles

---
 hftools/plotting/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 19d1bad..6cfc630 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -588,7 +588,7 @@ class ComplexPolarAxes(PolarAxes):
             y = vars[0]
             if projection in _projfun:
                 x, y = _projfun[projection](None, y)
-                return Axes.plot(self, y, *args, **kwargs)
+                return Axes.plot(self, x, y, *args, **kwargs)
             elif np.iscomplexobj(y):
                 return Axes.plot(self, y.real, y.imag, *args, **kwargs)
             else:
-- 
2.43.0


From 999f1d0ac70cdda85eeff7ccc4b3e757ab442322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:30 +0000
Subject: [PATCH 077/107] fix: axis labels always give the prefix the tick
 texts were divided by

---
 hftools/plotting/helper.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 6cfc630..457f0b3 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -83,7 +83,6 @@ class SimpleUnitFormatter(FormatStrFormatter):
         self.default_unit = unit
         self._label_unit = None
         self.set_label_fmt(label_fmt)
-        self.label_template = None
 
     def __call__(self, x, pos=None):
         div = 1
@@ -147,10 +146,9 @@ class UnitFormatter(FormatStrFormatter):
         self.set_label_fun = set_label_fun
         self.default_unit = unit
         self._label_unit = None
-        self.set_label_fmt(label_fmt)
-        self.label_template = None
         self.digs = digs
         self.default_label = "X"
+        self.set_label_fmt(label_fmt)
 
     def __call__(self, x, pos=None):
         locs = [abs(y) for y in self.locs if abs(y) != 0]
@@ -169,6 +167,7 @@ class UnitFormatter(FormatStrFormatter):
                 prefix = si_exp_to_prefixes.get(exponent, "q")
                 if prefix == "q":
                     prefix = ""
+                    exponent = 0
                     div = 1
                     self.fmt = "%%.%de" % self.digs
                 xlabel = self.label_template % dict(prefix=prefix,
@@ -176,6 +175,10 @@ class UnitFormatter(FormatStrFormatter):
                 self.set_label_fun(xlabel)
             return FormatStrFormatter.__call__(self, x / div, pos)
         else:
+            if self.set_label_fun and self.label_template:
+                #The prefix is part of the tick text
+                self.set_label_fun(self.label_template %
+                                   dict(prefix="", powerprefix=0))
             self.engfmt.locs = self.locs
             return self.engfmt(x, pos)
 
@@ -229,8 +232,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From 6ee6e2d4b4219fe3182b70ce3a5b2759cf96ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:05 +0000
Subject: [PATCH 078/107] fix: savefig does not pass facetransparent on to
 matplotlib

---
 hftools/plotting/helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 457f0b3..8cf6676 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -38,12 +38,13 @@ __all__ = ["is_in_ipython", "build_figlegend", "twin_axes_legend",
 
 
 def savefig(filename, *k, **kw):
-    if kw.get("facetransparent", False):
+    facetransparent = kw.pop("facetransparent", False)
+    if facetransparent:
         fig = pylab.gcf()
         alpha = fig.patch.get_alpha()
         fig.patch.set_alpha(0)
     pylab.savefig(filename, *k, **kw)
-    if kw.get("facetransparent", False):
+    if facetransparent:
         fig.patch.set_alpha(alpha)
 
 
-- 
2.43.0


From 16a0bf2f11e73136c9dd031b450a9dbf76978587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:06 +0000
Subject: [PATCH 079/107] fix: SP-data files with incomplete tables are refused
 instead of losing columns

---
 hftools/file_formats/spdata.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 2c3ea3d..360bd7a 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -83,7 +83,10 @@ class ReadSPFileFormat(ReadFileFormat):
         """Bunch tagged stream into sub blocks. Each sub block
         containing a measurement data block.
         """
-        token, lineno, rad = next(stream)
+        try:
+            token, lineno, rad = next(stream)
+        except StopIteration:
+            raise SPDataIOError("File is empty")
         running = True
         while running:
             comments = []
@@ -119,7 +122,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if not data or any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
@@ -147,8 +150,12 @@ class ReadSPFileFormat(ReadFileFormat):
             remove = []
             for vname in db.comments.property:
                 if vname[:1] == "@":
-                    unit = db.comments.property[vname].unit
-                    data = [float(db.comments.property[vname])]
+                    try:
+                        unit = db.comments.property[vname].unit
+                        data = [float(db.comments.property[vname])]
+                    except (AttributeError, TypeError, ValueError):
+                        msg = "Sweep variable %r must be a number" % vname
+                        raise SPDataIOError(msg)
                     db[vname[1:]] = DimPartial(vname[1:], data=data, unit=unit)
                     remove.append(vname)
             for v in remove:
-- 
2.43.0


From f481df1d0a09d333bac9c6b110b785522469aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:26 +0000
Subject: [PATCH 080/107] fix: comments with a unit and a date can be read

---
 hftools/constants/si_units.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index bad6808..cf62c0b 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -97,8 +97,10 @@ def convert_with_unit(unit, value):
     else:
         mul = 1
         unit = None
-    return hftools.dataset.hfarray(to_numeric(value, error=True) * mul,
-                                   unit=unit)
+    value = to_numeric(value, error=True)
+    if isinstance(value, np.datetime64):
+        raise ValueError("Can not convert date %s to value with unit" % value)
+    return hftools.dataset.hfarray(value * mul, unit=unit)
 
 
 def _help_format_sci(value, digs):
-- 
2.43.0


From 01d2156f55c6fe377ec88b0470312ee80c96b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:32 +0000
Subject: [PATCH 081/107] fix: files can be read without merging their blocks

---
 hftools/file_formats/readbase.py | 39 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 112c897..ed66bc1 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -211,6 +211,16 @@ def combine_elements_to_matrix(data, name):
 reg_matrix = re.compile("([A-Za-z_]+)([0-9])([0-9])$")
 
 
+def iter_blocks(blocks):
+    """Iterate over all DataBlocks in nested lists and dictionaries"""
+    if isinstance(blocks, DataBlock):
+        yield blocks
+        return
+    for block in getattr(blocks, "values", lambda: blocks)():
+        for x in iter_blocks(block):
+            yield x
+
+
 def match_matrix_elements(varnames, elem_matcher):
     possibles = {}
     for elemname in varnames:
@@ -294,9 +304,13 @@ class ReadFileFormat(object):
                 if multiple_files:
                     #res["FILEINDEX"] = DimPartial("FILEINDEX", [idx])
                     fname = py3.cast_unicode(fname)
-                    if "FILENAME" not in res:
-                        res["FILENAME"] = hfarray(fname)
-                objs.append(res)
+                    for block in iter_blocks(res):
+                        if "FILENAME" not in block:
+                            block["FILENAME"] = hfarray(fname)
+                if merge:
+                    objs.append(res)
+                else:
+                    objs.extend(res)
         if multiple_files:
             res = obj._merge(objs)
         else:
@@ -322,21 +336,10 @@ class ReadFileFormat(object):
         #import pdb;pdb.set_trace()
         blocks = self._merge(blocks)
         #import pdb;pdb.set_trace()
-        if isinstance(blocks, DataBlock):
-            if "FILEINDEX" not in blocks:
-                blocks["FILEINDEX"] = DimPartial("FILEINDEX",
-                                                 [self.file_index])
-        else:
-            for b in blocks.values():
-                if isinstance(b, (list, tuple)):
-                    for x in b:
-                        if "FILEINDEX" not in x:
-                            x["FILEINDEX"] = DimPartial("FILEINDEX",
-                                                        [self.file_index])
-                else:
-                    if "FILEINDEX" not in b:
-                        b["FILEINDEX"] = DimPartial("FILEINDEX",
-                                                    [self.file_index])
+        for block in iter_blocks(blocks):
+            if "FILEINDEX" not in block:
+                block["FILEINDEX"] = DimPartial("FILEINDEX",
+                                                [self.file_index])
         self.file_index += 1
         return blocks
 
-- 
2.43.0


From a2c2b81ea53de5d6f0d20f0f2f91d26757d1556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:29 +0000
Subject: [PATCH 082/107] fix: reading a file does not overwrite columns whose
 names become the same

---
 hftools/file_formats/common.py   |  2 +-
 hftools/file_formats/readbase.py | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index f15981e..eba937c 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -301,7 +301,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index ed66bc1..4ab5f27 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -135,15 +135,17 @@ def make_cplx(dataset):
 
     for vname, alt in varnames.items():
         if "Re" in alt and "Im" in alt:
-            if vname in dataset:
+            rest = alt["Re"][1]
+            if rest == alt["Im"][1] and reg_varunit.match(vname + rest):
+                newname = vname + rest  # Same unit
+            else:
+                newname = vname
+            if vname in dataset or newname in dataset:
                 pass  # Already scalar data present
             else:
                 value = (dataset[alt["Re"][-1]] +
                          dataset[alt["Im"][-1]] * 1j)
-                rest = alt["Re"][1]
-                if rest == alt["Im"][1] and reg_varunit.match(vname + rest):
-                    vname = vname + rest  # Same unit
-                dataset[vname] = value
+                dataset[newname] = value
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
@@ -165,6 +167,8 @@ def fix_unit(db, varname):
     res = reg_varunit.match(varname)
     if res:
         vname, unit = res.groups()
+        if vname in db:  # Do not overwrite other columns
+            return
         mul, unit = unit_to_multiplier(unit)
 #        db.rename(varname, vname)
         if varname in db.ivardata:
@@ -329,8 +333,8 @@ class ReadFileFormat(object):
             msg = args % (self.__class__.__name__)
             raise ParseError(msg)
         blocks = self._make_complex(blocks)
-        blocks = self._properties_to_vars(blocks)
         blocks = self._guess_unit(blocks)
+        blocks = self._properties_to_vars(blocks)
         blocks = self._normalize(blocks)
         blocks = self._combine_matrices(blocks)
         #import pdb;pdb.set_trace()
@@ -385,6 +389,8 @@ class ReadFileFormat(object):
             matrices.update(match_matrix_elements(block.vardata.keys(),
                                                   matcher))
         for vname, (elems, i_indices, j_indices) in matrices.items():
+            if vname in block and block[vname].dims:
+                continue  # Do not overwrite other columns
             ex = block[elems[0]]
             shape = ex.shape
             dtype = np.result_type(*[block[elem].dtype for elem in elems])
-- 
2.43.0


From a4581eea58ce40729f401634cc25e13192587724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:35 +0000
Subject: [PATCH 083/107] fix: read_mdif(guess_unit=False) does not guess units

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 6dd58d4..06e6275 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -156,7 +156,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             res = {}
             for k, v in objs.items():
                 res[k] = simple_merge_blocks(v)
-                res[k].guess_units()
+                res[k].guess_units(guess_unit)
         else:
             res = objs
 
-- 
2.43.0


From 424e9f2dd9c6af15db0f4c1e2da87819686cd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 084/107] fix: labels follow the elements when indexing
 hfarrays with hfarrays along several dimensions

---
 hftools/dataset/arrayobj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index e40648a..b1d13e9 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -696,14 +696,15 @@ class _hfarray(ndarray):
         indices = indices + (slice(None),) * (self.ndim - len(indices))
         dims = []
         dim_in_indices = dict((x.dims[0].name, x.dims[0]) for x in indices
-                              if isinstance(x, hfarray))
+                              if isinstance(x, hfarray) and x.ndim)
         for idx, dim in zip(indices, self.dims):
             if isinstance(idx, integer_types):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
             elif (isinstance(idx, (list, ndarray)) and np.ndim(idx) == 1 and
-                  not isinstance(idx, hfarray)):
+                  (not isinstance(idx, hfarray) or idx.dtype == bool or
+                   dim.name not in dim_in_indices)):
                 dims.append(dim[np.asarray(idx) if len(idx) else slice(0)])
             else:
                 dims.append(dim_in_indices.get(dim.name, dim))
-- 
2.43.0


From 41e41d03286c19d178d5bae158f6e2cb4a6e85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 085/107] fix: arrays as index keep the order of dimensions
 when combined with integers

---
 hftools/dataset/arrayobj.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index b1d13e9..b26a463 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -710,6 +710,13 @@ class _hfarray(ndarray):
                 dims.append(dim_in_indices.get(dim.name, dim))
         if ellipsis_and_ints:
             indices = orig_indices
+        elif any(isinstance(idx, (list, ndarray)) for idx in indices):
+            # Integers first, otherwise numpy may move the axis of the array
+            ints = tuple(idx if isinstance(idx, integer_types)
+                         else slice(None) for idx in indices)
+            indices = tuple(idx for idx in indices
+                            if not isinstance(idx, integer_types))
+            self = ndarray.__getitem__(self, ints)
         out = ndarray.__getitem__(self, indices)
         if isinstance(out, ndarray):
             return self.__class__(out, dims=dims, copy=False)
-- 
2.43.0


From 79e2cedc96fc0c5e8b6a8fa76ad68fc49ecfcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:50 +0000
Subject: [PATCH 086/107] fix: np.transpose reorders the dimensions of hfarrays

---
 hftools/dataset/arrayobj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index b26a463..373da17 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -553,6 +553,8 @@ class _hfarray(ndarray):
 
            .. todo:: Ta aven emot en lista med Axis objekt.
         """
+        if len(order) == 1 and not isinstance(order[0], integer_types):
+            order = order[0]  # np.transpose gives None or a sequence
         if not order:
             order = range(self.ndim)[::-1]
         return self.__class__(ndarray.transpose(self, *order),
-- 
2.43.0


From f76c52120b3b5208959065378a046b1b9c96a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:33 +0000
Subject: [PATCH 087/107] fix: take, cumsum and cumprod distinguish dimensions
 of different class with the same name

---
 hftools/dataset/arrayobj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 373da17..13bb729 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -599,7 +599,7 @@ class _hfarray(ndarray):
         if axis is None:
             data = np.ndarray.take(self, indices, axis, out, mode)
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
-        axis = self.dims_index(axis_handler(self, axis))
+        axis = self.dims.index(axis_handler(self, axis))
         olddim = self.dims[axis]
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
@@ -1008,7 +1008,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumprod(axis=self.dims_index(axis),
+        result = np.asarray(self).cumprod(axis=self.dims.index(axis),
                                           dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
@@ -1016,7 +1016,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumsum(axis=self.dims_index(axis),
+        result = np.asarray(self).cumsum(axis=self.dims.index(axis),
                                          dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
-- 
2.43.0


From 9c6be6bd35f65ebb0d4d1e3df110d75b97bd325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:16 +0000
Subject: [PATCH 088/107] fix: take of a single element of a vector

---
 hftools/dataset/arrayobj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 13bb729..0bade22 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -584,8 +584,8 @@ class _hfarray(ndarray):
                 dj = dim
         if di is None or dj is None:
             return self
-        i = self.dims_index(di)
-        j = self.dims_index(dj)
+        i = self.dims.index(di)
+        j = self.dims.index(dj)
         order = list(range(self.ndim))
         order[i], order[j] = order[j], order[i]
         out = self.transpose(*order)
@@ -608,7 +608,8 @@ class _hfarray(ndarray):
         else:
             newdata = olddim.data.take(np.asarray(indices), mode=mode)
             newdims[axis] = olddim.__class__(olddim, data=newdata)
-        data.dims = Dims(newdims)
+        if isinstance(data, ndarray):
+            data.dims = Dims(newdims)
         return data
 
     def squeeze(self, axis=None):
-- 
2.43.0


From 01f99371a3d1483b04e472d26b559d43537ed0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 089/107] fix: unacceptable keys in a LexicalConfig are
 reported as such

---
 hftools/file_formats/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 70f3bdd..cdb4351 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -357,9 +357,9 @@ class LexicalLoader(yaml.SafeLoader):
     def construct_mapping(self, node, deep=False):
         if not isinstance(node, yaml.MappingNode):
             msg = "expected a mapping node, but found %s" % node.id
-            raise yaml.ConstructorError(None, None,
-                                        msg,
-                                        node.start_mark)
+            raise yaml.constructor.ConstructorError(None, None,
+                                                    msg,
+                                                    node.start_mark)
         mapping = LexicalScopeDict()
         for key_node, value_node in node.value:
             key = self.construct_object(key_node, deep=deep)
@@ -368,8 +368,9 @@ class LexicalLoader(yaml.SafeLoader):
             except TypeError as exc:
                 msg = "while constructing a mapping"
                 msg2 = "found unacceptable key (%s)" % exc
-                raise yaml.ConstructorError(msg, node.start_mark,
-                                            msg2, key_node.start_mark)
+                raise yaml.constructor.ConstructorError(msg, node.start_mark,
+                                                        msg2,
+                                                        key_node.start_mark)
             value = self.construct_object(value_node, deep=deep)
             if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
                 value.parent = mapping
@@ -379,7 +380,8 @@ class LexicalLoader(yaml.SafeLoader):
     def construct_sequence(self, node, deep=False):
         if not isinstance(node, yaml.SequenceNode):
             msg = "expected a sequence node, but found %s" % node.id
-            raise yaml.ConstructorError(None, None, msg, node.start_mark)
+            raise yaml.constructor.ConstructorError(None, None, msg,
+                                                    node.start_mark)
         out = LexicalScopeList()
         for child in node.value:
             value = self.construct_object(child, deep=deep)
-- 
2.43.0


From 9ebec54a0623d9f74757346711c0fc66c2ded345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:42 +0000
Subject: [PATCH 090/107] fix: passive S-parameters keep their reference
 impedance

---
 hftools/networks/spar_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 55fbc54..44d604d 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -136,7 +136,7 @@ def make_passive_svd(S, delta=1e-6):
         s = np.diag(s)
         delta = np.dot(np.dot(u, s), v)
         out.append(ss - delta)
-    return S.__class__(out, dims=S.dims)
+    return keep_Z0(S.__class__(out, dims=S.dims), S)
 
 
 def make_passive_eig(S, delta=1e-6):
@@ -153,7 +153,7 @@ def make_passive_eig(S, delta=1e-6):
             out.append(s / lambda_max * (1 - delta))
         else:
             out.append(s)
-    return S.__class__(out, dims=S.dims)
+    return keep_Z0(S.__class__(out, dims=S.dims), S)
 
 
 def make_reciprocal(S):
-- 
2.43.0


From 41ced9868cf2a1efaa8389261cfef5dd19cf2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 091/107] fix: columns whose numbers do not start at one are
 not elements of a matrix

---
 hftools/file_formats/readbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 4ab5f27..e399004 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -251,7 +251,9 @@ def _matrix_elements(elem_tuples):
         j_idx.add(j)
         elems.append(elemname)
 
-    if len(i_idx) * len(j_idx) != len(elems):
+    if ((len(i_idx) * len(j_idx) != len(elems) or
+         i_idx != set(range(1, len(i_idx) + 1)) or
+         j_idx != set(range(1, len(j_idx) + 1)))):
         return None, None, None
     else:
         return elems, sorted(i_idx), sorted(j_idx)
-- 
2.43.0


From e43f5e762272774d98a4b69effd1344ea9577365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:07 +0000
Subject: [PATCH 092/107] fix: text with underscores is not a number

---
 hftools/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 193e499..bd10b83 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -17,7 +17,7 @@ import warnings
 import numpy as np
 
 from hftools.core.exceptions import HFToolsWarning, HFToolsDeprecationWarning
-from hftools.py3compat import PY3
+from hftools.py3compat import PY3, string_types
 
 
 def reset_hftools_warnings():
@@ -88,6 +88,11 @@ def to_numeric(value, error=True):
         return value + 0
     except TypeError:
         pass
+    if isinstance(value, string_types) and "_" in value:
+        # not a number, but Python 3 reads 1_2 as 12
+        if error:
+            raise ValueError("%r is not a number" % value)
+        return value
     try:
         return int(value)
     except ValueError:
-- 
2.43.0


From f3115b3de6678620aac5a0927abd66045d98d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:33 +0000
Subject: [PATCH 093/107] fix: number minus array for unsigned, small and
 boolean integers

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 0bade22..d4b3a30 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -786,7 +786,7 @@ class _hfarray(ndarray):
 
     @check_instance
     def __rsub__(self, other):
-        return (-self).__add__(other)
+        return ndarray.__rsub__(self, other)
 
     @check_instance
     def __rmul__(self, other):
-- 
2.43.0


From 6dd002a075b0309ae9bc1877638967bfe911a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:59 +0000
Subject: [PATCH 094/107] fix: a mask keeps the output format of the dimension

---
 hftools/dataset/arrayobj.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index d4b3a30..8ea9e13 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -684,9 +684,8 @@ class _hfarray(ndarray):
             reordered = self.reorder_dimensions(*reorder2)
             if len(indices[0].dims) == 1:
                 dim = indices[0].dims[0]
-                newdim = dim.__class__(dim.name,
-                                       np.array(dim.data)[indices[0]],
-                                       unit=dim.unit)
+                newdim = dim.__class__(dim,
+                                       data=np.array(dim.data)[indices[0]])
             else:
                 newdim = get_new_anonymous_dim(self, int(np.sum(indices[0])))
 
-- 
2.43.0


From 9bce7a13f5a0cab5d6f337cfa1f8e69cbbb472f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:23 +0000
Subject: [PATCH 095/107] fix: matrices with more than nine rows, digits in
 their name or other dimension names can be saved and read

---
 hftools/dataset/dataset.py       | 32 +++++++++++++++++++++++++-------
 hftools/file_formats/citi.py     |  5 -----
 hftools/file_formats/common.py   |  6 +++++-
 hftools/file_formats/readbase.py |  7 ++++---
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index a148ece..c5cdf3e 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -73,16 +73,18 @@ def convert_matrices_to_elements(db, formatelement=None):
     out = DataBlock()
     out.blockname = db.blockname
     out.comments = db.comments
-    if formatelement is None:
-        def formatelement(varname, i, j):
-            return "%s%s%s" % (varname, i, j)
-
     for k, v in db.vardata.items():
         if ismatrix(v):
-            for i, _ in enumerate(v.dims[v.dims_index("i")].data, 1):
-                for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
+            rows, columns = matrix_size(v)
+            for i in range(1, rows + 1):
+                for j in range(1, columns + 1):
                     idx = matrix_element_index(v, (i - 1, j - 1))
-                    out[formatelement(k, i, j)] = hfarray(
+                    if formatelement is None:
+                        fmt = matrix_element_format(k, (rows, columns))
+                        name = fmt % (k, i, j)
+                    else:
+                        name = formatelement(k, i, j)
+                    out[name] = hfarray(
                         v[idx], dims=matrix_outer_dims(v), unit=v.unit,
                         outputformat=v.outputformat)
         else:
@@ -226,6 +228,22 @@ def matrix_element_index(data, elem):
     return tuple(idx)
 
 
+def matrix_size(data):
+    """Number of rows and columns of the matrices in *data*"""
+    size = dict((cls, len(dim.data)) for dim in data.dims
+                for cls in (DimMatrix_i, DimMatrix_j) if isinstance(dim, cls))
+    return size[DimMatrix_i], size[DimMatrix_j]
+
+
+def matrix_element_format(name, size):
+    """Format for the names of the elements of matrix *name*: S12, or S[1,12]
+    and S2[1,1] where S112 and S211 would be ambiguous
+    """
+    if max(size) > 9 or not re.match("[A-Za-z_]+$", name):
+        return "%s[%s,%s]"
+    return "%s%s%s"
+
+
 def matrix_outer_dims(data):
     """Dimensions of *data* except the matrix dimensions"""
     return tuple(dim for dim in data.dims
diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 8c86591..2bd2182 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -41,11 +41,6 @@ reg_data = re.compile("[-+0-9eE.]|inf|nan", re.I)
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]),"
-                                            "([0-9])[]]$").match,
-                                 re.compile("([A-Za-z_]+)([0-9])"
-                                            "([0-9])$").match]
-
     def tokenize(self, stream):
         """Split stream of lines in sp-data format into
         stream of tagged lines.
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index eba937c..d50cbfc 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -21,6 +21,7 @@ import datetime
 import numpy as np
 from hftools.dataset import hfarray, ismatrix, DataBlock, DimMatrix_i,\
     DimMatrix_j, _DimMatrix
+from hftools.dataset.dataset import matrix_element_format
 from hftools.constants import convert_with_unit,\
     string_number_with_unit_to_value, unit_to_multiplier
 from hftools.utils import to_numeric
@@ -365,13 +366,16 @@ def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
     fullcolumns = []
     for colname, col in zip(header, columns):
         if ismatrix(col):
+            fmt = fmt_matrix
+            if fmt == "%s%s%s":
+                fmt = matrix_element_format(colname, col.shape[-2:])
             for i in range(col.dims[-2].data.shape[0]):
                 for j in range(col.dims[-1].data.shape[0]):
                     if fortranorder:
                         I, J = j, i
                     else:
                         I, J = i, j
-                    fullheader.append(fmt_matrix % (colname, I + 1, J + 1))
+                    fullheader.append(fmt % (colname, I + 1, J + 1))
                     fullcolumns.append(col[..., I, J])
         else:
             fullheader.append(colname)
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index e399004..24c9d77 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -439,6 +439,7 @@ class ReadFileFormat(object):
     def combine_blocks(self, blocks):
         pass
 
-    reg = re.compile("([A-Za-z_]+)([0-9])([0-9])$")
-    match_matrix_element_name = [reg.match]
-    del reg
+    match_matrix_element_name = [re.compile("([A-Za-z_][A-Za-z_0-9]*)"
+                                            "[[]([0-9]+),([0-9]+)[]]$").match,
+                                 re.compile("([A-Za-z_]+)([0-9])"
+                                            "([0-9])$").match]
-- 
2.43.0


From c0e5c705625cf289e72489c53a2e6fce5149b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:53 +0000
Subject: [PATCH 096/107] fix: the report of blocks with boolean or complex
 labels

---
 hftools/dataset/dataset.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c5cdf3e..98e9328 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -579,11 +579,7 @@ class DataBlock(object):
     def ivar_report(self, name):
         #local import to avoid circular import
         from hftools.constants import SIFormat
-        try:
-            self.ivardata[name].data + 0
-            isnumber = True
-        except TypeError:
-            isnumber = False
+        isnumber = self.ivardata[name].data.dtype.kind in "iufM"
         tofmt = dict(name=name)
         tofmt["N"] = "<%s>" % (len(self.ivardata[name].data.flat))
 
-- 
2.43.0


From 800c967befef88631f3a670b7b2b61489a9f05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 097/107] fix: dir of a block lists the matrix elements that
 can be accessed

---
 hftools/dataset/dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 98e9328..39db495 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -687,9 +687,10 @@ class DataBlock(object):
         elemnames = []
         for k, v in self.vardata.items():
             if ismatrix(v):
-                if v.shape[-2] <= 10 and v.shape[-1] <= 10:
-                    for i in range(v.shape[-2]):
-                        for j in range(v.shape[-1]):
+                rows, columns = matrix_size(v)
+                if rows <= 9 and columns <= 9:
+                    for i in range(rows):
+                        for j in range(columns):
                             elemnames.append("%s%s%s" % (k, i + 1, j + 1))
         return (self.allvarnames + elemnames + dir(type(self)) +
                 list(self.__dict__.keys()))
-- 
2.43.0


From 4f4b6293db3f0e0233bb34b4e0e53d0df850902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:03 +0000
Subject: [PATCH 098/107] fix: zero, numeric and empty properties of muwave MAT
 files

---
 hftools/file_formats/muwave_mat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..deb90c6 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -55,8 +55,8 @@ def build_measmnt(data):
     props = q["props"][0, 0][0]
     values = q["values"][0, 0][0]
     for (k, v) in zip(props, values):
-        if v:
-            out[k[0]] = hfarray(make_real(v[0]))
+        if v.size:
+            out[k[0]] = hfarray(make_real(v.flat[0]))
         else:
             out[k[0]] = hfarray("")
         if out[k[0]].dtype.name.startswith("unicode"):
@@ -72,10 +72,10 @@ def build_meas_state(data):
         if k[0] == "Index":
             d["Index"] = DimPartial("Index", v[0])
         else:
-            if v[0].ndim == 1:
-                d[k[0]] = hfarray(make_real(v[0][0]))
+            if v.size:
+                d[k[0]] = hfarray(make_real(v.flat[0]))
             else:
-                d[k[0]] = hfarray(make_real(v[0]))
+                d[k[0]] = hfarray("")
         if d[k[0]].dtype.name.startswith("unicode"):
             d[k[0]] = hfarray(np.char.encode(d[k[0]], "cp1252", errors="replace"), dims=d[k[0]].dims)
     return d
-- 
2.43.0


From f2f946434297bc09f0533d0ff6c2e9d1897d710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:26 +0000
Subject: [PATCH 099/107] fix: MAT files that are not from muwave are refused
 with HFToolsIOError

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index deb90c6..29bbefe 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -142,7 +142,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
-- 
2.43.0


From facabec8897bd95bc5cceca60ea74f99a7495ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:52 +0000
Subject: [PATCH 100/107] fix: muwave MAT files with Y or Z parameters can be
 read

---
 hftools/file_formats/muwave_mat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 29bbefe..c2f4673 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -164,9 +164,10 @@ def read_muwave_matlabdata(filename, drop_empty=True, **kw):
     else:
         d = read_single_muwave_matlabdata(filenames[0], drop_empty=drop_empty)
 
-    order = [d.ivardata[dim] for dim in ["freq", "Index", "Index2"] if dim in d.S.dims]
-
-    d.S = d.S.reorder_dimensions(*order)
+    for k, v in d.vardata.items():
+        order = [dim for name in ["freq", "Index", "Index2"]
+                 for dim in v.dims if dim.name == name]
+        d[k] = v.reorder_dimensions(*order)
     if drop_empty:
         for k in d.vardata.keys():
             if np.all("" == d[k]):
-- 
2.43.0


From 67c49ff0a1542d267494673364a0708b3baa0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:27 +0000
Subject: [PATCH 101/107] fix: muwave MAT files without measmnt can be read

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index c2f4673..f053ac2 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -46,7 +46,7 @@ def is_muwave_matlabdata(filename, rad):
 def build_measmnt(data):
     try:
         q = data["measmnt"][0, 0]
-    except KeyError:
+    except (KeyError, ValueError):
         q = None
 
     if q is None:
-- 
2.43.0


From a0b2038f2ba67189360bb08e7343c3fcd262ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:37 +0000
Subject: [PATCH 102/107] fix: a save_spdata which fails does not destroy the
 old file

---
 hftools/file_formats/spdata.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 360bd7a..957b3f4 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -16,7 +16,6 @@ SP-Data
     .. autofunction:: normalize_names
 
 """
-import io
 import re
 import numpy as np
 
@@ -25,7 +24,7 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
     make_col_from_matrix, format_complex_header, format_elem,\
-    format_unit_header
+    format_unit_header, write_lines
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -188,16 +187,12 @@ def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
 def save_spdata(db, filename, encoding="cp1252"):
     """Write a Datablock to a sp-format file with name filename.
     """
+    rows = [u"\t".join(rad) for rad in db_iterator(db, format_sp_block)]
     if isinstance(filename, string_types):
-        fil = io.open(filename, "w", encoding=encoding)
+        write_lines(filename, rows, encoding)
     else:
-        fil = filename
-    for rad in db_iterator(db, format_sp_block):
-        fil.write(u"\t".join(rad))
-        fil.write(u"\n")
-
-    if isinstance(filename, string_types):
-        fil.close()
+        for rad in rows:
+            filename.write(rad + u"\n")
 
 
 def read_spdata(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From 9ae1bf72be0d0cc9d878d1803104f9485e143a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:15 +0000
Subject: [PATCH 103/107] fix: guess_units handles properties which are zero or
 arrays

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 39db495..ee52c84 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -718,7 +718,7 @@ class DataBlock(object):
                         self[varname].unit = unit
                 if self.comments:
                     prop = self.comments.property
-                    if varname in prop and prop[varname]:
+                    if varname in prop:
                         v = prop[varname]
                         if getattr(v, "unit", "") is None:
                             v.unit = unit
-- 
2.43.0


From b247bfd009ca6589a4e831b9685694529ab74ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:06 +0000
Subject: [PATCH 104/107] fix: version 0.1 HDF5 files keep characters outside
 cp1252 in units, names and comments

---
 hftools/file_formats/hdf5/v_01.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index 39a37e2..190b6d3 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -19,7 +19,7 @@ from hftools.dataset import DimRep, hfarray, DataBlock
 from hftools.dataset.dim import DimBase, _DimMatrix
 from hftools.file_formats.common import Comments
 
-from hftools.py3compat import string_types, cast_unicode, cast_bytes
+from hftools.py3compat import string_types, cast_unicode
 
 
 h5py_string_dtype = h5py.special_dtype(vlen=type(u""))
@@ -33,6 +33,12 @@ def unescape_varname(x):
     return x.replace("\\", "/")
 
 
+def text_array(lines):
+    """Return *lines* as array of unicode strings"""
+    lines = np.array([cast_unicode(x) for x in lines], dtype=object)
+    return lines.astype(h5py_string_dtype)
+
+
 def cast_data(data):
     """Return *data* as stored in file and its dtype when that differs"""
     if data.dtype.name.startswith("datetime64"):
@@ -67,7 +73,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
     ivardata = grp.create_group("ivardata")
     comments = grp.create_group("Comments")
     if db.comments:
-        com = np.array([cast_bytes(x) for x in db.comments.fullcomments])
+        com = text_array(db.comments.fullcomments)
         comments.create_dataset("fullcomments", data=com, compression=compression)
 #        pdb.set_trace()
 
@@ -79,8 +85,8 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         else:
             dset = vardata.create_dataset(escape_varname(k), data=data) #can not compress scalars
             name = []
-        dset.attrs[r"info\name"] = list(map(cast_bytes, name))
-        dset.attrs[r"data\unit"] = cast_bytes(db[k].unit if db[k].unit is not None else "None")
+        dset.attrs.create(r"info\name", text_array(name), dtype=h5py_string_dtype)
+        dset.attrs[r"data\unit"] = cast_unicode(db[k].unit if db[k].unit is not None else "None")
         dset.attrs[r"data\dtype"] = datadtype
 
     for k in db.ivardata:
@@ -88,7 +94,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         dset = ivardata.create_dataset(escape_varname(k), data=data, compression=compression)
         klass, name, unit = unpack_dim(db.ivardata[k])
         dset.attrs[r"info\class"] = klass
-        dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
+        dset.attrs[r"info\unit"] = cast_unicode(unit if unit is not None else "None")
         dset.attrs[r"info\dtype"] = datadtype
     if isinstance(h5file, string_types):
         fil.close()
-- 
2.43.0


From cf10525371dfd93080b16be65de90439f4b1d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:43 +0000
Subject: [PATCH 105/107] fix: add_dim with a negative axis or an empty
 dimension gave an array whose dims do not match its shape

---
 hftools/dataset/arrayobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 8ea9e13..0f7a3c2 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -1040,9 +1040,11 @@ class _hfarray(ndarray):
             return self
         if dim in self.dims:
             return self
+        if axis < 0:
+            axis = max(axis + self.ndim + 1, 0)
         axis = min(axis, self.ndim)
         out = ndarray.__getitem__(self, (slice(None), ) * axis + (None, ))
-        if len(dim.data) > 1:
+        if len(dim.data) != 1:
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-- 
2.43.0


From 9e23fffb28e61b8c6d8d5b9376012f30d7323d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:22 +0000
Subject: [PATCH 106/107] fix: values_from_property leaves matrix elements
 alone

---
 hftools/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index ee52c84..fb68b36 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -320,6 +320,9 @@ class DataBlock(object):
             for k, v in self.comments.property.items():
                 if ((hasattr(v, "dtype") or
                      isinstance(v, (int, float) + string_types))):
+                    mname, _ = is_matrix_name(k)
+                    if mname in self.vardata and ismatrix(self[mname]):
+                        continue  # A matrix element
                     if (k not in self.vardata) and (k not in self.ivardata):
                         self[k] = hfarray(v)
 
-- 
2.43.0


From 4c554ae58ee45c0c5c2bd5b1f3e4da6d285ddf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:46 +0000
Subject: [PATCH 107/107] fix: filter uses the dimension the selection has more
 than one label of

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index fb68b36..7f57f59 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -488,7 +488,9 @@ class DataBlock(object):
         return out
 
     def filter(self, boolarray):
-        if boolarray.squeeze().ndim > 1:
+        if boolarray.ndim > 1:
+            boolarray = boolarray.squeeze()
+        if boolarray.ndim > 1:
             raise ValueError("filter can only use array with one dimension")
         if boolarray.dtype != np.dtype(bool):
             if boolarray.dims[0].name not in self.ivardata:
-- 
2.43.0

