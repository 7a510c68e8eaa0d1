From 2f112793596de11227dff0c876a1f6a835d11e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:49 +0000
Subject: [PATCH 001/126] fix: convert multiports with any number of ports

The partition of the conversion matrix was hard coded for two-ports although
Z, Y and S arrays are documented to be of any dimension.
---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..b47314b 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    n = a.shape[-1]
+    tau1 = P[..., :n, :n]
+    sigma1 = P[..., :n, n:]
+    tau2 = P[..., n:, :n]
+    sigma2 = P[..., n:, n:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From 77b892f4557d15e113aff634ef16b452f04e7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:49 +0000
Subject: [PATCH 002/126] fix: views of, and arithmetic between, network arrays
 other than S

view passed Z0 to constructors that do not take it, so that e.g. Z1 + Z2
raised TypeError.
---
 hftools/networks/multiports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index b47314b..f37de31 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -156,7 +156,9 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            out = self.__class__(x, dims=self.dims, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
-- 
2.43.0


From 2538ce5ca75049c69ded7f35cd523eb933458c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:09 +0000
Subject: [PATCH 003/126] fix: keep track of the reference impedance of S
 arrays

Z0 was ignored when constructing from plain data or from another S array with
the default Z0, indexing reset it to 50 Ohm, and no-copy construction (used by
transpose and friends) renormalized the shared data in place.
---
 hftools/networks/multiports.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index f37de31..b302ff8 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,14 +99,17 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
+        if isinstance(data, self.__class__) and not copy:
+            # Shares memory with data, can not be renormalized.
+            self.Z0 = data.Z0
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
             else:
                 self.Z0 = Z0
-            if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
+            if isinstance(data, self.__class__) and self.Z0 == data.Z0:
+                pass
+            elif self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
@@ -115,6 +118,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -213,7 +218,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
-- 
2.43.0


From 883761790aa84fac72d6c02e4fa3bfd522c9223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:09 +0000
Subject: [PATCH 004/126] fix: do not truncate conversions of integer network
 arrays

---
 hftools/networks/multiports.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index b302ff8..8ef7c42 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -149,6 +149,9 @@ class _MultiPortArray(_hfarray):
                              for (x, size) in zip(defaultdims, shape))
                 dims = dims + (DimMatrix_i("i", data.shape[-2]),
                                DimMatrix_j("j", data.shape[-1]))
+        if (dtype is None and isinstance(data, _MultiPortArray) and
+                not isinstance(data, subtype) and data.dtype.kind in "iu"):
+            dtype = np.float64  # conversions do not give integers
         out = _hfarray.__new__(subtype, data, dims=dims, dtype=dtype,
                                copy=copy, order=order, subok=subok,
                                ndmin=ndmin, unit=unit)
-- 
2.43.0


From 1a71213dcc850ca520097ed7f5c844fcef916dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:44 +0000
Subject: [PATCH 005/126] fix: keep axis order when converting networks with
 unsorted sweep dimensions

---
 hftools/networks/multiports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8ef7c42..cd6566e 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -112,6 +112,7 @@ class _MultiPortArray(_hfarray):
             elif self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = res.reorder_dimensions(*data.dims[:-2])
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From 897e78a8d677a3a85643a2ab49d77bced578c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:12 +0000
Subject: [PATCH 006/126] fix: std and var ignored ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..ad82ffe 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -820,7 +820,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -840,7 +841,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From c9de818d16f4941d82b970d8fa81521379be4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:12 +0000
Subject: [PATCH 007/126] fix: reductions and squeeze along negative axes

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index ad82ffe..6094c68 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -972,7 +972,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(range(a.ndim)[ax])
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From 97cef60a75f44886b9eeea13780ff9192cc35eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:12 +0000
Subject: [PATCH 008/126] fix: take gives the taken points their coordinates

---
 hftools/dataset/arrayobj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6094c68..40d065c 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -566,10 +566,13 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
-        newdims[axis] = newdim
+        if np.ndim(indices):
+            newdims[axis] = olddim[np.arange(len(olddim.data)).take(indices,
+                                                                mode=mode)]
+        else:
+            del newdims[axis]
         data.dims = Dims(newdims)
         return data
 
-- 
2.43.0


From 5d9c7bbccd769238acac2f59330506591f594f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:12 +0000
Subject: [PATCH 009/126] fix: remove_rep with repetition dimensions that are
 not adjacent

---
 hftools/dataset/arrayobj.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 40d065c..d85509e 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -277,16 +277,13 @@ def remove_rep(data, newdimname="AllReps"):
         dims = list(zip(*order))[1]
 
         newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        first, last = order[0][0], order[0][0] + len(order)
+        a = np.array(newdata)
+        a = a.reshape(a.shape[:first] + (repsize,) + a.shape[last:])
+        dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+                newdata.dims[last:])
     else:
         dims = data.dims
         a = data
-- 
2.43.0


From 6160f27e3d088d945fc8268eba461442e69e3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:35 +0000
Subject: [PATCH 010/126] fix: label the points selected by an integer list or
 array

---
 hftools/dataset/arrayobj.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index d85509e..f233a59 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -604,7 +604,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
@@ -623,7 +624,7 @@ class _hfarray(ndarray):
         ellips_count = len([i for i in indices
                             if isinstance(i, type(Ellipsis))])
         if ellips_count == 1:
-            i = indices.index(Ellipsis)
+            i = [idx is Ellipsis for idx in indices].index(True)
             indices = (indices[:i] + (slice(None),) *
                        (self.ndim - (len(x) - 1)) + indices[i + 1:])
         elif ellips_count > 1:
@@ -665,8 +666,12 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif dim.name in dim_in_indices:
+                dims.append(dim_in_indices[dim.name])
+            elif np.ndim(idx) == 1:
+                dims.append(dim[np.asarray(idx)])
             else:
-                dims.append(dim_in_indices.get(dim.name, dim))
+                dims.append(dim)
         if ellipsis_and_ints:
             indices = orig_indices
         out = ndarray.__getitem__(self, indices)
-- 
2.43.0


From 574942531e0e6c383ac6a63c0464b00ba58d7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 011/126] fix: make_matrix must not drop the imaginary part of
 later elements

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..0779640 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From 77c9db67e619eab56158cc57891eccaaacd98e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 012/126] fix: smooth along other axes than the first

---
 hftools/math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0779640..d6f850c 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -205,6 +205,8 @@ def smooth(data, aperture, axis=0):
     """
     data = np.asanyarray(data)
     newdata = np.empty_like(data)
+    axis = range(data.ndim)[axis]
+    lead = (slice(None),) * axis
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +215,10 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            window = data[lead + (slice(i - wid, i + wid + odd),)]
+            newdata[lead + (i,)] = np.mean(window, axis)
         else:
-            newdata[i] = data[i]
+            newdata[lead + (i,)] = data[lead + (i,)]
     return newdata
 
 
-- 
2.43.0


From 5f5833b8a2fda232d9afc20fab851a792b954ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 013/126] fix: poly_smooth relied on functions removed from
 scipy

---
 hftools/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index d6f850c..b2f569c 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -245,7 +245,6 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
             Vilken grad skallpolynomet ha
 
     """
-    import scipy
     newdata = np.empty_like(y)
     size = x.shape[axis] - 1
     if aperture % 2 == 0:
@@ -258,8 +257,8 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
         start = min(max(i - wid, 0), max(0, size - aperture))
         stop = max(min(i + wid + odd, size), aperture)
         assert stop - start == aperture
-        poly = scipy.polyfit(x[start:stop], y[start:stop], N)
-        newdata[i] = scipy.polyval(poly, x[i])
+        poly = np.polyfit(x[start:stop], y[start:stop], N)
+        newdata[i] = np.polyval(poly, x[i])
     return newdata
 
 
-- 
2.43.0


From 1632e5c571ab1ba150ffe31d189344cd55edc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 014/126] fix: matrix dimensions of products and solutions that
 are not square

---
 hftools/math.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index b2f569c..f96a461 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -400,7 +400,14 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
-    return hfarray(res, dims=A.dims)
+    return hfarray(res, dims=_matrix_dims(A.dims, res.shape))
+
+
+def _matrix_dims(dims, shape):
+    """Adapt the matrix dimensions at the end of dims to shape"""
+    return dims[:-2] + tuple(dim if len(dim.data) == size else
+                             dim.__class__(dim.name, size)
+                             for dim, size in zip(dims[-2:], shape[-2:]))
 
 
 def flatten_non_matrix(A):
@@ -420,7 +427,7 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    result = hfarray(x, dims=_matrix_dims(bb.dims, x.shape))
     if squeeze:
         result = result.squeeze()
     return result
@@ -432,7 +439,7 @@ def lstsq(A, b, squeeze=True):
     x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
     xdims = res._broadcasted[0].dims
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
-    xresult = hfarray(xempty, dims=xdims)
+    xresult = hfarray(xempty, dims=_matrix_dims(xdims, xempty.shape))
 
     for a, b, rx in broadcast_matrices((A, b, xresult)):
         rx[...], _, _, _ = lstsq(a, b)
-- 
2.43.0


From d8c98832d952f16ced76cab405350bced410d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:25 +0000
Subject: [PATCH 015/126] fix: inverse and determinant when matrix dimensions
 are not last

---
 hftools/math.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hftools/math.py b/hftools/math.py
index f96a461..a3f2f98 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -373,8 +373,19 @@ class broadcast_matrices(object):
             yield [x.__getitem__(index) for x in broadcasted]
 
 
+def _matrix_last(A):
+    """Move matrix dimensions of A last"""
+    matrix = [dim for dim in A.dims if isinstance(dim, (DimMatrix_i,
+                                                        DimMatrix_j))]
+    if len(matrix) != 2 or A.dims[-2:] == tuple(matrix):
+        return A
+    return A.reorder_dimensions(*([dim for dim in A.dims
+                                   if dim not in matrix] + matrix))
+
+
 def inv(A):
     inv = linalg.inv
+    A = _matrix_last(A)
     result = inv(A)
     result = hfarray(result, dims=A.dims)
     return result
@@ -419,6 +430,7 @@ def flatten_non_matrix(A):
 
 def det(A):
     det = linalg.det
+    A = _matrix_last(A)
     result = det(A)
     result = hfarray(result, dims=A.dims[:-2])
     return result
-- 
2.43.0


From b7a0ae9a52cb840cf8e3a48dcefdee650dff35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 016/126] fix: lstsq with operands that need broadcasting

---
 hftools/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index a3f2f98..d1ea4ad 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -453,8 +453,8 @@ def lstsq(A, b, squeeze=True):
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
     xresult = hfarray(xempty, dims=_matrix_dims(xdims, xempty.shape))
 
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
+    for idx, (a, b) in zip(np.ndindex(*res.outershape), res):
+        xresult[idx], _, _, _ = lstsq(a, b)
     return xresult
 
 
-- 
2.43.0


From 98a50cc815f4f91355035933c78f09fd6363df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 017/126] fix: matrix element names must match as a whole and
 name a matrix

---
 hftools/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..528ec18 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -179,7 +179,7 @@ class DataDict(dict):
         return self.order + dir(type(self)) + list(self.__dict__.keys())
 
 reg_matrix_name = re.compile("([_A-Za-z]([_A-Za-z0-9]*"
-                             "[_A-Za-z])?)([0-9][0-9])")
+                             "[_A-Za-z])?)([1-9][1-9])$")
 
 
 def is_matrix_name(x):
@@ -326,7 +326,7 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
+            if ismatrix(self.vardata.get(mname)) and not ismatrix(value):
                 idx = (Ellipsis,) + elem
                 self.vardata[mname][idx] = value
             else:
-- 
2.43.0


From 57f846d8b89718b01d5b06244de07b5aed2eb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 018/126] fix: filter a data block by a list of coordinates

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 528ec18..c86a6b7 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -418,12 +418,8 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            boolarray = hfarray(np.in1d(localdim.data, np.array(boolarray)),
+                                dims=(localdim,))
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From efcc69ac824ae331b4edf3566ab1081451cee121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 019/126] fix: hyper labelled unsorted sweeps with the wrong
 coordinates

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c86a6b7..97b086b 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -669,7 +669,7 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            dims.append(DimSweep(newname, sorted(stable_uniq(self[x])),
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
             sortdata.append(self[x])
-- 
2.43.0


From 708d32d90e5e0e1f70724939458734bd631cec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 020/126] fix: interpolation to existing points along any
 dimension

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 97b086b..917eecc 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -737,13 +737,9 @@ def interpolate(newx, y, defaultmode=None):
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
         bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        if not bools.any(axis=1).all():
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        data = np.array(y).take(bools.argmax(axis=1), axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From 8be46d0046f41c39b7e5f2b8d36f5a2f79d661e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:27 +0000
Subject: [PATCH 021/126] fix: natural ordering of names starting with digits
 and text

---
 hftools/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..c229c2e 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -156,8 +156,11 @@ def split_num(string):
 
 
 def lex_order(lista):
-    ordered = sorted(list(map(split_num, lista)))
-    return [orig for _, orig in ordered]
+    def key(string):
+        # text and numbers can not be compared, numbers come first
+        return [(0, int(x)) if x[0] in "0123456789" else (1, x)
+                for x in reg_split.findall(string)], string
+    return sorted(lista, key=key)
 
 
 def glob(pat):
-- 
2.43.0


From 5bb473770386efa191ab5f40089ac34b14e21230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:12 +0000
Subject: [PATCH 022/126] fix: unwrap phase of arrays with unsorted dimensions

---
 hftools/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index d1ea4ad..4e198c0 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -132,6 +132,8 @@ def _unwrap_phase(data, deg=False):
        >>> unwrap_phase(hfarray(y))
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
+    dims = data.dims
+    data = array(data)
     result = data.real * 0
     a = angle(data[0])
     a0 = np.median(array(a.flat[0], copy=False))
@@ -144,7 +146,7 @@ def _unwrap_phase(data, deg=False):
     result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))
     if deg:
         result2 = result2 / pi * 180
-    return hfarray(result2, dims=data.dims)
+    return hfarray(result2, dims=dims)
 
 
 def unwrap_phase(data, deg=False):
-- 
2.43.0


From 5eb58a9caf2d28d70a37c00bddcc9b92c9625ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:37 +0000
Subject: [PATCH 023/126] fix: collapse repetitions of all variables of a block
 in the same order

---
 hftools/dataset/dataset.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 917eecc..d8d3ccd 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -25,7 +25,7 @@ import numpy.random as rnd
 from numpy import zeros, array, linspace
 
 from hftools.dataset.arrayobj import hfarray, ismatrix,\
-    remove_rep, _hfarray
+    remove_rep, _hfarray, change_shape
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
 from hftools.utils import warn, stable_uniq
@@ -654,7 +654,23 @@ class DataBlock(object):
             a.shape = (newdim.data.shape[0],)
             out[dim.name] = hfarray(a, dims=(newdim,))
         for x in self.vardata:
-            out[x] = remove_rep(self[x], newdimname)
+            data = self.vardata[x]
+            isrep = [isinstance(dim, DimRep) for dim in data.dims]
+            if any(isrep):
+                # same order of repetitions in all variables
+                first = isrep.index(True)
+                newdims = data.dims[:first] + tuple(dims) +\
+                    tuple(dim for dim in data.dims[first:]
+                          if not isinstance(dim, DimRep))
+                olddims = data.dims
+                data = change_shape(data, newdims)
+                shape = tuple(size if dim in olddims else dim.data.shape[0]
+                              for dim, size in zip(newdims, data.shape))
+                if data.shape != shape:
+                    data = hfarray(np.broadcast_to(data, shape), dims=newdims,
+                                   unit=data.unit,
+                                   outputformat=data.outputformat)
+            out[x] = remove_rep(data, newdimname)
         return out
 
     def hyper(self, dimnames, replacedim, indexed=False, all=True):
-- 
2.43.0


From 5f98d3904f4a1ff57ddb332a135149ca35811ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:19 +0000
Subject: [PATCH 024/126] fix: sort a block along a single point

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index d8d3ccd..9729e82 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -453,7 +453,9 @@ class DataBlock(object):
         return out
 
     def sort(self, dim):
-        dim = hfarray(dim, copy=False).squeeze()
+        dim = hfarray(dim, copy=False)
+        if dim.ndim > 1:
+            dim = dim.squeeze()
         if dim.ndim > 1:
             msg = "sort can only get sort direction from array with"\
                   " one dimension"
-- 
2.43.0


From c0a6f98b01fdb0db19536f071cf5cba4c6f8d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:18 +0000
Subject: [PATCH 025/126] fix: assembling matrices of elements of different
 types

---
 hftools/file_formats/readbase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..594ebf8 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -178,7 +178,7 @@ def fix_unit(db, varname):
 
 
 def combine_elements_to_matrix(data, name):
-    reg = re.compile("%s([0-9])([0-9])" % name)
+    reg = re.compile("%s([0-9])([0-9])$" % re.escape(name))
     i_idx = set()
     j_idx = set()
     vnames = []
@@ -193,8 +193,9 @@ def combine_elements_to_matrix(data, name):
         j_indices = sorted(j_idx)
         ex = data["%s%d%d" % (name, list(i_idx)[0], list(j_idx)[0])]
         shape = ex.shape
+        dtype = np.result_type(*[data[v].dtype for v in vnames])
         x = np.empty(shape + (len(i_indices), len(j_indices), ),
-                     dtype=ex.dtype)
+                     dtype=dtype)
 
         for i, j in itertools.product(i_indices, j_indices):
             val = data["%s%d%d" % (name, i, j)]
@@ -383,8 +384,9 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
-- 
2.43.0


From f94b58da02d790aa2cd509742539b6babe805bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 026/126] fix: numbers with longer exponents or bracketed units

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..f20e9c7 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
@@ -77,7 +77,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From 4e36c5240391024ec39a04e7d712883112f5da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:49 +0000
Subject: [PATCH 027/126] fix: the prefix of 1e24 is Y

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index f20e9c7..48bcfb9 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 465dd05f5ab07e9bc32769f0be6906bc999c5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 028/126] fix: Comments must not share the list it is made from

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..0689d72 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -179,7 +179,7 @@ class Comments(object):
     def __init__(self, fullcomments=None, **kw):
         if fullcomments is None:
             fullcomments = []
-        self.fullcomments = fullcomments
+        self.fullcomments = list(fullcomments)
         self.property = {}
         self.property.update(kw)
         self.add_from_comments(fullcomments)
-- 
2.43.0


From 26b59ef0b313d56abb344d1355a3afbc657d0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:13 +0000
Subject: [PATCH 029/126] fix: text properties with a bracketed unit

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0


From 9116db4bb13ffb0e29bfdef2dc940c47aad39c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:50 +0000
Subject: [PATCH 030/126] fix: date properties with a bracketed unit

---
 hftools/dataset/comments.py    | 2 +-
 hftools/file_formats/common.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 74fc2a5..86273f6 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -111,7 +111,7 @@ def convert(convertors=[], *vars):
     for convfun in convertors:
         try:
             return convfun(*vars)
-        except ValueError:
+        except (ValueError, TypeError):
             pass
     raise ValueError
 
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 0689d72..7448785 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -113,7 +113,7 @@ def convert(convertors=[], *vars):
     for convfun in convertors:
         try:
             return convfun(*vars)
-        except ValueError:
+        except (ValueError, TypeError):
             pass
     raise ValueError
 
-- 
2.43.0


From 5397a78f2a7f9888412414c189a097ab573acf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 031/126] fix: cascade and de-embed networks of different data
 types

---
 hftools/networks/spar_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..3724f7e 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -23,7 +23,8 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    dtype = np.result_type(S1, S2, np.float16)
+    res = S1.__class__(np.zeros(maxshape, dtype), dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
@@ -49,7 +50,8 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X, e, np.float16)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -80,7 +82,8 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X, e, np.float16)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From c7e73626e2587919d72da4f77cdac5a54d54d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:03 +0000
Subject: [PATCH 032/126] fix: cascadeS ignored all but the first two networks

---
 hftools/networks/spar_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 3724f7e..1fb02fc 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -31,6 +31,8 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
-- 
2.43.0


From 9f5de96cb7bddc520b65c10aaada35a7befa495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:40 +0000
Subject: [PATCH 033/126] fix: noise resistance of chain representations was
 doubled

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..84fe236 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -91,7 +91,7 @@ class NoisyTwoport(object):
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
-            Rn = CA11.real
+            Rn = CA11.real / 2
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
             Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
-- 
2.43.0


From a70e68244fc5a09537fcc56ee9749d47aadae437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:20 +0000
Subject: [PATCH 034/126] fix: assign matrix elements by dimension

---
 hftools/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 9729e82..3b253e7 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -328,6 +328,9 @@ class DataBlock(object):
             mname, elem = is_matrix_name(key)
             if ismatrix(self.vardata.get(mname)) and not ismatrix(value):
                 idx = (Ellipsis,) + elem
+                dims = self.vardata[mname].dims[:-2]
+                if all(dim in dims for dim in value.dims):
+                    value = change_shape(value, dims)
                 self.vardata[mname][idx] = value
             else:
                 if (key in self.ivardata):
-- 
2.43.0


From 5e19db6d543d55a2f752567120fcb96d8b0bcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:04 +0000
Subject: [PATCH 035/126] fix: make_passive_svd failed for all data

---
 hftools/networks/spar_functions.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 1fb02fc..67cfa4b 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -121,16 +121,10 @@ def make_passive_svd(S, delta=1e-6):
     Reciprocity, Passivity and Causality in S-parameters"
     """
 
-    svd = np.linalg.svd
-    out = []
-    for ss in S:
-        ss = np.array(ss, copy=False)
-        u, s, v = svd(ss)
-        s = abs(s) - 1
-        s[s < 0] = 0
-        s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
-        out.append(ss - delta)
+    ss = np.array(S)
+    u, s, v = np.linalg.svd(ss)
+    excess = np.maximum(s - 1, 0)
+    out = ss - np.matmul(u * excess[..., None, :], v)
     return S.__class__(out, dims=S.dims)
 
 
-- 
2.43.0


From db4593846e6319b7e2c1c8c8cde030136bf817b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:04 +0000
Subject: [PATCH 036/126] fix: branch of the transmission in make_reciprocal

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 67cfa4b..1c468be 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -149,7 +149,7 @@ def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
-- 
2.43.0


From 882f0642a67676b2612b9f0bee61dd39612ea07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:04 +0000
Subject: [PATCH 037/126] fix: make_reciprocal changed its argument and mixed
 up dimensions

---
 hftools/networks/spar_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 1c468be..3879012 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -146,8 +146,9 @@ def make_passive_eig(S, delta=1e-6):
 
 
 def make_reciprocal(S):
-    s12 = S[..., 0, 1]
-    s21 = S[..., 1, 0]
+    S = S.__class__(np.array(S), dims=S.dims)
+    s12 = np.asarray(S[..., 0, 1])
+    s21 = np.asarray(S[..., 1, 0])
     S12 = np.sqrt(s12 * s21)
     A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
-- 
2.43.0


From 4d5fefae3b4499c14eac3f9c510fe69916324f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 038/126] fix: read Touchstone files with a single frequency

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..7ba0005 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,7 +80,7 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt(sum(map(len, data)) / 2.)) + 1
     n = 1  # number of ports
     for n in range(1, max_N):
         N = 2 * n ** 2 + 1  # number of data points per frequency
-- 
2.43.0


From b7bd796bef448021011bc39a3a3fcdfa17be1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 039/126] fix: save blocks without comments to Touchstone files

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 7ba0005..acf53a7 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -228,7 +228,7 @@ def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
+        for comment in (db.comments.fullcomments if db.comments else []):
             fil.write("!" + comment)
             fil.write("\n")
         for k, v in db.vardata.items():
-- 
2.43.0


From e78e367967b084949a761c79c981731ba0877b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 040/126] fix: save the reference impedance to Touchstone files

---
 hftools/file_formats/touchstone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index acf53a7..50fd5ba 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -235,7 +235,8 @@ def save_touchstone(db, filename):
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
+        Z0 = float(db.Z0) if "Z0" in db else 50
+        fil.write("#HZ S RI R %.16g\n" % Z0)
 
 
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-- 
2.43.0


From 314ee949d4c71a01e8f8a823d641277da8f599c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:39 +0000
Subject: [PATCH 041/126] fix: save real S-parameters to Touchstone files

---
 hftools/file_formats/touchstone.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 50fd5ba..e7b3cbc 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -245,12 +245,10 @@ def save_touchstone(db, filename):
 
         for row in zip(*columns):
             out = []
-            for elem, fmt in zip(row, fmts):
-                if iscomplexobj(elem):
-                    out.append(fmt % elem.real)
-                    out.append(fmt % elem.imag)
-                else:
-                    out.append(fmt % elem)
+            out.append(fmts[0] % row[0])
+            for elem, fmt in zip(row[1:], fmts[1:]):
+                out.append(fmt % elem.real)
+                out.append(fmt % elem.imag)
             fil.write("\t".join(out))
             fil.write("\n")
 
-- 
2.43.0


From e64369c806588649a9365a6283bd81a7cf16e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:20 +0000
Subject: [PATCH 042/126] fix: save Touchstone matrices of other sizes than 2
 by row

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index e7b3cbc..12e42be 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -240,7 +240,7 @@ def save_touchstone(db, filename):
 
 
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+                                               "%s[%s,%s]", fortranorder=(db.S.shape[-1] == 2))
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From 872f8dbf2e5a6b38dda3fa411babccfe000803d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:24 +0000
Subject: [PATCH 043/126] fix: save CITI data in the order of the declared
 variables

---
 hftools/file_formats/citi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..f26e3b6 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -228,12 +228,16 @@ def format_citi_block(inblock):
                 values = [value]
             for val in values:
                 yield "BEGIN"
+                fmt = val.outputformat
+                # data is stored in the order of the VAR declarations
+                val = val.reorder_dimensions(*[dim for dim in
+                                               block.ivardata.values()
+                                               if dim in val.dims])
                 if iscomplexobj(val):
-                    fmt = "%s,%s" % (val.outputformat, val.outputformat)
+                    fmt = "%s,%s" % (fmt, fmt)
                     for rad in val.flat:
                         yield fmt % (rad.real, rad.imag)
                 else:
-                    fmt = val.outputformat
                     for rad in val.flat:
                         yield fmt % rad
                 yield "END"
-- 
2.43.0


From e63b34b939531d0af5bb8c201dabd9324c238af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:44 +0000
Subject: [PATCH 044/126] fix: read CITI files with comments between
 declarations

---
 hftools/file_formats/citi.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index f26e3b6..003288e 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -26,7 +26,7 @@ from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
-    ReadFileFormat, Optional, OneOf
+    ReadFileFormat, Optional, OneOf, Stream
 from hftools.utils import is_numlike
 
 reg_outerfun = re.compile(r"^([A-Za-z_][A-Za-z_0-9]*)\((.*)\)(.*)")
@@ -103,17 +103,19 @@ class ReadCITIFileFormat(ReadFileFormat):
             pass
 
     def parse_blocks(self, stream):
-    # raise Exception("HANTERAR INTE KOMMENTARER INNE I MANYOPTIONAL")
         comments = []
-        comments.extend(ManyOptional("COMMENT")(stream))
+
+        def collect_comments(stream):
+            for token in stream:
+                if token.tag == "COMMENT":
+                    comments.append(token.rad)
+                else:
+                    yield token
+        stream = Stream(collect_comments(stream))
         citifileversion = Optional("CITIFILE")(stream)
-        comments.extend(ManyOptional("COMMENT")(stream))
         name = One("NAME", "Must have END after DATA")(stream)
-        comments.extend(ManyOptional("COMMENT")(stream))
         varnames = ManyOptional("VARDEF")(stream)
-        comments.extend(ManyOptional("COMMENT")(stream))
         datanames = ManyOptional("DATADEF")(stream)
-        comments.extend(ManyOptional("COMMENT")(stream))
         block = DataBlock()
         block.blockname = name[0]
         for name, typ, N in varnames:
@@ -136,12 +138,6 @@ class ReadCITIFileFormat(ReadFileFormat):
             else:  # pragma: no cover
                 pass
 
-        comments.extend(ManyOptional("COMMENT")(stream))
-        for idx, com in enumerate(comments):
-            if com.startswith("CONSTANT TIME"):
-                date = tuple(com.strip().split()[2:])
-                comments[idx] = "Measurement time: %s-%s-%s %s:%s:%s" % date
-        block.comments = Comments(comments)
         shape = tuple(block.ivardata[i[0]].data.shape[0] for i in varnames)
         dims = tuple(block.ivardata[i[0]] for i in varnames)
         for name, typ in datanames:
@@ -150,6 +146,11 @@ class ReadCITIFileFormat(ReadFileFormat):
             datalist.shape = shape
             block[name] = hfarray(datalist, dims=dims)
             One("DATA_LIST_END", "Missing END")(stream)
+        for idx, com in enumerate(comments):
+            if com.startswith("CONSTANT TIME"):
+                date = tuple(com.strip().split()[2:])
+                comments[idx] = "Measurement time: %s-%s-%s %s:%s:%s" % date
+        block.comments = Comments(comments)
         yield block
 
     def make_block_complex(self, block):
-- 
2.43.0


From 6bf1958ce93a677a026e8b80d9b9fc2916f14735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:45 +0000
Subject: [PATCH 045/126] fix: save scalars of swept blocks to CITI files as
 comments

---
 hftools/file_formats/citi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 003288e..1d200a4 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -178,8 +178,15 @@ def handle_data(data, typ):
 
 def format_citi_block(inblock):
     block = DataBlock()
+    scalars = []
     for k, v in inblock.vardata.items():
         block[k] = v
+    if any(not isinstance(v, _DimMatrix) for v in block.ivardata.values()):
+        # DATA depends on all VAR, so scalars have to be comments
+        for k, v in list(block.vardata.items()):
+            if v.ndim == 0 and is_numlike(v) and not iscomplexobj(v):
+                scalars.append("!%s: %s" % (k, v.outputformat % v.item()))
+                del block[k]
     block.blockname = inblock.blockname
     block.comments = inblock.comments
     yield "CITIFILE A.01.01"
@@ -189,6 +196,8 @@ def format_citi_block(inblock):
             yield "!" + comment.lstrip("!")
     else:
         pass
+    for comment in scalars:
+        yield comment
     yield "NAME %s" % block.blockname
 
     for name, value in block.ivardata.items():
-- 
2.43.0


From 056039f191c72188d0814920ac7ccb3e0141e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:35 +0000
Subject: [PATCH 046/126] fix: read MDIF files

---
 hftools/file_formats/mdif.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..0fb71a5 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -198,11 +198,13 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         while True:
-            comments = ManyOptional("COMMENT")(stream)
-
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
-            var = ManyOptional("VAR", split_eq)(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                var = ManyOptional("VAR", split_eq)(stream)
+            except StopIteration:
+                return
             blockname = One("BEGIN", "Must have Begin after VARs")(stream)
             attribs = ManyOptional("ATTRIB", split_eq)(stream)
             header = ManyOptional("HEADER", lambda rad: rad.split())(stream)
-- 
2.43.0


From 674eadd2165386b3a3db54afcd4acc98ca18f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:12 +0000
Subject: [PATCH 047/126] fix: save MDIF files without attributes, or with any
 sweep coordinates

---
 hftools/file_formats/mdif.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 0fb71a5..57f2c5b 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -465,7 +465,8 @@ def fixnames(mdif):
 def fmt_mdif_block(dims, db):
     dimnames = [x.name for x in dims]
     fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
+    for index in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        coord = [x.data[i] for x, i in zip(dims[1:], index)]
         for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
 #            import pdb;pdb.set_trace()
             yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
@@ -474,20 +475,20 @@ def fmt_mdif_block(dims, db):
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
+        attribnames = [k for (k, v) in db.vardata.items()
+                       if v.dims == dims[1:]]
+        attribdata = [db.vardata[k] for k in attribnames]
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
         for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
+            yield [("# %s = %s" % (name, data.outputformat)) % data[index]]
 
-        header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
+        header = [k for (k, v) in db.vardata.items() if v.dims == dims]
+        columns = [db.vardata[k] for k in header]
+        header = [dims[0].name] + header
 
-                                if v.dims == dims])
-        header = (dims[0].name, ) + header
-
-        idx = (Ellipsis,) + coord
+        idx = (Ellipsis,) + index
         columns = [col[idx] for col in columns]
         columns = [hfarray(dims[0])] + columns
         outheader = format_complex_header(header, columns,
-- 
2.43.0


From 58d7fcc4691d1c876ee4f804491f269a3ea0b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:12 +0000
Subject: [PATCH 048/126] fix: report when a block is missing in an MDIF file

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 57f2c5b..acd1493 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From edab998aaa6b090d96de5b2b8534f0d8876bff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:13 +0000
Subject: [PATCH 049/126] fix: save block name and comments to MDIF files

---
 hftools/file_formats/mdif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index acd1493..9b8de1a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -510,6 +510,7 @@ def loop_db(db):
     for dims, subset in yield_dim_consistent_datablocks(db):
         if not dims:
             continue
+        subset.blockname = db.blockname
         for rad in fmt_mdif_block(dims, subset):
             yield rad
 
@@ -517,6 +518,8 @@ def loop_db(db):
 def save_mdif(db, filename):
     fil = open(filename, "w")
     fil.write("!Created: %s\n" % time.asctime())
+    for comment in (db.comments.fullcomments if db.comments else []):
+        fil.write("!%s\n" % comment)
     #for rad in db_iterator(db, format_mdif_block):
     for rad in loop_db(convert_matrices_to_elements(db)):
         fil.write("\t".join(rad))
-- 
2.43.0


From 9894b48b970394fa3e31939be66009cfbb5d10c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:13 +0000
Subject: [PATCH 050/126] fix: save text attributes to MDIF files as text

---
 hftools/file_formats/mdif.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 9b8de1a..c149060 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -241,6 +241,8 @@ class ReadMDIFFileFormat(ReadFileFormat):
             varname = varname[len("sweep."):]
         if vartype == "real":
             value = float(value)
+        elif vartype == "string":
+            value = value.strip('"')
         else:
             raise Exception("%r not an implemented var type" % vartype)
         return varname, hfarray(value)
@@ -481,8 +483,11 @@ def fmt_mdif_block(dims, db):
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
-        for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[index]]
+        for name, attrib, data in zip(attribheader, attribnames, attribdata):
+            if data.dtype.kind in "SU":
+                yield ['# %s(string) = "%s"' % (attrib, data[index])]
+            else:
+                yield [("# %s = %s" % (name, data.outputformat)) % data[index]]
 
         header = [k for (k, v) in db.vardata.items() if v.dims == dims]
         columns = [db.vardata[k] for k in header]
-- 
2.43.0


From 2a45f96ba42d4f36f855832e85c5dc9605e7ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:13 +0000
Subject: [PATCH 051/126] fix: merge MDIF blocks when only the first has header
 comments

---
 hftools/file_formats/mdif.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c149060..96fb7e6 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -335,6 +335,11 @@ def simple_merge_blocks(blocks):
     out = DataBlock()
     #import pdb;pdb.set_trace()
     for k in blocks[0].vardata:
+        if ((blocks[0].comments and k in blocks[0].comments.property and
+             not any(k in b for b in blocks[1:]))):
+            # header comments of the file belong to all blocks
+            out[k] = blocks[0][k]
+            continue
         out[k] = hfarray([b[k] for b in blocks],
                          dims=(ri,) + blocks[0][k].dims)
         if blocks[0][k].dims:
@@ -347,8 +352,7 @@ def simple_merge_blocks(blocks):
     for b in blocks:
         if b.comments is not None:
             c.extend(b.comments.fullcomments)
-    out.comments = Comments()
-    out.comments.fullcomments = c
+    out.comments = Comments(c)
     return out
 
 
-- 
2.43.0


From 1cda4d9c7c9c459e05eaf2779c332167ad45da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:13 +0000
Subject: [PATCH 052/126] fix: merged MDIF blocks lost their name

---
 hftools/file_formats/mdif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 96fb7e6..c5440dd 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -353,6 +353,7 @@ def simple_merge_blocks(blocks):
         if b.comments is not None:
             c.extend(b.comments.fullcomments)
     out.comments = Comments(c)
+    out.blockname = blocks[0].blockname
     return out
 
 
-- 
2.43.0


From 9a35e479d6116afc3135c307a6300535f5f64dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:13 +0000
Subject: [PATCH 053/126] fix: save matrices of any name and size to MDIF files

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c5440dd..6f7e867 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -531,7 +531,7 @@ def save_mdif(db, filename):
     for comment in (db.comments.fullcomments if db.comments else []):
         fil.write("!%s\n" % comment)
     #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db)):
+    for rad in loop_db(convert_matrices_to_elements(db, "{0}[{1},{2}]".format)):
         fil.write("\t".join(rad))
         fil.write("\n")
     fil.close()
-- 
2.43.0


From 74b27c4ac7accaf6f9b8ba08d0b003d95cc6050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 054/126] fix: save scalars of multidimensional sweeps to MDIF
 files as comments

---
 hftools/file_formats/mdif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 6f7e867..72da5ec 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -531,7 +531,13 @@ def save_mdif(db, filename):
     for comment in (db.comments.fullcomments if db.comments else []):
         fil.write("!%s\n" % comment)
     #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db, "{0}[{1},{2}]".format)):
+    db = convert_matrices_to_elements(db, "{0}[{1},{2}]".format)
+    if all(len(dims) != 1 for dims, _ in yield_dim_consistent_datablocks(db)):
+        # there is no block that scalars can be attributes of
+        for k, v in db.vardata.items():
+            if v.ndim == 0 and not np.iscomplexobj(v):
+                fil.write("!%s: %s\n" % (k, v.outputformat % v.item()))
+    for rad in loop_db(db):
         fil.write("\t".join(rad))
         fil.write("\n")
     fil.close()
-- 
2.43.0


From baf4a18e31429395afe5d7e9baf4f3454435ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:09 +0000
Subject: [PATCH 055/126] fix: read vectors from MDIF files

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 72da5ec..fffb994 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -301,7 +301,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db.vardata[matrix] = make_vector(X, dims)
-- 
2.43.0


From 40cc6ab789de7d6dab44ae596ca2e65722daaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:00 +0000
Subject: [PATCH 056/126] fix: save the settings of all MDIF blocks in their
 own format

---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index fffb994..85c771f 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -506,11 +506,11 @@ def fmt_mdif_block(dims, db):
                                           None, unit_fmt=False)
 
         yield ["% " + " ".join(outheader)]
-        fmts = [x.outputformat for x in columns]
+        colfmts = [x.outputformat for x in columns]
 #        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
-            for elem, fmt in zip(row, fmts):
+            for elem, fmt in zip(row, colfmts):
                 out.extend(format_elem(fmt, elem))
             yield out
         yield ["END"]
-- 
2.43.0


From d371409f0eaef4dfa0e9dbf8e47fceac159462a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:00 +0000
Subject: [PATCH 057/126] fix: guess units of MDIF data only when asked to

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 85c771f..d6766ae 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -146,7 +146,8 @@ class ReadMDIFFileFormat(ReadFileFormat):
             res = {}
             for k, v in objs.items():
                 res[k] = simple_merge_blocks(v)
-                res[k].guess_units()
+                if guess_unit:
+                    res[k].guess_units()
         else:
             res = objs
 
-- 
2.43.0


From 07334a1a1cc93531afb071991392cbd47a28478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:29 +0000
Subject: [PATCH 058/126] fix: refuse tables with rows of different lengths

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..aecc918 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -118,7 +118,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From c906bda7a0e742bf90fd8a5213ef309c2b484667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:29 +0000
Subject: [PATCH 059/126] fix: complex variables lost the unit of their columns

---
 hftools/file_formats/readbase.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 594ebf8..c05d232 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -125,6 +125,12 @@ def get_outer_function(varname):
         return "", varname, "", varname
 
 
+def get_unit_of_name(rest):
+    """Return trailing unit of name, e.g. " [V]" of "Re(x) [V]"
+    """
+    return rest if rest.strip()[:1] == "[" else ""
+
+
 def make_cplx(dataset):
     """Inplace conversion in *dataset* of pairs of variables into complex
     variables. Using the pattern Re(x) & Im(x) -> x, and Re(x) and Im(x)
@@ -138,6 +144,8 @@ def make_cplx(dataset):
 
     for vname, alt in varnames.items():
         if "Re" in alt and "Im" in alt:
+            if alt["Re"][1] == alt["Im"][1]:
+                vname = vname + get_unit_of_name(alt["Re"][1])
             if vname in dataset:
                 pass  # Already scalar data present
             else:
@@ -146,6 +154,7 @@ def make_cplx(dataset):
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
+            vname = vname + get_unit_of_name(alt["Mag"][1])
             if vname in dataset:
                 pass  # Already scalar data present
             else:
-- 
2.43.0


From dd40d1e2458541a67edc012b271de322c2dbb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:06 +0000
Subject: [PATCH 060/126] fix: save blocks with only sweep data

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 7448785..61249b8 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From a9d06ea0397d0d19877715c47e76e7729aaf67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:37 +0000
Subject: [PATCH 061/126] fix: save the unit of settings in measurement tables

---
 hftools/file_formats/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 61249b8..a78f5f2 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -407,6 +407,7 @@ def make_block_iterator(data, first=False):
         sweepvars = []
         for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):
             fmt = getattr(dim, "outputformat", "%.16e")
+            iname = format_unit_header(iname, dim)
             sweepvars.append((iname, fmt, dim[i]))
         if dimsnames:
             header = [dimsnames[0]] + data.vardata.keys()
-- 
2.43.0


From 38848eb725dfdfdf1f622ae1f045aaf9595b7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:37 +0000
Subject: [PATCH 062/126] fix: save scalars in measurement tables

---
 hftools/file_formats/spdata.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index aecc918..685b121 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,8 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -160,6 +161,12 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    for name, value in comments.property.items():
+        if not np.iscomplexobj(value):
+            comment = "%s: %s" % (format_unit_header(name, value),
+                                  value.outputformat % value.item())
+            if comment not in comments.fullcomments:
+                yield ["!" + comment]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
-- 
2.43.0


From 5518a8227a4eb990d88c47d4f97f9aa7e73fbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:37 +0000
Subject: [PATCH 063/126] fix: matrices lost the unit of their elements

---
 hftools/file_formats/readbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index c05d232..b604391 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -396,11 +396,14 @@ class ReadFileFormat(object):
             dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
                          dtype=dtype)
+            units = set(block[elem].unit for elem in elems)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            if len(units) == 1:
+                block[vname].unit = units.pop()
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From 7c3f5c03eef8ba14ab5a48a8535ddcd342ef5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:32 +0000
Subject: [PATCH 064/126] fix: merge blocks whose settings come in different
 order

---
 hftools/file_formats/merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..28e6469 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -161,7 +161,8 @@ def merge_blocks(blocks, hyper=False, indexed=False):
 
     for b in blocks:
         parts = get_partials(b)
-        partgroup = dimpartialgroups.setdefault(tuple(parts.keys()), {})
+        partgroup = dimpartialgroups.setdefault(frozenset(parts),
+                                                OrderedDict())
         for k, v in parts.items():
             partgroup.setdefault(k, []).extend(v)
 
@@ -187,7 +188,7 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             partials = get_partials(b)
             v.append(b[vname])
         if v:
-            k = tuple(partials.keys())
+            k = frozenset(partials)
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
@@ -213,8 +214,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
     db.blockname = blocks[0].blockname
 
     if hyper:
-        for vnames in dimpartialgroups.keys():
+        for vnames in dimpartialgroups.values():
             if vnames:
+                vnames = tuple(vnames)
                 hyperindex = db[vnames[0]].dims[0]
                 db = db.hyper(vnames, hyperindex, all=True)
     db = db.squeeze()
-- 
2.43.0


From e0caaa6a751a7baf7b3d1d7200721a392642dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:31 +0000
Subject: [PATCH 065/126] fix: refuse to merge blocks with different sweeps

---
 hftools/file_formats/merge.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 28e6469..324ca28 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,10 +12,11 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError,\
+    DimensionMismatchError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
-from hftools.file_formats.common import Comments
+from hftools.file_formats.common import Comments, get_dims_names
 
 
 def merge_blocks_to_association_list(blocks):
@@ -172,13 +173,18 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
+            elif k in db.ivardata and not np.array_equal(db.ivardata[k].data,
+                                                         v.data):
+                msg = "Can not merge blocks with different values of %r" % k
+                raise DimensionMismatchError(msg)
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
@@ -188,6 +194,10 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             partials = get_partials(b)
             v.append(b[vname])
         if v:
+            if any(get_dims_names(*x.dims) != get_dims_names(*v[0].dims)
+                   for x in v):
+                msg = "Can not merge %r with different dimensions" % vname
+                raise DimensionMismatchError(msg)
             k = frozenset(partials)
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-- 
2.43.0


From f280b4d962567b31a10651e1e91d07567ec6e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:54 +0000
Subject: [PATCH 066/126] fix: merge blocks with different settings or
 variables

Values of variables found in only some of the blocks, or in blocks with
different settings, were labelled with the wrong index, and settings
were lost.
---
 hftools/file_formats/merge.py | 48 ++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 324ca28..f50aea2 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -156,6 +156,18 @@ def get_partials(db):
     return partials
 
 
+def get_index_dims(name, found, groups):
+    """Dimensions to index the values of variable *name*, that are found in
+    the blocks with numbers *found*. *groups* is a list of index dimensions
+    and corresponding block numbers.
+    """
+    for dim, members in groups:
+        if found == members:
+            return (dim,)
+    # Not one value for each block in a group, index by block number
+    return (DimSweep("INDEX_%s" % name, found),)
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
@@ -167,11 +179,21 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         for k, v in parts.items():
             partgroup.setdefault(k, []).extend(v)
 
-    for idx, dims in enumerate(dimpartialgroups.values(), 1):
-        for k, v in dims.items():
-            dims = (DimSweep("INDEX%s" % idx, len(v)),)
+    # Block numbers of each group of blocks with the same settings
+    groups = []
+    for idx, names in enumerate(dimpartialgroups, 1):
+        found = [i for i, b in enumerate(blocks)
+                 if frozenset(get_partials(b)) == names]
+        groups.append((DimSweep("INDEX%s" % idx, len(found)), found))
+
+    for names in dimpartialgroups.values():
+        for k in names:
+            found = [i for i, b in enumerate(blocks)
+                     if isinstance(b.ivardata.get(k), DimPartial)]
+            v = [blocks[i].ivardata[k] for i in found]
             db[k] = hfarray([x.data[0] for x in v],
-                            dims=dims, unit=v[0].unit)
+                            dims=get_index_dims(k, found, groups),
+                            unit=v[0].unit)
 
     varnames = []
     for b in blocks:
@@ -187,22 +209,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 varnames.append(k)
 
     for vname in varnames:
-        v = []
-        for b in blocks:
-            if vname not in b:
-                continue
-            partials = get_partials(b)
-            v.append(b[vname])
+        found = [i for i, b in enumerate(blocks) if vname in b]
+        v = [blocks[i][vname] for i in found]
         if v:
             if any(get_dims_names(*x.dims) != get_dims_names(*v[0].dims)
                    for x in v):
                 msg = "Can not merge %r with different dimensions" % vname
                 raise DimensionMismatchError(msg)
-            k = frozenset(partials)
-            if k:
-                ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-            else:
-                ri = tuple()
+            ri = get_index_dims(vname, found, groups)
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
@@ -228,6 +242,10 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             if vnames:
                 vnames = tuple(vnames)
                 hyperindex = db[vnames[0]].dims[0]
+                if any(db[k].dims != (hyperindex,) for k in vnames):
+                    msg = ("Could not make a hypercube of blocks with "
+                           "different DimPartials %r" % (vnames,))
+                    raise HFToolsHyperCubeError(msg)
                 db = db.hyper(vnames, hyperindex, all=True)
     db = db.squeeze()
     return db
-- 
2.43.0


From 170fb391b108e663c57c5e2488da75f9a1023a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:54 +0000
Subject: [PATCH 067/126] fix: hyper lost the comments of the block

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 3b253e7..1c41d5c 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -683,6 +683,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
-- 
2.43.0


From db04d1de287f5be18484c38349c092d26fdab290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:43 +0000
Subject: [PATCH 068/126] fix: units of dimensions in version 0.1 hdf5 files
 were read as text of bytes

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..bd0f2da 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -104,7 +104,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From cfd7064a710b4b0d1465fc7b513ecaae925e5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:52 +0000
Subject: [PATCH 069/126] fix: dimensions in hdf5 files lost format, data type,
 or were not read at all

---
 hftools/file_formats/hdf5/v_02.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..4ffa18d 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,17 +41,21 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(x):
+    dimcls = dimrep[cast_unicode(x.attrs.get("dimtype", "DimSweep"))]
+    data = x[...]
+    dtype = x.attrs.get("dtype", None)
+    if dtype is not None:
+        data = data.astype(dtype)
+    return dimcls(unescape_varname(x.name.strip("/")), data,
+                  unit=x.attrs.get("unit", None),
+                  outputformat=x.attrs.get("outputformat", None))
+
+
 def getvar(db, key):
     X = db[key]
 
-    dims = []
-    for x in X.dims:
-        if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+    dims = [getdim(x[0]) for x in X.dims if len(x)]
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -105,6 +109,10 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
@@ -158,8 +166,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            ed = escape_varname(dv.name)
+            filehandle[ek].dims.create_scale(filehandle[ed])
+            filehandle[ek].dims[idx].attach_scale(filehandle[ed])
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From 75ce60b869f528ff81f79a3744001aa934261084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 070/126] fix: appended rows in hdf5 files all had index 0

---
 hftools/file_formats/hdf5/v_02.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 4ffa18d..e6a030a 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -194,7 +194,7 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         expanddim = DimRep("INDEX", 1)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
+    filehandle[expanddim.name][-1] = idx
 
     for k, v in filehandle.items():
         uk = unescape_varname(k)
-- 
2.43.0


From 64e36bfd1487981fe3a2f8f64e7d73e430f099d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 071/126] fix: strings appended to hdf5 files were cut to the
 length of the first

---
 hftools/file_formats/hdf5/v_02.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index e6a030a..40b8b9c 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -60,6 +60,8 @@ def getvar(db, key):
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
     dtype = X.attrs.get("dtype", None)
+    if dtype is not None and np.dtype(dtype).kind == "U":
+        dtype = str  # appended strings may be longer than the first
     if len(dims) == len(X.dims):
         return hfarray(X.value, dims=dims, unit=unit,
                        dtype=dtype, outputformat=outputformat)
-- 
2.43.0


From 96548f5bbcd532a5f626f4a413aeac1b8aa0765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 072/126] fix: expandable hdf5 files lost units and formats

---
 hftools/file_formats/hdf5/v_02.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 40b8b9c..8025562 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -160,6 +160,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
 
     for k, v in db.vardata.items():
         ek = escape_varname(k)
+        unit, outputformat = v.unit, v.outputformat
         if expandable and v.ndim == 0:
             v = v.add_dim(expanddim)
         elif expandable:
@@ -173,10 +174,10 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             filehandle[ek].dims[idx].attach_scale(filehandle[ed])
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
-        if v.unit:
-            filehandle[ek].attrs["unit"] = v.unit
-        if v.outputformat:
-            filehandle[ek].attrs["outputformat"] = v.outputformat
+        if unit:
+            filehandle[ek].attrs["unit"] = unit
+        if outputformat:
+            filehandle[ek].attrs["outputformat"] = outputformat
 
 
 def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
-- 
2.43.0


From bfec66634d291f5851d594ea614bdfc1a44648ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:54 +0000
Subject: [PATCH 073/126] fix: refuse to append other data to hdf5 files

Data with other dimensions, sweep values or data type, or with additional
variables, was stored wrongly or not at all, and refused blocks left the
file half extended.
---
 hftools/file_formats/hdf5/v_02.py | 43 +++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 8025562..49f94db 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -189,24 +189,51 @@ def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
     return d
 
 
+def row_for_dataset(data, dataset):
+    """Convert *data* to the type of data stored in *dataset*"""
+    dtype = np.dtype(dataset.attrs["dtype"])
+    if dtype.kind == "U" and data.dtype.kind == "U":
+        dtype = data.dtype
+    if not np.can_cast(data.dtype, dtype, "safe"):
+        msg = "Can not append data of type %s to type %s" % (data.dtype, dtype)
+        raise ValueError(msg)
+    return cast_arrays_to_hdf5(data.astype(dtype))
+
+
 def append_hdf5(db, filehandle, expanddim=None, **kw):
     key = "hftools file version"
     if key not in filehandle.attrs or filehandle.attrs[key] != "0.2":
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name][-1] = idx
-
+    # Check everything before changing the file
+    rows = []
     for k, v in filehandle.items():
         uk = unescape_varname(k)
-        if uk in db.ivardata or uk == expanddim.name:
+        if uk == expanddim.name:
+            continue
+        if uk in db.ivardata:
+            if not np.array_equal(getdim(v).data, db.ivardata[uk].data):
+                msg = "Dimension %r has other values, can not append" % uk
+                raise ValueError(msg)
             continue
         if uk not in db.vardata:
             raise ValueError("Variable %r missing in db, can not append" % uk)
-        diskdata = filehandle[k]
-        ax = diskdata.maxshape.index(None)
+        ax = v.maxshape.index(None)
+        names = [getdim(dim[0]).name for dim in v.dims]
+        if names[:ax] + names[ax + 1:] != [dim.name for dim in db[uk].dims]:
+            msg = "Variable %r has other dimensions, can not append" % uk
+            raise ValueError(msg)
+        rows.append((v, ax, row_for_dataset(db[uk], v)))
+    for uk in db.vardata:
+        if escape_varname(uk) not in filehandle:
+            msg = "Variable %r missing in file, can not append" % uk
+            raise ValueError(msg)
+
+    idx = filehandle[expanddim.name][-1] + 1
+    expand_dataset(filehandle[expanddim.name], 1, 0)
+    filehandle[expanddim.name][-1] = idx
+    for diskdata, ax, data in rows:
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
-        diskdata[s] = cast_arrays_to_hdf5(db[uk])
+        diskdata[s] = data
-- 
2.43.0


From 28b501d57b1a82a2ab9b26abe5d355512ae62220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:24 +0000
Subject: [PATCH 074/126] fix: hdf5 files lost comments and block name

---
 hftools/file_formats/hdf5/v_02.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 49f94db..3fb8f8c 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -115,7 +115,8 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
                 db[uk] = getdim(filehandle[k])
-        db.comments = Comments()
+        db.blockname = filehandle.attrs.get("blockname", None)
+        db.comments = Comments(list(filehandle.attrs.get("comments", [])))
         return db
     else:
         raise IOError("filehandle should be a h5py File, is: %r" % filehandle)
@@ -137,6 +138,12 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
+    if db.blockname is not None:
+        filehandle.attrs["blockname"] = cast_unicode(db.blockname)
+    if db.comments and db.comments.fullcomments:
+        filehandle.attrs.create("comments", np.array(db.comments.fullcomments,
+                                                     dtype=object),
+                                dtype=h5py_string_dtype)
     for k, v in db.ivardata.items():
         ek = escape_varname(k)
         create_dataset(filehandle, ek, v.data)
-- 
2.43.0


From 9f66bfbe238aad8b1070495b022ece1364535f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:18 +0000
Subject: [PATCH 075/126] fix: read_data could not read hdf5 files and text
 that is not utf-8

---
 hftools/file_formats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..cfc8cb0 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,7 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    fil = io.open(fname, encoding="cp1252", errors="replace")
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
-- 
2.43.0


From 4301e1ed17fb1a85da2ab3632095fe7ff82694b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 076/126] fix: hdf5 files lost comments and block name (block
 name from file name)

---
 hftools/file_formats/hdf5/v_02.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 3fb8f8c..afd7d19 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -139,7 +139,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
         expanddim = DimRep("INDEX", 1)
     filehandle.attrs["hftools file version"] = "0.2"
     if db.blockname is not None:
-        filehandle.attrs["blockname"] = cast_unicode(db.blockname)
+        filehandle.attrs["blockname"] = str(db.blockname)
     if db.comments and db.comments.fullcomments:
         filehandle.attrs.create("comments", np.array(db.comments.fullcomments,
                                                      dtype=object),
-- 
2.43.0


From 2c0a569e906653834549132765f8cdfef5eec0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 077/126] fix: a failed save left an incomplete cache that was
 used later

---
 hftools/file_formats/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index cfc8cb0..f8c1a38 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -26,6 +26,7 @@ This package contains routines to read and write data.
 """
 import glob
 import io
+import os
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -100,7 +101,10 @@ def read_to_cache(filename, cachename=None, cachedir=None,
     if not cachename.exists() or reread:
         data = read_data(filename, verbose=verbose)
         yield data, True
-        save_hdf5(data, cachename)
+        # Do not leave half a cache behind
+        tempname = cachename + ".temp"
+        save_hdf5(data, tempname)
+        os.replace(tempname, cachename)
     else:
         data = read_hdf5(cachename)
         yield data, False
-- 
2.43.0


From b98c2c0921f23e6d6b50d48fe1c1ff17b84420a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 078/126] fix: reading files without merging the blocks failed

---
 hftools/file_formats/readbase.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index b604391..57f3f4d 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -303,9 +303,13 @@ class ReadFileFormat(object):
                 if multiple_files:
                     #res["FILEINDEX"] = DimPartial("FILEINDEX", [idx])
                     fname = py3.cast_unicode(fname)
-                    if "FILENAME" not in res:
-                        res["FILENAME"] = hfarray(fname)
-                objs.append(res)
+                    for block in (res if isinstance(res, list) else [res]):
+                        if "FILENAME" not in block:
+                            block["FILENAME"] = hfarray(fname)
+                if isinstance(res, list):
+                    objs.extend(res)
+                else:
+                    objs.append(res)
         if multiple_files:
             res = obj._merge(objs)
         else:
@@ -336,7 +340,8 @@ class ReadFileFormat(object):
                 blocks["FILEINDEX"] = DimPartial("FILEINDEX",
                                                  [self.file_index])
         else:
-            for b in blocks.values():
+            for b in (blocks.values() if hasattr(blocks, "values")
+                      else [blocks]):
                 if isinstance(b, (list, tuple)):
                     for x in b:
                         if "FILEINDEX" not in x:
-- 
2.43.0


From 80ce237e932593891488e5a5aadedad026c33996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 079/126] fix: recognise MDIF files without attributes

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d6766ae..d0d854e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -36,7 +36,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*(VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"BEGIN[\t ]+[A-Za-z_0-9.]+)")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From 7d9cf74dce6e72ac9ff7e9db465bf6a5ec3a6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:25 +0000
Subject: [PATCH 080/126] fix: read lists of MDIF files, and report missing
 MDIF files

---
 hftools/file_formats/mdif.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d0d854e..c53b907 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -127,9 +127,16 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            if isinstance(filename, (list, tuple)):
+                filenames = []
+                for f in filename:
+                    filenames.extend(glob(f))
+            else:
+                filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % filename)
         objs = {}
         for idx, fname in enumerate(filenames):
             with open(fname) as fil:
-- 
2.43.0


From a9038751a5bd546a899ff5e191ebc00cc8ff8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:02 +0000
Subject: [PATCH 081/126] fix: files with settings could not be read as a
 multi-dimensional sweep

---
 hftools/file_formats/merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f50aea2..73f34a3 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -240,7 +240,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
     if hyper:
         for vnames in dimpartialgroups.values():
             if vnames:
-                vnames = tuple(vnames)
+                # File numbers are only swept when there is nothing else
+                vnames = (tuple(k for k in vnames if k != "FILEINDEX") or
+                          tuple(vnames))
                 hyperindex = db[vnames[0]].dims[0]
                 if any(db[k].dims != (hyperindex,) for k in vnames):
                     msg = ("Could not make a hypercube of blocks with "
-- 
2.43.0


From 230959117df9a110097f2133468876e8787874a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:50 +0000
Subject: [PATCH 082/126] fix: read several MDIF files with header comments

---
 hftools/file_formats/mdif.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c53b907..bbe78e5 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -349,8 +349,16 @@ def simple_merge_blocks(blocks):
             # header comments of the file belong to all blocks
             out[k] = blocks[0][k]
             continue
-        out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
+        values = []
+        for b in blocks:
+            # header comments are found in the first block of each file
+            if k in b or not values:
+                values.append(b[k])
+            elif blocks[0].comments and k in blocks[0].comments.property:
+                values.append(values[-1])
+            else:
+                raise MDIFError("No data named %r in all blocks" % (k,))
+        out[k] = hfarray(values, dims=(ri,) + blocks[0][k].dims)
         if blocks[0][k].dims:
             out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
     for k in blocks[0].ivardata:
-- 
2.43.0


From 5a2d60360a8cf7cdca1f43d116c391a60c8263d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:50 +0000
Subject: [PATCH 083/126] fix: refuse to merge MDIF blocks with different
 sweeps

---
 hftools/file_formats/mdif.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index bbe78e5..44e0da9 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -340,6 +340,13 @@ class ReadMDIFFileFormat(ReadFileFormat):
 def simple_merge_blocks(blocks):
     if len(blocks) == 1:
         return blocks[0]
+    for b in blocks[1:]:
+        for k, dim in b.ivardata.items():
+            if not isinstance(dim, DimPartial) and \
+                    k in blocks[0].ivardata and \
+                    not np.array_equal(dim.data, blocks[0].ivardata[k].data):
+                raise MDIFError("Can not merge blocks with different values "
+                                "of %r" % (k,))
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
     #import pdb;pdb.set_trace()
-- 
2.43.0


From c56c7c2566e67264258c410ce4408960e9cee3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 084/126] fix: values with units, intervals, dates and paths
 were written as other values

---
 hftools/file_formats/config.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..a33aa11 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -227,21 +227,20 @@ def convert_or_none(x):
 
 def sivalue_representer(dumper, data):
     if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+        return dumper.represent_scalar(u'!sivalue',
+                                       u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
 
 
 def timeintervall_representer(dumper, data):
-    tremain = data.total_seconds()
-    days = tremain // (3600 * 24)
-    tremain = tremain - days * 3600 * 24
-    hours = tremain // (3600)
-    tremain = tremain - hours * 3600
-    minutes = tremain // 60
-    tremain = tremain - minutes * 60
-    seconds = tremain
+    days = data.days
+    hours = data.seconds // 3600
+    minutes = data.seconds // 60 % 60
+    seconds = u"%d" % (data.seconds % 60)
+    if data.microseconds:
+        seconds += u".%06d" % data.microseconds
     out = []
     if days:
         out.append(u"%s days" % days)
@@ -249,19 +248,19 @@ def timeintervall_representer(dumper, data):
         out.append(u"%s hours" % hours)
     if minutes:
         out.append(u"%s minutes" % minutes)
-    if seconds:
+    if seconds != u"0" or not out:
         out.append(u"%s seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall', u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
@@ -277,7 +276,7 @@ regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-timeintervallpattern = rec(r'^(([0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
+timeintervallpattern = rec(r'^(([-]?[0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:hour|hours))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:minutes|minute))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:second|seconds))?$')
-- 
2.43.0


From 5be92a6f95f88660e57cf19a5a4bcec1a25d968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 085/126] fix: names of sections that enclose a list were not
 found by 'in'

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index a33aa11..69793b9 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From 7822e71beb176b2481700cd3f84f71645154a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 086/126] fix: sections did not see changes of the settings
 that enclose them

---
 hftools/file_formats/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 69793b9..886aa82 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -175,9 +175,12 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                self.update(yaml.load(stream, Loader=LexicalLoader) or {})
         except IOError:
             print("missing config file %r" % self.filename)
+        for value in self.values():
+            if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                value.parent = self
 
     def write(self, filename=None):
         if filename is None:
@@ -198,7 +201,7 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
-- 
2.43.0


From cc3c0218c732f33735ecaf1e24b410cd6e19bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 087/126] fix: text that begins with a time was taken for a
 time

---
 hftools/file_formats/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 886aa82..fa8c1df 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -273,10 +273,10 @@ reg_percent_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                                r"[ \t]*(%|ppm|ppb)$")
 
 
-regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?")
+regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?$")
 regtimeshort = re.compile(r"[0-9][0-9]:[0-9][0-9]")
 regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
-                              r" [0-9][0-9]:[0-9][0-9]")
+                              r" [0-9][0-9]:[0-9][0-9]$")
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-- 
2.43.0


From e97d5eae5cc28110529b4419e37fa446992341dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:38 +0000
Subject: [PATCH 088/126] fix: copying a LexicalConfig failed

---
 hftools/file_formats/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index fa8c1df..fe21914 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -104,7 +104,7 @@ class LexicalScopeDict(OrderedDict):
         return out
 
     def copy(self):
-        return LexicalScopeDict(OrderedDict.copy(self))
+        return LexicalScopeDict(self.items())
 
     def __repr__(self):
         return dict.__repr__(self)
-- 
2.43.0


From 356064213517eb18cc1961dcc4d260575bdbbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:56 +0000
Subject: [PATCH 089/126] fix: lengths written to config files were read back
 as thousandths

---
 hftools/file_formats/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index fe21914..f84d592 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -230,6 +230,9 @@ def convert_or_none(x):
 
 
 def sivalue_representer(dumper, data):
+    if data.unit == "m":
+        # a single m would be read as the prefix
+        return dumper.represent_scalar(u'!sivalue', u'%smm' % (data / 1e-3))
     if data.unit:
         return dumper.represent_scalar(u'!sivalue',
                                        u'%s%s' % (data, data.unit))
-- 
2.43.0


From 39e0e038499251bf0a0dcca2ebaa985ee8495fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:00 +0000
Subject: [PATCH 090/126] fix: limits of admittance curves given in falling
 order drew the complement

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..2e8d9da 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -199,6 +199,7 @@ def GCircle(g, b1=None, b2=None):
     if b1 is None or b2 is None:
         pass
     else:
+        b1, b2 = min(b1, b2), max(b1, b2)
         y1 = complex(g, b2)
         y2 = complex(g, b1)
         c1 = y2gamma(y1)
@@ -219,7 +220,6 @@ def BCircle(b, g1=None, g2=None):
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-        g1, g2 = (g2, g1)
     else:
         branch = -90
     b = float(b)
@@ -229,7 +229,7 @@ def BCircle(b, g1=None, g2=None):
     if g1 is None or g2 is None:
         pass
     else:
-        g1, g2 = (g1, g2)
+        g1, g2 = sorted((g1, g2), reverse=b > 0)
         z1 = complex(g1, b)
         z2 = complex(g2, b)
         c1 = y2gamma(z1)
-- 
2.43.0


From d32fb6a556197bd6734ee88e1b48dd2445af1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:00 +0000
Subject: [PATCH 091/126] fix: line of zero susceptance took its limits for
 resistances

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 2e8d9da..b0e0b51 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -215,8 +215,8 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-- 
2.43.0


From e372ef7489794839d273c5dedf0660b730ccc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:00 +0000
Subject: [PATCH 092/126] fix: half admittance charts drew the rim of the other
 half

---
 hftools/plotting/smith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index b0e0b51..de40184 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -276,7 +276,7 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         lower = [-1. / 3, -1, -3]
 
     else:
-        angles = dict(full=(0, 360), lower=(0, 180), upper=(180, 360))
+        angles = dict(full=(0, 360), lower=(180, 360), upper=(0, 180))
         xlims = dict(full=(-np.inf, np.inf),
                      upper=(-np.inf, 0),
                      lower=(0, np.inf))
-- 
2.43.0


From a7c833164829257870913cb750a265143f33ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:53 +0000
Subject: [PATCH 093/126] fix: arcs of Smith charts could not be drawn
 (positional arguments of Arc)

---
 hftools/plotting/smith.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index de40184..d2df78b 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -90,11 +90,9 @@ class MyCircle(object):
         else:
             pars = ((self.x, self.y),
                     self.flipx * 2 * self.r,
-                    self.flipy * 2 * self.r,
-                    0,
-                    self.t1,
-                    self.t2)
-            return Arc(*(pars + k), **kw)
+                    self.flipy * 2 * self.r)
+            return Arc(*(pars + k), angle=0, theta1=self.t1, theta2=self.t2,
+                       **kw)
 
 
 class MyLine(object):
@@ -252,7 +250,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, angle=0, theta1=t1, theta2=t2,
+                         color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +285,8 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, angle=0, theta1=t1, theta2=t2,
+                     fc="w", ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From 5c64d9814d1b70effaa7be4c223b1baafb5f5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:27 +0000
Subject: [PATCH 094/126] fix: the polar half of smith_polar covered the Smith
 chart

---
 hftools/plotting/smith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index d2df78b..9ea589a 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -355,8 +355,8 @@ def smith_polar(ax=None):
     ax.axis([-1.01, 1.01, -1.01, 1.01])
 
     ax.add_patch(plt.Circle((0, 0), 1, fc="w", ec="k"))
-    smith_lower(ax)
     polar_grid(ax, "upper")
+    smith_lower(ax)
 
 
 def empty_grid(ax=None):
-- 
2.43.0


From c260364b0ab89d1753e1b850323758b698750c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:32 +0000
Subject: [PATCH 095/126] fix: savefig with a transparent face failed

---
 hftools/plotting/helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..4e4994d 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -38,12 +38,13 @@ __all__ = ["is_in_ipython", "build_figlegend", "twin_axes_legend",
 
 
 def savefig(filename, *k, **kw):
-    if kw.get("facetransparent", False):
+    facetransparent = kw.pop("facetransparent", False)
+    if facetransparent:
         fig = pylab.gcf()
         alpha = fig.patch.get_alpha()
         fig.patch.set_alpha(0)
     pylab.savefig(filename, *k, **kw)
-    if kw.get("facetransparent", False):
+    if facetransparent:
         fig.patch.set_alpha(alpha)
 
 
-- 
2.43.0


From 07d6bfd809b437e10c248e808a38d22b97a9cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:32 +0000
Subject: [PATCH 096/126] fix: label of axes with a wide range kept the prefix
 of earlier ticks

---
 hftools/plotting/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 4e4994d..185f835 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -170,6 +170,7 @@ class UnitFormatter(FormatStrFormatter):
                 prefix = si_exp_to_prefixes.get(exponent, "q")
                 if prefix == "q":
                     prefix = ""
+                    exponent = 0
                     div = 1
                     self.fmt = "%%.%de" % self.digs
                 xlabel = self.label_template % dict(prefix=prefix,
@@ -177,6 +178,9 @@ class UnitFormatter(FormatStrFormatter):
                 self.set_label_fun(xlabel)
             return FormatStrFormatter.__call__(self, x / div, pos)
         else:
+            if self.set_label_fun and self.label_template:
+                self.set_label_fun(self.label_template % dict(prefix="",
+                                                              powerprefix=0))
             self.engfmt.locs = self.locs
             return self.engfmt(x, pos)
 
-- 
2.43.0


From 482aabed94e07bbffa7b47e1467e81120d4e89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:32 +0000
Subject: [PATCH 097/126] fix: axis labels with a power of ten and a unit could
 not be made

---
 hftools/plotting/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 185f835..8dc67e1 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -234,8 +234,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From 1848c3fb8ad622634561b0f4bac6569921753b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:54 +0000
Subject: [PATCH 098/126] fix: chop of arrays with dimensions not sorted by
 kind

---
 hftools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index c229c2e..739b7ce 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -132,7 +132,7 @@ def chop(x, rtol=1e-9, atol=1e-15):
     """
     x = np.asanyarray(x)
     out = np.array(x)
-    x = abs(x)
+    x = abs(np.asarray(x))
     out[(x < atol) | (x < (rtol * x.max()))] = 0
     return out
 
-- 
2.43.0


From c039ecef47a557a06d9f4ac8b357fabf7662fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:25 +0000
Subject: [PATCH 099/126] fix: blocks with empty, boolean or complex dimensions
 could not be printed

---
 hftools/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 1c41d5c..b8454ad 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -500,7 +500,8 @@ class DataBlock(object):
         from hftools.constants import SIFormat
         try:
             self.ivardata[name].data + 0
-            isnumber = True
+            # boolean and complex values can not be ordered and scaled
+            isnumber = self.ivardata[name].data.dtype.kind not in "bc"
         except TypeError:
             isnumber = False
         tofmt = dict(name=name)
@@ -514,7 +515,7 @@ class DataBlock(object):
             else:
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
             tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
-            if self.report_minmax:
+            if self.report_minmax and self.ivardata[name].data.size:
                 value, unit = (fmt % self.ivardata[name].data.max()).split(" ")
                 tofmt["maxvalue"] = value
                 tofmt["maxunit"] = unit
-- 
2.43.0


From 68b5177d285dc2b5f7db9898eef01e7b8e906661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:25 +0000
Subject: [PATCH 100/126] fix: blocks with spaces in the unit of a dimension
 could not be printed

---
 hftools/dataset/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index b8454ad..24c3362 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -516,10 +516,12 @@ class DataBlock(object):
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
             tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
             if self.report_minmax and self.ivardata[name].data.size:
-                value, unit = (fmt % self.ivardata[name].data.max()).split(" ")
+                value, unit = (fmt %
+                               self.ivardata[name].data.max()).split(" ", 1)
                 tofmt["maxvalue"] = value
                 tofmt["maxunit"] = unit
-                value, unit = (fmt % self.ivardata[name].data.min()).split(" ")
+                value, unit = (fmt %
+                               self.ivardata[name].data.min()).split(" ", 1)
                 tofmt["minvalue"] = value
                 tofmt["minunit"] = unit
             else:
-- 
2.43.0


From 05f230f179c1e6965a38edb49565b40cc3bf5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:25 +0000
Subject: [PATCH 101/126] fix: nan could not be formatted

---
 hftools/constants/si_units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 48bcfb9..d9cd5e5 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -121,7 +121,10 @@ def mantissa(x):
 
 def format_number(number, fmt="%(num)s %(unit)s",
                   unit="", digs=3, greek=False):
-    if np.isinf(number):
+    if np.isnan(number):
+        prefix = ""
+        num = "nan"
+    elif np.isinf(number):
         prefix = ""
         if number > 0:
             num = "inf"
-- 
2.43.0


From c537bf06290b506f9ff63d8b7f3d514c183d6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:37 +0000
Subject: [PATCH 102/126] fix: numbers outside of the range of the SI prefixes
 could not be formatted

---
 hftools/constants/si_units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index d9cd5e5..253bc32 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -132,7 +132,9 @@ def format_number(number, fmt="%(num)s %(unit)s",
             num = "-inf"
     else:
         num, exp = _help_format_sci(number, digs)
-        if digs is None:
+        if exp not in si_exp_to_prefixes:  # too large or too small
+            num, exp = "%.*e" % (16 if digs is None else digs, number), 0
+        elif digs is None:
             pass
         else:
             numfmt = "%%.%df" % digs
-- 
2.43.0


From 60b5f6c1a4a6ed77a846ce20290d4d13fd7e959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:15 +0000
Subject: [PATCH 103/126] fix: dimensions given new coordinates kept the
 default format of the old ones, so that saved values lost their fractions

---
 hftools/dataset/dim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..7944771 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -53,7 +53,7 @@ class DimBase(object):
             dim_data = Name.data
             dim_name = Name.name
             dim_unit = Name.unit
-            dim_outputformat = Name.outputformat
+            dim_outputformat = Name._outputformat
         else:
             dim_data = data
             dim_name = Name
@@ -153,11 +153,11 @@ class DimBase(object):
             return self
         elif isinstance(index, slice):
             a = self.__class__(self.name, self.data[index], unit=self.unit,
-                               outputformat=self.outputformat)
+                               outputformat=self._outputformat)
             return a
         elif isinstance(index, np.ndarray):
             a = self.__class__(self.name, self.data[index], unit=self.unit,
-                               outputformat=self.outputformat)
+                               outputformat=self._outputformat)
             return a
         else:
             raise IndexError("Must index with slice")
-- 
2.43.0


From 91a736f7d4bcd5217d06d90a942844cdecb59e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:15 +0000
Subject: [PATCH 104/126] fix: dimensions without points have no first point to
 tell the format

---
 hftools/dataset/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 7944771..bea0ff5 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,9 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if not self._data:
+                return "%.16e"
+            elif is_integer(self._data[0]):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 58c1e2cc9334d169ee7fdc6a6ae2e04707cd9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:04 +0000
Subject: [PATCH 105/126] fix: equal dimensions with different output formats
 had different hashes

---
 hftools/dataset/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index bea0ff5..408502a 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -147,8 +147,9 @@ class DimBase(object):
                                      self.data.shape)
 
     def __hash__(self):
+        # like equality the hash does not depend on the outputformat
         return hash((self.sortprio, self.name, self.__class__, self._data,
-                     self._unit, self._outputformat))
+                     self._unit, None))
 
     def __getitem__(self, index):
         if isinstance(index, slice) and (index == slice(None, None, None)):
-- 
2.43.0


From f7e48d8521ab7d076a2230c9dc571f924ae732c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:58 +0000
Subject: [PATCH 106/126] fix: numbers among the measurement properties of
 muwave files could not be read, zeros were lost

---
 hftools/file_formats/muwave_mat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..35cb689 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -55,8 +55,11 @@ def build_measmnt(data):
     props = q["props"][0, 0][0]
     values = q["values"][0, 0][0]
     for (k, v) in zip(props, values):
-        if v:
-            out[k[0]] = hfarray(make_real(v[0]))
+        if v.size:
+            value = v[0]
+            if value.ndim == 1:
+                value = value[0]
+            out[k[0]] = hfarray(make_real(value))
         else:
             out[k[0]] = hfarray("")
         if out[k[0]].dtype.name.startswith("unicode"):
-- 
2.43.0


From 290002304f8ad54e2a05145a406df14d2185e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 107/126] fix: refusing MATLAB files of other kinds failed with
 a NameError

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 35cb689..8c13499 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -145,7 +145,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
-- 
2.43.0


From b213985bec95986df6264d6d08c3ebb68325b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 108/126] fix: missing muwave files gave an IndexError

---
 hftools/file_formats/muwave_mat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 8c13499..6a8cdcc 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -157,6 +157,8 @@ def read_single_muwave_matlabdata(filename, **kw):
 
 def read_muwave_matlabdata(filename, drop_empty=True, **kw):
     filenames = hftools.utils.glob(filename)
+    if not filenames:
+        raise IOError("Pattern %r did not match any files" % filename)
     out = []
     if len(filenames) > 1:
         for idx, fname in enumerate(filenames):
-- 
2.43.0


From 97c16355dd651a590e0c7ae1826889bd97e2da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 109/126] fix: merging merged blocks used the same index
 dimension twice

---
 hftools/file_formats/merge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 73f34a3..bb6a9de 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -181,7 +181,12 @@ def merge_blocks(blocks, hyper=False, indexed=False):
 
     # Block numbers of each group of blocks with the same settings
     groups = []
-    for idx, names in enumerate(dimpartialgroups, 1):
+    used = set(k for b in blocks for k in b.ivardata)
+    idx = 0
+    for names in dimpartialgroups:
+        idx += 1
+        while "INDEX%s" % idx in used:  # blocks are the result of a merge
+            idx += 1
         found = [i for i, b in enumerate(blocks)
                  if frozenset(get_partials(b)) == names]
         groups.append((DimSweep("INDEX%s" % idx, len(found)), found))
-- 
2.43.0


From f5e7765d61cc6c02e0bc123b3e3cb95f200086c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 110/126] fix: muwave files without measurement properties
 could not be read

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6a8cdcc..73b1c06 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -46,7 +46,7 @@ def is_muwave_matlabdata(filename, rad):
 def build_measmnt(data):
     try:
         q = data["measmnt"][0, 0]
-    except KeyError:
+    except (KeyError, ValueError):
         q = None
 
     if q is None:
-- 
2.43.0


From 2d31b751cc6798fdb685f26464e31eccafa75131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 111/126] fix: CITI numbers with a plus sign, nan and inf were
 refused

---
 hftools/file_formats/citi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 1d200a4..9b4a9cc 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -37,7 +37,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile(r"[-+0-9eE.]+|(nan|inf)\b", re.IGNORECASE)
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-- 
2.43.0


From e792cd774deed445df5146bc4f5267c459fc0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:25 +0000
Subject: [PATCH 112/126] fix: MDIF blocks with two columns of one name gave
 inconsistent data

---
 hftools/file_formats/mdif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 44e0da9..a30343b 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -55,6 +55,9 @@ class GetData(object):
             self.parse_stream.append([])
             for head in headline:
                 self.parse_stream[-1].append(self.parse_header(head))
+        names = [var for line in self.parse_stream for _, var in line]
+        if len(set(names)) != len(names):
+            raise MDIFError("Column names are not unique: %r" % (names,))
 
     def sweep_name(self):
         return self.parse_stream[0][0][1]
-- 
2.43.0


From c3899cc68c57d46a1156d60e7afdf006b38d9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 113/126] fix: save Touchstone files in the encoding they are
 read in

---
 hftools/file_formats/touchstone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 12e42be..4393163 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -16,6 +16,7 @@ Touchstone
     .. autofunction:: save_touchstone
 
 """
+import io
 import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
@@ -227,7 +228,7 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252", errors="replace") as fil:
         for comment in (db.comments.fullcomments if db.comments else []):
             fil.write("!" + comment)
             fil.write("\n")
-- 
2.43.0


From 1f5402099bead686d72410b0c8f3b86615dfdf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 114/126] fix: save CITI files in the encoding they are read in

---
 hftools/file_formats/citi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 9b4a9cc..ef6b04f 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -16,6 +16,7 @@ CITI File Format
     .. autoexception:: CITIFileError
 """
 from __future__ import print_function
+import io
 import re
 
 import numpy as np
@@ -260,7 +261,7 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252", errors="replace") as fil:
         for rad in format_citi_block(db):
             fil.write(rad)
             fil.write("\n")
-- 
2.43.0


From 94cb178d5b8a757b80fec00c287e5395dbee7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 115/126] fix: save text columns to MDIF files as text

---
 hftools/file_formats/mdif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index a30343b..e1c960a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -531,6 +531,8 @@ def fmt_mdif_block(dims, db):
         outheader = format_complex_header(header, columns,
                                           "%s(real)", "%s(complex)",
                                           None, unit_fmt=False)
+        outheader = ["%s(string)" % name if col.dtype.kind in "SU" else head
+                     for name, col, head in zip(header, columns, outheader)]
 
         yield ["% " + " ".join(outheader)]
         colfmts = [x.outputformat for x in columns]
-- 
2.43.0


From c652cfd9c968dfe75a94be3a056249d99b8bcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:24 +0000
Subject: [PATCH 116/126] fix: complex attributes saved to MDIF files lost
 their imaginary part

---
 hftools/file_formats/mdif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index e1c960a..f6107a0 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -255,6 +255,9 @@ class ReadMDIFFileFormat(ReadFileFormat):
             value = float(value)
         elif vartype == "string":
             value = value.strip('"')
+        elif vartype == "complex":
+            real, imag = value.split()
+            value = complex(float(real), float(imag))
         else:
             raise Exception("%r not an implemented var type" % vartype)
         return varname, hfarray(value)
@@ -519,7 +522,8 @@ def fmt_mdif_block(dims, db):
             if data.dtype.kind in "SU":
                 yield ['# %s(string) = "%s"' % (attrib, data[index])]
             else:
-                yield [("# %s = %s" % (name, data.outputformat)) % data[index]]
+                yield ["# %s = %s" % (name, " ".join(
+                    format_elem(data.outputformat, data[index])))]
 
         header = [k for (k, v) in db.vardata.items() if v.dims == dims]
         columns = [db.vardata[k] for k in header]
-- 
2.43.0


From 40bd2c6964dc1ce022524d6181ad8dd74c5a27a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:49 +0000
Subject: [PATCH 117/126] fix: save_citi failed or mixed up matrix elements
 unless ports were numbered from 0

---
 hftools/file_formats/citi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index ef6b04f..ccf8d42 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -209,8 +209,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         names.append("%s%s%s" % (name, i + 1, j + 1))
             else:
                 names = [name]
@@ -232,8 +232,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 values = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         values.append(value[..., i, j])
             else:
                 values = [value]
-- 
2.43.0


From a6b5001447ae477611f8c79f637c305db923b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:14 +0000
Subject: [PATCH 118/126] fix: MDIF attributes with an equals sign in the text
 could not be read

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index f6107a0..180e827 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -211,7 +211,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
         """
         while True:
             def split_eq(rad):
-                return [x.strip() for x in rad.split("=")]
+                return [x.strip() for x in rad.split("=", 1)]
             try:
                 comments = ManyOptional("COMMENT")(stream)
                 var = ManyOptional("VAR", split_eq)(stream)
-- 
2.43.0


From 5d8f767945fc665037ea2588f9f3c8551384ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:07 +0000
Subject: [PATCH 119/126] fix: sweep coordinates starting with an integer were
 saved as integers

---
 hftools/dataset/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 408502a..0746945 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -105,7 +105,7 @@ class DimBase(object):
         if self._outputformat is None:
             if not self._data:
                 return "%.16e"
-            elif is_integer(self._data[0]):
+            elif all(is_integer(x) for x in self._data):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 91cba014496ef4a93a8b10e18b185f377ee479d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:46 +0000
Subject: [PATCH 120/126] fix: results of arithmetic with integers were saved
 with the format of integers

---
 hftools/dataset/arrayobj.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index f233a59..dfc5211 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -39,6 +39,17 @@ def get_new_anonymous_dim(dims, *k, **kw):
     return DimAnonymous(aname, *k, **kw)
 
 
+def get_outputformat(source, dtype):
+    """Output format of an array with *dtype* that is made from *source*. The
+    format of integers is not used for numbers that are not integers.
+    """
+    outputformat = getattr(source, "outputformat", "%.16e")
+    if ((outputformat == "%d" and dtype.kind in "fc" and
+         source.dtype.kind not in "fc")):
+        return "%.16e"
+    return outputformat
+
+
 class Dims(tuple):
     def __contains__(self, value):
         if isinstance(value, string_types):
@@ -404,7 +415,7 @@ class _hfarray(ndarray):
         if outputformat is not None:
             subarr.outputformat = outputformat
         elif hasattr(data, "outputformat"):
-            subarr.outputformat = data.outputformat
+            subarr.outputformat = get_outputformat(data, subarr.dtype)
         else:
             if is_integer(subarr):
                 subarr.outputformat = "%d"
@@ -452,7 +463,7 @@ class _hfarray(ndarray):
 
     def __array_finalize__(self, obj):
         self.__dict__["_dims"] = Dims(getattr(obj, "_dims", Dims()))
-        self.__dict__["outputformat"] = getattr(obj, "outputformat", "%.16e")
+        self.__dict__["outputformat"] = get_outputformat(obj, self.dtype)
         self.__dict__["unit"] = getattr(obj, "unit", None)
 
     def verify_dimension(self):
-- 
2.43.0


From f9dc8749cf28d76ba4665a5a4b7dcb782ab20d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:53 +0000
Subject: [PATCH 121/126] fix: taking one element of a one-dimensional array
 failed

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index dfc5211..da32dd0 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -581,7 +581,8 @@ class _hfarray(ndarray):
                                                                 mode=mode)]
         else:
             del newdims[axis]
-        data.dims = Dims(newdims)
+        if isinstance(data, ndarray):
+            data.dims = Dims(newdims)
         return data
 
     def squeeze(self, axis=None):
-- 
2.43.0


From 5857ae3b59663933003e561e08ffdeb18d3bbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:24 +0000
Subject: [PATCH 122/126] fix: normalising names lost columns that have the
 same normalised name

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index a78f5f2..062db99 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -289,7 +289,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if old in out and new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
-- 
2.43.0


From e476cbf11743f229029785170736dbc90b8498f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:24 +0000
Subject: [PATCH 123/126] fix: moving the unit out of a name lost a variable
 that has the shorter name

---
 hftools/file_formats/readbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 57f3f4d..bf6144a 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -173,6 +173,8 @@ def fix_unit(db, varname):
     res = reg_varunit.match(varname)
     if res:
         vname, unit = res.groups()
+        if vname in db:
+            return
         mul, unit = unit_to_multiplier(unit)
 #        db.rename(varname, vname)
         if varname in db.ivardata:
-- 
2.43.0


From 67dfd5f02c6c3300a8eee6597253d6294c0c62fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:24 +0000
Subject: [PATCH 124/126] fix: assembling a matrix lost a variable that has the
 name of the matrix

---
 hftools/file_formats/readbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index bf6144a..1a5467c 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -398,6 +398,8 @@ class ReadFileFormat(object):
             matrices.update(match_matrix_elements(block.vardata.keys(),
                                                   matcher))
         for vname, (elems, i_indices, j_indices) in matrices.items():
+            if vname in block:
+                continue
             ex = block[elems[0]]
             shape = ex.shape
             dtype = np.result_type(*[block[elem].dtype for elem in elems])
-- 
2.43.0


From 26b0be5c30f71e003b12e311431095f70d6c4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 125/126] fix: smoothing whole numbers truncated the means to
 whole numbers

---
 hftools/math.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 4e198c0..44f3d51 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -190,6 +190,13 @@ def delay(freq, var):
     return (f_mean, dfi / domega)
 
 
+def _empty_means(data):
+    """Array like *data* for means, those of whole numbers are not whole."""
+    if np.issubdtype(np.asanyarray(data).dtype, np.inexact):
+        return np.empty_like(data)
+    return np.empty_like(data, dtype=float)
+
+
 def smooth(data, aperture, axis=0):
     """Smoothar *data* med aritmetiskt medelvarde langs med *axis* [=0].
 
@@ -206,7 +213,7 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
-    newdata = np.empty_like(data)
+    newdata = _empty_means(data)
     axis = range(data.ndim)[axis]
     lead = (slice(None),) * axis
     len = data.shape[axis] - 1
@@ -247,7 +254,7 @@ def poly_smooth(x, y, aperture, axis=0, N=3):
             Vilken grad skallpolynomet ha
 
     """
-    newdata = np.empty_like(y)
+    newdata = _empty_means(y)
     size = x.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
-- 
2.43.0


From a90db763baf220a005dabbb23922399bb8f6b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 126/126] fix: adding an empty dimension gave an axis of length
 one

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index da32dd0..8b6b2e0 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -941,7 +941,7 @@ class _hfarray(ndarray):
             return self
         axis = min(axis, self.ndim)
         out = self[(slice(None), ) * axis + (None, )]
-        if len(dim.data) > 1:
+        if len(dim.data) != 1:
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-- 
2.43.0

