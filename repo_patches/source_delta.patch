From 5d88158d2e5eb7113ab5956143a7f876312e6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 01/33] fix: reject a non-numeric dtype (the ValueError was
 built but never raised)

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..7823bce 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1137,7 +1137,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From 890b06a019dbbc3a0b266072e759b4d474de36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 02/33] fix: a too negative point or segment index must be
 rejected, not wrapped around twice

---
 skcurve/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7823bce..7db3fc4 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -401,6 +401,9 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     __slots__ = Point.__slots__ + ('_curve', '_idx')
 
     def __init__(self, curve: 'Curve', index: int):
+        if not -curve.size <= index < curve.size:
+            raise IndexError(f'Index {index} is out of bounds for curve size {curve.size}')
+
         if index < 0:
             index = curve.size + index
 
@@ -929,7 +932,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if not 0 <= index < (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From 580a4aa965c476b25bea3df6cad8929b2bedc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 03/33] fix: an empty sub-curve or copy keeps the dimension of
 its curve

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7db3fc4..1fa7139 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1145,6 +1145,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
+            if is_array and curve_data.ndim == 2 and axis == 0 and curve_data.shape[0] == 0:
+                # No points, but the dimension is known (a copy of an empty curve, an empty sub-curve, ...)
+                ndmin = max(ndmin, curve_data.shape[1])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From de35e3dbe285d8be0d19717e78f71f9ba026fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 04/33] fix: chord lengths and arc length of an empty curve
 were uninitialised memory

---
 skcurve/_diffgeom.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..c151eef 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,6 +57,9 @@ def nonsingular(curve: 'Curve'):
 
     """
 
+    if not curve:
+        return skcurve._base.Curve(curve)
+
     chord_lengths = curve.chordlen
 
     def is_singular(curve_data):
@@ -86,7 +89,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.zeros(0, dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
@@ -237,6 +240,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.zeros(0, dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From 6830a362a7a01ce6809605b307c3f45e4d2b86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 05/33] fix: Curve.index with a negative start returned an
 index that is not the point's

---
 skcurve/_base.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 1fa7139..6ef58f0 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1385,22 +1385,15 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         self._check_ndim(point)
 
-        if start is None and end is None:
-            data = self._data
-        else:
-            data = self._data[slice(start, end)]
+        start, end, _ = slice(start, end).indices(self.size)
+        data = self._data[start:end]
 
         is_close = allequal(point.data, data, axis=1)
 
         if not np.any(is_close):
             raise ValueError(f'{point} is not in curve and given interval')
 
-        indices = np.flatnonzero(is_close)
-
-        if start:
-            indices += start
-
-        return indices[0]
+        return np.flatnonzero(is_close)[0] + start
 
     def count(self, point: Point) -> int:
         """Returns the number of inclusions given point in the curve
-- 
2.43.0


From e25190d8f463f6af9fd1939bea77fe14c5acea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 06/33] fix: nonsingular kept coincident neighbours that are
 separated by NaN/Inf points

---
 skcurve/_diffgeom.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index c151eef..c09de96 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -60,13 +60,16 @@ def nonsingular(curve: 'Curve'):
     if not curve:
         return skcurve._base.Curve(curve)
 
-    chord_lengths = curve.chordlen
+    # The points that are not finite should be removed before computing the distances,
+    # because the close points may be separated by them.
+    curve = curve.drop(lambda curve_data: np.isnan(curve_data) | np.isinf(curve_data))
+
+    if not curve:
+        return curve
 
-    def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+    chord_lengths = curve.chordlen
 
-    return curve.drop(is_singular)
+    return curve.drop(lambda _: np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From eb8af02f4468817ff2a628b493636e329113a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 07/33] fix: chord lengths of integer curves wrapped around

---
 skcurve/_diffgeom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index c09de96..46d9196 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -94,7 +94,10 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.zeros(0, dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    # Integer data may overflow (wrap around), float32 is extended exactly
+    data = curve.data.astype(np.result_type(curve.dtype, np.float64), copy=False)
+
+    return np.sqrt(np.sum((np.diff(data, axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
-- 
2.43.0


From fa7eecbcc3908c0590b205d5c6836876a77eade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 08/33] fix: smoothing truncated integer curves, kept float32
 and modified the window it was given

---
 skcurve/_smooth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..3fa88ad 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -134,7 +134,7 @@ def savgol_filter(curve: 'Curve', window_length: int, polyorder: int, *,
     """
 
     return signal.savgol_filter(
-        curve.data,
+        curve.data.astype(np.float64),
         window_length=window_length,
         polyorder=polyorder,
         deriv=deriv,
@@ -167,10 +167,10 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
-        curve.data,
+        curve.data.astype(np.float64),
         weights=window,
         mode=mode,
         cval=cval,
-- 
2.43.0


From 110483fa1b62e46437fefc274131edb4f7a3d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 09/33] fix: the register decorators replaced the registered
 object with None

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 1 +
 3 files changed, 4 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..3bd67c8 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 3fa88ad..d07cd24 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -71,6 +71,7 @@ def register_smooth_method(method: str):
             raise ValueError(
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
+        return method_callable
 
     return decorator
 
-- 
2.43.0


From a119fc7d3c0ed089cd2f11f0a88a73fe2a33a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 10/33] fix: IntersectionType.NONE() always raised

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index 3bd67c8..b1d5971 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From 616eab294c813e0584ac0c79620689af4388062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 11/33] fix: a copy of a point keeps its dtype

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 6ef58f0..a8e5526 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -275,7 +275,7 @@ class Point(abc.Sequence):
         return self.__deepcopy__()
 
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
-        return Point(self)
+        return Point(self, dtype=self.dtype)
 
     @property
     def data(self) -> np.ndarray:
-- 
2.43.0


From 6ea2206f673add18b7f93eb7975aa1db3ba2019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 12/33] fix: coorientplane warned about ignored tdata for every
 parametric curve

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index a8e5526..69ec071 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1689,7 +1689,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if not is_coorient:
             return self.reverse()
         else:
-            return Curve(self, tdata=self._tdata)
+            return Curve(self)
 
     def insert(self, index: Indexer, other: PointCurveUnion) -> 'Curve':
         """Inserts point or sub-curve to the curve and returns new curve
-- 
2.43.0


From 9c92d470577adc7241eca8dbe437ee21111ac78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 13/33] fix: a too negative axis is a ValueError as documented

---
 skcurve/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_utils.py b/skcurve/_utils.py
index e6bedc2..1fa5c2a 100644
--- a/skcurve/_utils.py
+++ b/skcurve/_utils.py
@@ -35,7 +35,7 @@ def as2d(arr: np.ndarray, axis: int) -> np.ndarray:
     orig_axis = axis
     axis = arr.ndim + axis if axis < 0 else axis
 
-    if axis >= arr.ndim:
+    if not 0 <= axis < arr.ndim:
         raise ValueError(f'axis {orig_axis} is out of array shape {arr.shape}.')
 
     tr_axes = list(range(arr.ndim))
-- 
2.43.0


From 664d63d5a3be0c29dba43e58b2725c842fd749fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 14/33] fix: writing to a derived array corrupted the values
 cached in an immutable curve

---
 skcurve/_base.py     | 8 ++++++--
 skcurve/_diffgeom.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 69ec071..51a02af 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1603,7 +1603,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return _diffgeom.chordlen(self)
+        lengths = _diffgeom.chordlen(self)
+        lengths.flags.writeable = False
+        return lengths
 
     @cached_property
     def arclen(self) -> float:
@@ -1633,7 +1635,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        segments = np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        segments.flags.writeable = False
+        return segments
 
     def reverse(self) -> 'Curve':
         """Reverses the curve
diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 46d9196..24a19b6 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -219,7 +219,11 @@ def _maybe_curve_point(func):
     def wrapper(obj):
         if isinstance(obj, skcurve._base.CurvePoint):
             return getattr(obj.curve, func.__name__)[obj.idx]
-        return func(obj)
+
+        # The computed array is cached and shared with the curve points
+        result = func(obj)
+        result.flags.writeable = False
+        return result
     return wrapper
 
 
-- 
2.43.0


From ebd4e64a419a726e1909cb4ae5e71485831b0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 15/33] fix: derivatives and Frenet vectors of empty and
 single-point curves had a wrong shape or raised

---
 skcurve/_diffgeom.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 24a19b6..457f953 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -146,7 +146,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -158,7 +158,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
@@ -364,7 +364,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         sder = curve.secondderiv
         e1 = curve.frenet1
@@ -401,7 +401,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         tder = curve.thirdderiv
         e1 = curve.frenet1
@@ -456,7 +456,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the first Frenet vectors (unit tangent vectors). '
@@ -496,7 +496,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the second Frenet vectors (unit normal vectors). '
@@ -538,7 +538,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the third Frenet vectors (unit binormal vectors). '
@@ -597,7 +597,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(0, dtype=np.float64)
 
         if curve.is2d:
             # Compute signed curvature value for a plane curve
@@ -646,7 +646,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(0, dtype=np.float64)
 
         e2_grad = _gradient(curve.frenet2)
         tangent_norm = np.linalg.norm(curve.tangent, axis=1)
-- 
2.43.0


From a4537fade4b06e0c5473c1d00169338bfcb335aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 16/33] fix: isplane/coplanar raised for less than two points
 and wrapped around for integer data

---
 skcurve/_geomalg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..1c33075 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -251,10 +251,14 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points])
 
-    if points_data.shape[1] < 3:
-        # In dimension < 3 the points are coplanar
+    if points_data.shape[1] < 3 or points_data.shape[0] <= 3:
+        # In dimension < 3 the points are coplanar and there is a plane through any three points
         return True
 
+    if np.issubdtype(points_data.dtype, np.integer):
+        # The differences of integers may wrap around
+        points_data = points_data.astype(np.float64)
+
     # Relative differences
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
-- 
2.43.0


From 6848130e01f1d53b6a322d5ad9c85629c0cc5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 17/33] fix: collinear points were found only on the lines
 through the origin

---
 skcurve/_geomalg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 1c33075..7637631 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the differences of these points is of rank 1 or less.
 
     Parameters
     ----------
@@ -216,16 +216,20 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     """
 
     if isinstance(points, np.ndarray):
-        points_data = points.T
+        points_data = points
     else:
-        points_data = np.vstack([point.data for point in points]).T
+        points_data = np.vstack([point.data for point in points])
 
-    m = np.unique(points_data, axis=1)
+    m = np.unique(points_data.astype(np.float64), axis=0)
 
-    if m.shape[1] < 3:
+    if m.shape[0] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    if tol is None:
+        # The differences are known up to rounding of the coordinates
+        tol = np.max(np.abs(m)) * max(m.shape) * F_EPS
+
+    return np.linalg.matrix_rank(m[1:] - m[0], tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 745d2e91143bb109dfae4b05ffbfbfd7d05da3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 18/33] fix: the overlap of segments with descending
 coordinates was not on the segments

---
 skcurve/_geomalg.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 7637631..88ddea4 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -309,8 +309,21 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
-    return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
-                                 p2=skcurve._base.Point(data_minmax))
+    # The corners of the common bounding box are not on the segments with descending coordinates.
+    # So, we take the ends of the segments ordered along the axis where they are the longest.
+    points_data = np.stack((p11_data, p12_data, p21_data, p22_data)).astype(np.float64)
+    axis = np.argmax(np.ptp(points_data, axis=0))
+
+    def along_axis(point_data):
+        return point_data[axis]
+
+    p1_data = max(min(p11_data, p12_data, key=along_axis),
+                  min(p21_data, p22_data, key=along_axis), key=along_axis)
+    p2_data = min(max(p11_data, p12_data, key=along_axis),
+                  max(p21_data, p22_data, key=along_axis), key=along_axis)
+
+    return skcurve._base.Segment(p1=skcurve._base.Point(p1_data),
+                                 p2=skcurve._base.Point(p2_data))
 
 
 def segment_to_point(segment: 'Segment', point: 'Point') -> float:
-- 
2.43.0


From ae2eb3f824e6b3eca1254e061f0e7af94c552f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 19/33] fix: shortest segments between singular, parallel or
 small segments were not the shortest

---
 skcurve/_geomalg.py | 142 +++++++++++---------------------------------
 1 file changed, 35 insertions(+), 107 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 88ddea4..a8dc1f0 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -348,12 +348,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
@@ -397,53 +397,28 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     e = v @ w
 
     dd = a * c - b * b
-    sd = td = dd
 
-    # Compute the line parameters of the two closest points
-    if dd < tol:
-        # the lines are almost parallel
-        sn, sd = 0.0, 1.0
-        tn, td = e, c
+    def ratio(num, den):
+        # The parameter in the range [0, 1]
+        if num <= 0.0 or den <= 0.0:
+            return 0.0
+        return 1.0 if num >= den else num / den
+
+    # Compute the parameter on the first segment. If the lines are almost parallel or
+    # one of the segments is singular, any point will do and the edges are checked below.
+    t1 = ratio(b * e - c * d, dd) if dd > tol * a * c else 0.0
+
+    # The closest point of the second line to this point
+    tn = b * t1 + e
+
+    if tn <= 0.0:
+        # tc < 0 => the t=0 edge is visible, recompute sc for this edge
+        t1, t2 = ratio(-d, a), 0.0
+    elif tn >= c:
+        # tc > 1  => the t=1 edge is visible, recompute sc for this edge
+        t1, t2 = ratio(b - d, a), 1.0
     else:
-        sn = b * e - c * d
-        tn = a * e - b * d
-
-        if sn < 0.0:
-            # sc < 0 => the s=0 edge is visible
-            sn = 0.0
-            tn, td = e, c
-        elif sn > sd:
-            # sc > 1  => the s=1 edge is visible
-            sn = sd
-            tn = e + b
-            td = c
-
-    if tn < 0.0:
-        # tc < 0 => the t=0 edge is visible
-        tn = 0.0
-        # recompute sc for this edge
-        if -d < 0.0:
-            sn = 0.0
-        elif -d > a:
-            sn = sd
-        else:
-            sn = -d
-            sd = a
-    elif tn > td:
-        # tc > 1  => the t=1 edge is visible
-        tn = td
-        # recompute sc for this edge
-        if (-d + b) < 0.0:
-            sn = 0
-        elif (-d + b) > a:
-            sn = sd
-        else:
-            sn = -d + b
-            sd = a
-
-    # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+        t2 = tn / c
 
     return t1, t2
 
@@ -490,6 +465,9 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    data1 = data1.astype(np.float64)
+    data2 = data2.astype(np.float64)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
@@ -510,71 +488,21 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     e = np.einsum('ijk,ilk->lk', v, w)
 
     dd = a * c - b * b
-    sd = dd.copy()
-    td = dd.copy()
-
-    sn = np.zeros_like(dd)
-    tn = np.zeros_like(dd)
-
-    dd_lt_tol = dd < tol
-    not_dd_lt_tol = ~dd_lt_tol
-
-    sd[dd_lt_tol] = 1.0
-    tn[dd_lt_tol] = e[dd_lt_tol]
-    td[dd_lt_tol] = c[dd_lt_tol]
-
-    be_cd = b * e - c * d
-    ae_bd = a * e - b * d
-
-    sn[not_dd_lt_tol] = be_cd[not_dd_lt_tol]
-    tn[not_dd_lt_tol] = ae_bd[not_dd_lt_tol]
-
-    sn_lt_zero = (sn < 0) & not_dd_lt_tol
-
-    sn[sn_lt_zero] = 0.0
-    tn[sn_lt_zero] = e[sn_lt_zero]
-    td[sn_lt_zero] = c[sn_lt_zero]
-
-    sn_gt_sd = (sn > sd) & not_dd_lt_tol
-
-    sn[sn_gt_sd] = sd[sn_gt_sd]
-    tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
-    td[sn_gt_sd] = c[sn_gt_sd]
-
-    tn_lt_zero = tn < 0
-    tn[tn_lt_zero] = 0.0
-
-    md_lt_zero = (-d < 0) & tn_lt_zero
-    md_gt_a = (-d > a) & tn_lt_zero
-    md_else = (~md_lt_zero & ~md_gt_a) & tn_lt_zero
-
-    sn[md_lt_zero] = 0.0
-    sn[md_gt_a] = sd[md_gt_a]
-    sn[md_else] = -d[md_else]
-    sd[md_else] = a[md_else]
-
-    tn_gt_td = tn > td
-    tn[tn_gt_td] = td[tn_gt_td]
-
-    bmd = b - d
 
-    bmd_lt_zero = (bmd < 0) & tn_gt_td
-    bmd_gt_a = (bmd > a) & tn_gt_td
-    bmd_else = (~bmd_lt_zero & ~bmd_gt_a) & tn_gt_td
+    def ratio(num, den):
+        # The parameter in the range [0, 1]
+        positive = (num > 0.0) & (den > 0.0)
+        return np.clip(np.divide(num, den, out=np.zeros_like(dd), where=positive), 0.0, 1.0)
 
-    sn[bmd_lt_zero] = 0.0
-    sn[bmd_gt_a] = sd[bmd_gt_a]
-    sn[bmd_else] = bmd[bmd_else]
-    sd[bmd_else] = a[bmd_else]
+    t1 = np.where(dd > tol * a * c, ratio(b * e - c * d, dd), 0.0)
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
+    tn = b * t1 + e
 
-    t1 = np.zeros_like(dd)
-    t2 = np.zeros_like(dd)
+    tn_lt_zero = tn <= 0.0
+    tn_gt_c = (tn >= c) & ~tn_lt_zero
 
-    t1[abs_sn_gt_tol] = (sn / sd)[abs_sn_gt_tol]
-    t2[abs_tn_gt_tol] = (tn / td)[abs_tn_gt_tol]
+    t1 = np.where(tn_lt_zero, ratio(-d, a), np.where(tn_gt_c, ratio(b - d, a), t1))
+    t2 = np.where(tn_gt_c, 1.0, ratio(tn, c))
 
     p1 = p11 + t1 * u
     p2 = p21 + t2 * v
-- 
2.43.0


From c8ec7ff8de0e9c09df625bb81a1e27aec02b018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 20/33] fix: Segment.t raised for a sequence with a single
 point that is not collinear

---
 skcurve/_geomalg.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index a8dc1f0..4281a66 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -103,17 +103,14 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
 
-    t = t.squeeze()
-
     if is_collinear.size == 0:
-        return float(t)
+        return float(np.squeeze(t))
     else:
+        t = t.reshape(-1)
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From f29d5e2ed07b5aa8080f8073c2c51673017602d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 21/33] fix: the angle between short segments was NaN

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 4281a66..8f07981 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -139,7 +139,7 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
 
     denominator = u1.norm() * u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if denominator == 0.0:
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
-- 
2.43.0


From 2639548b51c05afda472e9eb7e36697bc4fc5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 22/33] fix: short segments were considered parallel whatever
 their directions are

---
 skcurve/_geomalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 8f07981..8f06a8a 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -167,7 +167,8 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
     segment2 : Segment
         The second segment
     tol : float
-        Epsilon. It is a small float number. By default float64 eps
+        Epsilon. It is a small float number. By default float64 eps.
+        It is relative to the segments lengths and cannot be less than rounding errors.
 
     Returns
     -------
@@ -185,7 +186,7 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
 
     d = a * c - b * b
 
-    return d < tol
+    return d <= max(tol, 8 * F_EPS) * a * c
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From 07f8d02ae07a18ec2c39c313b0b5182651dd8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 23/33] fix: deleting all dimensions silently gave an empty
 curve

---
 skcurve/_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 51a02af..fc76704 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -2028,13 +2028,16 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
             raise ValueError('Cannot delete dimensions from 2-dimensional curve.')
 
         try:
-            return Curve(
-                np.delete(self._data, axis, axis=1)
-            )
+            data = np.delete(self._data, axis, axis=1)
         except IndexError as err:
             raise IndexError(
                 f'Axis {axis} is out of bounds for curve dimensions {self.ndim}') from err
 
+        if data.shape[1] < 2:
+            raise ValueError('Cannot delete dimensions: the curve must stay at least 2-dimensional.')
+
+        return Curve(data)
+
     def unique(self) -> 'Curve':
         """Returns curve with unique points
 
-- 
2.43.0


From a220332a0a826367751ba8342a7ca1feedea99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 24/33] fix: unpickled points and curves were mutable

---
 skcurve/_base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index fc76704..5d61b8d 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -277,6 +277,13 @@ class Point(abc.Sequence):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
         return Point(self, dtype=self.dtype)
 
+    def __setstate__(self, state: tuple) -> None:
+        attrs, slots = state
+        for name, value in {**(attrs or {}), **slots}.items():
+            setattr(self, name, value)
+        # The read-only flag of an array is not pickled
+        self._data.flags.writeable = False
+
     @property
     def data(self) -> np.ndarray:
         """Returns the point data as numpy array
@@ -1357,6 +1364,13 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Curve':
         return Curve(self)
 
+    def __setstate__(self, state: dict) -> None:
+        self.__dict__.update(state)
+        # The read-only flag of an array is not pickled
+        for value in state.values():
+            if isinstance(value, np.ndarray):
+                value.flags.writeable = False
+
     def index(self, point: Point, start: ty.Optional[int] = None, end: ty.Optional[int] = None) -> int:
         """Returns the first index for given point in the curve
 
-- 
2.43.0


From 830d5338c7d0ee0c2dc7ba6d63e7732cfba5fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 25/33] fix: arithmetic of points with small integer types
 wrapped around

---
 skcurve/_base.py    | 10 +++++-----
 skcurve/_numeric.py | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 5d61b8d..741aa95 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, F_EPS
+from skcurve._numeric import allequal, widen, F_EPS
 from skcurve._utils import as2d
 
 
@@ -269,7 +269,7 @@ class Point(abc.Sequence):
         if not isinstance(other, Point):
             return NotImplemented
 
-        return ty.cast(Numeric, np.dot(self._data, other.data))
+        return ty.cast(Numeric, np.dot(widen(self._data), widen(other.data)))
 
     def __copy__(self) -> 'Point':
         return self.__deepcopy__()
@@ -364,13 +364,13 @@ class Point(abc.Sequence):
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data)
+        return metric(widen(self._data), widen(other.data))
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
-        left_data = self._data
+        left_data = widen(self._data)
 
         if isinstance(other, Point):
-            right_data = other.data
+            right_data = widen(other.data)
         elif isinstance(other, numbers.Number):
             right_data = other
         else:
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..0a840d7 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -67,6 +67,30 @@ def allequal(obj1: np.ndarray, obj2: np.ndarray, axis: ty.Optional[int] = None,
     return np.all(isequal(obj1, obj2, **kwargs), axis=axis)
 
 
+def widen(data: np.ndarray) -> np.ndarray:
+    """Returns the data of small integer type as int64, other data as is
+
+    Notes
+    -----
+    Arithmetic on small integers wraps around
+
+    Parameters
+    ----------
+    data : np.ndarray
+        The data
+
+    Returns
+    -------
+    data : np.ndarray
+        The data that are safe for arithmetic
+
+    """
+
+    if np.issubdtype(data.dtype, np.integer) and data.dtype.itemsize < 8:
+        return data.astype(np.int64)
+    return data
+
+
 def dot1d(data1: np.ndarray, data2: np.ndarray) -> np.ndarray:
     """Computes row-wise dot product of two MxN arrays
 
-- 
2.43.0


From db087fe0e738844e118ca6ac5163c5fba4dc9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:14 +0000
Subject: [PATCH 26/33] fix: exactly collinear points were rarely reported not
 collinear

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 8f06a8a..1423e18 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -224,8 +224,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
         return True
 
     if tol is None:
-        # The differences are known up to rounding of the coordinates
-        tol = np.max(np.abs(m)) * max(m.shape) * F_EPS
+        # The differences and their singular values are known up to rounding of the coordinates
+        tol = np.linalg.norm(m) * max(m.shape) * F_EPS
 
     return np.linalg.matrix_rank(m[1:] - m[0], tol=tol) <= 1
 
-- 
2.43.0


From 0fe544bc7c9696d11fb1071f25c1b0619d874bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 27/33] fix: crossing segments with large coordinates were not
 intersected

---
 skcurve/_intersect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index b1d5971..5a87146 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -514,7 +514,10 @@ class ExactIntersectionMethod(IntersectionMethodBase):
             if intersect_point1 != intersect_point2:
                 distance = intersect_point1.distance(intersect_point2)
 
-                if distance > self._feps:
+                # The points are known up to rounding of the segments coordinates
+                scale = np.max(np.abs((segment1.data, segment2.data)))
+
+                if distance > max(self._feps, np.sqrt(F_EPS) * scale):
                     warnings.warn(
                         f"Incorrect solution. The points for 't1' and 't2' are different (distance: {distance}).",
                         IntersectionWarning)
-- 
2.43.0


From 98e357cfdf175e94269ec4762a87f5f43619af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 28/33] fix: speed preserving grid did not end exactly at the
 curve end

The arc length is summed in another order than the cumulative arc length, so
the last grid value could lie just outside of the curve (NaN from akima) or not
cover it (spurious warning).
---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..398b796 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -252,7 +252,7 @@ class PreservedSpeedInterpolationGrid(InterpolationGrid):
             cumarclen_i = interpolator(xi)
 
             # Normalize cumulative chord lengths to the curve parametrization
-            grid = linrescale(cumarclen_i, out_range=(0, curve.arclen))
+            grid = linrescale(cumarclen_i, out_range=(0, curve.cumarclen[-1]))
         else:
             # If the curve is parametric we use uniform interpolation grid that preserves speed automatically
             grid = UniformInterpolationGrid(self.pcount, kind='point')(curve)
-- 
2.43.0


From 54e51ecae02559a29630d1cc17af27fc3647e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 29/33] fix: speed preserving grid of one point was NaN

Too few points are rejected by the uniform grid, and were here for parametric curves only.
---
 skcurve/_interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 398b796..2517068 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -240,6 +240,9 @@ class PreservedSpeedInterpolationGrid(InterpolationGrid):
     """
 
     def __init__(self, pcount: int, interp_kind: str = 'linear'):
+        if pcount < 2:
+            raise ValueError('There must be at least two interpolation points.')
+
         self.pcount = pcount
         self.interp_kind = interp_kind
 
-- 
2.43.0


From 048fb1429bccc11e8cf0fd488b32973dc6a0749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 30/33] fix: akima interpolation of a curve with two points was
 arbitrary

The slopes beyond the only interval were taken from uninitialized memory.
---
 skcurve/_interpolate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 2517068..8a663c5 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -528,7 +528,12 @@ class AkimaInterpolator(InterpolatorBase):
 
     def __init__(self, curve: 'Curve'):
         super().__init__(curve)
-        self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+
+        if curve.size > 2:
+            self.akima = interp.Akima1DInterpolator(curve.t, curve.data, axis=0)
+        else:
+            # Akima1DInterpolator uses uninitialized slopes if there is only one interval
+            self.akima = interp.interp1d(curve.t, curve.data, axis=0, bounds_error=False)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
         return self.akima(grid)
-- 
2.43.0


From 59b4d54167b771555958517cd12c887e7ab10e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 31/33] fix: valid interpolation grids of small curves were
 rejected

Steps below 1e-8 were taken for zero whatever the size of the curve.
---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 8a663c5..8247f68 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -360,7 +360,7 @@ class InterpolatorBase:
 
         dt = np.diff(grid)
 
-        if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
+        if np.any(dt <= 0):
             raise ValueError(
                 'The values in the interpolation grid must be strictly increasing ordered.')
 
-- 
2.43.0


From 95da709556ce9a66c8e20491820a2d9fe3a22e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 32/33] fix: csaps interpolation was transposed if the grid
 size is equal to ndim

With axis=0 csaps does not transpose its result if its shape happens to be
the expected one already.
---
 skcurve/_interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 8247f68..33d79d8 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -641,10 +641,10 @@ class CsapsInterpolator(InterpolatorBase):
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From a6c69985c27d008e94200d069450c43d764ba07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 33/33] fix: multicolor 2-d curve on 3-d axes made the figure
 undrawable

---
 skcurve/plot.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/skcurve/plot.py b/skcurve/plot.py
index 9171814..f9bc805 100644
--- a/skcurve/plot.py
+++ b/skcurve/plot.py
@@ -124,14 +124,20 @@ class CurvePlot:
         """Plots a curve parameter as multicolored line with given colormap
         """
 
-        points = self._curve.data[:, np.newaxis]
-        segments = np.concatenate([points[:-1], points[1:]], axis=1)
+        is_2d_axes = not isinstance(self._axes, Axes3D)
         curve_values = list(self._curve.values())
+
+        if self._curve.is2d and not is_2d_axes:
+            # a planar curve lies in z=0 plane on 3-d axes
+            curve_values.append(np.zeros(self._curve.size))
+
+        points = np.stack(curve_values, axis=1)[:, np.newaxis]
+        segments = np.concatenate([points[:-1], points[1:]], axis=1)
         multicolor_values = getattr(self._curve, self._param)
 
         marker = self._kwargs.pop('marker', None)
 
-        if self._curve.is2d:
+        if is_2d_axes:
             line_collection = LineCollection
         else:
             line_collection = Line3DCollection
@@ -145,7 +151,7 @@ class CurvePlot:
         curve_segments.set_norm(norm)
         curve_segments.set_cmap(self._param_cmap)
 
-        if self._curve.is2d:
+        if is_2d_axes:
             self._axes.add_collection(curve_segments)
             self._axes.autoscale()
         else:
-- 
2.43.0

