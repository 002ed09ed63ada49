From 9e196aefd71ae60889cfee60af80a501e3e391d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 01/43] fix: bounds and reductions no longer alter the stored
 extrema

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..6e33554 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -217,6 +217,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
+        # don't modify the caller's list: it's the curve's stored extrema
+        list = list[:]
         if 0 not in list: list.insert(0, 0)
         if 1 not in list: list.append(1)
 
@@ -571,7 +573,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = self.extrema[2][:]
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From ad9d54c770a35cbb839721c2d42de7ff3f2f398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 02/43] fix: a curve's look-up table is stored only once it is
 complete

---
 PathLib/Bezier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6e33554..02ce69e 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -379,16 +379,18 @@ class Bezier(object):
 
     # LUT == LookUp Table
     def getLUT(self, steps: int = 100) -> list[Point]:
-        if len(self._lut) == steps: return self._lut
+        lut = self._lut
+        if len(lut) == steps: return lut
 
-        self._lut = []
+        lut = []
         # We want a range from 0 to 1 inclusive, so
         # we decrement steps and use range(steps+1)
         steps -= 1
         for t in range(steps+1):
-            self._lut.append(self.get(t / steps))
+            lut.append(self.get(t / steps))
 
-        return self._lut
+        self._lut = lut
+        return lut
 
     def _arcfun(self, t: Decimal) -> Decimal:
         dx, dy = self._derivative(t)
-- 
2.43.0


From bd01ee54c56c6897597ab630205f4ec32a41d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 03/43] fix: a contour's look-up table is stored under its
 density, once complete

---
 PathLib/Bezier.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 02ce69e..96b71d2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -831,7 +831,7 @@ class BContour(object):
 
         self._beziers = beziers
         self._bounds = bounds
-        self._lut: list[Point] = []
+        self._lut: tuple[int, list[Point]] = (0, [])
         self._start = beziers[0].start
         self._end = beziers[-1].end
 
@@ -854,17 +854,21 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        # The number of points depends on the number of curves,
+        # so it doesn't tell how many steps the table was made for.
+        lutSteps, lut = self._lut
+        if lutSteps == steps: return lut
 
-        self._lut = []
+        lut = []
         startPoint = 0
         for curve in self._beziers:
-            self._lut.extend(curve.getLUT(steps)[startPoint:])
+            lut.extend(curve.getLUT(steps)[startPoint:])
             # for every curve but the first, the first point is
             # the same as the last point of the last curve
             startPoint = 1
 
-        return self._lut
+        self._lut = (steps, lut)
+        return lut
 
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
-- 
2.43.0


From 8feeccf40f97ac4e215703f31e08d8e08fdb8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 04/43] fix: edits of a contour are atomic and visible in every
 answer

---
 PathLib/Bezier.py | 72 ++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 96b71d2..ba907f3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -821,34 +821,28 @@ class Bezier(object):
 
 class BContour(object):
     def __init__(self, contour: Contour):
-        beziers: list[Bezier] = []
-        bounds = PathUtilities.BoundsRectangle()
-
-        for segment in contour:
-            bezier = Bezier(segment)
-            bounds = bounds.union(bezier.boundsRectangle)
-            beziers.append(bezier)
+        # Everything else is computed from the curves, or tagged with
+        # the list of curves it was computed from, so replacing this
+        # list is all an edit has to do.
+        self._beziers: list[Bezier] = [Bezier(segment) for segment in contour]
+        self._lut: tuple[list[Bezier], int, list[Point]] = ([], 0, [])
 
-        self._beziers = beziers
-        self._bounds = bounds
-        self._lut: tuple[int, list[Point]] = (0, [])
-        self._start = beziers[0].start
-        self._end = beziers[-1].end
+        # as ever, a contour has at least one curve
+        self.start
+        self.boundsRectangle
 
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
-        self._beziers[index] = Bezier(value)
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        beziers = self._beziers[:]
+        beziers[index] = Bezier(value)
+        self._beziers = beziers
 
     def __delitem__(self, index: int):
-        del self._beziers[index]
-        # self._length = None
-        self._start = self._beziers[0].start
-        self._end = self._beziers[-1].end
+        beziers = self._beziers[:]
+        del beziers[index]
+        self._beziers = beziers
 
     def __iter__(self):
         return self._beziers.__iter__()
@@ -856,18 +850,19 @@ class BContour(object):
     def getLUT(self, steps: int = 100):
         # The number of points depends on the number of curves,
         # so it doesn't tell how many steps the table was made for.
-        lutSteps, lut = self._lut
-        if lutSteps == steps: return lut
+        beziers = self._beziers
+        lutBeziers, lutSteps, lut = self._lut
+        if lutBeziers is beziers and lutSteps == steps: return lut
 
         lut = []
         startPoint = 0
-        for curve in self._beziers:
+        for curve in beziers:
             lut.extend(curve.getLUT(steps)[startPoint:])
             # for every curve but the first, the first point is
             # the same as the last point of the last curve
             startPoint = 1
 
-        self._lut = (steps, lut)
+        self._lut = (beziers, steps, lut)
         return lut
 
     @classmethod
@@ -1012,15 +1007,19 @@ class BContour(object):
 
     @property
     def start(self):
-        return self._start
+        return self._beziers[0].start
 
     @property
     def end(self):
-        return self._end
+        return self._beziers[-1].end
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
+            bounds = bounds.union(bezier.boundsRectangle)
+
+        return bounds
 
     @property
     def beziers(self):
@@ -1035,19 +1034,10 @@ class BContour(object):
         return Bezier.xyPoint(x, y)
 
 class BOutline(object):
-    __slots__ = "_bContours", "_bounds"
+    __slots__ = "_bContours"
 
     def __init__(self, contours: list[Contour]):
-        bounds = PathUtilities.BoundsRectangle()
-        bContours: list[BContour] = []
-
-        for contour in contours:
-            bc = BContour(contour)
-            bContours.append(bc)
-            bounds = bounds.union(bc.boundsRectangle)
-
-        self._bContours = bContours
-        self._bounds = bounds
+        self._bContours = [BContour(contour) for contour in contours]
 
     def __iter__(self):
         return self._bContours.__iter__()
@@ -1089,4 +1079,8 @@ class BOutline(object):
 
     @property
     def boundsRectangle(self):
-        return self._bounds
+        bounds = PathUtilities.BoundsRectangle()
+        for bContour in self._bContours:
+            bounds = bounds.union(bContour.boundsRectangle)
+
+        return bounds
-- 
2.43.0


From 7eae36db95a9f839804e60f1b17774db93c792a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 05/43] fix: measuring a curve never changes the caller's
 decimal context or depends on an earlier one

---
 PathLib/Bezier.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ba907f3..56ddbc2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Decimal, getcontext
+from decimal import Context, Decimal, getcontext, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -410,20 +410,23 @@ class Bezier(object):
 
     @property
     def length(self):
-        if not self._length:
-            z = Decimal(0.5)
-            sum = Decimal(0)
-
-            getcontext().prec += 2
-            for i in range(len(butils.tValues)):
-                t = butils.tValues[i].fma(z, z)
-                sum = butils.cValues[i].fma(self._arcfun(t), sum)
-
-            length = z * sum
-            getcontext().prec -= 2
-            self._length = +length
-
-        return self._length
+        # The length is computed with the usual settings, and two more digits
+        # than the caller's precision, which it's then rounded to.
+        prec = getcontext().prec + 2
+        stored = self._length
+        if not stored or stored[0] != prec:
+            with localcontext(Context(prec=prec)):
+                z = Decimal(0.5)
+                sum = Decimal(0)
+
+                for i in range(len(butils.tValues)):
+                    t = butils.tValues[i].fma(z, z)
+                    sum = butils.cValues[i].fma(self._arcfun(t), sum)
+
+                stored = (prec, z * sum)
+            self._length = stored
+
+        return +stored[1]
 
     @typing.overload
     def split(self, t1: float) -> tuple[Bezier, Bezier, list[Point]]: ...
-- 
2.43.0


From 676f853224aaf44bb7c02f8155be77116b89de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 06/43] fix: lines have derivatives, so lengths, normals and
 offsets

---
 PathLib/Bezier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 56ddbc2..d0ebcce 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,11 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From 9a020f30c7032b343daeeff4ff1c00cf64a4c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 07/43] fix: the table of binomial coefficients grows by whole
 tables

---
 PathLib/CurveFitting.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/PathLib/CurveFitting.py b/PathLib/CurveFitting.py
index 23b7588..d393d44 100644
--- a/PathLib/CurveFitting.py
+++ b/PathLib/CurveFitting.py
@@ -35,14 +35,19 @@ def dist(p1: Point, p2: Point):
 
 def binomial(n: int, k: int):
     if n == 0: return 1
+    global binomialCoefficients
     lut = binomialCoefficients
-    while n >= len(lut):
-        nextRow = [1]
-        prev = len(lut) - 1
-        for i in range(1, len(lut)):
-            nextRow.append(lut[prev][i-1] + lut[prev][i])
-        nextRow.append(1)
-        lut.append(nextRow)
+    if n >= len(lut):
+        # grow a copy, which nobody else can see until it's complete
+        lut = lut[:]
+        while n >= len(lut):
+            nextRow = [1]
+            prev = len(lut) - 1
+            for i in range(1, len(lut)):
+                nextRow.append(lut[prev][i-1] + lut[prev][i])
+            nextRow.append(1)
+            lut.append(nextRow)
+        binomialCoefficients = lut
     return lut[n][k]
 
 def getPointValuesColumn(points: list[Point], v: int):
-- 
2.43.0


From 7b07eb0e3753d61aaaa2decfc649ec6f58c37310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 08/43] fix: sqrt() returns NaN only for want of a root, not
 for interrupts

---
 PathLib/BezierUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..a8f7de5 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -91,7 +91,7 @@ def between(v: float, m: float, M: float) -> bool:
 def sqrt(x: float) -> float:
     try:
         r = math.sqrt(x)
-    except:
+    except ValueError:
         # JavaScript sqrt() returns NaN for negative x.
         # If we do the same, then the rest of the code
         # will behave as the JavaScript code does...
-- 
2.43.0


From 524bc87bcc01db8164d317acde863117dd718a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 09/43] fix: a pen's contour is added only once it is closed

---
 PathLib/SegmentPen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PathLib/SegmentPen.py b/PathLib/SegmentPen.py
index 88bad5d..baa55dc 100644
--- a/PathLib/SegmentPen.py
+++ b/PathLib/SegmentPen.py
@@ -79,10 +79,11 @@ class SegmentPen:
 
     def closePath(self):
         if self._contour:  # Ignore this if called with an empty contour
-            self._contours.append(self._contour)
-            if self._contour[0][0] != self._contour[-1][-1]:
-                self._contour.append([self._contour[-1][-1], self._contour[0][0]])
+            contour = self._contour
+            if contour[0][0] != contour[-1][-1]:
+                contour = contour + [[contour[-1][-1], contour[0][0]]]
             self._contour = []
+            self._contours.append(contour)
         self.logger.debug("closePath()")
 
     def endPath(self) -> None:
-- 
2.43.0


From 5d8d9da91f713408b3003fe9ca2ae49cb17c0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 10/43] fix: simple() no longer fails when rounding takes a
 cosine past 1

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index d0ebcce..54571a2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -574,7 +574,7 @@ class Bezier(object):
 
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
-        s = n1x * n2x + n1y * n2y
+        s = max(-1, min(1, n1x * n2x + n1y * n2y))
         return abs(math.acos(s)) < math.pi / 3
 
     def reduce(self) -> list[Bezier]:
-- 
2.43.0


From 7586901a9c3a1c41cad5736deca3e90302608c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 11/43] fix: contours and paths can be drawn filled

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 6ac53c2d03b19703d21a90ca10a9b898e705cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 12/43] fix: compact paths repeat the command after each move

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..037a185 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -85,6 +85,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 firstPoint = contour[0][0]
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
+                self._lastCommand = ""
 
                 for segment in contour:
                     if len(segment) == 2:
@@ -151,6 +152,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             firstPoint = path.start
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
+            self._lastCommand = ""
 
             for curve in path:
                 segment = curve.controlPoints
-- 
2.43.0


From 2c7e194516434b6f476ad6f19f93e29fc6a9ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 13/43] fix: rotating hues advance one at a time, whichever
 thread asks

---
 PathLib/Color.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PathLib/Color.py b/PathLib/Color.py
index f29e070..88be395 100644
--- a/PathLib/Color.py
+++ b/PathLib/Color.py
@@ -7,6 +7,7 @@ Extracted from PathUtilities.py on August 3, 2021
 """
 
 import random
+import threading
 from colorsys import hls_to_rgb
 
 from FontDocTools.Color import Color as FDTColor
@@ -200,18 +201,21 @@ class Color(FDTColor):
         return Color(red, green, blue)
 
     _current_hue: float = 0
+    _hue_lock = threading.Lock()
 
     @classmethod
     def setCurrentHue(cls, hue: float = 0):
-        cls._current_hue = hue
+        with cls._hue_lock:
+            cls._current_hue = hue
 
     # Based on randomColor() from graphics-api.js from
     # from https://github.com/Pomax/BezierInfo-2
     # (not really random...)
     @classmethod
     def randomHSLColor(cls):
-        cls._current_hue = (cls._current_hue + 73) % 360
-        hue = cls._current_hue
+        with cls._hue_lock:
+            hue = (cls._current_hue + 73) % 360
+            cls._current_hue = hue
         saturation = 50
         lightness = 50
         red, green, blue = hls_to_rgb(hue / 360, lightness / 100, saturation / 100)
-- 
2.43.0


From 471a954e7d7609e7c1dcd2dbb0a20ae99dd1298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 14/43] fix: bounds are right however far from the origin

---
 PathLib/PathUtilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..042f42b 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
@@ -170,7 +170,14 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
-        return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
+        # not from the corners: an empty rectangle has none
+        result = BoundsRectangle()
+        result.left = newLeft
+        result.top = newTop
+        result.right = newRight
+        result.bottom = newBottom
+
+        return result
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
         """\
-- 
2.43.0


From f0005032f986a4a0eb8990e4a2d7400c83d6fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 15/43] fix: raising the order of a curve adds one control
 point

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 54571a2..645acac 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -738,7 +738,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From e23a0b676edd1e91424698c6abbc5b36b39c0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 16/43] fix: the nearest point is found on tables too fine to
 refine

---
 PathLib/Bezier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 645acac..3878201 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -925,6 +925,11 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
+        if closest == MAX_SAFE_INTEGER:
+            # the table was too fine to need refining
+            qx, qy = q = lut[i]
+            closest = math.hypot(qx - px, qy - py)
+
         return (q, closest)
 
     def findClosestPoint(self, point: Point, steps: int):
-- 
2.43.0


From 2c28df98f4eb1a50129bee68879f774137f44c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 17/43] fix: the nearest point is refined around the right
 entry of every curve's table

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 3878201..ca5f0a6 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -946,7 +946,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # these tables don't include the first point of the curve
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From de50500daeb2fd7705c1ff903f2710b3af1ef0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 18/43] fix: extrema too close together to cut a piece no
 longer make reductions fail

---
 PathLib/Bezier.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index ca5f0a6..f523805 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -582,13 +582,12 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2][:]
-        if not 0 in extrema: extrema.insert(0, 0)
-        if not 1 in extrema: extrema.append(1)
+        extrema = [t for t in self.extrema[2] if not butils.approximately(t, 0) and not butils.approximately(t, 1)]
+        extrema.append(1)
 
-        t1 = extrema[0]
-        for i in range(1, len(extrema)):
-            t2 = extrema[i]
+        t1 = 0
+        for t2 in extrema:
+            if butils.approximately(t1, t2): continue
             segment = self.split(t1, t2)
             segment._t1 = t1
             segment._t2 = t2
-- 
2.43.0


From 8eecc9f37e7037847cfa2a62439e6ed3d6cf4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 19/43] fix: a one-point quadratic is a line, so vanishes if
 its length is zero

---
 PathLib/SegmentPen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/SegmentPen.py b/PathLib/SegmentPen.py
index baa55dc..038c4d4 100644
--- a/PathLib/SegmentPen.py
+++ b/PathLib/SegmentPen.py
@@ -56,6 +56,10 @@ class SegmentPen:
         self._lastOnCurve = points[-1]
 
     def qCurveTo(self, *points: Point):
+        if len(points) == 1:
+            # there are no off-curve points, so it's a line
+            return self.lineTo(*points)
+
         segment = [self._lastOnCurve]
         segment.extend(points)
 
-- 
2.43.0


From 012f7d08d3e3a6b6fa9cf04c955a92f1aba72382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 20/43] fix: drawing filled circles leaves the fill colour as
 it was

---
 PathLib/ContourPlotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 037a185..fb20b90 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
-- 
2.43.0


From 0f27c171ab1bd22be09dbc47e98b8d2ad028cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 21/43] fix: turning points are right when a derivative is all
 but linear

---
 PathLib/BezierUtilities.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index a8f7de5..fc7d36b 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -154,11 +154,13 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         d = a - 2 * b + c
 
         if d != 0:
-            m1 = - sqrt(b * b - a * c)
-            m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            # the root of larger magnitude first, the other from their
+            # product, so that neither loses digits when d is small
+            m1 = sqrt(b * b - a * c)
+            m2 = b - a
+            q = -(m2 + m1) if m2 >= 0 else m1 - m2
+            v1, v2 = q / d, a / q if q != 0 else 0
+            return [v2, v1] if m2 >= 0 else [v1, v2]
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From d43b60bdf7db43fe82fdde3e97d8ce3a8245608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 22/43] fix: a first step that isn't simple no longer makes a
 reduction come out empty

---
 PathLib/Bezier.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f523805..a839a45 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -605,9 +605,14 @@ class Bezier(object):
                     segment = p1.split(t1, t2)
                     if not segment.simple():
                         t2 -= step
-                        if abs(t1 - t2) < step:
-                            # we can never form a reduction
-                            return []
+                        if t2 - t1 < step / 2:
+                            # not even one step is simple: take less than a step
+                            t2 = t1 + step / 2
+                            while not p1.split(t1, t2).simple():
+                                if butils.approximately(t1, t2):
+                                    # we can never form a reduction
+                                    return []
+                                t2 = (t1 + t2) / 2
                         segment = p1.split(t1, t2)
                         segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                         segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
-- 
2.43.0


From d9ada304320b05073ef8009378be8b095c142f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 23/43] fix: the offset point at distance 0 is the point
 itself, not an offset curve

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a839a45..b359ec2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -758,7 +758,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From f104c390f9f586794fa2de581e4df1da9238563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 24/43] fix: an opacity or width of 0 can be pushed

---
 PathLib/ContourPlotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index fb20b90..62a0158 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -39,7 +39,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
     def pushFillAttributes(self, color=None, opacity=None):
         self._fillAttributeStack.append((self._fillColor, self._fillOpacity))
         if color: self.setFillColor(color)
-        if opacity: self.setFillOpacity(opacity)
+        if opacity is not None: self.setFillOpacity(opacity)
 
     def popFillAttributes(self):
         color, opacity = self._fillAttributeStack.pop()
@@ -48,9 +48,9 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def pushStrokeAttributes(self, width=None, color=None, opacity=None, dash=None):
         self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))
-        if width: self.setStrokeWidth(width)
+        if width is not None: self.setStrokeWidth(width)
         if color: self.setStrokeColor(color)
-        if opacity: self.setStrokeOpacity(opacity)
+        if opacity is not None: self.setStrokeOpacity(opacity)
         if dash: self.setStrokeDash(dash)
 
     def popStrokeAtributes(self):
-- 
2.43.0


From 87894e05114fbdbaa8528f9726d5cd9f14566a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:43 +0000
Subject: [PATCH 25/43] fix: derivatives of Decimal curves don't keep the
 precision of whoever asked first

---
 PathLib/Bezier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b359ec2..0528da5 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -14,7 +14,7 @@ import typing
 
 import math
 import types
-from decimal import Context, Decimal, getcontext, localcontext
+from decimal import Context, Decimal, MAX_EMAX, MAX_PREC, MIN_EMIN, getcontext, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
 
@@ -322,6 +322,13 @@ class Bezier(object):
 
     @property
     def dcPoints(self) -> list[list[Point]]:
+        if self._dcPoints: return self._dcPoints
+
+        # Decimal differences must be exact: they're kept for callers with other precisions
+        with localcontext(Context(prec=MAX_PREC, Emax=MAX_EMAX, Emin=MIN_EMIN)):
+            return self._computeDCPoints()
+
+    def _computeDCPoints(self) -> list[list[Point]]:
         if not self._dcPoints:
             dpoints: list[list[Point]] = []
             p = self._controlPoints
-- 
2.43.0


From 026c29d41c4367a05f222679012edd503a503605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:43 +0000
Subject: [PATCH 26/43] fix: drawing an arrow leaves the stroke attributes as
 they were

---
 PathLib/ContourPlotter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 62a0158..2346699 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -323,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From eed7e240014df2fc806ef51db4895d9fbf3358fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 27/43] fix: a curve with a retracted handle has a normal at
 that end

---
 PathLib/Bezier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0528da5..a7333bd 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -569,6 +569,12 @@ class Bezier(object):
 
     def normal(self, t: float) -> tuple[float, float]:
         dx, dy = self._derivative(t)
+        if dx == 0 and dy == 0 and (t == 0 or t == 1):
+            # a retracted handle: the curve leaves for (comes from) the nearest other control point
+            x0, y0 = self.start if t == 0 else self.end
+            for x, y in self.controlPoints if t == 0 else reversed(self.controlPoints):
+                dx, dy = (x - x0, y - y0) if t == 0 else (x0 - x, y0 - y)
+                if dx != 0 or dy != 0: break
         q = butils.sqrt(dx * dx + dy * dy)
         return (-dy / q, dx / q)
 
-- 
2.43.0


From 2a732f0e82a91591c61f747e98f1902773441682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 28/43] fix: the last piece of a monotone part turns by less
 than 60 degrees, too

---
 PathLib/Bezier.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a7333bd..3059edc 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -634,11 +634,17 @@ class Bezier(object):
                         break
                     t2 += step
 
-            if t1 < 1:
+            # what's left turns further than the last piece tried, by up to a step
+            while t1 < 1:
+                t2 = 1
                 segment = p1.split(t1, 1)
+                while not segment.simple() and not butils.approximately(t1, t2):
+                    t2 = (t1 + t2) / 2
+                    segment = p1.split(t1, t2)
                 segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
-                segment._t2 = p1._t2
+                segment._t2 = p1._t2 if t2 == 1 else butils.map(t2, 0, 1, p1._t1, p1._t2)
                 pass2.append(segment)
+                t1 = t2
 
         return pass2
 
-- 
2.43.0


From 15c1062f961dfd7c184f0b9dbe28c7fdc179360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 29/43] fix: crossings of a line with a curve that's nearly of
 a lower order are found, and right

---
 PathLib/Bezier.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 3059edc..bdaa7b3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -483,20 +483,7 @@ class Bezier(object):
 
         order = len(p) - 1
         if order == 2:
-            a = p[0][1]
-            b = p[1][1]
-            c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+            return list(filter(reduce, butils.droots([y for _, y in p])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
@@ -525,6 +512,25 @@ class Bezier(object):
             a2 = 2 * a
             return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
 
+        if abs(a) > 100 * abs(d):
+            # nearly a quadratic: the cubic solution would lose too many digits.
+            # There's at most one root between turning points, so close in on it.
+            def y(t: float) -> float: return ((d * t + a) * t + b) * t + c
+
+            near = butils.epsilon
+            ends = sorted(t for t in butils.droots([pb - pa, pc - pb, pd - pc]) if -near < t < 1 + near)
+            ends = [-near, *ends, 1 + near]
+            result: list[float] = []
+            for t1, t2 in zip(ends, ends[1:]):
+                if (y(t1) < 0) == (y(t2) < 0): continue
+                for _ in range(60):
+                    t = (t1 + t2) / 2
+                    if (y(t) < 0) == (y(t1) < 0): t1 = t
+                    else: t2 = t
+                result.append(t2)
+
+            return result
+
         # at this point, we know we need a cubic solution:
         a /= d
         b /= d
-- 
2.43.0


From d36965cfbbbf221d460c7eb8b6ffbf30ec264186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 30/43] fix: crossings of a line with a cubic close to each
 other are told apart

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index bdaa7b3..0d11b17 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -556,7 +556,7 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+        elif butils.approximately(discriminant, 0, 1e-14):  # discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-- 
2.43.0


From 5c9bd0d8a5136801ee48fd63168728f27542cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 31/43] fix: lines crossing a level or upright line are found
 to, whatever the rounding

---
 PathLib/PathUtilities.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 042f42b..a39f3b8 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -294,13 +294,17 @@ def intersectionPoint(l1: typing.Sequence[Point], l2: typing.Sequence[Point]) ->
 
     if intersection is None: return None
 
-    b1 = BoundsRectangle(*l1)
-    b2 = BoundsRectangle(*l2)
-
     # The point calculated above assumes that the two lines have
     # infinite length, so it may not be on both, or either line.
-    # Make sure it's within the bounds rectangle for both lines.
-    return intersection if b1.enclosesPoint(intersection) and b2.enclosesPoint(intersection) else None
+    # Make sure it's within both, in the direction each spans more:
+    # in the other direction it can be outside by a rounding error.
+    def within(line: typing.Sequence[Point]) -> bool:
+        dx, dy = getDeltas(line)
+        dim = 0 if abs(dx) >= abs(dy) else 1
+        low, high = minMax(line[0][dim], line[-1][dim])
+        return low <= intersection[dim] <= high
+
+    return intersection if within(l1) and within(l2) else None
 
 # The result of this function cannot be used to create an SVG path...
 def flatten(contours: list[Contour]) -> Contour:
-- 
2.43.0


From 5324eecdf144fed98e98bff58f9ffecc01978f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 32/43] fix: the start of a line is on the line

---
 PathLib/PathUtilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index a39f3b8..a7775be 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -322,8 +322,9 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
 
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
-    # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    # same slope as the line, it is on the line. (At the start of
+    # the line there's no slope to compare.)
+    return bounds.enclosesPoint(point) and (tuple(point) == tuple(line[0]) or slope(line) == slope([line[0], point]))
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From 9c4881c725c1b5aee6df7c7c820b4bcdee9c37ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 33/43] fix: crossings of curves with level or upright lines
 aren't lost to rounding

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 0d11b17..a483b66 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -665,7 +665,10 @@ class Bezier(object):
 
         def onLine(t: float) -> bool:
             x, y = self.get(t)
-            return butils.between(x, mx, MX) and butils.between(y, my, MY)
+
+            # The roots are on the line: see if they're within the segment in the direction
+            # it spans more. In the other, they can be outside by a rounding error.
+            return butils.between(x, mx, MX) if MX - mx > MY - my else butils.between(y, my, MY)
 
         return list(filter(onLine, self.roots(line)))
 
-- 
2.43.0


From 3c4f0af49f73d310e5d8b18dd7763ff98684c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 34/43] fix: the lone crossing of a line with a cubic keeps its
 digits

---
 PathLib/Bezier.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a483b66..a518997 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -563,8 +563,15 @@ class Bezier(object):
             return list(filter(reduce, [x1, x2]))
         else:
             sd = butils.sqrt(discriminant)
-            u1 = butils.crt(-q2 + sd)
-            v1 = butils.crt(q2 + sd)
+            # take the cube root of the larger sum, and get the other one
+            # from their product: the smaller sum can be all rounding error
+            if q2 < 0:
+                u1 = butils.crt(-q2 + sd)
+                v1 = p3 / u1
+            else:
+                v1 = butils.crt(q2 + sd)
+                u1 = p3 / v1
+
             return list(filter(reduce, [u1 - v1 - a / 3]))
 
     def align(self, segment: typing.Optional[Segment] = None):
-- 
2.43.0


From 684313171a43898547cd327cbf587bf6c40b6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 35/43] fix: crossings of a line with a cubic nearly a line
 keep their digits

---
 PathLib/Bezier.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a518997..455ac0f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -508,9 +508,7 @@ class Bezier(object):
                 return list(filter(reduce, [-c / b]))
 
             # quadratic solution:
-            q = butils.sqrt(b * b - 4 * a * c)
-            a2 = 2 * a
-            return list(filter(reduce, [(q - b) / a2, (-b - q) / a2]))
+            return list(filter(reduce, reversed(butils.droots([c, c + b / 2, a + b + c]))))
 
         if abs(a) > 100 * abs(d):
             # nearly a quadratic: the cubic solution would lose too many digits.
-- 
2.43.0


From 6ff587d9666dff8b214674d594cb05e8ae60030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 36/43] fix: a curve with a retracted handle is simple
 whichever way it heads

---
 PathLib/BezierUtilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index fc7d36b..6719b9e 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -221,6 +221,9 @@ def angle(o: Point, v1: Point, v2: Point) -> float:
     cross = dx1 * dy2 - dy1 * dx2
     dot = dx1 * dx2 + dy1 * dy2
 
+    # a point at the origin makes no angle, whatever the signs of its zeros
+    if cross == 0 and dot == 0: return 0.0
+
     return math.atan2(cross, dot)
 
 # def pairiteration(c1, c2, intersectionThreshold: float = 0.5):
-- 
2.43.0


From ef0c162d577e82a48d61f4fad708e0ca0fb6084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 37/43] fix: the offset of a curve with a retracted handle
 keeps to its side

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 455ac0f..afc4f44 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -59,7 +59,9 @@ class Bezier(object):
         aligned = self._align(cp, [cp[0], cp[-1]])
         self._linear = len([x for x in aligned if abs(x[1]) > 0.0001]) == 0
 
-        angle = butils.angle(cp[0], cp[-1], cp[1])
+        # a retracted handle says nothing: the next one tells which way it turns
+        handle = cp[2] if self.order == 3 and cp[1] == cp[0] else cp[1]
+        angle = butils.angle(cp[0], cp[-1], handle)
         self._clockwise = angle > 0
 
     def _computeDirection(self) -> int:
-- 
2.43.0


From a80b61b132530445dffdcbee2fe69deade3d703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 38/43] fix: a curve with a retracted handle can be scaled by a
 function

---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index afc4f44..60dd140 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -844,8 +844,8 @@ class Bezier(object):
             for t in range(2):
                 if order == 2 and t > 0: break
                 px, py = p = np[t * order]
-                dx, dy = self._derivative(t)
-                p2 = (px + dx, py + dy)
+                nx, ny = v[t][1]  # across the derivative, which vanishes with a retracted handle
+                p2 = (px + ny, py - nx)
                 np[t + 1] = typing.cast(Point, butils.lli4(p, p2, o, self.controlPoints[t + 1]))
 
             return Bezier(np)
-- 
2.43.0


From e7c2bd2a282d09a5eba2ae40db89f6e1a5ea57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 39/43] fix: a matrix whose pivot is all rounding error is
 inverted with another

---
 PathLib/MatrixInversion.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/PathLib/MatrixInversion.py b/PathLib/MatrixInversion.py
index 3921370..07c81b4 100644
--- a/PathLib/MatrixInversion.py
+++ b/PathLib/MatrixInversion.py
@@ -47,30 +47,15 @@ def matrixInvert(M: Matrix) -> typing.Optional[Matrix]:
 
     # Perform elementary row operations
     for i in range(n):
-        # get the element e on the diagonal
+        # get the largest element e on or below the diagonal, and swap its row
+        # with the i'th: a smaller one might be nothing but rounding errors
+        ii = max(range(i, n), key=lambda row: abs(C[row][i]))
+        C[i], C[ii] = C[ii], C[i]
+        I[i], I[ii] = I[ii], I[i]
         e = C[i][i]
 
-        # if we have a 0 on the diagonal (we'll need to swap with a lower row)
-        if e == 0:
-            # look through every row below the i'th row
-            for ii in range(i+1, n):
-                # if the ii'th row has a non-0 in the i'th col
-                if C[ii][i] != 0:
-                    # it would make the diagonal have a non-0 so swap it
-                    for j in range(n):
-                        e = C[i][j]  # temp store i'th row
-                        C[i][j] = C[ii][j]  # replace i'th row by ii'th
-                        C[ii][j] = e  # replace ii'th by temp
-                        e = I[i][j]  # temp store i'th row
-                        I[i][j] = I[ii][j]  # replace i'th row by ii'th
-                        I[ii][j] = e  # replace ii'th by temp
-
-                    # don't bother checking other rows since we've swapped
-                    break
-            # get the new diagonal
-            e = C[i][i]
-            # if it's still 0, not invertable (error)
-            if e == 0: return None
+        # if it's 0, not invertable (error)
+        if e == 0: return None
 
         # Scale this row down by e (so we have a 1 on the diagonal)
         for j in range(n):
-- 
2.43.0


From 85ff84616d195931cef6a34db0a172d9c810e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 40/43] fix: scale by any callable, not only by plain functions

A bound method, a partial or a callable object was taken for a number.
---
 PathLib/Bezier.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 60dd140..6193eb1 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -13,7 +13,6 @@ from __future__ import annotations
 import typing
 
 import math
-import types
 from decimal import Context, Decimal, MAX_EMAX, MAX_PREC, MIN_EMIN, getcontext, localcontext
 
 from PathLib.PathTypes import Contour, Segment, Point
@@ -810,10 +809,10 @@ class Bezier(object):
 
     DistanceFunction = typing.Callable[[float], float]
     def scale(self, d: typing.Union[float, DistanceFunction]) -> Bezier:
-        distanceFn: Bezier.DistanceFunction = d if isinstance(d, types.FunctionType) else lambda f: typing.cast(float, d)
+        distanceFn: Bezier.DistanceFunction = d if callable(d) else lambda f: typing.cast(float, d)
         order = self.order
 
-        if isinstance(d, types.FunctionType) and order == 2: return self.raiseOrder().scale(distanceFn)
+        if callable(d) and order == 2: return self.raiseOrder().scale(distanceFn)
 
         # TODO: add special handling for degenerate (=linear) curves.
         clockwise = self._clockwise
@@ -838,7 +837,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if callable(d):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From cde8b5ccae63dd1b57b7b1b4e5da19fa3ca25a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 41/43] fix: interpolate to exactly the second point at 1

---
 PathLib/BezierUtilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 6719b9e..92209c8 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -182,6 +182,10 @@ def lerp(r: float, v1: Point, v2: Point) -> Point:
     """"Linear intrpolation between v1, v2"""
     v1x, v1y = v1
     v2x, v2y = v2
+
+    # adding the difference back can miss v2 by a rounding error
+    if r == 1: return (v2x, v2y)
+
     return (v1x + r * (v2x - v1x), v1y + r * (v2y - v1y))
 
 def quadraticRatio(t: float) -> float:
-- 
2.43.0


From 1f516d076eadac3c0404059e98b44a812c6df639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 42/43] fix: the nearest-point search goes on about the nearest
 of each finer table

---
 PathLib/Bezier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 6193eb1..70a21d3 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -946,6 +946,7 @@ class BContour(object):
             if step < 0.001: break
             new_lut.append(lut[i1])
             new_tt.append(tt[i1])
+            nearest = MAX_SAFE_INTEGER
             for j in range(1, 4):
                 nt = t1 + (j * step)
                 nx, ny = n = curve.get(nt)
@@ -953,6 +954,9 @@ class BContour(object):
                 if dist < closest:
                     closest = dist
                     q = n
+                if dist < nearest:
+                    # go on about the nearest of this table, even if an earlier one had a nearer
+                    nearest = dist
                     i = j
                 new_lut.append(n)
                 new_tt.append(nt)
-- 
2.43.0


From 0cb99e441ba39f453efda9dd1468f486266588a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 43/43] fix: the nearest point is never further than the
 nearest sample

---
 PathLib/Bezier.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 70a21d3..27a2582 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -927,11 +927,13 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
-        q: Point = (0, 0)
+
+        # the tables below leave this one out
+        qx, qy = q = lut[i]
+        closest = math.hypot(qx - px, qy - py)
 
         for _ in range(25):  # This is for safety; the loop should always break
             steps = len(lut)
@@ -967,11 +969,6 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
-        if closest == MAX_SAFE_INTEGER:
-            # the table was too fine to need refining
-            qx, qy = q = lut[i]
-            closest = math.hypot(qx - px, qy - py)
-
         return (q, closest)
 
     def findClosestPoint(self, point: Point, steps: int):
-- 
2.43.0

