From 9ef96d584b1f6f9da5bc2960050284f73388ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 01/33] fix: bounds rectangles of points beyond +-32768 enclose
 exactly those points

---
 PathLib/PathUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 898bbaf..d5c38d6 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -32,8 +32,8 @@ class BoundsRectangle(object):
 
         Returns an empty rectangle if the list is empty.
         """
-        right = top = -32768
-        left = bottom = 32768
+        right = top = -math.inf
+        left = bottom = math.inf
 
         for point in points:
             px, py = point
-- 
2.43.0


From aa6f026e3d5049c15f555cf99d34f7a94423f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 02/33] fix: the union of two empty bounds rectangles is empty

---
 PathLib/PathUtilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index d5c38d6..7d0bf53 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -170,6 +170,8 @@ class BoundsRectangle(object):
         newRight = max(self.right, other.right)
         newBottom = min(self.bottom, other.bottom)
 
+        # The union of two empty rectangles is empty
+        if newRight < newLeft: return BoundsRectangle()
         return BoundsRectangle((newLeft, newBottom), (newRight, newTop))
 
     def intersection(self, other: BoundsRectangle) -> typing.Optional[BoundsRectangle]:
-- 
2.43.0


From f35a1056d8372af16935d09ff82a7e2aef56e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 03/33] fix: pointOnLine accepts the start point of the line

---
 PathLib/PathUtilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index 7d0bf53..b1b4b54 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -314,7 +314,10 @@ def pointOnLine(point: Point, line: typing.Sequence[Point]):
     # If the bounds rectangle of the line encloses the point and
     # a line from the start of the given line to the point has the
     # same slope as the line, it is on the line.
-    return bounds.enclosesPoint(point) and slope(line) == slope([line[0], point])
+    if not bounds.enclosesPoint(point): return False
+
+    # The start of the line is on the line, whatever its slope.
+    return pointXY(point) == pointXY(line[0]) or slope(line) == slope([line[0], point])
 
 
 def rotatePointAbout(point: Point, about: Point, degrees: float = 90, ccw: bool = True):
-- 
2.43.0


From ccbb2d7221c00ef91d685486ed067ad118447ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 04/33] fix: lines have derivatives, normals, offsets and a
 length

---
 PathLib/Bezier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 770e6d0..b6cb58f 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -175,7 +175,12 @@ class Bezier(object):
         p = self.dcPoints[0]
         mt = 1 - t
 
-        if self.order == 2:
+        if self.order == 1:
+            p = [p[0], (0, 0), (0, 0)]
+            a = 1
+            b = 0
+            c = 0
+        elif self.order == 2:
             p = [p[0], p[1], (0, 0)]
             a = mt
             b = t
-- 
2.43.0


From 61684718c692364971bd600d7a0a39fcaf3689de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 05/33] fix: lines can be split

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b6cb58f..cf530b2 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -439,7 +439,10 @@ class Bezier(object):
 
         # no shortcut: use "de Casteljau" iteration.
         q = self.hull(t1)
-        if self.order == 2:
+        if self.order == 1:
+            left = Bezier([q[0], q[2]])
+            right = Bezier([q[2], q[1]])
+        elif self.order == 2:
             left = Bezier([q[0], q[3], q[5]])
             right = Bezier([q[5], q[4], q[2]])
         else:
-- 
2.43.0


From ffec4f32dbc078b3b0194ab09b249198f0953ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 06/33] fix: computing the bounding box or reducing a curve
 does not change its extrema

---
 PathLib/Bezier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index cf530b2..f5d2cd8 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -222,8 +222,8 @@ class Bezier(object):
         min = +9007199254740991  # Number.MAX_SAFE_INTEGER
         max = -9007199254740991  # Number.MIN_SAFE_INTEGER
 
-        if 0 not in list: list.insert(0, 0)
-        if 1 not in list: list.append(1)
+        # don't add the end points to list: it's the cached extrema
+        list = [0, *list, 1]
 
         for i in range(len(list)):
             c = self.get(list[i])
@@ -579,7 +579,7 @@ class Bezier(object):
         pass2: list[Bezier] = []
 
         # first pass: split on extrema
-        extrema = self.extrema[2]
+        extrema = list(self.extrema[2])
         if not 0 in extrema: extrema.insert(0, 0)
         if not 1 in extrema: extrema.append(1)
 
-- 
2.43.0


From dc81900c368a32b54ffcc0f56e966c8232c70999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 07/33] fix: bounding boxes of curves with coordinates beyond
 the safe integers

---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f5d2cd8..b564fd7 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -219,8 +219,8 @@ class Bezier(object):
 
     def _getminmax(self, d: int, list: list[float]) -> tuple[float, float]:
         # if (!list) return { min: 0, max: 0 };
-        min = +9007199254740991  # Number.MAX_SAFE_INTEGER
-        max = -9007199254740991  # Number.MIN_SAFE_INTEGER
+        min = math.inf
+        max = -math.inf
 
         # don't add the end points to list: it's the cached extrema
         list = [0, *list, 1]
-- 
2.43.0


From b608135e7d9154ddab8c26513251f6acbabca11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 08/33] fix: raising the order of a curve adds one control
 point and keeps the curve

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b564fd7..a808f61 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -735,7 +735,7 @@ class Bezier(object):
         p = self.controlPoints
         k = len(p)
         np = [p[0]]
-        for i in range(k):
+        for i in range(1, k):
             pix, piy = p[i]
             pimx, pimy = p[i - 1]
             x = ((k - i) / k) * pix + (i / k) * pimx
-- 
2.43.0


From a7170ed6e37f99bdfdf44bd79da92ae1b65d19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 09/33] fix: the point at offset distance zero is a point
 offset

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a808f61..179e734 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -751,7 +751,7 @@ class Bezier(object):
     def offset(self, t: float, d: float) -> list[Point]: ...
 
     def offset(self, t: float, d: typing.Optional[float] = None) -> typing.Union[list[Point], list[Bezier]]:
-        if d:
+        if d is not None:
             cx, cy = c = self.get(t)
             nx, ny = n = self.normal(t)
             px = cx + nx * d
-- 
2.43.0


From 21364d4cb2e53e39030d91e8ac7bd37adf33b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 10/33] fix: scaling by a constant keeps the tangents, scaling
 by a function uses it

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 179e734..135acda 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -796,7 +796,7 @@ class Bezier(object):
             py += (r2 if t > 0 else r1) * v[t][1][1]  # v[t].n.y
             np[t * order] = (px, py)
 
-        if isinstance(d, types.FunctionType):
+        if not isinstance(d, types.FunctionType):
             # move control points to lie on the intersection of the offset
             # derivative vector, and the origin-through-control vector
             for t in range(2):
-- 
2.43.0


From 0c0a3ecf8dc1d9876d9948b2fbd1144bfe69ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 11/33] fix: a path's look-up table is cached by the number of
 steps

---
 PathLib/Bezier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 135acda..09f2ce9 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -836,6 +836,7 @@ class BContour(object):
         self._beziers = beziers
         self._bounds = bounds
         self._lut: list[Point] = []
+        self._lutSteps = 0
         self._start = beziers[0].start
         self._end = beziers[-1].end
 
@@ -858,9 +859,11 @@ class BContour(object):
         return self._beziers.__iter__()
 
     def getLUT(self, steps: int = 100):
-        if len(self._lut) == steps: return self._lut
+        # The number of points in the table doesn't say how many steps it was made with.
+        if self._lutSteps == steps: return self._lut
 
         self._lut = []
+        self._lutSteps = steps
         startPoint = 0
         for curve in self._beziers:
             self._lut.extend(curve.getLUT(steps)[startPoint:])
-- 
2.43.0


From 369112fb3dc6129274f11a49cbf941fb792e3f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 12/33] fix: replacing or removing a curve of a path updates
 its bounds and samples

---
 PathLib/Bezier.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 09f2ce9..b087b44 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -843,17 +843,28 @@ class BContour(object):
     def __getitem__(self, index: int) -> Bezier:
         return self._beziers[index]
 
+    def _curvesChanged(self):
+        bounds = PathUtilities.BoundsRectangle()
+        for bezier in self._beziers:
+            bounds = bounds.union(bezier.boundsRectangle)
+
+        self._bounds = bounds
+        self._lut = []
+        self._lutSteps = 0
+
     def __setitem__(self, index: int, value: typing.Sequence[Point]):
         self._beziers[index] = Bezier(value)
         # self._length = None
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
+        self._curvesChanged()
 
     def __delitem__(self, index: int):
         del self._beziers[index]
         # self._length = None
         self._start = self._beziers[0].start
         self._end = self._beziers[-1].end
+        self._curvesChanged()
 
     def __iter__(self):
         return self._beziers.__iter__()
-- 
2.43.0


From 09324c3313b2335c52fa90ca39daf217d2bbbf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 13/33] fix: the closest point search refines around the sample
 it found

---
 PathLib/Bezier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index b087b44..f1c2213 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -953,7 +953,8 @@ class BContour(object):
             ix = i // s1 + 1
             curve = self.beziers[ix]
             if ix < nCurves - 1: curve2 = self.beziers[ix + 1]
-            i %= s1
+            # every curve but the first leaves out its first point
+            i = i % s1 + 1
 
         lut = curve.getLUT(steps)
         cip, closest = self._refineBinary(point, curve, lut, i)
-- 
2.43.0


From 62e5b7dd220a58dd0bc9b868c85f48f04e584079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 14/33] fix: the refined closest point is never further away
 than the sample it starts from

---
 PathLib/Bezier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index f1c2213..2f5e587 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -905,6 +905,8 @@ class BContour(object):
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
+        sx, sy = sample = lut[i]
+        sampleDist = math.hypot(sx - px, sy - py)
         q: Point = (0, 0)
 
         for _ in range(25):  # This is for safety; the loop should always break
@@ -937,6 +939,9 @@ class BContour(object):
             lut = new_lut
             tt = new_tt
 
+        # the refinement looks around the given sample, but never at it
+        if sampleDist <= closest: return (sample, sampleDist)
+
         return (q, closest)
 
     def findClosestPoint(self, point: Point, steps: int):
-- 
2.43.0


From ddec21469cb5b31756495082f83c8e7a1e59e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 15/33] fix: the closest sample is found at any distance

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 2f5e587..158aba4 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -887,7 +887,7 @@ class BContour(object):
     @classmethod
     def _findClosest(cls, point: Point, LUT: typing.Sequence[Point]) -> int:
         x, y = point
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         i = -1
 
         for index in range(len(LUT)):
-- 
2.43.0


From b0952116b757cdb8feefa56c2e813b99a3bbe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 16/33] fix: testing if a curve is simple does not fail on
 almost parallel normals

---
 PathLib/Bezier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 158aba4..67197ec 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -572,7 +572,9 @@ class Bezier(object):
         n1x, n1y = self.normal(0)
         n2x, n2y = self.normal(1)
         s = n1x * n2x + n1y * n2y
-        return abs(math.acos(s)) < math.pi / 3
+        # s is the cosine of the angle between the normals, which has to be
+        # less than 60 degrees. (rounding can put s outside of acos' domain)
+        return s > 0.5
 
     def reduce(self) -> list[Bezier]:
         pass1: list[Bezier] = []
-- 
2.43.0


From da7b6c769fddc6e4b93913d8c79f6aa410c27a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 17/33] fix: contours and paths can be drawn filled

---
 PathLib/ContourPlotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index ae6a3b1..446e606 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -74,7 +74,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawContours(self, contours, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
         elif color:
             self.pushStrokeAttributes(color=color)
             # self._strokeWidth = 2
@@ -136,7 +136,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def drawPaths(self, paths, color=None, fill=False, close=True):
         if fill:
-            self.pushFillAttributes(color=color, fill=fill)
+            self.pushFillAttributes(color=color)
             attributes = self._fillAttributes()
         else:
             if color:
-- 
2.43.0


From 453ef26c2b2b363a74fb1ede0f9e0a478d7cd312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 18/33] fix: the first command after a move is never
 abbreviated

---
 PathLib/ContourPlotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 446e606..4d2ad08 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -83,6 +83,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         commands = []
         for contour in contours:
                 firstPoint = contour[0][0]
+                self._lastCommand = ""
                 self.moveToXY(*firstPoint)
                 commands.append(f"M{self.pointToString(firstPoint)}")
 
@@ -149,6 +150,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
             pointToString = lambda p: self.pointToString(path.pointXY(p))
 
             firstPoint = path.start
+            self._lastCommand = ""
             self.moveToXY(*path.pointXY(firstPoint))
             commands.append(f"M{pointToString(firstPoint)}")
 
-- 
2.43.0


From aa7c2f65c2a48e2942ea48ed1209ffc5c327b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 19/33] fix: drawing filled circles restores the fill color

---
 PathLib/ContourPlotter.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 4d2ad08..25b40bb 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -236,7 +236,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -253,12 +253,16 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, x, y, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawComplexPointsAsCircles(self, points, radius, colors=None, fill=True):
         if colors:
             if fill:
-                self._fillColor = colors[0]
+                self.pushFillAttributes(color=colors[0])
             else:
                 self.pushStrokeAttributes(color=colors[0])
 
@@ -274,7 +278,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
                 if color: self.setStrokeColor(color)
             self.drawCircle(GlyphPlotterEngine.CoordinateSystem.content, point.real, point.imag, radius, paintMode)
 
-        if colors and not fill: self.popStrokeAtributes()
+        if colors:
+            if fill:
+                self.popFillAttributes()
+            else:
+                self.popStrokeAtributes()
 
     def drawCurve(self, segment, color=None):
         self.drawContours([[segment]], color=color, fill=False, close=False)
-- 
2.43.0


From a8cee421c8a9421a99cf66598de1bc908751a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 20/33] fix: drawing an arrow restores the stroke color and
 dash

---
 PathLib/ContourPlotter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 25b40bb..0a5c268 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -323,14 +323,11 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
         if lineColor: self.popStrokeAtributes()
 
     def drawArrowBetweenPoints(self, startPoint, endPoint, color=None, style="open60", position="end"):
-        if color:
-            self._strokeColor = color
-
-        self.setStrokeDash("2, 1")
+        self.pushStrokeAttributes(color=color, dash="2, 1")
         startX, startY = startPoint
         endX, endY = endPoint
         self.drawArrow(GlyphPlotterEngine.CoordinateSystem.content, startX, startY, endX, endY, style, position)
-        self.setStrokeDash(None)
+        self.popStrokeAtributes()
 
 # def test():
 #     import PathUtilities
-- 
2.43.0


From 9182da1f10770deb2a07d7abd99131c0115ee9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 21/33] fix: a requested opacity or stroke width of zero is
 applied

---
 PathLib/ContourPlotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PathLib/ContourPlotter.py b/PathLib/ContourPlotter.py
index 0a5c268..3f7a149 100644
--- a/PathLib/ContourPlotter.py
+++ b/PathLib/ContourPlotter.py
@@ -39,7 +39,7 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
     def pushFillAttributes(self, color=None, opacity=None):
         self._fillAttributeStack.append((self._fillColor, self._fillOpacity))
         if color: self.setFillColor(color)
-        if opacity: self.setFillOpacity(opacity)
+        if opacity is not None: self.setFillOpacity(opacity)
 
     def popFillAttributes(self):
         color, opacity = self._fillAttributeStack.pop()
@@ -48,9 +48,9 @@ class ContourPlotter(GlyphPlotterEngine.GlyphPlotterEngine):
 
     def pushStrokeAttributes(self, width=None, color=None, opacity=None, dash=None):
         self._strokeAttributeStack.append((self._strokeWidth, self._strokeColor, self._strokeOpacity, self._strokeDash))
-        if width: self.setStrokeWidth(width)
+        if width is not None: self.setStrokeWidth(width)
         if color: self.setStrokeColor(color)
-        if opacity: self.setStrokeOpacity(opacity)
+        if opacity is not None: self.setStrokeOpacity(opacity)
         if dash: self.setStrokeDash(dash)
 
     def popStrokeAtributes(self):
-- 
2.43.0


From 2fbfebc5918399dca2e1e6576a50a99d0fdd61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 22/33] fix: contours without on-curve points start at an
 implied point

---
 PathLib/SegmentPen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PathLib/SegmentPen.py b/PathLib/SegmentPen.py
index 88bad5d..ffd0a36 100644
--- a/PathLib/SegmentPen.py
+++ b/PathLib/SegmentPen.py
@@ -56,6 +56,15 @@ class SegmentPen:
         self._lastOnCurve = points[-1]
 
     def qCurveTo(self, *points: Point):
+        if points[-1] is None:
+            # there are no on-curve points: start at the implied
+            # point between the last and first off-curve points
+            p1x, p1y = points[-2]
+            p2x, p2y = points[0]
+            impliedPoint = (0.5 * (p1x + p2x), 0.5 * (p1y + p2y))
+            self.moveTo(impliedPoint)
+            points = (*points[:-1], impliedPoint)
+
         segment = [self._lastOnCurve]
         segment.extend(points)
 
-- 
2.43.0


From a372e167a81d0846e013c59ef53fb230c550ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 23/33] fix: intersections of segments are not lost to rounding

---
 PathLib/PathUtilities.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/PathLib/PathUtilities.py b/PathLib/PathUtilities.py
index b1b4b54..d711272 100644
--- a/PathLib/PathUtilities.py
+++ b/PathLib/PathUtilities.py
@@ -289,13 +289,18 @@ def intersectionPoint(l1: typing.Sequence[Point], l2: typing.Sequence[Point]) ->
 
     if intersection is None: return None
 
-    b1 = BoundsRectangle(*l1)
-    b2 = BoundsRectangle(*l2)
-
     # The point calculated above assumes that the two lines have
     # infinite length, so it may not be on both, or either line.
-    # Make sure it's within the bounds rectangle for both lines.
-    return intersection if b1.enclosesPoint(intersection) and b2.enclosesPoint(intersection) else None
+    # Make sure that the ends of each line are on different sides
+    # of the other. (Testing if the point is within the bounds of
+    # both lines fails if the point has been rounded.)
+    def crosses(line: typing.Sequence[Point], other: typing.Sequence[Point]) -> bool:
+        x1, y1 = line[0]
+        x2, y2 = line[1]
+        sides = [(x2 - x1) * (y - y1) - (y2 - y1) * (x - x1) for x, y in (other[0], other[1])]
+        return min(sides) <= 0 <= max(sides)
+
+    return intersection if crosses(l1, l2) and crosses(l2, l1) else None
 
 # The result of this function cannot be used to create an SVG path...
 def flatten(contours: list[Contour]) -> Contour:
-- 
2.43.0


From 48b9bb24cd728f39430792b5832bff6691947d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 24/33] fix: roots of almost linear derivatives are not lost to
 cancellation

---
 PathLib/BezierUtilities.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 331a1a4..9a373b3 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -154,11 +154,19 @@ def droots(p: list[float]) -> typing.Sequence[float]:
         d = a - 2 * b + c
 
         if d != 0:
-            m1 = - sqrt(b * b - a * c)
-            m2 = -a + b
-            v1 = -(m1 + m2) / d
-            v2 = -(-m1 + m2) / d
-            return [v1, v2]
+            # If d is tiny compared to the other terms, subtracting the square
+            # root from a number of the same size leaves nothing but rounding
+            # errors, so only add numbers of the same sign.
+            m1 = sqrt(b * b - a * c)
+            m2 = a - b
+            if m2 < 0:
+                q = m2 - m1
+                return [a / q, q / d]
+
+            q = m2 + m1
+            if q == 0: return [0.0, 0.0]
+
+            return [q / d, a / q]
 
         if b != c and d == 0:
             return [(2 * b - c) / (2 * (b - c))]
-- 
2.43.0


From 6ff98f9839312263726dff40cee971b1b5f3aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 25/33] fix: crossings of almost straight quadratic curves are
 not lost to cancellation

---
 PathLib/Bezier.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 67197ec..c26596c 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -476,17 +476,7 @@ class Bezier(object):
             a = p[0][1]
             b = p[1][1]
             c = p[2][1]
-            d = a - 2 * b + c
-            if d != 0:
-                m1 = -butils.sqrt(b * b - a * c)
-                m2 = -a + b
-                v1 = -(m1 + m2) / d
-                v2 = -(-m1 + m2) / d
-                return list(filter(reduce, [v1, v2]))
-            elif b != c and d == 0:
-                return list(filter(reduce, [(2 * b - c) / (2 * b - 2 * c)]))
-
-            return []
+            return list(filter(reduce, butils.droots([a, b, c])))
 
         # see http://www.trans4mind.com/personal_development/mathematics/polynomials/cubicAlgebra.htm
         pa = p[0][1]
-- 
2.43.0


From 6929d4d30007facba3d11e25272520c885445038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 26/33] fix: a single root of a cubic curve is not mistaken for
 a double root

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index c26596c..a25c5d5 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -530,7 +530,7 @@ class Bezier(object):
             x2 = t1 * math.cos((phi + butils.tau) / 3) - a / 3
             x3 = t1 * math.cos((phi + 2 * butils.tau) / 3) - a / 3
             return list(filter(reduce, [x1, x2, x3]))
-        elif butils.approximately(discriminant, 0):  # discriminant == 0:
+        elif butils.approximately(discriminant, 0, butils.epsilon * q2 * q2):  # discriminant == 0:
             u1 = butils.crt(-q2) if q2 < 0 else -butils.crt(q2)
             x1 = 2 * u1 - a / 3
             x2 = -u1 - a / 3
-- 
2.43.0


From 32d6ab1f44f25857e1cae175a65f1796a35e772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 27/33] fix: the closest point is refined at any distance

---
 PathLib/Bezier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index a25c5d5..1293fbd 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -893,7 +893,7 @@ class BContour(object):
 
     @classmethod
     def _refineBinary(cls, point: Point, curve: Bezier, lut: typing.Sequence[Point], i: int):
-        closest = MAX_SAFE_INTEGER
+        closest = math.inf
         steps = len(lut)
         tt = [t / (steps - 1) for t in range(steps)]
         px, py = point
-- 
2.43.0


From 529d0b3ab75e98236329d0163aaa88e95e47a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 28/33] fix: check the last piece of a reduction for simplicity
 too

---
 PathLib/Bezier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 1293fbd..413369b 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -591,11 +591,13 @@ class Bezier(object):
             t2 = 0
             while t2 <= 1:
                 t2 = t1 + step
-                while t2 <= 1:
+                # (rounding can take the last step just past 1)
+                while t2 < 1 + step / 2:
+                    t2 = min(t2, 1)
                     segment = p1.split(t1, t2)
                     if not segment.simple():
                         t2 -= step
-                        if abs(t1 - t2) < step:
+                        if abs(t1 - t2) < step / 2:
                             # we can never form a reduction
                             return []
                         segment = p1.split(t1, t2)
-- 
2.43.0


From c258e7aacd6f6daf4cb898b8eb2999ca086febf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 29/33] fix: reduce curves that turn sharply with shorter steps

---
 PathLib/Bezier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 413369b..dc46bdd 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -585,8 +585,8 @@ class Bezier(object):
             t1 = t2
 
         # second pass: further reduce these segments to simple segments
-        step = 0.01
         for p1 in pass1:
+            step = 0.01
             t1 = 0
             t2 = 0
             while t2 <= 1:
@@ -598,8 +598,11 @@ class Bezier(object):
                     if not segment.simple():
                         t2 -= step
                         if abs(t1 - t2) < step / 2:
+                            # the curve turns sharply here: take shorter steps
+                            step /= 2
                             # we can never form a reduction
-                            return []
+                            if step < 0.0001: return []
+                            break
                         segment = p1.split(t1, t2)
                         segment._t1 = butils.map(t1, 0, 1, p1._t1, p1._t2)
                         segment._t2 = butils.map(t2, 0, 1, p1._t1, p1._t2)
-- 
2.43.0


From 6ccf08cc0cd493529b5a6bb8eee565de631eadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 30/33] fix: split up to 0 gives the part, not the two pieces

An end parameter of zero was taken for a missing one.
---
 PathLib/Bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index dc46bdd..7e32f93 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -434,7 +434,7 @@ class Bezier(object):
 
     def split(self, t1: float, t2: typing.Optional[float] = None) -> typing.Union[Bezier, tuple[Bezier, Bezier, list[Point]]]:
         # shortcuts...
-        if t1 == 0 and t2: return self.split(t2)[0]
+        if t1 == 0 and t2 is not None: return self.split(t2)[0]
         if t2 == 1: return self.split(t1)[1]
 
         # no shortcut: use "de Casteljau" iteration.
@@ -456,7 +456,7 @@ class Bezier(object):
         right._t2 = butils.map(1, 0, 1, self._t1, self._t2)
 
         # if we have no t2, we're done
-        if not t2: return (left, right, q)
+        if t2 is None: return (left, right, q)
 
         t2 = butils.map(t2, t1, 1, 0, 1)
         return right.split(t2)[0]
-- 
2.43.0


From 17f573dd34ebf79d6cee181a6cde7f4e97939e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 31/33] fix: reduce, offset and intersect curves with a handle
 on its end point

The derivative vanishes there (as at both sides of a cusp), and finding
the normal divided by zero. The curve goes towards the next control
point.
---
 PathLib/Bezier.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 7e32f93..96c393a 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -550,6 +550,17 @@ class Bezier(object):
     def normal(self, t: float) -> tuple[float, float]:
         dx, dy = self._derivative(t)
         q = butils.sqrt(dx * dx + dy * dy)
+
+        if (t == 0 or t == 1) and q == 0:
+            # the handle is on the end point, so the curve
+            # leaves towards the next control point that isn't.
+            first, *others = self.controlPoints if t == 0 else self.controlPoints[::-1]
+            for point in others:
+                if point != first:
+                    dx, dy = PathUtilities.getDeltas([first, point] if t == 0 else [point, first])
+                    q = butils.sqrt(dx * dx + dy * dy)
+                    break
+
         return (-dy / q, dx / q)
 
 
@@ -799,8 +810,8 @@ class Bezier(object):
             for t in range(2):
                 if order == 2 and t > 0: break
                 px, py = p = np[t * order]
-                dx, dy = self._derivative(t)
-                p2 = (px + dx, py + dy)
+                nx, ny = v[t][1]  # the direction is at right angles to the normal
+                p2 = (px + ny, py - nx)
                 np[t + 1] = typing.cast(Point, butils.lli4(p, p2, o, self.controlPoints[t + 1]))
 
             return Bezier(np)
-- 
2.43.0


From cd31b8c46ed08f4de87edb52b44759402f1e37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 32/33] fix: find the roots of lines

roots() and lineIntersects() of a line raised an IndexError.
---
 PathLib/Bezier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PathLib/Bezier.py b/PathLib/Bezier.py
index 96c393a..7a38773 100644
--- a/PathLib/Bezier.py
+++ b/PathLib/Bezier.py
@@ -472,6 +472,9 @@ class Bezier(object):
             return 0 <= t <= 1 or butils.approximately(t, 0) or butils.approximately(t, 1)
 
         order = len(p) - 1
+        if order == 1:
+            return list(filter(reduce, butils.droots([p[0][1], p[1][1]])))
+
         if order == 2:
             a = p[0][1]
             b = p[1][1]
-- 
2.43.0


From 8db75fee2457d76ebeb94dd240744d2e2e197b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 33/33] fix: a handle on its end point is on no side of the
 chord

Depending on the signs of zeros its angle was a half turn to the left
or the right, and the curve did not count as simple.
---
 PathLib/BezierUtilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PathLib/BezierUtilities.py b/PathLib/BezierUtilities.py
index 9a373b3..3109e5d 100644
--- a/PathLib/BezierUtilities.py
+++ b/PathLib/BezierUtilities.py
@@ -227,7 +227,9 @@ def angle(o: Point, v1: Point, v2: Point) -> float:
     cross = dx1 * dy2 - dy1 * dx2
     dot = dx1 * dx2 + dy1 * dy2
 
-    return math.atan2(cross, dot)
+    # (adding zero makes negative zeros positive, which atan2()
+    # otherwise takes for a half turn)
+    return math.atan2(cross + 0.0, dot + 0.0)
 
 # def pairiteration(c1, c2, intersectionThreshold: float = 0.5):
 #     c1b = c1.boundsRectangle
-- 
2.43.0

