From 5421392b837941de9722e3e28bf581fd0c95792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 01/76] fix: Path(path), copy(path) and path operators lost or
 shared the segments

---
 svgio/path.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 078d4c4..6f55e0b 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -375,10 +375,10 @@ class PathSegment:
 
     def __iadd__(self, other):
         if isinstance(other, PathSegment):
-            path = Path(self, other)
+            path = Path(copy(self), copy(other))
             return path
         elif isinstance(other, str):
-            path = Path(self) + other
+            path = Path(copy(self)) + other
             return path
         return NotImplemented
 
@@ -1972,7 +1972,9 @@ class Path(MutableSequence):
         else:
             s = args[0]
             if isinstance(s, Subpath):
-                self._segments.extend(s.segments(transformed=False))
+                self._segments.extend(map(copy, s.segments(transformed=False)))
+            elif isinstance(s, Path):
+                self._segments.extend(map(copy, s._segments))
             elif isinstance(s, str):
                 self._segments = list()
                 self.parse(s)
@@ -1988,11 +1990,7 @@ class Path(MutableSequence):
                 self._segments.append(s)
 
     def __copy__(self):
-        path = Path(self)
-        segs = path._segments
-        for i in range(0, len(segs)):
-            segs[i] = copy(segs[i])
-        return path
+        return Path(self)
 
     def __getitem__(self, index):
         return self._segments[index]
@@ -2089,6 +2087,8 @@ class Path(MutableSequence):
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, Subpath, PathSegment)):
             n = copy(self)
             n += other
@@ -2102,7 +2102,7 @@ class Path(MutableSequence):
             return path
         elif isinstance(other, PathSegment):
             path = copy(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From 68fed404c759775f3661fef8a9b3d96e723bd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 02/76] fix: path d(), segments() and @ relied on a transform a
 geometric path does not have

---
 svgio/path.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6f55e0b..a58ee38 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2038,7 +2038,9 @@ class Path(MutableSequence):
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
-            self.transform *= other
+            self._length = None
+            for segment in self._segments:
+                segment *= other
         return self
 
     def __setitem__(self, index, new_element):
@@ -2752,14 +2754,9 @@ class Path(MutableSequence):
         return " ".join(parts)
 
     def d(self, relative=None, transformed=True, smooth=None):
-        path = self
-        if transformed:
-            path = abs(path)
-        return Path.svg_d(path._segments, relative=relative, smooth=smooth)
+        return Path.svg_d(self._segments, relative=relative, smooth=smooth)
 
     def segments(self, transformed=True):
-        if transformed and not self.transform.is_identity():
-            return [s * self.transform for s in self._segments]
         return self._segments
 
     def approximate_arcs_with_cubics(self, error=0.1):
@@ -2829,6 +2826,8 @@ class Subpath:
         return self
 
     def __add__(self, other):
+        if isinstance(other, PathSegment):
+            other = copy(other)
         if isinstance(other, (str, Path, PathSegment)):
             n = copy(self)
             n += other
@@ -2838,7 +2837,7 @@ class Subpath:
     def __radd__(self, other):
         if isinstance(other, str):
             path = Path(other)
-            path.extend(map(copy, self._path))
+            path.extend(map(copy, self))
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
@@ -2910,12 +2909,7 @@ class Subpath:
         return not self == other
 
     def segments(self, transformed=True):
-        path = self._path
-        if transformed:
-            return [
-                s * path.transform for s in path._segments[self._start : self._end + 1]
-            ]
-        return path._segments[self._start : self._end + 1]
+        return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
         if index < 0:
@@ -2953,7 +2947,7 @@ class Subpath:
 
     def d(self, relative=None, smooth=None):
         segments = self._path._segments[self._start : self._end + 1]
-        return Path.svg_d(segments, relative=relative, smooth=None)
+        return Path.svg_d(segments, relative=relative, smooth=smooth)
 
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
-- 
2.43.0


From d3e19b8d243c2e9779546ce4485c779e88f5b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 03/76] fix: reversing or transforming a path or subpath left
 the cached length stale

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index a58ee38..d1e2b2d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2671,6 +2671,7 @@ class Path(MutableSequence):
             p += subpath
         self._segments = p._segments
         self._segments[0].start = prepoint
+        self._length = None
         return self
 
     def subpath(self, index):
@@ -2850,6 +2851,7 @@ class Subpath:
         if isinstance(other, str):
             other = Matrix(other)
         if isinstance(other, Matrix):
+            self._path._length = None
             for e in self:
                 e *= other
         return self
@@ -2973,6 +2975,7 @@ class Subpath:
         size = len(self)
         if size == 0:
             return
+        self._path._length = None
         start = 0
         end = size - 1
         if isinstance(self[-1], Close):
-- 
2.43.0


From b409d39e238751ea6a8fef8e051a857fdec9d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 04/76] fix: insert, delete, assignment and extend could leave
 a path disconnected

---
 svgio/path.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index d1e2b2d..05dbc5e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2056,26 +2056,12 @@ class Path(MutableSequence):
         self._segments[index] = new_element
         self._length = None
         self._lengths = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            self._validate_connection(index)
-            if isinstance(new_element, Move):
-                self._validate_move(index)
-            if isinstance(new_element, Close):
-                self._validate_close(index)
+        self.validate_connections()
 
     def __delitem__(self, index):
-        original_element = self._segments[index]
         del self._segments[index]
         self._length = None
-        if isinstance(index, slice):
-            self.validate_connections()
-        else:
-            self._validate_connection(index - 1)
-            if isinstance(original_element, (Close, Move)):
-                self._validate_subpath(index)
+        self.validate_connections()
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2618,21 +2604,14 @@ class Path(MutableSequence):
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-        self._validate_connection(index - 1)
-        self._validate_connection(index)
-        if isinstance(value, Move):
-            self._validate_move(index)
-        if isinstance(value, Close):
-            self._validate_close(index)
+        self.validate_connections()
 
     def extend(self, iterable):
         if isinstance(iterable, str):
             iterable = Path(iterable)
         self._length = None
-        index = len(self._segments) - 1
         self._segments.extend(iterable)
-        self._validate_connection(index)
-        self._validate_subpath(index)
+        self.validate_connections()
 
     def direct_close(self):
         """Forces close operations to be zero length by introducing a direct
-- 
2.43.0


From 580fecc900e01a61f0b5de7e3f278f3ada55e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 05/76] fix: path data with missing h, v or arc arguments was
 not rejected with ValueError

---
 svgio/path.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 05dbc5e..31522ca 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -176,25 +176,35 @@ class PathLexicalParser:
             elif cmd == "h":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "H":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.horizontal(value, relative=False)
                     if not self._more():
                         break
             elif cmd == "v":
                 while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=True)
                     if not self._more():
                         break
             elif cmd == "V":
-                while self._more():
+                while True:
                     value = self._number()
+                    if value is None:
+                        raise ValueError
                     self.parser.vertical(value, relative=False)
+                    if not self._more():
+                        break
             elif cmd == "c":
                 while True:
                     coord1, coord2, coord3 = (
@@ -292,6 +302,8 @@ class PathLexicalParser:
                     if not self._more():
                         break
             elif cmd == "a":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
@@ -301,7 +313,7 @@ class PathLexicalParser:
                         self._flag(),
                         self._rcoord(),
                     )
-                    if sweep is None:
+                    if None in (rx, ry, rotation, arc, sweep):
                         raise ValueError
                     if coord is None:
                         coord = self.inline_close
@@ -309,6 +321,8 @@ class PathLexicalParser:
                             raise ValueError
                     self.parser.arc(rx, ry, rotation, arc, sweep, coord, relative=True)
             elif cmd == "A":
+                if not self._more():
+                    raise ValueError
                 while self._more():
                     rx, ry, rotation, arc, sweep, coord = (
                         self._number(),
@@ -318,6 +332,8 @@ class PathLexicalParser:
                         self._flag(),
                         self._coord(),
                     )
+                    if None in (rx, ry, rotation, arc, sweep):
+                        raise ValueError
                     if coord is None:
                         coord = self.inline_close
                         if coord is None:
-- 
2.43.0


From cc2bc04378545233ee8ddeaa1f76c8a68cf19bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 06/76] fix: smooth curves only reflect the control point of
 the same kind of curve

---
 svgio/path.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 31522ca..4c2b344 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2436,6 +2436,13 @@ class Path(MutableSequence):
             return previous_control.reflected_across(start_pos)
         return start_pos
 
+    def _smooth_control(self, curve):
+        """The first control point of a smooth curve: the previous control point is only reflected if the
+        previous segment is the same kind of curve, otherwise it is coincident with the current point."""
+        if len(self._segments) != 0 and isinstance(self._segments[-1], curve):
+            return self.smooth_point
+        return self.current_point
+
     def start(self):
         pass
 
@@ -2500,7 +2507,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(QuadraticBezier)
         end_pos = points[0]
         if end_pos in ("z", "Z"):
             end_pos = self.z_point
@@ -2534,7 +2541,7 @@ class Path(MutableSequence):
         the second control point in the previous path."""
         relative = kwargs["relative"] if "relative" in kwargs else False
         start_pos = self.current_point
-        control1 = self.smooth_point
+        control1 = self._smooth_control(CubicBezier)
         control2 = points[0]
 
         if control2 in ("z", "Z"):
-- 
2.43.0


From 8137e1aaa52078a23457e3b63cadffa875be1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 07/76] fix: path builder commands dropped relative for
 additional points

---
 svgio/path.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4c2b344..4b6756d 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2472,7 +2472,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(points) > 1:
-            self.line(*points[1:])
+            self.line(*points[1:], relative=relative)
         return self
 
     def vertical(self, *y_points, **kwargs):
@@ -2516,7 +2516,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 1:
-            self.smooth_quad(*points[1:])
+            self.smooth_quad(*points[1:], relative=relative)
         return self
 
     def quad(self, *points, **kwargs):
@@ -2533,7 +2533,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 2:
-            self.quad(*points[2:])
+            self.quad(*points[2:], relative=relative)
         return self
 
     def smooth_cubic(self, *points, **kwargs):
@@ -2554,7 +2554,7 @@ class Path(MutableSequence):
         segment.smooth = True
         self.append(segment)
         if len(points) > 2:
-            self.smooth_cubic(*points[2:])
+            self.smooth_cubic(*points[2:], relative=relative)
         return self
 
     def cubic(self, *points, **kwargs):
@@ -2574,7 +2574,7 @@ class Path(MutableSequence):
         segment.smooth = False
         self.append(segment)
         if len(points) > 3:
-            self.cubic(*points[3:])
+            self.cubic(*points[3:], relative=relative)
         return self
 
     def arc(self, *arc_args, **kwargs):
@@ -2592,7 +2592,7 @@ class Path(MutableSequence):
         segment.relative = relative
         self.append(segment)
         if len(arc_args) > 6:
-            self.arc(*arc_args[6:])
+            self.arc(*arc_args[6:], relative=relative)
         return self
 
     def closed(self, relative=False):
-- 
2.43.0


From e129dd6191d551c4950889c3663b8351c30eaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 08/76] fix: subpath indexes and slices could reach segments
 outside the subpath

---
 svgio/path.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 4b6756d..9a0283c 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2809,11 +2809,14 @@ class Subpath:
         return self._path[self.index_to_path_index(index)]
 
     def __setitem__(self, index, value):
+        size = len(self._path)
         self._path[self.index_to_path_index(index)] = value
+        self._end += len(self._path) - size
 
     def __delitem__(self, index):
+        size = len(self._path)
         del self._path[self.index_to_path_index(index)]
-        self._end -= 1
+        self._end -= size - len(self._path)
 
     def __iadd__(self, other):
         if isinstance(other, str):
@@ -2916,6 +2919,9 @@ class Subpath:
         return self._path._segments[self._start : self._end + 1]
 
     def _numeric_index(self, index):
+        size = len(self)
+        if not -size <= index < size:
+            raise IndexError("subpath index out of range")
         if index < 0:
             return self._end + index + 1
         else:
@@ -2923,15 +2929,11 @@ class Subpath:
 
     def index_to_path_index(self, index):
         if isinstance(index, slice):
-            start = index.start
-            stop = index.stop
-            step = index.step
-            if start is None:
-                start = 0
-            start = self._numeric_index(start)
-            if stop is None:
-                stop = len(self)
-            stop = self._numeric_index(stop)
+            start, stop, step = index.indices(len(self))
+            start += self._start
+            stop += self._start
+            if stop < 0:
+                stop = None  # Reversed slice from the first segment of the path.
             return slice(start, stop, step)
         return self._numeric_index(index)
 
@@ -2956,8 +2958,8 @@ class Subpath:
     def _reverse_segments(self, start, end):
         """Reverses segments between the given indexes in the subpath space."""
         segments = self._path._segments  # must avoid path validation.
-        s = self.index_to_path_index(start)
-        e = self.index_to_path_index(end)
+        s = self._start + start
+        e = self._start + end
         while s <= e:
             start_segment = segments[s]
             end_segment = segments[e]
@@ -2968,8 +2970,8 @@ class Subpath:
                 segments[e] = start_segment
             s += 1
             e -= 1
-        start = self.index_to_path_index(start)
-        end = self.index_to_path_index(end)
+        start = self._start + start
+        end = self._start + end
         self._path._validate_connection(start - 1, prefer_second=True)
         self._path._validate_connection(end)
 
-- 
2.43.0


From 70295666dc2a22a03524b89e6db2f98c9c082aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 09/76] fix: subpath bbox included the point the subpath moved
 away from

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9a0283c..c21a96a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2940,7 +2940,7 @@ class Subpath:
     def bbox(self):
         """returns a bounding box for the input Path"""
         segments = self._path._segments[self._start : self._end + 1]
-        bbs = [seg.bbox() for seg in segments if not isinstance(Close, Move)]
+        bbs = [seg.bbox() for seg in segments if not isinstance(seg, Move)]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
         except ValueError:
-- 
2.43.0


From 7bc4111dc4d98e7d18d864f98e76539e79d83a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 10/76] fix: npoint misplaced positions past a segment without
 any position

---
 svgio/path.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c21a96a..ef72e65 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2174,11 +2174,11 @@ class Path(MutableSequence):
         # Shortcuts
         if self._length is None:
             self._calc_lengths(error=error, segments=segments)
+        positions = np.asarray(positions, dtype=float)
         xy = np.empty((len(positions), 2), dtype=float)
         if self._length == 0:
-            i = int(round(positions * (len(segments) - 1)))
-            point = segments[i].point(0.0)
-            xy[:] = point
+            for i, position in enumerate(positions):
+                xy[i] = list(self.point(position, error=error))
             return xy
 
         # Find which segment the point we search for is located on:
@@ -2188,6 +2188,7 @@ class Path(MutableSequence):
             position_subset = (segment_start <= positions) & (positions < segment_end)
             v0 = positions[position_subset]
             if not len(v0):
+                segment_start = segment_end
                 continue  # Nothing matched.
             d = segment_end - segment_start
             if d == 0:  # This segment is 0 length.
-- 
2.43.0


From ebba74895788ec849d2bcd835538c889b189d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 11/76] fix: Move with one point and keywords lost the point

---
 svgio/path.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ef72e65..df7c4e3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -555,15 +555,13 @@ class Move(PathSegment):
             if "start" in kwargs:
                 self.start = kwargs["start"]
         elif len(args) == 1:
-            if len(kwargs) == 0:
-                self.end = args[0]
+            if "end" in kwargs:
+                self.start = args[0]
+                self.end = kwargs["end"]
             else:
-                if "end" in kwargs:
-                    self.start = args[0]
-                    self.end = kwargs["end"]
-                elif "start" in kwargs:
+                if "start" in kwargs:
                     self.start = kwargs["start"]
-                    self.end = args[0]
+                self.end = args[0]
         elif len(args) == 2:
             self.start = args[0]
             self.end = args[1]
-- 
2.43.0


From b8097a5769970b583e8e6dba867793ecb1df1add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 12/76] fix: cubic bezier bbox missed the extremum of
 degenerate cubics

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index df7c4e3..8e781c3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1075,7 +1075,12 @@ class CubicBezier(Curve):
                 if 0 < r2 < 1:
                     local_extremizers.append(r2)
         else:
-            local_extremizers.append(0.5)
+            # The derivative is at most linear, with a single root.
+            denom = 2 * (a[0] - 2 * a[1] + a[2])
+            if denom != 0:
+                t = (a[0] - a[1]) / denom
+                if 0 < t < 1:
+                    local_extremizers.append(t)
         local_extrema = [self.point(t)[v] for t in local_extremizers]
         return min(local_extrema), max(local_extrema)
 
-- 
2.43.0


From 4ec452dd94fc54d5659590ab9aa20e23b823bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 13/76] fix: arcs were not transformed correctly by skewing and
 axis swapping matrices

---
 svgio/path.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8e781c3..9b3b449 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1448,10 +1448,17 @@ class Arc(Curve):
                 self.prx *= other
             if self.pry is not None:
                 self.pry *= other
-            if other.value_scale_x() < 0:
-                self.sweep = -self.sweep
-            if other.value_scale_y() < 0:
+            if other.a * other.d - other.b * other.c < 0:
                 self.sweep = -self.sweep
+            if self.prx is not None and self.pry is not None:
+                # Non-conformal transforms map the radii to conjugate radii, restore the axes of the ellipse.
+                u = self.prx - self.center
+                v = self.pry - self.center
+                uv = u.x * v.x + u.y * v.y
+                if abs(uv) > 1e-12 * (abs(u) ** 2 + abs(v) ** 2):
+                    t = atan2(2 * uv, abs(u) ** 2 - abs(v) ** 2) / 2.0
+                    self.prx = self.center + u * cos(t) + v * sin(t)
+                    self.pry = self.center - u * sin(t) + v * cos(t)
         return self
 
     def __len__(self):
-- 
2.43.0


From b7c8de8a6fec1e12cd5b7507a10d6b3ca6742cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 14/76] fix: arcs with a zero radius are straight lines

---
 svgio/path.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 9b3b449..8c3aad7 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1497,9 +1497,9 @@ class Arc(Curve):
 
             return self._points_numpy(np.array(positions))
         except ImportError:
-            if self.start == self.end and self.sweep == 0:
-                # This is equivalent of omitting the segment
-                return [self.start] * len(positions)
+            if self.sweep == 0:
+                # Out of range radii are a straight line, the same start and end is the omitted segment.
+                return [Point.towards(self.start, self.end, pos) for pos in positions]
 
             start_t = self.get_start_t()
             return [
@@ -1521,8 +1521,10 @@ class Arc(Curve):
 
         xy = np.empty((len(positions), 2), dtype=float)
 
-        if self.start == self.end and self.sweep == 0:
-            xy[:, 0], xy[:, 1] = self.start
+        if self.sweep == 0:
+            # Out of range radii are a straight line, the same start and end is the omitted segment.
+            xy[:, 0] = self.start.x + (self.end.x - self.start.x) * positions
+            xy[:, 1] = self.start.y + (self.end.y - self.start.y) * positions
         else:
             t = self.get_start_t() + self.sweep * positions
 
@@ -1580,10 +1582,8 @@ class Arc(Curve):
         approximation, as for cubic bezier curves.
         """
         if self.sweep == 0:
-            return 0
-        if self.start == self.end and self.sweep == 0:
-            # This is equivalent of omitting the segment
-            return 0
+            # Out of range radii are a straight line, the same start and end is the omitted segment.
+            return Point.distance(self.start, self.end)
         a = self.rx
         b = self.ry
         d = abs(a - b)
@@ -1917,7 +1917,12 @@ class Arc(Curve):
         Code from: https://github.com/mathandy/svgpathtools
         """
         if self.sweep == 0:
-            return self.start.x, self.start.y, self.end.x, self.end.y
+            return (
+                min(self.start.x, self.end.x),
+                min(self.start.y, self.end.y),
+                max(self.start.x, self.end.x),
+                max(self.start.y, self.end.y),
+            )
         phi = self.get_rotation().as_radians
         if cos(phi) == 0:
             atan_x = tau / 4.0
-- 
2.43.0


From b456821e19d534638cd58f25aec8653bf313d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 15/76] fix: large coordinates were written with lost exponent
 digits

---
 svgio/basic.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 11887ce..147996b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1524,14 +1524,11 @@ class Point:
 
     def __str__(self):
         try:
+            # The G format has no insignificant trailing zeros.
             x_str = "%.12G" % self.x
         except TypeError:
             return self.__repr__()
-        if "." in x_str:
-            x_str = x_str.rstrip("0").rstrip(".")
         y_str = "%.12G" % self.y
-        if "." in y_str:
-            y_str = y_str.rstrip("0").rstrip(".")
         return "%s,%s" % (x_str, y_str)
 
     def __imul__(self, other):
-- 
2.43.0


From e66db389977d14a2fc6bf34b3c3c5eb1e8ad6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 16/76] fix: the keyword aliceblue was looked up as another
 color

---
 svgio/basic.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 147996b..dc72a0a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -684,8 +684,6 @@ class Color(object):
             v = v.replace(" ", "").lower()
         if v == "transparent":
             return Color.rgb_to_int(0, 0, 0, 0.0)
-        if v == "aliceblue":
-            return Color.rgb_to_int(250, 248, 255)
         if v == "aliceblue":
             return Color.rgb_to_int(240, 248, 255)
         if v == "antiquewhite":
-- 
2.43.0


From 2540aaa2d1ba44fa7e242a2283817b0a480044e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 17/76] fix: setting hue, saturation or lightness used degrees
 as turns and dropped alpha

---
 svgio/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index dc72a0a..54b0099 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1415,7 +1415,10 @@ class Color(object):
         h = value[0]
         s = value[1]
         l = value[2]
-        self.value = Color.hsl_to_int(h, s, l, 1.0)
+        opacity = self.opacity
+        if opacity is None:
+            opacity = 1.0
+        self.value = Color.hsl_to_int(Angle.degrees(h).as_turns, s, l, opacity)
 
     def distance_to(self, other):
         return Color.distance(self, other)
-- 
2.43.0


From 76b6446f103ca864f66788e96eef6dbe16920747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 18/76] fix: hsl hues outside of one turn were not wrapped

---
 svgio/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 54b0099..0664380 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -640,6 +640,7 @@ class Color(object):
                 return v1 + (v2 - v1) * ((2.0 / 3.0) - vh) * 6.0
             return v1
 
+        h %= 1.0
         if s == 0.0:
             r = 255.0 * l
             g = 255.0 * l
-- 
2.43.0


From 023d6f812bff2f86bc7e3974943e820ecacc4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 19/76] fix: Color.over and blend failed for string colors

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0664380..b157c3b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1328,11 +1328,11 @@ class Color(object):
         Returns c1 over c2. This is the standard painter algorithm.
         """
         if isinstance(c1, str):
-            c1 = Color.parse(c1)
+            c1 = Color(c1)
         elif isinstance(c1, int):
             c1 = Color(c1)
         if isinstance(c2, str):
-            c2 = Color.parse(c2)
+            c2 = Color(c2)
         elif isinstance(c2, int):
             c2 = Color(c2)
         r1 = c1.red
-- 
2.43.0


From 13f70fc54529b01dab0dfdb5232bf39ff610003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 20/76] fix: color distance shifted the whole sum by 8 bits

---
 svgio/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index b157c3b..3158b6b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1391,9 +1391,11 @@ class Color(object):
         r = c1.red - c2.red
         g = c1.green - c2.green
         b = c1.blue - c2.blue
-        return (((512 + red_mean) * r * r) >> 8) + 4 * g * g + (
-            (767 - red_mean) * b * b
-        ) >> 8
+        return (
+            (((512 + red_mean) * r * r) >> 8)
+            + 4 * g * g
+            + (((767 - red_mean) * b * b) >> 8)
+        )
 
     @staticmethod
     def crimp(v):
-- 
2.43.0


From 327d9a4aa017aceef42c81f0af38151f94b88b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 21/76] fix: angle inequality disagreed with equality, equality
 failed around a full turn

---
 svgio/basic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3158b6b..9e99aae 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1841,8 +1841,11 @@ class Angle(float):
 
     def __eq__(self, other):
         # Python 2
-        c1 = abs((self % tau) - (other % tau)) <= 1e-11
-        return c1
+        c1 = abs((self % tau) - (other % tau))
+        return c1 <= 1e-11 or tau - c1 <= 1e-11
+
+    def __ne__(self, other):
+        return not self == other
 
     def normalized(self):
         return Angle(self % tau)
-- 
2.43.0


From fec5e750318f0c98a3ed3c2c6b1e3d4dfdd9f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 22/76] fix: length equality compared a length with itself

---
 svgio/basic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 9e99aae..3496d95 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -309,13 +309,13 @@ class Length(object):
         if self.amount == other.amount and self.units == other.units:
             return True
         if s is not None:
-            o = self.in_pixels()
-            if abs(s - o) <= ERROR:
+            o = other.in_pixels()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         s = self.in_inches()
         if s is not None:
-            o = self.in_inches()
-            if abs(s - o) <= ERROR:
+            o = other.in_inches()
+            if o is not None and abs(s - o) <= ERROR:
                 return True
         return False
 
@@ -327,9 +327,9 @@ class Length(object):
         if self.units == "px" or self.units == "":
             return self.amount
         if self.units == "pt":
-            return self.amount / 1.3333
+            return self.amount * 1.3333
         if self.units == "pc":
-            return self.amount / 16.0
+            return self.amount * 16.0
         return None
 
     def in_inches(self):
-- 
2.43.0


From 960fb26306b862e6978a83ebfa6fb58249d6df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 23/76] fix: vmin and vmax lengths ignored the viewbox width

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 3496d95..846468b 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -463,13 +463,13 @@ class Length(object):
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = min(v.height, v.height)
+            m = min(v.width, v.height)
             return self.amount * m / 100.0
         if self.units == "vmax":
             if viewbox is None:
                 return self
             v = Viewbox(viewbox)
-            m = max(v.height, v.height)
+            m = max(v.width, v.height)
             return self.amount * m / 100.0
         try:
             return float(self)
-- 
2.43.0


From 01fb634cd74930f5f0053148f6b6e735760325f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 24/76] fix: convex hull could loop or include non-extreme
 points with collinear input

---
 svgio/basic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 846468b..0d3a47a 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1789,16 +1789,20 @@ class Point:
     def convex_hull(pts):
         if len(pts) == 0:
             return
-        points = sorted(set(pts), key=lambda p: p[0])
+        points = sorted(set(pts), key=lambda p: (p[0], p[1]))
         first_point_on_hull = points[0]
         point_on_hull = first_point_on_hull
         while True:
             yield point_on_hull
             endpoint = point_on_hull
             for t in points:
+                o = Point.orientation(point_on_hull, t, endpoint)
                 if (
                     point_on_hull is endpoint
-                    or Point.orientation(point_on_hull, t, endpoint) == 2
+                    or o == 2
+                    or o == 0
+                    and Point.distance(point_on_hull, t)
+                    > Point.distance(point_on_hull, endpoint)
                 ):
                     endpoint = t
             point_on_hull = endpoint
-- 
2.43.0


From c784e0124c0f4b4860bd43b88a99289e3e2c03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 25/76] fix: distinct colors repeated after inexact cube roots

---
 svgio/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 0d3a47a..4216692 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1057,7 +1057,9 @@ class Color(object):
         """
 
         def _pattern(pattern: int):
-            n = int(pattern ** (1.0 / 3.0))
+            n = int(round(pattern ** (1.0 / 3.0)))
+            if n * n * n > pattern:
+                n -= 1
             pattern -= n * n * n
             p = [n] * 3
             if pattern == 0:
-- 
2.43.0


From 07d8e9f395b48d219f1b609d1ef70ff59fef0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 26/76] fix: stroke of an element with stroke-opacity recursed
 forever

---
 svgio/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index deee891..50311c5 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -535,11 +535,11 @@ class GraphicalElement:
         stroke_opacity = values.get(SVG_ATTR_STROKE_OPACITY)
         if (
             stroke_opacity is not None
-            and self.stroke is not None
-            and self.stroke.value is not None
+            and stroke is not None
+            and stroke.value is not None
         ):
             try:
-                self.stroke.opacity = float(stroke_opacity)
+                stroke.opacity = float(stroke_opacity)
             except ValueError:
                 pass
         return stroke
-- 
2.43.0


From ef4ce0c2811907609ce9414200705aff9afd151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 27/76] fix: defs, symbol, marker, switch, style, metadata,
 gradients, masks and images could not be parsed

---
 svgio/nodes.py | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 50311c5..5950e21 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1391,7 +1391,7 @@ class ClipPath(Element):
         return self.__class__.__name__
 
 
-class Mask(ContainerElement):
+class Mask(ContainerElement, Element):
     # maskContentUnits
     # maskUnits
 
@@ -1639,7 +1639,8 @@ class Image(Element, GraphicalElement, Transformable):
     which are quite useful and would be ideal for reading the linked or contained data.
     """
 
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
         self.image = None
         self.image_width = None
         self.image_height = None
@@ -1802,9 +1803,6 @@ class Title(DescriptiveElement, Element):
 
 
 class Metadata(DescriptiveElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1860,25 +1858,16 @@ class SVG(Group, ContainerElement, StructuralElement):
 
 
 class Defs(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Symbol(ContainerElement, StructuralElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Marker(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1909,17 +1898,11 @@ class Use(StructuralElement, Element):
 
 
 class Switch(ContainerElement, Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class Style(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
@@ -1951,17 +1934,11 @@ class Hyperlink(ContainerElement, Element):
 
 
 class LinearGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
-    def __init__(self, document, parent, attributes):
-        Element.__init__(self, document, parent, attributes)
-
     def _name(self):
         return self.__class__.__name__
 
-- 
2.43.0


From be01191396089c93ac0cf91c9a50cd33da6f380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 28/76] fix: sibling navigation found equal nodes instead of
 the node itself

---
 svgio/nodes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5950e21..9b1c779 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -165,11 +165,21 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._sibling_index()
             return self.parent[index + 1]
         except (AttributeError, IndexError):
             return None
 
+    def _sibling_index(self):
+        """
+        Position of this very node in the list of its parent. Nodes are lists, so list.index() would find any sibling
+        with equal children.
+        """
+        for index, sibling in enumerate(self.parent or ()):
+            if sibling is self:
+                return index
+        raise IndexError("Node is not a child of its parent.")
+
     @property
     def node_type(self):
         """
@@ -209,7 +219,7 @@ class Node(list):
         :return:
         """
         try:
-            index = self.parent.index(self)
+            index = self._sibling_index()
             if index == 0:
                 return None
             return self.parent[index - 1]
@@ -376,7 +386,7 @@ class Element(Node):
 
     @property
     def previous_element_sibling(self):
-        return self.next_sibling
+        return self.previous_sibling
 
     @property
     def shadow_root(self):
-- 
2.43.0


From 2e106b5d6540449c0a2be9e4c729013f48d350b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 29/76] fix: is_equal_node ignored tag and attributes

---
 svgio/nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 9b1c779..5b65cdd 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -282,7 +282,13 @@ class Node(list):
         and so on. The specific set of data points that must match varies depending on the types of the nodes.
         :return:
         """
-        return self == node
+        return (
+            isinstance(node, Node)
+            and self.tag() == node.tag()
+            and self.attributes == node.attributes
+            and len(self) == len(node)
+            and all(a.is_equal_node(b) for a, b in zip(self, node))
+        )
 
     def is_same_node(self, node):
         """
-- 
2.43.0


From 73a40d386d4f87009ed3b385dabea3b40c287602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 30/76] fix: built elements were not returned nor found by id

---
 svgio/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5b65cdd..c3e9809 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -410,6 +410,10 @@ class ElementBuilder:
         node.document = self.document
         node.parent = self.parent
         self.parent.append(node)
+        node_id = node.attributes.get(SVG_ATTR_ID)
+        if node_id is not None and self.document is not None:
+            self.document.objects[node_id] = node
+        return node
 
 
 class Document(Node):
-- 
2.43.0


From be743739ca671a43eae675c82029414ac11bd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 31/76] fix: elements were saved under other names than SVG
 gives them

---
 svgio/nodes.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c3e9809..7d61646 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -46,6 +46,7 @@ class Node(list):
         self.parent = None
         self.attributes = dict()
         self.attributes.update(kwargs)
+        self._tag = None  # Name of an element without its own class.
 
     def __str__(self):
         return self.xml()
@@ -66,7 +67,7 @@ class Node(list):
             return object.__getattribute__(self, name)
 
     def tag(self):
-        return self._name().lower()
+        return self._tag or self._name().lower()
 
     def xml(self, context=None):
         from xml.etree.cElementTree import Element, SubElement, tostring
@@ -109,6 +110,7 @@ class Node(list):
                     node = type_node()
                 except KeyError:
                     node = Node()
+                    node._tag = tag
                 node.attributes = attributes
                 node.parent = parent
                 node.document = document
@@ -1405,7 +1407,7 @@ class ClipPath(Element):
         return values.get(SVG_ATTR_CLIP_UNIT_TYPE, SVG_UNIT_TYPE_USERSPACEONUSE)
 
     def tag(self):
-        return "clip-path"
+        return "clipPath"
 
     def _name(self):
         return self.__class__.__name__
@@ -1949,16 +1951,25 @@ class Hyperlink(ContainerElement, Element):
         elif SVG_HREF in values:
             return values[SVG_HREF]
 
+    def tag(self):
+        return "a"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class LinearGradient(Element):
+    def tag(self):
+        return "linearGradient"
+
     def _name(self):
         return self.__class__.__name__
 
 
 class RadialGradient(Element):
+    def tag(self):
+        return "radialGradient"
+
     def _name(self):
         return self.__class__.__name__
 
@@ -2326,8 +2337,12 @@ BOOTSTRAP = {
     "desc": Desc,
     "metadata": Metadata,
     "clip-path": ClipPath,
+    "clipPath": ClipPath,
     "mask": Mask,
+    "switch": Switch,
     "lineargradient": LinearGradient,
+    "linearGradient": LinearGradient,
     "radialgradient": RadialGradient,
+    "radialGradient": RadialGradient,
     "pattern": Pattern,
 }
-- 
2.43.0


From 772ea77bf0e4c0222000216e662b838772b7d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 32/76] fix: Document.write wrote the repr instead of the xml

---
 svgio/nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7d61646..7bb4ff7 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -476,7 +476,8 @@ class Document(Node):
 
     def write(self, filename):
         with io.open(filename, mode="w") as output:
-            output.write(str(self))
+            for node in self:
+                output.write(node.xml())
 
     def render(self):
         pass
-- 
2.43.0


From 8770ebbe228ae63485411b7129a80cb452dc90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 33/76] fix: Text could not be printed or saved

---
 svgio/nodes.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 7bb4ff7..16a725f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1550,24 +1550,6 @@ class Text(TextContentElement, Element, GraphicalElement, Transformable):
     #
     #     self.path = None
 
-    def __str__(self):
-        parts = list()
-        parts.append("'%s'" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
-    def __repr__(self):
-        parts = list()
-        parts.append("%s" % self.text)
-        parts.append("font_family=%s" % self.font_family)
-        parts.append("anchor=%s" % self.anchor)
-        parts.append("font_size=%d" % self.font_size)
-        parts.append("font_weight=%s" % str(self.font_weight))
-        return "Text(%s)" % (", ".join(parts))
-
     @property
     def x(self):
         values = Document.get_values(self)
-- 
2.43.0


From 371dc9a44993148888cb10ceea80a78c5c9d083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 34/76] fix: documents were written in the locale encoding but
 read as utf-8

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 16a725f..fcd0abe 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -475,7 +475,7 @@ class Document(Node):
         self.parse(filename)
 
     def write(self, filename):
-        with io.open(filename, mode="w") as output:
+        with io.open(filename, mode="w", encoding="utf-8") as output:
             for node in self:
                 output.write(node.xml())
 
-- 
2.43.0


From 1d16eab74d4f2189bebf21aa12f6675340ce15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 35/76] fix: the positional center of a circle was stored as x
 and y

---
 svgio/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index fcd0abe..516570b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1104,8 +1104,8 @@ class Circle(_RoundShape):
 
     def __init__(self, *args, **kwargs):
         try:
-            kwargs[SVG_ATTR_X] = args[0]
-            kwargs[SVG_ATTR_Y] = args[1]
+            kwargs[SVG_ATTR_CENTER_X] = args[0]
+            kwargs[SVG_ATTR_CENTER_Y] = args[1]
             kwargs[SVG_ATTR_RADIUS] = args[2]
         except IndexError:
             pass
-- 
2.43.0


From 4e8eace6c49cedc5c35995bca744349f0a983c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 36/76] fix: a closepath went astray when the moveto's end was
 missing or filled later

---
 svgio/path.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 8c3aad7..a939326 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2293,11 +2293,11 @@ class Path(MutableSequence):
         for i in range(index, -1, -1):
             segment = self._segments[i]
             if isinstance(segment, Move):
-                self._segments[index].end = Point(segment.end)
+                if segment.end is not None:
+                    self._segments[index].end = Point(segment.end)
                 return
-        self._segments[index].end = (
-            Point(self._segments[0].end) if self._segments[0].end is not None else None
-        )
+        if self._segments[0].end is not None:
+            self._segments[index].end = Point(self._segments[0].end)
         # If move is never found, just the end point of the first element. Unless that's not a thing.
 
     def _validate_connection(self, index, prefer_second=False):
@@ -2338,11 +2338,11 @@ class Path(MutableSequence):
         the end position of the first element in the list. The start element of the first segment may or may not be
         None.
         """
-        zpoint = None
+        z_segment = None
         last_segment = None
         for segment in self._segments:
-            if zpoint is None or isinstance(segment, Move):
-                zpoint = segment.end
+            if z_segment is None or isinstance(segment, Move):
+                z_segment = segment
             if last_segment is not None:
                 if segment.start is None and last_segment.end is not None:
                     segment.start = Point(last_segment.end)
@@ -2352,10 +2352,10 @@ class Path(MutableSequence):
                     segment.start = Point(last_segment.end)
             if (
                 isinstance(segment, Close)
-                and zpoint is not None
-                and segment.end != zpoint
+                and z_segment.end is not None
+                and segment.end != z_segment.end
             ):
-                segment.end = Point(zpoint)
+                segment.end = Point(z_segment.end)
             last_segment = segment
 
     def _is_valid(self):
-- 
2.43.0


From ce1670f3938a19511a9d28e05433224d45155e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:02 +0000
Subject: [PATCH 37/76] fix: reversing or transforming a subpath disconnected
 the next subpath

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index a939326..c6ca0a0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2875,6 +2875,7 @@ class Subpath:
             self._path._length = None
             for e in self:
                 e *= other
+            self._path.validate_connections()
         return self
 
     def __mul__(self, other):
@@ -3015,4 +3016,5 @@ class Subpath:
                 last.start = Point(self[-2].end)
             if last.end != self[0].end:
                 last.end = Point(self[0].end)
+        self._path._validate_connection(self._end)
         return self
-- 
2.43.0


From ef55c9376c9ef4a86095fcbecb589b4f94f1149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 38/76] fix: reversed subpath slices starting before the first
 segment addressed the end of the path

---
 svgio/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index c6ca0a0..b046217 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2949,8 +2949,10 @@ class Subpath:
             start, stop, step = index.indices(len(self))
             start += self._start
             stop += self._start
-            if stop < 0:
-                stop = None  # Reversed slice from the first segment of the path.
+            if start < 0:
+                start = stop = 0  # Reversed slice from before the first segment of the path.
+            elif stop < 0:
+                stop = None  # Reversed slice to the first segment of the path.
             return slice(start, stop, step)
         return self._numeric_index(index)
 
-- 
2.43.0


From 0b9cf9c789c21224ae5997c798b6da748c391f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:55 +0000
Subject: [PATCH 39/76] fix: an arc given by end, center and sweep kept no
 start and moved its end

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index b046217..b3070d0 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1394,7 +1394,7 @@ class Arc(Curve):
         if self.sweep is not None and self.start is None and self.end is not None:
             end_t = self.get_end_t()
             start_t = end_t - self.sweep
-            self.end = self.point_at_t(start_t)
+            self.start = self.point_at_t(start_t)
 
     def __repr__(self):
         return "Arc(%s, %s, %s, %s, %s, %s)" % (
-- 
2.43.0


From 35a9089bedbb31a2b5a9d591872e9c07f7d1ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:52 +0000
Subject: [PATCH 40/76] fix: positions just below one fell past the rounded sum
 of the segment lengths

---
 svgio/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index b3070d0..d9b7476 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2214,8 +2214,8 @@ class Path(MutableSequence):
             xy[position_subset] = c[:]
             segment_start = segment_end
 
-        # the loop above will miss position == 1
-        xy[positions == 1] = np.array(list(segments[-1].end))
+        # the loop above will miss position == 1, and positions past the rounded sum of the fractions.
+        xy[positions >= segment_start] = np.array(list(segments[-1].end))
         return xy
 
     def point(self, position, error=ERROR):
@@ -2255,6 +2255,8 @@ class Path(MutableSequence):
                 segment_pos = (position - segment_start) / (segment_end - segment_start)
                 break
             segment_start = segment_end
+        else:
+            segment_pos = 1.0  # The position is past the rounded sum of the fractions.
         return segment.point(segment_pos)
 
     def length(self, error=ERROR, min_depth=MIN_DEPTH):
-- 
2.43.0


From 9af0840d09f87b085be4604b7df1e514ffeacb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 41/76] fix: approximating a straight arc removed it from the
 path

---
 svgio/path.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index d9b7476..6a04ab8 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1708,6 +1708,18 @@ class Arc(Curve):
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
+        if self.sweep == 0 and self.start != self.end:
+            # Out of range radii are a straight line.
+            pieces = max(arc_required, 1)
+            for i in range(0, pieces):
+                p0 = Point.towards(self.start, self.end, i / float(pieces))
+                p1 = Point.towards(self.start, self.end, (i + 1) / float(pieces))
+                yield QuadraticBezier(
+                    p0,
+                    Point.towards(p0, p1, 0.5),
+                    p1,
+                )
+            return
         if arc_required == 0:
             return
         t_slice = self.sweep / float(arc_required)
@@ -1743,6 +1755,19 @@ class Arc(Curve):
         if arc_required is None:
             sweep_limit = tau / 12.0
             arc_required = int(ceil(abs(self.sweep) / sweep_limit))
+        if self.sweep == 0 and self.start != self.end:
+            # Out of range radii are a straight line.
+            pieces = max(arc_required, 1)
+            for i in range(0, pieces):
+                p0 = Point.towards(self.start, self.end, i / float(pieces))
+                p1 = Point.towards(self.start, self.end, (i + 1) / float(pieces))
+                yield CubicBezier(
+                    p0,
+                    Point.towards(p0, p1, 1.0 / 3.0),
+                    Point.towards(p0, p1, 2.0 / 3.0),
+                    p1,
+                )
+            return
         if arc_required == 0:
             return
         t_slice = self.sweep / float(arc_required)
-- 
2.43.0


From 77045833d6633d4168f7380ad2e046ec4b1646e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 42/76] fix: the length of a quadratic on a nearly straight
 line was arbitrary

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 6a04ab8..4e6270a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -878,6 +878,9 @@ class QuadraticBezier(Curve):
         """Calculate the length of the path up to a certain position"""
         a = self.start - 2 * self.control + self.end
         b = 2 * (self.control - self.start)
+        if abs(a) < 1e-6 * abs(b):
+            # Nearly uniform straight line, the closed form loses all its digits.
+            return abs(b) + (a.real * b.real + a.imag * b.imag) / abs(b)
         try:
             # For an explanation of this case, see
             # http://www.malczak.info/blog/quadratic-bezier-curve-length/
-- 
2.43.0


From cccc4b580af6024e681320a77eb1c312663cb13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:04 +0000
Subject: [PATCH 43/76] fix: arcs with one negative radius were drawn on the
 wrong ellipse

---
 svgio/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 4e6270a..7474e63 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1632,6 +1632,8 @@ class Arc(Curve):
             self.pry = Point(start)
             self.center = Point(start)
             return
+        rx = abs(rx)
+        ry = abs(ry)
         cosr = cos(radians(rotation))
         sinr = sin(radians(rotation))
         dx = (start.real - end.real) / 2
-- 
2.43.0


From b99929eb4040bd1c6e1d65a453e5e077c64c5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 44/76] fix: the text of no color read back as black

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 4216692..a91874c 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -576,12 +576,12 @@ class Color(object):
 
     def __str__(self):
         if self.value is None:
-            return str(self.value)
+            return SVG_VALUE_NONE
         return self.hex
 
     def __repr__(self):
         if self.value is None:
-            return "Color('%s')" % self.value
+            return "Color('%s')" % SVG_VALUE_NONE
         return "Color('%s')" % self.hex
 
     def __eq__(self, other):
-- 
2.43.0


From 84475c56752b2ada35150123574acc700644583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 45/76] fix: converting an unresolvable length to mm, cm or
 inch scaled it by the resolution

---
 svgio/basic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index a91874c..dd86abb 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -356,6 +356,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / (ppi * 0.0393701)
         return Length("%smm" % (Length.str(v)))
 
@@ -374,6 +376,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / (ppi * 0.393701)
         return Length("%scm" % (Length.str(v)))
 
@@ -392,6 +396,8 @@ class Length(object):
             font_height=font_height,
             viewbox=viewbox,
         )
+        if isinstance(value, Length):
+            return value
         v = value / ppi
         return Length("%sin" % (Length.str(v)))
 
-- 
2.43.0


From 838753ed61cb37714de63e5687fe2fa1557e546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:35 +0000
Subject: [PATCH 46/76] fix: multiples of a quarter turn were not orthogonal
 after rounding

---
 svgio/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index dd86abb..436ec97 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1921,7 +1921,8 @@ class Angle(float):
         return self / tau
 
     def is_orthogonal(self):
-        return (self % (tau / 4.0)) == 0
+        c1 = self % (tau / 4.0)
+        return c1 <= 1e-11 or tau / 4.0 - c1 <= 1e-11
 
 
 class Matrix:
-- 
2.43.0


From 49ab7d69937043bc7f456b1629b3490b959667d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 47/76] fix: an arc given by center, radii, rotation and three
 more values was taken for the svg form

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 7474e63..23a2b0c 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1195,7 +1195,7 @@ class Arc(Curve):
         if len(args) == 6 and isinstance(args[1], complex):
             self._svg_complex_parameterize(*args)
             return
-        elif len(kwargs) == 6 and "rotation" in kwargs:
+        elif len(kwargs) == 6 and "radius" in kwargs and "rotation" in kwargs:
             self._svg_complex_parameterize(**kwargs)
             return
         elif len(args) == 7:
-- 
2.43.0


From 0a37eed311fb58cda1d0525dd59d4e55a0cc7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 48/76] fix: the center of an arc through a point on an almost
 horizontal chord was arbitrary

---
 svgio/path.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 23a2b0c..f30ad2e 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1308,7 +1308,11 @@ class Arc(Curve):
                         - slope_a * bc_mid.x
                         + slope_b * ab_mid.x
                     ) / (slope_b - slope_a)
-                    cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    # The flatter chord leaves the height of the center undetermined.
+                    if abs(slope_a) > abs(slope_b):
+                        cy = ab_mid.y - (cx - ab_mid.x) / slope_a
+                    else:
+                        cy = bc_mid.y - (cx - bc_mid.x) / slope_b
                 self.center = Point(cx, cy)
                 cw = bool(Point.orientation(self.start, control, self.end) == 2)
             elif "r" in kwargs:
-- 
2.43.0


From db03ceed5d771165adacc5134044808d4c077e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 49/76] fix: a segment added in front of a subpath is copied

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index f30ad2e..ec49a87 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2899,7 +2899,7 @@ class Subpath:
             return path
         elif isinstance(other, PathSegment):
             path = Path(self)
-            path.insert(0, other)
+            path.insert(0, copy(other))
             return path
         else:
             return NotImplemented
-- 
2.43.0


From d6b97420a9ba3eddab1de9de52beabae89d43012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 50/76] fix: what is added to a subpath goes after its last
 segment and belongs to it

---
 svgio/path.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index ec49a87..593c854 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2871,16 +2871,19 @@ class Subpath:
         self._end -= size - len(self._path)
 
     def __iadd__(self, other):
+        size = len(self._path)
+        after = self._end + 1
         if isinstance(other, str):
             p = Path(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, Path):
             p = copy(other)
-            self._path[self._end : self._end] = p
+            self._path[after:after] = p
         elif isinstance(other, PathSegment):
-            self._path.insert(self._end, other)
+            self._path.insert(after, other)
         else:
             return NotImplemented
+        self._end += len(self._path) - size
         return self
 
     def __add__(self, other):
-- 
2.43.0


From 42f968ce7a512e93d71373e53f89e395a4f3ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 51/76] fix: inserting path text of several segments inserts
 them all

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 593c854..dd89a63 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2676,6 +2676,9 @@ class Path(MutableSequence):
             value = Path(value)
             if len(value) == 0:
                 return
+            if len(value) > 1:
+                self[index:index] = value
+                return
             value = value[0]
         self._length = None
         self._segments.insert(index, value)
-- 
2.43.0


From b891a72c6bba7b6c3409dcecb737c5bec0110689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 52/76] fix: text of a segment is relative when the segment is
 recorded as relative

---
 svgio/path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index dd89a63..6d28bcc 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -613,7 +613,7 @@ class Move(PathSegment):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "M %s" % self.end
@@ -732,7 +732,7 @@ class Close(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "Z"
@@ -751,7 +751,7 @@ class Line(Linear):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "L %s" % self.end
@@ -924,7 +924,7 @@ class QuadraticBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "T %s" % self.end
@@ -933,7 +933,7 @@ class QuadraticBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "Q %s %s" % (self.control, self.end)
@@ -1127,7 +1127,7 @@ class CubicBezier(Curve):
         if (smooth is None and self.smooth) or (smooth is not None and smooth):
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "S %s %s" % (self.control2, self.end)
@@ -1139,7 +1139,7 @@ class CubicBezier(Curve):
         else:
             if (
                 current_point is None
-                or (relative is None and self.relative)
+                or (relative is None and not self.relative)
                 or (relative is not None and not relative)
             ):
                 return "C %s %s %s" % (self.control1, self.control2, self.end)
@@ -1988,7 +1988,7 @@ class Arc(Curve):
     def d(self, current_point=None, relative=None, smooth=None):
         if (
             current_point is None
-            or (relative is None and self.relative)
+            or (relative is None and not self.relative)
             or (relative is not None and not relative)
         ):
             return "A %G,%G %G %d,%d %s" % (
-- 
2.43.0


From 75e3a97de1d46316c66d2ed11cb742f87e2e566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 53/76] fix: the closest point of a line is a point also of a
 dot and beyond its ends

---
 svgio/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 6d28bcc..e634f56 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -699,14 +699,14 @@ class Linear(PathSegment):
         sq_distance_ab = v_ab_x * v_ab_x + v_ab_y * v_ab_y
         ab_ap_product = v_ab_x * v_ap_x + v_ab_y * v_ap_y
         if sq_distance_ab == 0:
-            return 0  # Line is point.
+            return Point(a)  # Line is point.
         amount = ab_ap_product / float(sq_distance_ab)
         if respect_bounds:
             if amount > 1:
                 amount = 1
             if amount < 0:
                 amount = 0
-        return self.point(amount)
+        return Point.towards(a, b, amount)
 
     def d(self, current_point=None, relative=None, smooth=None):
         raise NotImplementedError
-- 
2.43.0


From 2b14fc4356cf6d1dd2add99763daad1f41566841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 54/76] fix: the text of a single curve keeps its first control
 point

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index e634f56..29b6c38 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -406,7 +406,7 @@ class PathSegment:
         command to correctly provide the starting position.
         :return: string representation of the object.
         """
-        d = self.d()
+        d = self.d(smooth=False)
         if self.start is not None:
             if self.relative:
                 return "m %s %s" % (self.start, d)
-- 
2.43.0


From fedcd1765f4f2c1e704b15c5261e0e224be2c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 55/76] fix: arcs that sweep whole turns more or less are not
 equal

---
 svgio/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 29b6c38..1a50c38 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1433,7 +1433,12 @@ class Arc(Curve):
             and self.prx == other.prx
             and self.pry == other.pry
             and self.center == other.center
-            and self.sweep == other.sweep
+            and (
+                self.sweep is other.sweep
+                or self.sweep is not None
+                and other.sweep is not None
+                and abs(float(self.sweep) - float(other.sweep)) <= 1e-11
+            )
         )
 
     def __ne__(self, other):
-- 
2.43.0


From fb0309dba054f18a120d434d033f924c1e26b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 56/76] fix: an arc of a whole turn given as an angle had no
 length

---
 svgio/path.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 1a50c38..3379a75 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1237,7 +1237,7 @@ class Arc(Curve):
             if args[4] is not None:
                 self.pry = Point(args[4])
         if len_args > 5:
-            self.sweep = args[5]
+            self.sweep = float(args[5]) if args[5] is not None else None
             return  # The args gave us everything.
         if "start" in kwargs:
             self.start = Point(kwargs["start"])
@@ -1250,7 +1250,9 @@ class Arc(Curve):
         if "pry" in kwargs:
             self.pry = Point(kwargs["pry"])
         if "sweep" in kwargs:
-            self.sweep = kwargs["sweep"]
+            self.sweep = (
+                float(kwargs["sweep"]) if kwargs["sweep"] is not None else None
+            )
         cw = True  # Clockwise default. (sometimes needed)
         if self.start is not None and self.end is not None and self.center is None:
             # Start and end, but no center.
@@ -1716,7 +1718,7 @@ class Arc(Curve):
 
         self.prx.matrix_transform(rotate_matrix)
         self.pry.matrix_transform(rotate_matrix)
-        self.sweep = Angle.degrees(delta).as_radians
+        self.sweep = float(Angle.degrees(delta))
 
     def as_quad_curves(self, arc_required=None):
         if arc_required is None:
-- 
2.43.0


From b5f1bd9098ea4ce9e3ddce7d94a508a711e87d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 57/76] fix: iterating a segment gives each known point, also
 when nested

---
 svgio/path.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 3379a75..5dbfad3 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -415,21 +415,10 @@ class PathSegment:
         return d
 
     def __iter__(self):
-        self.n = -1
-        return self
-
-    def __next__(self):
-        self.n += 1
-        try:
-            val = self[self.n]
-            if val is None:
-                self.n += 1
-                val = self[self.n]
-            return val
-        except IndexError:
-            raise StopIteration
-
-    next = __next__
+        for i in range(len(self)):
+            val = self[i]
+            if val is not None:
+                yield val
 
     @staticmethod
     def segment_length(
-- 
2.43.0


From 532d07fec3f0d77cd052ca789f7d5d64bd7858e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 58/76] fix: the iterator of a subpath is iterable

---
 svgio/path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgio/path.py b/svgio/path.py
index 5dbfad3..ca47d72 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2931,6 +2931,9 @@ class Subpath:
                 self.n = subpath._start - 1
                 self.subpath = subpath
 
+            def __iter__(self):
+                return self
+
             def __next__(self):
                 self.n += 1
                 try:
-- 
2.43.0


From 9895da0b00a0bca366a8949b1969a9b9099d7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 59/76] fix: second control point of a cubic curve whose first
 is missing

---
 svgio/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index ca47d72..77dcd9a 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -939,7 +939,7 @@ class CubicBezier(Curve):
     def __init__(self, start, control1, control2, end, **kwargs):
         Curve.__init__(self, start, end, **kwargs)
         self.control1 = Point(control1) if control1 is not None else None
-        self.control2 = Point(control2) if control1 is not None else None
+        self.control2 = Point(control2) if control2 is not None else None
 
     def __repr__(self):
         return "CubicBezier(start=%s, control1=%s, control2=%s, end=%s)" % (
-- 
2.43.0


From bdeeee464cb82f6952d2f1c6686e7435a0bc730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 60/76] fix: the representation of a path lists its segments

---
 svgio/path.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index 77dcd9a..f73a326 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2163,7 +2163,10 @@ class Path(MutableSequence):
         return self.d()
 
     def __repr__(self):
-        return "%s(%s)" % (self.__class__.__name__, self.d())
+        return "%s(%s)" % (
+            self.__class__.__name__,
+            ", ".join(repr(x) for x in self._segments),
+        )
 
     def __eq__(self, other):
         if isinstance(other, str):
-- 
2.43.0


From 18de035b72c0b66d0b8d197dd34be33976ba04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 61/76] fix: position 1 of npoint is the last point of the path

---
 svgio/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgio/path.py b/svgio/path.py
index f73a326..262644f 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -2248,7 +2248,9 @@ class Path(MutableSequence):
             segment_start = segment_end
 
         # the loop above will miss position == 1, and positions past the rounded sum of the fractions.
-        xy[positions >= segment_start] = np.array(list(segments[-1].end))
+        xy[(positions >= segment_start) | (positions >= 1.0)] = np.array(
+            list(segments[-1].end)
+        )
         return xy
 
     def point(self, position, error=ERROR):
-- 
2.43.0


From 535ee35a0e0550e33b0a3e9599ff0f3b0b4c75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 62/76] fix: iterating a matrix ends after the six coefficients

---
 svgio/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgio/basic.py b/svgio/basic.py
index 436ec97..03d0b36 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2037,6 +2037,8 @@ class Matrix:
             return self.e
         elif item == 5:
             return self.f
+        else:
+            raise IndexError
 
     def __setitem__(self, key, value):
         if key == 0:
-- 
2.43.0


From 71076247e98a95692d5bcd0664f2014ec5297e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 63/76] fix: length of a cubic curve which turns back shortly

---
 svgio/path.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/svgio/path.py b/svgio/path.py
index 262644f..cf001fd 100644
--- a/svgio/path.py
+++ b/svgio/path.py
@@ -1052,6 +1052,11 @@ class CubicBezier(Curve):
         Code by:
         https://github.com/mathandy/svgpathtools
         """
+        local_extrema = [self.point(t)[v] for t in self._local_extremizers(v)]
+        return min(local_extrema), max(local_extrema)
+
+    def _local_extremizers(self, v):
+        """returns the ends and the positions between them at which the coordinate v turns"""
         local_extremizers = [0, 1]
         a = [c[v] for c in self]
         denom = a[0] - 3 * a[1] + 3 * a[2] - a[3]
@@ -1073,8 +1078,7 @@ class CubicBezier(Curve):
                 t = (a[0] - a[1]) / denom
                 if 0 < t < 1:
                     local_extremizers.append(t)
-        local_extrema = [self.point(t)[v] for t in local_extremizers]
-        return min(local_extrema), max(local_extrema)
+        return local_extremizers
 
     def _length_scipy(self, error=ERROR):
         from scipy.integrate import quad
@@ -1091,7 +1095,13 @@ class CubicBezier(Curve):
                 + 3 * (p3 - p2) * t ** 2
             )
 
-        return quad(_abs_derivative, 0.0, 1.0, epsabs=error, limit=1000)[0]
+        # Where the curve turns back the speed has a kink, which could go unseen between the samples.
+        points = [
+            t for v in (0, 1) for t in self._local_extremizers(v) if 0 < t < 1
+        ] or None
+        return quad(
+            _abs_derivative, 0.0, 1.0, points=points, epsabs=error, limit=1000
+        )[0]
 
     def _length_default(self, error=ERROR, min_depth=MIN_DEPTH):
         return self._line_length(0, 1, error, min_depth)
-- 
2.43.0


From f67c493b3de532b48ad99094f7ed7ea302f031c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 64/76] fix: the unit ex in transforms

---
 svgio/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/constants.py b/svgio/constants.py
index d5c9d15..eaf72ed 100644
--- a/svgio/constants.py
+++ b/svgio/constants.py
@@ -118,7 +118,7 @@ PATTERN_WS = r"[\s\t\n]*"
 PATTERN_COMMA = r"(?:\s*,\s*|\s+|(?=-))"
 PATTERN_COMMAWSP = r"[ ,\t\n\x09\x0A\x0C\x0D]+"
 PATTERN_FLOAT = r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?"
-PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|cx|ch|rem|vw|vh|vmin|vmax"
+PATTERN_LENGTH_UNITS = "cm|mm|Q|in|pt|pc|px|em|ex|ch|rem|vw|vh|vmin|vmax"
 PATTERN_ANGLE_UNITS = "deg|grad|rad|turn"
 PATTERN_TIME_UNITS = "s|ms"
 PATTERN_FREQUENCY_UNITS = "Hz|kHz"
-- 
2.43.0


From b1014bbd701cbe707851fe21cffceebe9eaa017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 65/76] fix: white space in preserveAspectRatio

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 03d0b36..6273338 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -2643,7 +2643,7 @@ class Viewbox:
         ):
             return ""
         if aspect is not None:
-            aspect_slice = aspect.split(" ")
+            aspect_slice = aspect.split()
             try:
                 align = aspect_slice[0]
             except IndexError:
-- 
2.43.0


From 8d867875d2851604e7e7d14b971bf403806cc966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 66/76] fix: direction of points left of the origin or above it

---
 svgio/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index 6273338..f1b0f71 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1745,7 +1745,7 @@ class Point:
         return self.__class__(self.real, -self.imag)
 
     def argz(self):
-        return atan(self.imag / self.real)
+        return atan2(self.imag, self.real)
 
     @property
     def real(self):
-- 
2.43.0


From 7a55cf55ed604efaf6884de894b463c918ee0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 67/76] fix: powers of points are not rounded to integers

---
 svgio/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgio/basic.py b/svgio/basic.py
index f1b0f71..a4d4e81 100644
--- a/svgio/basic.py
+++ b/svgio/basic.py
@@ -1737,8 +1737,8 @@ class Point:
         r_raised = abs(self) ** other
         argz_multiplied = self.argz() * other
 
-        real_part = round(r_raised * cos(argz_multiplied))
-        imag_part = round(r_raised * sin(argz_multiplied))
+        real_part = r_raised * cos(argz_multiplied)
+        imag_part = r_raised * sin(argz_multiplied)
         return self.__class__(real_part, imag_part)
 
     def conjugate(self):
-- 
2.43.0


From 05c3451cdc263eef3cab4f0a96309ac02eafd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 68/76] fix: data of embedded images

---
 svgio/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 516570b..85071e3 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1653,18 +1653,18 @@ class Image(Element, GraphicalElement, Transformable):
     @property
     def data(self):
         url = self.href
-        if url.startswith("data:image/"):
+        if url is not None and url.startswith("data:image/"):
             # Data URL
             from base64 import b64decode
 
             if url.startswith("data:image/png;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpg;base64,"):
-                return b64decode(self.url[22:])
+                return b64decode(url[22:])
             elif url.startswith("data:image/jpeg;base64,"):
-                return b64decode(self.url[23:])
+                return b64decode(url[23:])
             elif url.startswith("data:image/svg+xml;base64,"):
-                return b64decode(self.url[26:])
+                return b64decode(url[26:])
 
     @property
     def x(self):
-- 
2.43.0


From 1ec67718c6deb514a939cbc2e594a22daf60ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 69/76] fix: movetos do not count in the box of a shape

---
 svgio/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 85071e3..166758b 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -682,7 +682,7 @@ class Shape(Element, GraphicalElement, Transformable):
         bbs = [
             seg.bbox()
             for seg in self.segments(transformed=transformed)
-            if not isinstance(path.Close, path.Move)
+            if not isinstance(seg, path.Move)
         ]
         try:
             xmins, ymins, xmaxs, ymaxs = list(zip(*bbs))
-- 
2.43.0


From 47f04fd5be5a6b0caf3883a805a1982f4ff949e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 70/76] fix: box of images without transform

---
 svgio/nodes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 166758b..5418918 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1760,18 +1760,21 @@ class Image(Element, GraphicalElement, Transformable):
         """
         Get the bounding box for the given image object
         """
+        transform = self.transform
+        if transform is None or not transformed:
+            transform = ""
         if self.image_width is None or self.image_height is None:
             p = Point(0, 0)
-            p *= self.transform
+            p *= transform
             return p.x, p.y, p.x, p.y
         width = self.image_width
         height = self.image_height
         if transformed:
             p = (
-                Point(0, 0) * self.transform,
-                Point(width, 0) * self.transform,
-                Point(width, height) * self.transform,
-                Point(0, height) * self.transform,
+                Point(0, 0) * transform,
+                Point(width, 0) * transform,
+                Point(width, height) * transform,
+                Point(0, height) * transform,
             )
         else:
             p = (Point(0, 0), Point(width, 0), Point(width, height), Point(0, height))
-- 
2.43.0


From 324c2608ed5878aa47bc3d3f46d90ea5cdee1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 71/76] fix: segments of line elements

---
 svgio/nodes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 5418918..4f31cbc 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -653,6 +653,12 @@ class Shape(Element, GraphicalElement, Transformable):
     stroke_width: Stroke width of the stroke. (GraphicObject)
     """
 
+    def _amount(self, name):
+        """
+        The effective value of a geometric attribute in user units, 0 if it is missing.
+        """
+        return Length(Document.get_values(self).get(name, 0)).value()
+
     def segments(self, transformed=True):
         """
         Returns PathSegments which correctly produce this shape.
@@ -1232,9 +1238,9 @@ class Line(Shape):
         """
         from svgio import path
 
-        start = Point(self.x1, self.y1)
-        end = Point(self.x2, self.y2)
-        if transformed:
+        start = Point(self._amount(SVG_ATTR_X1), self._amount(SVG_ATTR_Y1))
+        end = Point(self._amount(SVG_ATTR_X2), self._amount(SVG_ATTR_Y2))
+        if transformed and self.transform is not None:
             start *= self.transform
             end *= self.transform
         return path.Move(None, start), path.Line(start, end)
-- 
2.43.0


From de6d4f2133fff0d99245a4909a0a283c729b0d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 72/76] fix: segments of polylines and polygons

---
 svgio/nodes.py | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 4f31cbc..c7d3123 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1268,45 +1268,13 @@ class _Polyshape(Shape):
         Note:  For a polygon/polyline made from n points, the resulting path will
         be composed of n lines (even if some of these lines have length zero).
         """
-        # TODO: Parse points get segments.
         from svgio import path
 
-        if len(self.points) != 0:
-            return
-        if points is None:
-            self.points = list()
-            return
-        if isinstance(points, dict):
-            if SVG_ATTR_POINTS in points:
-                points = points[SVG_ATTR_POINTS]
-            else:
-                self.points = list()
-                return
-        try:
-            if len(points) == 1:
-                points = points[0]
-        except TypeError:
-            pass
-        if isinstance(points, str):
-            findall = REGEX_COORD_PAIR.findall(points)
-            self.points = [Point(float(j), float(k)) for j, k in findall]
-        elif isinstance(points, (list, tuple)):
-            if len(points) == 0:
-                self.points = list()
-            else:
-                first_point = points[0]
-                if isinstance(first_point, (float, int)):
-                    self.points = list(map(Point, zip(*[iter(points)] * 2)))
-                elif isinstance(first_point, (list, tuple, complex, str, Point)):
-                    self.points = list(map(Point, points))
-        else:
-            self.points = list()
-
-        if self.transform.is_identity() or not transformed:
-            points = self.points
-        else:
-            points = list(map(self.transform.point_in_matrix_space, self.points))
-        if self.is_degenerate():
+        findall = REGEX_COORD_PAIR.findall(self.points or "")
+        points = [Point(float(j), float(k)) for j, k in findall]
+        if transformed and self.transform is not None:
+            points = [p * self.transform for p in points]
+        if len(points) == 0:
             return []
         segments = [path.Move(None, points[0])]
         last = points[0]
-- 
2.43.0


From f0560912461d8278543be509815769d4e3778395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 73/76] fix: segments of rects

---
 svgio/nodes.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index c7d3123..3fd0c15 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -792,15 +792,18 @@ class Rect(Shape):
         """
         from svgio import path
 
-        x = self.x
-        y = self.y
-        width = self.width
-        height = self.height
-        if self.is_degenerate():
+        x = self._amount(SVG_ATTR_X)
+        y = self._amount(SVG_ATTR_Y)
+        width = self._amount(SVG_ATTR_WIDTH)
+        height = self._amount(SVG_ATTR_HEIGHT)
+        if width == 0 or height == 0:
             return ()  # a computed value of zero for either dimension disables rendering.
-        rx = self.rx
-        ry = self.ry
-        if rx < 0 < width or ry < 0 < height:
+        # A missing radius is that of the other axis, and no radius exceeds half of its side.
+        rx = self._amount(SVG_ATTR_RADIUS_X if self.rx is not None else SVG_ATTR_RADIUS_Y)
+        ry = self._amount(SVG_ATTR_RADIUS_Y if self.ry is not None else SVG_ATTR_RADIUS_X)
+        rx = min(rx, width / 2.0)
+        ry = min(ry, height / 2.0)
+        if rx <= 0 or ry <= 0:
             rx = 0
             ry = 0
         if rx == ry == 0:
@@ -839,7 +842,7 @@ class Rect(Shape):
                 path.Arc((x, y + ry), (x + rx, y), rx=rx, ry=ry),
                 path.Close((x + rx, y), (x + rx, y)),
             )
-        if not transformed or self.transform.is_identity():
+        if not transformed or self.transform is None:
             return segments
         else:
             return [s * self.transform for s in segments]
-- 
2.43.0


From 5f60fd8762cffe12e0a801bef36fa837bf511d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:31 +0000
Subject: [PATCH 74/76] fix: segments of circles and ellipses

---
 svgio/nodes.py | 59 ++++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 3fd0c15..103801f 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -979,19 +979,9 @@ class _RoundShape(Shape):
         :return:
         """
         # TODO: REHOME FUNCTION
-        rotation = self.rotation
-        a = self.rx
-        b = self.ry
+        a, b = self._radii()
         center = self.center
-        cx = center.x
-        cy = center.y
-        cos_theta = cos(rotation)
-        sin_theta = sin(rotation)
-        cos_t = cos(t)
-        sin_t = sin(t)
-        px = cx + a * cos_t * cos_theta - b * sin_t * sin_theta
-        py = cy + a * cos_t * sin_theta + b * sin_t * cos_theta
-        return Point(px, py)
+        return Point(center.x + a * cos(t), center.y + b * sin(t))
 
     def point(self, position, error=ERROR):
         """
@@ -1053,10 +1043,10 @@ class Ellipse(_RoundShape):
 
     @property
     def center(self):
-        values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
+        return Point(self._amount(SVG_ATTR_CENTER_X), self._amount(SVG_ATTR_CENTER_Y))
+
+    def _radii(self):
+        return self._amount(SVG_ATTR_RADIUS_X), self._amount(SVG_ATTR_RADIUS_Y)
 
     def segments(self, transformed=True):
         """
@@ -1075,16 +1065,10 @@ class Ellipse(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx, ry = self._radii()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1094,13 +1078,15 @@ class Ellipse(_RoundShape):
                 center,
                 rx=rx,
                 ry=ry,
-                rotation=0,  # was self.rotation
+                rotation=0,
                 sweep=step_size,
             )
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if transformed and self.transform is not None:
+            p @= self.transform
+        return p.segments()
 
 
 class Circle(_RoundShape):
@@ -1137,10 +1123,11 @@ class Circle(_RoundShape):
 
     @property
     def center(self):
-        values = Document.get_values(self)
-        cx = values.get(SVG_ATTR_CENTER_X)
-        cy = values.get(SVG_ATTR_CENTER_Y)
-        return Point(cx, cy)
+        return Point(self._amount(SVG_ATTR_CENTER_X), self._amount(SVG_ATTR_CENTER_Y))
+
+    def _radii(self):
+        r = self._amount(SVG_ATTR_RADIUS)
+        return r, r
 
     def segments(self, transformed=True):
         """
@@ -1159,16 +1146,10 @@ class Circle(_RoundShape):
         p = path.Path()
         steps = 4
         step_size = tau / steps
-        if (
-            transformed
-            and self.transform.value_scale_x() * self.transform.value_scale_y() < 0
-        ):
-            step_size = -step_size
         t_start = 0
         t_end = step_size
         # zero for either dimension, or a computed value of auto for both dimensions, disables rendering of the element.
-        rx = self.rx
-        ry = self.ry
+        rx, ry = self._radii()
         center = self.center
         p.move((self.point_at_t(0)))
         for i in range(steps):
@@ -1178,13 +1159,15 @@ class Circle(_RoundShape):
                 center,
                 rx=rx,
                 ry=ry,
-                rotation=self.rotation,
+                rotation=0,
                 sweep=step_size,
             )
             t_start = t_end
             t_end += step_size
         p.closed()
-        return p.segments(transformed)
+        if transformed and self.transform is not None:
+            p @= self.transform
+        return p.segments()
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From c8d09bd6f07a54d387615fbd29d2410cadc53bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 75/76] fix: transform of the segments of path elements

---
 svgio/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 103801f..4c2fee5 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1327,7 +1327,10 @@ class Path(Shape):
     def segments(self, transformed=True):
         from svgio import path
 
-        return path.Path(self.d)
+        p = path.Path(self.d)
+        if transformed and self.transform is not None:
+            p @= self.transform
+        return p
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0


From eca105be4fce531a908d0829121bc57e8c97bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 76/76] fix: viewbox transform of svg, image and pattern
 elements

---
 svgio/nodes.py | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/svgio/nodes.py b/svgio/nodes.py
index 4c2fee5..747e9d4 100644
--- a/svgio/nodes.py
+++ b/svgio/nodes.py
@@ -1336,6 +1336,28 @@ class Path(Shape):
         return self.__class__.__name__
 
 
+def _viewbox_transform(node):
+    """
+    The transform commands from the viewBox of the node to its rectangle, none without both.
+    """
+    values = Document.get_values(node)
+    width, height = values.get(SVG_ATTR_WIDTH), values.get(SVG_ATTR_HEIGHT)
+    if node.viewBox is None or width is None or height is None:
+        return ""
+    viewbox = Viewbox(node.viewBox, node.preserveAspectRatio)
+    return Viewbox.viewbox_transform(
+        Length(values.get(SVG_ATTR_X, 0)).value(),
+        Length(values.get(SVG_ATTR_Y, 0)).value(),
+        Length(width).value(),
+        Length(height).value(),
+        viewbox.x,
+        viewbox.y,
+        viewbox.width,
+        viewbox.height,
+        viewbox.preserve_aspect_ratio,
+    )
+
+
 ########################
 #  SVG Element Nodes
 ########################
@@ -1419,11 +1441,17 @@ class Pattern(ContainerElement, Element):
     def __int__(self):
         return 0
 
+    @property
+    def viewBox(self):
+        return self.attributes.get(SVG_ATTR_VIEWBOX)
+
+    @property
+    def preserveAspectRatio(self):
+        return self.attributes.get(SVG_ATTR_PRESERVEASPECTRATIO)
+
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return _viewbox_transform(self)
 
     @property
     def x(self):
@@ -1667,9 +1695,7 @@ class Image(Element, GraphicalElement, Transformable):
 
     @property
     def viewbox_transform(self):
-        if self.viewbox is None:
-            return ""
-        return self.viewbox.transform(self)
+        return _viewbox_transform(self)
 
     def load(self, directory=None):
         try:
@@ -1816,10 +1842,7 @@ class SVG(Group, ContainerElement, StructuralElement):
 
     @property
     def viewbox_transform(self):
-        viewbox = self.viewBox
-        if viewbox is None:
-            return ""
-        return viewbox.transform(self)
+        return _viewbox_transform(self)
 
     def _name(self):
         return self.__class__.__name__
-- 
2.43.0

