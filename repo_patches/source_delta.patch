From 5ca2feb2afe807e6e38e79e925f6d7f932ab8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 01/72] fix: observers may be added or removed during a
 notification

Removing an observer from within a begin callback made the live list skip
the next observer, and from within an end callback raised a KeyError.
---
 curvepy/curve.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..97c7915 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -434,14 +434,7 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
-            _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
-            if callback_interval is None or domain.intersects(callback_interval):
-                if callback is not None:
-                    if callback_with_interval:
-                        callback(domain)
-                    else:
-                        callback()
+        self._notify_observers(domain, begin=True)
 
     def end_update(self, domain):
         if domain.is_empty or self._end_update_interval.is_superset_of(domain):
@@ -456,14 +449,23 @@ class Curve:
         self._begin_update_interval = Interval.empty()
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
+        self._notify_observers(update_interval, begin=False)
+
+    def _notify_observers(self, domain, begin):
+        # Observers may add or remove observers
         for token in list(self._ordered_observer_tokens):
-            _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
-            if callback_interval is None or update_interval.intersects(callback_interval):
-                if callback is not None:
-                    if callback_with_interval:
-                        callback(update_interval)
-                    else:
-                        callback()
+            if token not in self._observer_data:
+                continue
+            _, callback_interval, begin_callback, end_callback, begin_with_interval, end_with_interval = self._observer_data[token]
+            callback = begin_callback if begin else end_callback
+            if callback is None:
+                continue
+            if callback_interval is not None and not domain.intersects(callback_interval):
+                continue
+            if begin_with_interval if begin else end_with_interval:
+                callback(domain)
+            else:
+                callback()
 
     @property
     def needs_domain_update(self):
-- 
2.43.0


From 5c556aef27db6c18865f5cac57c697c94a06d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 02/72] fix: rejected edits and failing observers no longer
 leave curves updating

Points and Sin validated after announcing the update, so a rejected edit left
the curve and everything derived from it updating forever and deaf to later
edits. An observer which raised did the same and starved the others.
---
 curvepy/constant.py |  5 ++---
 curvepy/curve.py    | 28 +++++++++++++++++++++++----
 curvepy/line.py     |  7 +++----
 curvepy/points.py   | 46 ++++++++++++++++++++++-----------------------
 curvepy/sin.py      | 20 ++++++++++----------
 5 files changed, 61 insertions(+), 45 deletions(-)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 2efa67b..aedbe78 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -16,9 +16,8 @@ class Constant(Curve):
     def value(self, value):
         if value == self._value:
             return
-        self.begin_update(self.domain)
-        self._value = value
-        self.end_update(self.domain)
+        with self.updating(self.domain):
+            self._value = value
 
     def get_domain(self):
         return self._const_interval
diff --git a/curvepy/curve.py b/curvepy/curve.py
index 97c7915..ef5fd35 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -3,6 +3,7 @@ import weakref
 import inspect
 import arrow
 import numpy as np
+from contextlib import contextmanager
 from numbers import Number
 from collections.abc import Sequence, Mapping
 from intervalpy import Interval
@@ -430,6 +431,18 @@ class Curve:
                         del self._observer_data[token]
                         self._ordered_observer_tokens.remove(token)
 
+    @contextmanager
+    def updating(self, domain):
+        """
+        Notifies observers of an update of `domain` made within the context.
+        The update always ends, even when an observer or the update itself fails.
+        """
+        try:
+            self.begin_update(domain)
+            yield
+        finally:
+            self.end_update(domain)
+
     def begin_update(self, domain):
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
@@ -452,6 +465,7 @@ class Curve:
         self._notify_observers(update_interval, begin=False)
 
     def _notify_observers(self, domain, begin):
+        error = None
         # Observers may add or remove observers
         for token in list(self._ordered_observer_tokens):
             if token not in self._observer_data:
@@ -462,10 +476,16 @@ class Curve:
                 continue
             if callback_interval is not None and not domain.intersects(callback_interval):
                 continue
-            if begin_with_interval if begin else end_with_interval:
-                callback(domain)
-            else:
-                callback()
+            try:
+                if begin_with_interval if begin else end_with_interval:
+                    callback(domain)
+                else:
+                    callback()
+            except Exception as e:
+                # Always notify the remaining observers
+                error = error or e
+        if error is not None:
+            raise error
 
     @property
     def needs_domain_update(self):
diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..79a0f09 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -58,10 +58,9 @@ class Line(Curve):
         if ref_point[0] == self.ref_point[0] and ref_point[1] == self.ref_point[1] and slope == self.slope:
             return
 
-        self.begin_update(self.domain)
-        self.ref_point = ref_point
-        self.slope = slope
-        self.end_update(self.domain)
+        with self.updating(self.domain):
+            self.ref_point = ref_point
+            self.slope = slope
 
     def y(self, x):
         return self.ref_point[1] + self.slope * (x - self.ref_point[0])
diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..27828c7 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,13 +76,13 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
-        self._points += points
-        self._did_change_points()
-        self.end_update(domain)
+        with self.updating(domain):
+            self._points += points
+            self._is_equally_spaced = is_equally_spaced
+            self._did_change_points()
 
     def replace(self, point, or_append=False):
         if not self.domain.contains(point[0]):
@@ -91,22 +91,20 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
-        update_domain = Interval.point(point[0])
-        self.begin_update(update_domain)
-
         nearest_i = int(math.ceil(self.x_index(point[0])))
         nearest_p = self._points[nearest_i]
-        if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
+        is_insertion = point[0] != nearest_p[0]
+        if is_insertion and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
+        update_domain = Interval.point(point[0])
+        with self.updating(update_domain):
+            if is_insertion:
                 self._points.insert(nearest_i, point)
                 self._is_equally_spaced = False
-        else:
-            self._points[nearest_i] = point
-
-        self._did_change_points()
-        self.end_update(update_domain)    
+            else:
+                self._points[nearest_i] = point
+            self._did_change_points()
 
     def reset(self, domain=None):
         points_len = len(self._points)
@@ -166,13 +164,13 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
-        self._points = list(points)
-        self._did_change_points()
-        self.end_update(update_domain)
+        with self.updating(update_domain):
+            self._points = list(points)
+            self._is_equally_spaced = is_equally_spaced
+            self._did_change_points()
 
     def sample_points(self, domain=None, min_step=None, step=None):
         domain = Interval.parse(domain, default_inf=True)
diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..9c99741 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,21 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
-        self.end_update(self.domain)
+
+        with self.updating(self.domain):
+            self.amplitude = amplitude
+            self.phase = phase
+            self.x_coef = x_coef
 
     def y(self, x):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
-- 
2.43.0


From a5b3410a1ad4445823355b7b42d3848d7fbf56c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 03/72] fix: every point of an evenly spaced series is checked

Only the last new point was compared with an expected position, at the interval
of the previous points, so that unevenly spaced points passed for evenly spaced
ones and answered wrong values, and replacing all points with points at another
interval was refused. Positions of samples survive rounding errors.
---
 curvepy/points.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 27828c7..e5d1ee4 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -13,6 +13,10 @@ ALL_INTERPOLATIONS = [
 ]
 
 
+# Maximum deviation from a uniform grid relative to its interval.
+UNIFORM_TOLERANCE = 1e-6
+
+
 class Points(Curve):
 
     class interpolation:
@@ -136,6 +140,8 @@ class Points(Curve):
         if head_len + tail_len == 0:
             self.set([])
             return
+        if self._force_equally_spaced and head_len != 0 and tail_len != 0:
+            raise Exception('Attempting to remove points between points at regular intervals')
         points = head + tail
 
         update_start = self._points[0][0]
@@ -212,15 +218,23 @@ class Points(Curve):
             start = new_points[0][0]
             steps = new_points_len - 1
 
-        if self.interval is not None:
+        if old_points_len > 1:
+            if not self.is_uniform:
+                return False
             interval = self.interval
         elif old_points_len == 1:
             interval = new_points[0][0] - old_points[-1][0]
         else:
             interval = new_points[1][0] - new_points[0][0]
 
-        expected_last_x = start + interval * steps
-        return new_points[-1][0] == expected_last_x
+        # Without an enforced uniformity, the points must be exactly on the grid
+        tolerance = abs(interval) * UNIFORM_TOLERANCE if self._force_equally_spaced else 0
+        first_step = new_points_len - steps
+        for i in range(steps):
+            x = start + interval * (i + 1)
+            if abs(new_points[first_step + i][0] - x) > tolerance:
+                return False
+        return True
 
     def y(self, x):
         if not self.domain.contains(x):
@@ -283,7 +297,13 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i = (x - self._points[0][0]) / self.interval
+            if math.isfinite(i):
+                # Avoid rounding errors at the points themselves
+                nearest_i = round(i)
+                if 0 <= nearest_i < len(self._points) and self._points[nearest_i][0] == x:
+                    return nearest_i
+            return i
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From 42712ae5aa0782708b6871c537976befedc652a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 04/72] fix: replacing a point announces the whole range it
 changes

Values between the neighbouring points are interpolated from the replaced
point, but only the point itself was announced, so that observers and scans
missed changes around it.
---
 curvepy/points.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index e5d1ee4..7ad869b 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -101,7 +101,17 @@ class Points(Curve):
         if is_insertion and self._force_equally_spaced:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # Values between the neighbouring points depend on the point
+        previous_i = nearest_i - 1
+        next_i = nearest_i if is_insertion else nearest_i + 1
+        has_previous = previous_i >= 0
+        has_next = next_i < len(self._points)
+        update_domain = Interval(
+            self._points[previous_i][0] if has_previous else point[0],
+            self._points[next_i][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         with self.updating(update_domain):
             if is_insertion:
                 self._points.insert(nearest_i, point)
-- 
2.43.0


From 2e08ae5bf3b07b3c4741431ae22a2b409f727f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 05/72] fix: generic curves keep their domain after an update

---
 curvepy/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..f491718 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,12 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._generic_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._generic_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From 9ee82ff401b8e033b6450a8c59c88af7b7a3a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 06/72] fix: stepping along piecewise curves

The steps found were never returned, pieces outside of their domain were
stepped and the domain was checked at the wrong end.
---
 curvepy/piecewise.py | 51 ++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..0a754be 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -32,33 +33,33 @@ class Piecewise(Curve):
             f = self.funcs[i]
             return f.y(x)
         return None
-    
+
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x - min_step, enforce_end=False):
-            return None
-        x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x):
-            return self.domains[0].start
+        for f, d in reversed(list(zip(self.funcs, self.domains))):
+            if d.start > x - min_step:
+                continue
+            if d.end <= x - min_step:
+                return d.end
+            x1 = f.x_previous(x, min_step=min_step)
+            if x1 is None or not d.contains(x1):
+                x1 = d.start
+            if math.isinf(x1):
+                x1 = f.x_previous(x, min_step=min_step, limit=limit)
+            return x1
+        return None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
-            return None
-        x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x):
-            return self.domains[-1].end
+        for f, d in zip(self.funcs, self.domains):
+            if d.end < x + min_step:
+                continue
+            if d.start >= x + min_step:
+                return d.start
+            x1 = f.x_next(x, min_step=min_step)
+            if x1 is None or not d.contains(x1):
+                x1 = d.end
+            if math.isinf(x1):
+                x1 = f.x_next(x, min_step=min_step, limit=limit)
+            return x1
+        return None
-- 
2.43.0


From 6e46a47a2392608b4f38df0e1896f7aa023a7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 07/72] fix: a subset follows updates of its curve

Observers of a subset (including curves derived from it) were never told that
the curve changed, and sampling a subset ignored the steps of the curve.
---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ef5fd35..5719081 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -697,8 +697,8 @@ class Curve:
         return d
 
     def subset(self, domain):
-        from .generic import Generic
-        return Generic(self, domain=domain, min_step=self.min_step)
+        from .piecewise import Piecewise
+        return Piecewise([self], [domain])
 
     @classmethod
     def first(cls, funcs, *args):
-- 
2.43.0


From 4786e6e0886bd1e317d7d4125548c7d7078ca05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 08/72] fix: steps of accumulated curves do not depend on what
 was read

x_next() and x_previous() preferred the points accumulated so far over those of
the source.
---
 curvepy/accumulator.py | 8 --------
 curvepy/scan.py        | 2 +-
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..39cff07 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,14 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
-
-    def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
-
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..4932d8c 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = self.curve.x_next(self.current, min_step=self.min_step, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From 45baab71520d65267ebfd2f52762143e4e15ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 09/72] fix: a moving average never steps outside of its domain

---
 curvepy/sma.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..083346c 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -111,6 +111,14 @@ class SMA(Integral):
             return sma
         return sma
 
+    def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_previous(x, min_step=min_step, limit=limit)
+        return x1 if self.domain.contains(x1) else None
+
+    def x_next(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_next(x, min_step=min_step, limit=limit)
+        return x1 if self.domain.contains(x1) else None
+
     def _sma_start(self, x):
         if self.period is not None:
             x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
-- 
2.43.0


From f3948b0e9b2528489b363f8de71a9f455bc55263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 10/72] fix: steps of combinations do not depend on the limit
 asked for

Operands without steps of their own answered the limit, which made accumulated
curves include positions which depended on what was read. Combinations no
longer step outside of their domain.
---
 curvepy/aggregate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..ff01dca 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -56,10 +57,18 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step), self.funcs), x)
+        if x1 is None or math.isinf(x1):
+            # Only functions without steps are left
+            x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step), self.funcs), x)
+        if x1 is None or math.isinf(x1):
+            # Only functions without steps are left
+            x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1 if self.domain.contains(x1) else None
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From 812a4180907df1ea61ae058b193df677d9dbd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 11/72] fix: an offset curve shifts the limit of a step

---
 curvepy/offset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..dc4b185 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,6 +66,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
+            limit = self._unoffset_x(limit, floor=False)
             x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
@@ -78,6 +79,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
+            limit = self._unoffset_x(limit, floor=True)
             x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
-- 
2.43.0


From 9636fda3aaa143d4bfce40cba382e2a3483c474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 12/72] fix: drop what was scanned while an update was in
 progress

Reading a scanned curve between the begin and end notifications of its source
left values of the old data in place after the update.
---
 curvepy/scan.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 4932d8c..49c15d4 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -93,10 +93,22 @@ class Scan(Curve):
         self.begin_update(Interval.infinite())
 
     def end_scan_reset(self):
+        # Drop anything scanned during the update
+        self.reset_scan()
         self.end_update(Interval.infinite())
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_stale_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # Drop anything scanned during the update
+        self._reset_stale_scan(domain)
+        self.end_update(domain)
+
+    def _reset_stale_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -104,11 +116,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 1fb0dd2409094240398fa3c41c89099f254f2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 13/72] fix: extremas are those of the current data after every
 update

After an update, extremas whose confirmation was gone stayed, candidates were
taken for confirmed extremas and could be found twice, updates of the reference
left stale extremas, and observers were not told of the whole changed range.
---
 curvepy/extremas.py | 74 +++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..7a7509b 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -1,3 +1,4 @@
+import math
 import bisect
 from .scan import Scan
 from .curve import Curve, MIN_STEP
@@ -12,14 +13,17 @@ class Extremas(Scan):
         self.min_deviation = abs(min_deviation)
         self.extremas = []
         self.extrema_xs = []
+        self.extrema_confirmations = []
         self.extrema_interval = Interval.empty()
         self.possible_extrema = None
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(
+            begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
+        super().__del__()
         self.ref_func.remove_observer(self._ref_observer_token)
 
     def scanned_y(self, x):
@@ -42,8 +46,14 @@ class Extremas(Scan):
             return False
         return not self.extrema_interval.contains(x, enforce_start=False)
 
+    def scan_all(self):
+        domain = self.curve.domain
+        if domain.is_finite and not domain.is_empty:
+            self.scan(domain.end)
+
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan_all()
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -54,6 +64,7 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan_all()
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
@@ -62,26 +73,41 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-        # remove stale points
-        for i in reversed(range(len(self.extremas))):
-            x = self.extrema_xs[i]
-            if domain.contains(x):
-                self._remove_extrema_index(i)
-            elif domain.start > x:
-                break
-
-        # scan from last extrema
-        extrema_count = len(self.extremas)
-        if extrema_count == 0:
-            self.current = None
-        else:
-            last_extrema = self.extremas[-1]
-            x = last_extrema[0]
-            self.current = x
-            self.possible_extrema = last_extrema
-            self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self.extrema_confirmations = []
+        self._did_update_extremas()
+
+    def begin_scan_update(self, domain):
+        self._reset_stale_scan(domain)
+        self.begin_update(self._unconfirmed_interval())
+
+    def end_scan_update(self, domain):
+        # Drop anything scanned during the update
+        self._reset_stale_scan(domain)
+        self.end_update(Interval.union([self.update_interval, self._unconfirmed_interval()]))
+
+    def _unconfirmed_interval(self):
+        if len(self.extremas) == 0:
+            return Interval.infinite()
+        return Interval(self.extrema_xs[-1], math.inf, start_open=True, end_open=True)
+
+    def _reset_stale_scan(self, domain):
+        if self.current is None or not self._is_stale(self.current, domain):
+            return
+        # Keep extremas which were confirmed before the update and resume from there
+        while len(self.extremas) != 0 and self._is_stale(self.extrema_confirmations[-1][0][0], domain):
+            self._remove_extrema_index(len(self.extremas) - 1)
+        if len(self.extremas) == 0:
+            self.reset_scan()
+            return
+        self.possible_extrema, self.possible_extrema_phase = self.extrema_confirmations[-1]
+        self.current = self.possible_extrema[0]
+
+    def _is_stale(self, x, domain):
+        return domain.start < x or (domain.start == x and not domain.start_open)
 
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
@@ -105,7 +131,7 @@ class Extremas(Scan):
         is_possible_extrema = False
         if self.possible_extrema_phase * phase < 0:
             # phase inflection
-            self._confirm_extrema()
+            self._confirm_extrema(((x, y), phase))
             is_possible_extrema = True
         elif (phase > 0 and y > self.possible_extrema[1]) or (phase < 0 and y < self.possible_extrema[1]):
             is_possible_extrema = True
@@ -116,13 +142,15 @@ class Extremas(Scan):
     def _remove_extrema_index(self, i):
         del self.extremas[i]
         del self.extrema_xs[i]
+        del self.extrema_confirmations[i]
         self._did_update_extremas()
 
-    def _confirm_extrema(self):
+    def _confirm_extrema(self, confirmation):
         extrema = self.possible_extrema
 
         self.extremas.append(extrema)
         self.extrema_xs.append(extrema[0])
+        self.extrema_confirmations.append(confirmation)
         self._did_update_extremas()
 
     def _did_update_extremas(self):
-- 
2.43.0


From 75ae02c9eef8280ea0ea1352df366c83ec7a7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 14/72] fix: exponential averages follow updates of their
 initial curve

---
 curvepy/ema.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..363d576 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,9 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        if self.init_func is not None:
+            self._init_observer_token = self.init_func.add_observer(
+                begin=self.begin_scan_reset, end=self.end_scan_reset, prioritize=True)
 
     def __repr__(self):
         try:
-- 
2.43.0


From 69218b7c856b5a1450e5442a326e890d1d4cda45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 15/72] fix: integrals of lines stay accurate far away from the
 origin

---
 curvepy/line.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/curvepy/line.py b/curvepy/line.py
index 79a0f09..bfbdcd6 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -72,12 +72,8 @@ class Line(Curve):
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-        # f(x) = slope / 2 * x ^ 2 + const * x + K
-        # integral = f(b) - f(a)
-        if a is not None and a == b:
+        if a == b:
             return 0
-        const = self.const
-        slope = self.slope
-        ia = slope * 0.5 * a ** 2 + const * a
-        ib = slope * 0.5 * b ** 2 + const * b
-        return ib - ia
+        # The area of a trapezoid, which (unlike the difference of
+        # antiderivatives) stays accurate far away from the origin.
+        return (self.y(a) + self.y(b)) * 0.5 * (b - a)
-- 
2.43.0


From db01b2a30eef4175fc37c6894982e5e8f2ab519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 16/72] fix: derivatives announce every slope which changes

The slope at a position next to a changed one changes too, but was not
announced, so that observers and scans of a derivative missed it.
---
 curvepy/curve.py        |  6 ++----
 curvepy/differential.py | 39 +++++++++++++++++++++++++++++++++++++++
 curvepy/scan.py         |  5 ++++-
 3 files changed, 45 insertions(+), 5 deletions(-)
 create mode 100644 curvepy/differential.py

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 5719081..cf2e305 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -691,10 +691,8 @@ class Curve:
         )
 
     def differential(self, forward=False):
-        from .map import Map
-        d = Map(self, lambda x, y: self.d_y(x, forward=forward))
-        d.name = 'diff'
-        return d
+        from .differential import Differential
+        return Differential(self, forward=forward)
 
     def subset(self, domain):
         from .piecewise import Piecewise
diff --git a/curvepy/differential.py b/curvepy/differential.py
new file mode 100644
index 0000000..13a85a3
--- /dev/null
+++ b/curvepy/differential.py
@@ -0,0 +1,39 @@
+import math
+from .map import Map
+from intervalpy import Interval
+
+
+class Differential(Map):
+
+    """
+    The slope of a function between neighbouring positions.
+    """
+
+    def __init__(self, func, forward=False):
+        self.forward = forward
+        super().__init__(func, self._slope, name='diff')
+
+    def begin_update(self, domain):
+        super().begin_update(self._slope_interval(domain))
+
+    def end_update(self, domain):
+        super().end_update(self._slope_interval(domain))
+
+    def _slope(self, x, y):
+        return self.curve.d_y(x, forward=self.forward)
+
+    def _slope_interval(self, domain):
+        # Slopes also change up to the positions next to the changed ones
+        if domain.is_empty:
+            return domain
+        start, start_open = domain.start, domain.start_open
+        end, end_open = domain.end, domain.end_open
+        if self.forward:
+            if not start_open:
+                start = -math.inf
+            start_open = math.isinf(start)
+        else:
+            if not end_open:
+                end = math.inf
+            end_open = math.isinf(end)
+        return Interval(start, end, start_open=start_open, end_open=end_open)
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 49c15d4..d2946dd 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -117,4 +117,7 @@ class Scan(Curve):
             self.reset_scan()
 
     def _update_interval(self, domain):
-        return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
+        if not domain.start_open:
+            # The value at the start may change and so may those interpolated from it
+            return Interval.infinite()
+        return Interval(domain.start, math.inf, start_open=True, end_open=True)
-- 
2.43.0


From e9034c9676b063fd21d605ac11a6280533d404c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 17/72] fix: sampling includes exactly the positions asked for

An open end was sampled when it was a position of the curve, a range starting
open without positions inside failed, and sampling from a position left out the
position itself.
---
 curvepy/curve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index cf2e305..46e0c0e 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -184,13 +184,15 @@ class Curve:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while x < x_end or (x == x_end and not domain.end_open):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
             x = self.x_next(x_start, min_step=min_step, limit=x_end)
             while x is not None and x <= x_end:
+                if x == x_end and domain.end_open:
+                    break
                 y = self.y(x)
                 points.append((x, y))
                 x_bin = round(x / min_step) if min_step is not None else x
@@ -203,7 +205,7 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
@@ -226,6 +228,7 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From f19201ab5faeceb07fefb9694da74a9f57cb12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 18/72] fix: quotes are encoded once, trailing low and range

A single appended quote was encoded twice, the trailing low was the highest low
and the range of quotes failed.
---
 curvepy/quotes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From fe4c8f921e97a411dd07ed9a26d3a4034688499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 19/72] fix: extensions follow every update of their curve and
 announce it

---
 curvepy/extension/constant.py  |  2 -
 curvepy/extension/extension.py | 77 +++++++++++++++-------------------
 curvepy/extension/tangent.py   | 10 ++++-
 3 files changed, 41 insertions(+), 48 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..2a36e55 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,8 +12,6 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
             return
 
         if self.start:
diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..ceac052 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -10,7 +10,7 @@ class Extension(Curve):
     name = ""
 
     def get_domain(self):
-        self._update_extension_interval()
+        self._update_extension_if_needed()
         return Interval.union([self.curve.domain, self.extension_interval])
 
     def __init__(self, func, start=True, end=True, uniform=True, raise_on_empty=False, min_step=MIN_STEP):
@@ -30,16 +30,13 @@ class Extension(Curve):
         self.raise_on_empty = raise_on_empty
         self.extension_interval = Interval.empty()
         self._extension_stale = True
-        self._extension_interval_stale = True
         self.curve.add_observer(begin=self.begin_extension_update, end=self.end_extension_update, prioritize=True)
         self.start_func = None
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -112,53 +109,45 @@ class Extension(Curve):
             x1 = x + step
         return x1
 
-    def is_in_extension(self, x):
-        domain = Interval.parse(x)
-        return (self.start and domain <= self.extension_interval) or \
-            (self.end and domain >= self.extension_interval)
-
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._get_changed_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
-
-    def _update_extension_interval(self):
-        if not self._extension_interval_stale:
-            return
-        self._extension_interval_stale = False
-        if self._extension_stale:
-            self._update_extension_if_needed()
-
-        if self.start and self.start_valid and self.end and self.end_valid:
-            self.extension_interval = Interval.union([self.start_func.domain, self.end_func.domain])
-        elif self.start and self.start_valid:
-            self.extension_interval = Interval.intersection([self.start_func.domain, self.curve.domain.get_lt()])
-        elif self.end and self.end_valid:
-            self.extension_interval = Interval.intersection([self.end_func.domain, self.curve.domain.get_gt()])
-        else:
-            self.extension_interval = Interval.empty()
-        self.update_extension_interval()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
-            
+        self._extension_stale = True
+        self.end_update(self._get_changed_interval(domain))
+
+    def _get_changed_interval(self, domain):
+        # Any change may also move the edges and slopes which are extended
+        if domain.is_empty:
+            return domain
+        changed = [domain]
+        if self.start:
+            changed.append(Interval.lt(domain.start))
+        if self.end:
+            changed.append(Interval.gt(domain.end))
+        return Interval.union(changed)
+
+    def _get_extension_interval(self):
+        if self.curve.domain.is_empty:
+            return Interval.empty()
+        start = self.start and self.start_valid
+        end = self.end and self.end_valid
+        if start and end:
+            return Interval.union([self.start_func.domain, self.end_func.domain])
+        elif start:
+            return Interval.intersection([self.start_func.domain, self.curve.domain.get_lt()])
+        elif end:
+            return Interval.intersection([self.end_func.domain, self.curve.domain.get_gt()])
+        return Interval.empty()
+
     def _update_extension_if_needed(self):
         if not self._extension_stale:
             return
-        self._extension_stale = False
-        self._extension_interval_stale = True
-
         self.update_extension()
+        self.extension_interval = self._get_extension_interval()
+        self.update_extension_interval()
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
             if self.raise_on_empty:
                 raise Exception('Unable to extend func')
-        self._update_extension_interval()
+        # The curve may still change while it is updating
+        self._extension_stale = self.is_updating
diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..ea82a62 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -32,7 +32,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x_next = self.curve.x_next(x1, min_step=self.min_step)
+                    if x_next is None:
+                        break
+                    x1 = x_next
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +64,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x_previous = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x_previous is None:
+                        break
+                    x0 = x_previous
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 8aa04a05746b787f98fcebdb046306e5902c0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 20/72] fix: an offset curve can be offset again

---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index dc4b185..d75efb4 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self.x_offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self.x_offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self.x_offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -95,17 +95,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self.x_offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self.x_offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self.x_offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self.x_offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From bcff88aa8c8163cd282c4222fb7996e8aa727a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 21/72] fix: moving averages between and before samples

---
 curvepy/sma.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 083346c..0e24640 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -15,7 +15,7 @@ class SMA(Integral):
         if d.is_empty:
             return Interval.empty()
         if self.period is not None:
-            x = self.curve.x_previous(d.start + self.period, min_step=self.min_step)
+            x = self._sma_end(d.start)
             if x is None:
                 p = self.period
             else:
@@ -54,13 +54,12 @@ class SMA(Integral):
             return super().__repr__() + f'({e})'
 
     def init_scan(self, x):
-        return x
-        # if self.curve.domain.is_empty or self.curve.domain.is_negative_infinite:
-        #     return x
-        # x0 = self.curve.x_previous(x, min_step=self.min_step)
-        # if not self.domain.contains(x0):
-        #     x0 = self.curve.x_next(self.curve.domain.start, min_step=self.min_step)
-        # return x0
+        # Start at a position of the function
+        x0 = self.curve.x_previous(x, min_step=self.min_step)
+        if x0 is None:
+            return x
+        x1 = self.curve.x_next(x0, min_step=self.min_step)
+        return x if x1 is None or x1 <= x else x0
 
     def offset_scan(self, x):
         return self._sma_start(x)
@@ -107,7 +106,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = u * sma1 + (1 - u) * sma01
             return sma
         return sma
 
@@ -121,7 +120,11 @@ class SMA(Integral):
 
     def _sma_start(self, x):
         if self.period is not None:
-            x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
+            x0 = x - self.period
+            if x0 + self.min_step <= self.curve.domain.start:
+                # Curves do not have to step from outside of their domain
+                return self.curve.domain.start
+            x0 = self.curve.x_next(x0, min_step=self.min_step)
         elif self.degree is not None:
             x0 = x
             for _ in range(0, self.degree - 1):
@@ -135,7 +138,11 @@ class SMA(Integral):
 
     def _sma_end(self, x):
         if self.period is not None:
-            x0 = self.curve.x_previous(x + self.period, min_step=self.min_step)
+            x0 = x + self.period
+            if x0 - self.min_step >= self.curve.domain.end:
+                # Curves do not have to step from outside of their domain
+                return self.curve.domain.end
+            x0 = self.curve.x_previous(x0, min_step=self.min_step)
         elif self.degree is not None:
             x0 = x
             for _ in range(0, self.degree - 1):
-- 
2.43.0


From 1c81d9fe4fe2750383bd194788be76f64d229460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 22/72] fix: blends follow the domain of their curve

---
 curvepy/blend.py | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 curvepy/curve.py | 14 ++------------
 2 files changed, 48 insertions(+), 12 deletions(-)
 create mode 100644 curvepy/blend.py

diff --git a/curvepy/blend.py b/curvepy/blend.py
new file mode 100644
index 0000000..dc89894
--- /dev/null
+++ b/curvepy/blend.py
@@ -0,0 +1,46 @@
+from .aggregate import Aggregate
+from .curve import MIN_STEP
+from .piecewise import Piecewise
+from intervalpy import Interval
+
+
+class Blend(Piecewise):
+
+    """
+    Moves linearly from one function to another in the blending range.
+    """
+
+    def get_domain(self):
+        return self.funcs[0].domain
+
+    def __init__(self, func1, func2, x_blend_start, x_blend_stop):
+        self.x_blend_start = x_blend_start
+        self.x_blend_period = x_blend_stop - x_blend_start
+        blend = Aggregate([func1, func2], tfm=self._blend, name='blend')
+        super().__init__(
+            [func1, blend, func2],
+            Interval.infinite().partition([x_blend_start, x_blend_stop])
+        )
+
+    def _blend(self, x, ys):
+        if None in ys:
+            return None
+        u = (x - self.x_blend_start) / self.x_blend_period
+        return (1.0 - u) * ys[0] + u * ys[1]
+
+    def y(self, x):
+        if not self.domain.contains(x):
+            return None
+        return super().y(x)
+
+    def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_previous(x, min_step=min_step, limit=limit)
+        if x1 is not None and x1 < self.domain.start <= x - self.resolve_min_step(min_step):
+            return self.domain.start
+        return x1 if self.domain.contains(x1) else None
+
+    def x_next(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_next(x, min_step=min_step, limit=limit)
+        if x1 is not None and x1 > self.domain.end >= x + self.resolve_min_step(min_step):
+            return self.domain.end
+        return x1 if self.domain.contains(x1) else None
diff --git a/curvepy/curve.py b/curvepy/curve.py
index 46e0c0e..d680210 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -553,18 +553,8 @@ class Curve:
         return self.map(_abs)
 
     def blend(self, func, x_blend_start, x_blend_stop):
-        from .aggregate import Aggregate
-        from .piecewise import Piecewise
-        
-        x_blend_period = x_blend_stop - x_blend_start
-        def blend_f(x, ys):
-            u = (x - x_blend_start) / x_blend_period
-            return (1.0 - u) * ys[0] + u * ys[1]
-        c = Aggregate([self, func], tfm=blend_f, name='blend')
-
-        funcs = [self, c, func]
-        domains = self.domain.partition([x_blend_start, x_blend_stop])
-        return Piecewise(funcs, domains)
+        from .blend import Blend
+        return Blend(self, func, x_blend_start, x_blend_stop)
 
     def extension(self, name, start=False, end=True, raise_on_empty=False, **kwds):
         from .extension import ConstantExtension
-- 
2.43.0


From 0ef789a27e030ebcdfa6ec82867536fd7fbf390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 23/72] fix: dates without an offset are local and only dates
 are converted

---
 curvepy/curve.py |  7 +++----
 curvepy/util.py  | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index d680210..620bc1f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1,7 +1,6 @@
 import math
 import weakref
 import inspect
-import arrow
 import numpy as np
 from contextlib import contextmanager
 from numbers import Number
@@ -1049,9 +1048,9 @@ class Curve:
                     fragment=True,
                     decorators=decorators
                 ) for v in d]
-            elif 'date' in decorators:
-                return arrow.get(d).timestamp
-            elif isinstance(d, Number):
+            elif 'date' in decorators and isinstance(d, str):
+                return util.parse_timestamp(d)
+            elif isinstance(d, Number) and not isinstance(d, bool):
                 if 'log' in decorators:
                     return math.log(d)
                 elif 'log2' in decorators:
diff --git a/curvepy/util.py b/curvepy/util.py
index cd63e4f..e33906c 100644
--- a/curvepy/util.py
+++ b/curvepy/util.py
@@ -1,4 +1,8 @@
+import arrow
 import inspect
+import re
+from arrow.parser import DateTimeParser
+from dateutil import tz
 from typing import Mapping, Iterable
 
 
@@ -45,3 +49,14 @@ def count_positional_args(f, default=1):
             param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
             count += 1
     return count
+
+
+def parse_timestamp(date):
+    """
+    Returns the seconds from Unix epoch of a date string. Without a
+    GMT offset, the current local time zone is used.
+    """
+    if arrow.util.is_timestamp(date) or re.search(r'\d\s*(Z|UTC|GMT)$', date.strip(), re.IGNORECASE):
+        return arrow.get(date).timestamp
+    date = DateTimeParser().parse_iso(date)
+    return arrow.Arrow.fromdatetime(date, date.tzinfo or tz.tzlocal()).timestamp
-- 
2.43.0


From 708659d9ef8bb28ce5e0a1ab2846c96c258fa687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 24/72] fix: the slope of a sine depends on its frequency

---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9c99741..b5ca480 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -40,5 +40,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From 902b44bd3cf19c23400333acc52384950d442ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 25/72] fix: nothing is extended while a curve is empty

---
 curvepy/extension/constant.py  | 3 ---
 curvepy/extension/extension.py | 3 ++-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 2a36e55..f63709a 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -11,9 +11,6 @@ class ConstantExtension(Extension):
     name = "constant"
 
     def update_extension(self):
-        if self.curve.domain.is_empty:
-            return
-
         if self.start:
             x = self.curve.domain.start
             y = self.curve.y(x)
diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index ceac052..8a4ac6f 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -143,7 +143,8 @@ class Extension(Curve):
     def _update_extension_if_needed(self):
         if not self._extension_stale:
             return
-        self.update_extension()
+        if not self.curve.domain.is_empty:
+            self.update_extension()
         self.extension_interval = self._get_extension_interval()
         self.update_extension_interval()
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-- 
2.43.0


From 6dbf5d75bee145ad696caea68961b36329f035e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 26/72] fix: a sine extension continues a curve which ends at
 zero

---
 curvepy/extension/sin.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..ae4bf76 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -23,15 +23,9 @@ class SinExtension(TangentExtension):
         x_coef = 2 * math.pi / self.period
         angle = x_coef * x
 
-        # phase
-        num = x_coef * y * math.cos(angle) - dy * math.sin(angle)
-        den = x_coef * y * math.sin(angle) + dy * math.cos(angle)
-        phase = math.atan2(num, den)
-
-        # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        # amplitude and phase such that the wave has the value y
+        # and the slope dy at x
+        phase = math.atan2(x_coef * y, dy) - angle
+        amplitude = math.hypot(y, dy / x_coef)
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From a2aaf18a70e3417a94ddb5c4d7c11f50e7d3658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 27/72] fix: samples from a position need no step size

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 620bc1f..80f824f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -211,7 +211,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
-- 
2.43.0


From 72ca5606c02f846adfc3b96d1c8454f539894815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 28/72] fix: an average over a period announces that its first
 position moves

---
 curvepy/sma.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 0e24640..3e54159 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -64,6 +64,16 @@ class SMA(Integral):
     def offset_scan(self, x):
         return self._sma_start(x)
 
+    def _update_interval(self, domain):
+        interval = super()._update_interval(domain)
+        if self.period is not None:
+            # While the curve is shorter than the period, its last position
+            # has the average of what there is, which any update may move.
+            d = self.curve.domain
+            if d.is_empty or interval.start < d.start + self.period:
+                return Interval.infinite()
+        return interval
+
     def y(self, x):
         # Return the average slope as the SMA
         if not self.domain.contains(x):
-- 
2.43.0


From 9c60be9c4735abb5fa6a45821c91e0f57582a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 29/72] fix: curves combined over the union of their domains
 step into each of them

---
 curvepy/aggregate.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index ff01dca..4669739 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -57,19 +57,31 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step), self.funcs), x)
+        x1 = max_or_none(map(lambda f: self._func_x_previous(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
             x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
         return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step), self.funcs), x)
+        x1 = min_or_none(map(lambda f: self._func_x_next(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
             x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
         return x1 if self.domain.contains(x1) else None
 
+    def _func_x_previous(self, f, x, min_step):
+        if self.is_union and not f.domain.is_empty and x - min_step >= f.domain.end:
+            # Functions do not have to step from outside of their domain
+            return f.domain.end
+        return f.x_previous(x, min_step=min_step)
+
+    def _func_x_next(self, f, x, min_step):
+        if self.is_union and not f.domain.is_empty and x + min_step <= f.domain.start:
+            # Functions do not have to step from outside of their domain
+            return f.domain.start
+        return f.x_next(x, min_step=min_step)
+
 
 def min_or_none(iterable, gt):
     min = None
-- 
2.43.0


From 03388adec7c1ed4b9759cca77e3ba8974ad2ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 30/72] fix: nested updates of a curve end those of its scans
 and derivatives

---
 curvepy/differential.py | 10 ++++++++--
 curvepy/scan.py         |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/curvepy/differential.py b/curvepy/differential.py
index 13a85a3..0211329 100644
--- a/curvepy/differential.py
+++ b/curvepy/differential.py
@@ -11,13 +11,19 @@ class Differential(Map):
 
     def __init__(self, func, forward=False):
         self.forward = forward
+        self._begun_update_interval = Interval.empty()
         super().__init__(func, self._slope, name='diff')
 
     def begin_update(self, domain):
-        super().begin_update(self._slope_interval(domain))
+        domain = self._slope_interval(domain)
+        self._begun_update_interval = Interval.union([self._begun_update_interval, domain])
+        super().begin_update(domain)
 
     def end_update(self, domain):
-        super().end_update(self._slope_interval(domain))
+        # Several updates of the function may end as one
+        domain = Interval.union([self._begun_update_interval, self._slope_interval(domain)])
+        self._begun_update_interval = Interval.empty()
+        super().end_update(domain)
 
     def _slope(self, x, y):
         return self.curve.d_y(x, forward=self.forward)
diff --git a/curvepy/scan.py b/curvepy/scan.py
index d2946dd..e321681 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -14,6 +14,7 @@ class Scan(Curve):
         self.tfm = tfm
         self.scan_start = None
         self.current = None
+        self._begun_update_interval = Interval.empty()
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
@@ -99,11 +100,14 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._begun_update_interval = Interval.union([self._begun_update_interval, domain])
         self._reset_stale_scan(domain)
         self.begin_update(domain)
 
     def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
+        # Several updates of the curve may end as one
+        domain = Interval.union([self._begun_update_interval, self._update_interval(domain)])
+        self._begun_update_interval = Interval.empty()
         # Drop anything scanned during the update
         self._reset_stale_scan(domain)
         self.end_update(domain)
-- 
2.43.0


From c9ac1f7856dcf91b1e5722158817b5c2d13dfc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 31/72] fix: averages do not read their curve while it is
 updating

---
 curvepy/sma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 3e54159..96f3ce0 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -15,6 +15,7 @@ class SMA(Integral):
         if d.is_empty:
             return Interval.empty()
         if self.period is not None:
+            self._window_end = d.start + self.period
             x = self._sma_end(d.start)
             if x is None:
                 p = self.period
@@ -35,6 +36,7 @@ class SMA(Integral):
         return Interval.closed(d_start, d.end)
 
     def __init__(self, func, degree, is_period=True, uniform=True, min_step=MIN_STEP):
+        self._window_end = None
         super().__init__(func, uniform=uniform, min_step=min_step)
         self.degree = None
         self.period = None
@@ -69,8 +71,8 @@ class SMA(Integral):
         if self.period is not None:
             # While the curve is shorter than the period, its last position
             # has the average of what there is, which any update may move.
-            d = self.curve.domain
-            if d.is_empty or interval.start < d.start + self.period:
+            if self._window_end is None or interval.start < self._window_end:
+                self._window_end = None
                 return Interval.infinite()
         return interval
 
-- 
2.43.0


From aeb1469a7b659109f7dfa3174b92e324a09447bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 32/72] fix: the domain of a curve is never stale while it is
 updating

---
 curvepy/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 80f824f..08d6ae0 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -35,7 +35,8 @@ class Curve:
 
     @property
     def domain(self):
-        if self.needs_domain_update:
+        if self.needs_domain_update or self.is_updating:
+            # The domain may change at any time while updating
             self._domain = self.get_domain()
         return self._domain
 
-- 
2.43.0


From 5ac1e6a1b6d6f051c305ae9fc59043b1e9802033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 33/72] fix: nested arguments of descriptors are parsed once

---
 curvepy/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 08d6ae0..dbbe52b 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -966,6 +966,9 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    # Arguments have already been parsed
+                    fragment_vals[k] = v
+                    continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From ad62093fcab3e0a56b0a1651c1389cba45e8ee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 34/72] fix: numbers in nested log spaces use the innermost
 base

---
 curvepy/curve.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index dbbe52b..b039385 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -953,9 +953,7 @@ class Curve:
                     if oname.startswith('log'):
                         # Log space has ended, exit log space
                         # by raising to power
-                        base_str = oname[3:]
-                        base = int(base_str) if bool(base_str) else math.e
-                        v = base ** v
+                        v = cls._log_base(oname) ** v
                     
                     if isinstance(v, Curve):
                         # Allow chaining
@@ -984,8 +982,7 @@ class Curve:
                         from .line import Line
                         fconstructor = Line
                     elif fname.startswith('log'):
-                        base_str = fname[3:]
-                        base = int(base_str) if bool(base_str) else math.e
+                        base = cls._log_base(fname)
                         def _dot_log(*args, **kwargs):
                             return current_func.log(**util.extend({ "base": base }, kwargs))
                         fconstructor = _dot_log
@@ -1055,19 +1052,21 @@ class Curve:
             elif 'date' in decorators and isinstance(d, str):
                 return util.parse_timestamp(d)
             elif isinstance(d, Number) and not isinstance(d, bool):
-                if 'log' in decorators:
-                    return math.log(d)
-                elif 'log2' in decorators:
-                    return math.log(d, 2)
-                elif 'log10' in decorators:
-                    return math.log(d, 10)
-                else:
-                    return d
+                # The innermost log space applies
+                for oname in reversed(decorators):
+                    if oname.startswith('log'):
+                        return math.log(d, cls._log_base(oname))
+                return d
             else:
                 return d
         else:
             raise TypeError('Unexpected type found while parsing a function')
 
+    @classmethod
+    def _log_base(cls, name):
+        base_str = name[3:]
+        return int(base_str) if bool(base_str) else math.e
+
     @classmethod
     def parse_many(cls, funcs, *args):
         if not isinstance(funcs, Sequence):
-- 
2.43.0


From 45e2a43f80408613c77f2ddbf76aa6812b64da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 35/72] fix: trends scan again from the start without what was
 found before

---
 curvepy/trend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..0e1d6f9 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,6 +90,13 @@ class Trend(Scan):
 
         return is_empty
 
+    def reset_scan(self):
+        # Points are going to be scanned again from the start
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     def begin_update(self, domain):
         super().begin_update(domain)
 
-- 
2.43.0


From 2a580a140527e8976c21fe9b257f024bd287b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 36/72] fix: the points of a trend line are in order

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 0e1d6f9..a60f1b1 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -460,6 +460,7 @@ class TrendLine(Sequence):
                     resulting_points.append(p)
             resulting_points.insert(0, line[0])
             resulting_points.append(line[1])
+            resulting_points.sort(key=lambda p: p[0])
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From bc383a1036e874db482745a7af95c9112395d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 37/72] fix: trends pass the distance between points to their
 lines

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index a60f1b1..493874c 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -229,6 +229,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance, 
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From ae46f4b6b24fde0dbacabc6d29476c882a61be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 38/72] fix: averages and combinations can be stepped into from
 outside of their domain

---
 curvepy/aggregate.py | 8 ++++++++
 curvepy/sma.py       | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 4669739..70f0723 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -57,6 +57,10 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        domain = self.domain
+        if not domain.is_empty and not domain.end_open and x - min_step >= domain.end:
+            # Functions do not have to step from outside of the domain
+            return domain.end
         x1 = max_or_none(map(lambda f: self._func_x_previous(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
@@ -64,6 +68,10 @@ class Aggregate(Curve):
         return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        domain = self.domain
+        if not domain.is_empty and not domain.start_open and x + min_step <= domain.start:
+            # Functions do not have to step from outside of the domain
+            return domain.start
         x1 = min_or_none(map(lambda f: self._func_x_next(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
diff --git a/curvepy/sma.py b/curvepy/sma.py
index 96f3ce0..94430c5 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -123,10 +123,18 @@ class SMA(Integral):
         return sma
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        domain = self.domain
+        if not domain.is_empty and x - self.resolve_min_step(min_step) >= domain.end:
+            # Curves do not have to step from outside of their domain
+            return domain.end
         x1 = super().x_previous(x, min_step=min_step, limit=limit)
         return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        domain = self.domain
+        if not domain.is_empty and x + self.resolve_min_step(min_step) <= domain.start:
+            # Curves do not have to step from outside of their domain
+            return domain.start
         x1 = super().x_next(x, min_step=min_step, limit=limit)
         return x1 if self.domain.contains(x1) else None
 
-- 
2.43.0


From f7737a6ffac55f847ba3ebe155c2c66ba76ebdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 39/72] fix: extensions do not step outside of their domain

---
 curvepy/extension/extension.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 8a4ac6f..fcb0da4 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -88,6 +88,8 @@ class Extension(Curve):
         return None
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        if self.curve.domain.is_empty:
+            return None
         x1 = self.curve.x_previous(x, min_step=min_step)
         if x1 is None and self.start:
             # Keep returning extension with same step
@@ -96,9 +98,11 @@ class Extension(Curve):
                 return None
             step = x0 - self.curve.domain.start
             x1 = x - step
-        return x1
+        return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self.curve.domain.is_empty:
+            return None
         x1 = self.curve.x_next(x, min_step=min_step)
         if x1 is None and self.end:
             # Keep returning extension with same step
@@ -107,7 +111,7 @@ class Extension(Curve):
                 return None
             step = self.curve.domain.end - x0
             x1 = x + step
-        return x1
+        return x1 if self.domain.contains(x1) else None
 
     def begin_extension_update(self, domain):
         self.begin_update(self._get_changed_interval(domain))
-- 
2.43.0


From 8b3c9f1493f699792179333db6b0c50171a37036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 40/72] fix: blends with an empty curve can be stepped

---
 curvepy/blend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/blend.py b/curvepy/blend.py
index dc89894..f750ad7 100644
--- a/curvepy/blend.py
+++ b/curvepy/blend.py
@@ -34,12 +34,16 @@ class Blend(Piecewise):
         return super().y(x)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        if self.domain.is_empty:
+            return None
         x1 = super().x_previous(x, min_step=min_step, limit=limit)
         if x1 is not None and x1 < self.domain.start <= x - self.resolve_min_step(min_step):
             return self.domain.start
         return x1 if self.domain.contains(x1) else None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self.domain.is_empty:
+            return None
         x1 = super().x_next(x, min_step=min_step, limit=limit)
         if x1 is not None and x1 > self.domain.end >= x + self.resolve_min_step(min_step):
             return self.domain.end
-- 
2.43.0


From e2a41c429289f380b0ba8346111f510dcaa8bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 41/72] fix: a range of a single position is sampled once

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index b039385..71c899c 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -123,6 +123,8 @@ class Curve:
             x1 = x + min_step
         if limit is not None and x1 > limit:
             x1 = limit
+            if x1 <= x:
+                return None
         if not self.domain.contains(x1, enforce_start=False):
             return None
         return x1
@@ -135,6 +137,8 @@ class Curve:
             x1 = x - min_step
         if limit is not None and x1 < limit:
             x1 = limit
+            if x1 >= x:
+                return None
         if not self.domain.contains(x1, enforce_end=False):
             return None
         return x1
-- 
2.43.0


From 740fdfff95ef24de0859e6190342670d06b87ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 42/72] fix: searches stop at level extremes

minimise and maximise walked back and forth on samples of equal value
until they ran out of iterations, and answered wherever that left them.
---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 71c899c..e1a10a7 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -290,7 +290,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 <= 0 and dy1 >= 0:
+                if dy0 <= 0 and dy1 >= 0:
                     # Found minimum
                     return x_min
 
@@ -341,7 +341,7 @@ class Curve:
                     # Sloping into null value
                     return None
             else:
-                if dy0 * dy1 < 0 and dy0 >= 0 and dy1 <= 0:
+                if dy0 >= 0 and dy1 <= 0:
                     # Found maximum
                     return x_max
 
-- 
2.43.0


From 558dd15c92f5a15094e300e09ded85de9c00c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 43/72] fix: the range of a curve with missing values is that
 of its values

Comparing a missing value raised a TypeError.
---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e1a10a7..47d85a0 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -255,6 +255,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From 4c11da199b4b2a1b406481081ba3adb1b2586169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 44/72] fix: regressions far away from the origin follow the
 points

Of positions like timestamps and a constant, least squares saw only one
column, which gave a line through the origin.
---
 curvepy/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 47d85a0..36389a0 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -382,14 +382,16 @@ class Curve:
         xy = np.vstack(points)
         x = xy[:,0]
         y = xy[:,1]
-        A = np.array([x, np.ones(count)])
+        # Relative to the first point, as the columns are indistinguishable
+        # far away from the origin.
+        A = np.array([x - x[0], np.ones(count)])
 
         # Regression
         w = np.linalg.lstsq(A.T, y, rcond=None)[0]
         m = w[0]
         c = w[1]
 
-        return Line(const=c, slope=m)
+        return Line(p1=(x[0], c), slope=m)
 
     def add_observer(self, *obj, domain=None, begin=None, end=None, autoremove=False, prioritize=False):
         if begin is None and end is None:
-- 
2.43.0


From cddda314d739b30a3b2f0c245990ece989708564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 45/72] fix: samples at least a step apart may be exactly that
 step apart

Of positions half way between multiples of the step, neighbours may round
to the same multiple, which was taken for a step that is too small.
---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 36389a0..ca3d5f2 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -205,7 +205,7 @@ class Curve:
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
                 if x1 is not None:
                     x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
+                    if x1_bin <= x_bin and x1 - x < min_step * 0.5:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-- 
2.43.0


From 2dd11ddb819452578627a6524ca2cc3bdf7624cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 46/72] fix: combinations and shifted curves can be stepped
 into at open ends

---
 curvepy/aggregate.py | 12 ++++++++----
 curvepy/offset.py    | 12 ++++++++++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 70f0723..6de54d5 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -58,9 +58,11 @@ class Aggregate(Curve):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         domain = self.domain
-        if not domain.is_empty and not domain.end_open and x - min_step >= domain.end:
+        if not domain.is_empty and x - min_step >= domain.end:
             # Functions do not have to step from outside of the domain
-            return domain.end
+            if not domain.end_open:
+                return domain.end
+            x = domain.end
         x1 = max_or_none(map(lambda f: self._func_x_previous(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
@@ -69,9 +71,11 @@ class Aggregate(Curve):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         domain = self.domain
-        if not domain.is_empty and not domain.start_open and x + min_step <= domain.start:
+        if not domain.is_empty and x + min_step <= domain.start:
             # Functions do not have to step from outside of the domain
-            return domain.start
+            if not domain.start_open:
+                return domain.start
+            x = domain.start
         x1 = min_or_none(map(lambda f: self._func_x_next(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
diff --git a/curvepy/offset.py b/curvepy/offset.py
index d75efb4..0f84b8a 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -68,6 +68,9 @@ class Offset(Curve):
         else:
             limit = self._unoffset_x(limit, floor=False)
             x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            if x1 is not None and self._is_open_edge(x1, start=False):
+                # Step in from an open end
+                x1 = self.curve.x_previous(x1, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -81,10 +84,19 @@ class Offset(Curve):
         else:
             limit = self._unoffset_x(limit, floor=True)
             x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            if x1 is not None and self._is_open_edge(x1, start=True):
+                # Step in from an open start
+                x1 = self.curve.x_next(x1, min_step=min_step, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
 
+    def _is_open_edge(self, x, start):
+        domain = self.curve.domain
+        if domain.is_empty or math.isinf(x):
+            return False
+        return x == domain.start and domain.start_open if start else x == domain.end and domain.end_open
+
     def begin_offset_update(self, domain):
         self.begin_update(self._offset_interval(domain))
 
-- 
2.43.0


From abae5fce58f062d4dc7f57764c37602e4e86dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 47/72] fix: a step into an open end does not apply the minimum
 step twice

---
 curvepy/aggregate.py | 4 ++--
 curvepy/offset.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 6de54d5..c105d75 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -62,7 +62,7 @@ class Aggregate(Curve):
             # Functions do not have to step from outside of the domain
             if not domain.end_open:
                 return domain.end
-            x = domain.end
+            x, min_step = domain.end, MIN_STEP
         x1 = max_or_none(map(lambda f: self._func_x_previous(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
@@ -75,7 +75,7 @@ class Aggregate(Curve):
             # Functions do not have to step from outside of the domain
             if not domain.start_open:
                 return domain.start
-            x = domain.start
+            x, min_step = domain.start, MIN_STEP
         x1 = min_or_none(map(lambda f: self._func_x_next(f, x, min_step), self.funcs), x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
diff --git a/curvepy/offset.py b/curvepy/offset.py
index 0f84b8a..f1a8e13 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -70,7 +70,7 @@ class Offset(Curve):
             x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
             if x1 is not None and self._is_open_edge(x1, start=False):
                 # Step in from an open end
-                x1 = self.curve.x_previous(x1, min_step=min_step, limit=limit)
+                x1 = self.curve.x_previous(x1, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -86,7 +86,7 @@ class Offset(Curve):
             x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
             if x1 is not None and self._is_open_edge(x1, start=True):
                 # Step in from an open start
-                x1 = self.curve.x_next(x1, min_step=min_step, limit=limit)
+                x1 = self.curve.x_next(x1, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 3189bfe1e701484ca7507cdbc1fd8b0041df10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 48/72] fix: unevenly spaced series are sampled with the step
 asked for

---
 curvepy/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 7ad869b..5f80d9a 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -194,7 +194,7 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and step != self.interval)):
+        if self.interval is not None and ((min_step is not None and min_step > self._least_interval()) or (step is not None and (step != self.interval or not self.is_uniform))):
             # Irregular sampling
             return super().sample_points(domain=domain, min_step=min_step, step=step)
 
@@ -215,6 +215,11 @@ class Points(Curve):
         if len_points > 1:
             self.interval = (self._points[-1][0] - self._points[0][0]) / (len_points - 1)
 
+    def _least_interval(self):
+        if self.is_uniform:
+            return self.interval
+        return min(p1[0] - p0[0] for p0, p1 in zip(self._points, self._points[1:]))
+
     def _points_equally_spaced(self, old_points, new_points):
         old_points_len = len(old_points)
         new_points_len = len(new_points)
-- 
2.43.0


From 611ddaf96a25b199d109caea22b5ca9a3e5a3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 49/72] fix: what an average over a period announces does not
 depend on what was read

---
 curvepy/sma.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 94430c5..061071d 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -15,7 +15,6 @@ class SMA(Integral):
         if d.is_empty:
             return Interval.empty()
         if self.period is not None:
-            self._window_end = d.start + self.period
             x = self._sma_end(d.start)
             if x is None:
                 p = self.period
@@ -36,7 +35,6 @@ class SMA(Integral):
         return Interval.closed(d_start, d.end)
 
     def __init__(self, func, degree, is_period=True, uniform=True, min_step=MIN_STEP):
-        self._window_end = None
         super().__init__(func, uniform=uniform, min_step=min_step)
         self.degree = None
         self.period = None
@@ -71,8 +69,8 @@ class SMA(Integral):
         if self.period is not None:
             # While the curve is shorter than the period, its last position
             # has the average of what there is, which any update may move.
-            if self._window_end is None or interval.start < self._window_end:
-                self._window_end = None
+            domain = self.curve.domain
+            if domain.is_empty or interval.start < domain.start + self.period:
                 return Interval.infinite()
         return interval
 
-- 
2.43.0


From 8cda00005c0f37a896767fbfb8b7b14f4a25ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 50/72] fix: updates of piecewise curves start at one of their
 steps

---
 curvepy/piecewise.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 0a754be..1c51102 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -17,12 +17,30 @@ class Piecewise(Curve):
         self.funcs = Curve.parse_many(funcs)
         self.domains = Interval.parse_many(domains)
         unique_funcs = list(set(list(self.funcs)))
-        self._observer_tokens = list(map(lambda f: f.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
+        self._observer_tokens = list(map(lambda f: f.add_observer(begin=self.begin_piece_update, end=self.end_piece_update, prioritize=True), unique_funcs))
 
     def __del__(self):
         for func, token in zip(self.funcs, self._observer_tokens):
             func.remove_observer(token)
 
+    def begin_piece_update(self, domain):
+        self.begin_update(self._update_interval(domain))
+
+    def end_piece_update(self, domain):
+        self.end_update(self._update_interval(domain))
+
+    def _update_interval(self, domain):
+        """
+        Curves scanning this one expect an update to start at one of its steps,
+        which the steps of a function outside of its own pieces are not.
+        """
+        if len(self.domains) == 1 or domain.start >= self.domains[-1].end:
+            return domain
+        before = [d for d in self.domains if d.start < domain.start]
+        if len(before) == 0 or before[-1].end == domain.start:
+            return domain
+        return Interval.union([domain, Interval.open_closed(before[-1].start, domain.start)])
+
     def y(self, x):
         for i in range(len(self.domains)):
             d = self.domains[i]
-- 
2.43.0


From 3e8602f0cdbaf64144972d4eb68d656ce5c32c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 51/72] fix: combined curves do not step to open ends of one of
 them

---
 curvepy/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index c105d75..43e5050 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -83,13 +83,13 @@ class Aggregate(Curve):
         return x1 if self.domain.contains(x1) else None
 
     def _func_x_previous(self, f, x, min_step):
-        if self.is_union and not f.domain.is_empty and x - min_step >= f.domain.end:
+        if self.is_union and not f.domain.is_empty and not f.domain.end_open and x - min_step >= f.domain.end:
             # Functions do not have to step from outside of their domain
             return f.domain.end
         return f.x_previous(x, min_step=min_step)
 
     def _func_x_next(self, f, x, min_step):
-        if self.is_union and not f.domain.is_empty and x + min_step <= f.domain.start:
+        if self.is_union and not f.domain.is_empty and not f.domain.start_open and x + min_step <= f.domain.start:
             # Functions do not have to step from outside of their domain
             return f.domain.start
         return f.x_next(x, min_step=min_step)
-- 
2.43.0


From 03a29d4f35bf357b14ce8d6130da4b20066d2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 52/72] fix: curves scanned within an update follow what
 changed since

---
 curvepy/curve.py | 4 ++++
 curvepy/scan.py  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ca3d5f2..cceef97 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -19,6 +19,7 @@ _func_obj = None
 class Curve:
 
     _token_counter = 0
+    _update_counter = 0
 
     @classmethod
     def empty(cls):
@@ -476,6 +477,9 @@ class Curve:
         self._notify_observers(update_interval, begin=False)
 
     def _notify_observers(self, domain, begin):
+        if len(self._ordered_observer_tokens) == 0:
+            return
+        Curve._update_counter += 1
         error = None
         # Observers may add or remove observers
         for token in list(self._ordered_observer_tokens):
diff --git a/curvepy/scan.py b/curvepy/scan.py
index e321681..a6106fc 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -15,6 +15,7 @@ class Scan(Curve):
         self.scan_start = None
         self.current = None
         self._begun_update_interval = Interval.empty()
+        self._scan_update_count = 0
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
@@ -51,6 +52,10 @@ class Scan(Curve):
         self.current = None
 
     def scan(self, x0):
+        if self.is_updating and self._scan_update_count != Curve._update_counter:
+            # The curve may have changed without having told so yet
+            self.reset_scan()
+        self._scan_update_count = Curve._update_counter
         x = self.offset_scan(x0)
         if self.scan_start is not None and x < self.scan_start:
             self.reset_scan()
-- 
2.43.0


From 060af1163fc7b503ae92343be8d17755911e6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 53/72] fix: updates of piecewise curves in gaps start at one
 of their steps

---
 curvepy/piecewise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 1c51102..2dfc89d 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -34,12 +34,12 @@ class Piecewise(Curve):
         Curves scanning this one expect an update to start at one of its steps,
         which the steps of a function outside of its own pieces are not.
         """
-        if len(self.domains) == 1 or domain.start >= self.domains[-1].end:
-            return domain
         before = [d for d in self.domains if d.start < domain.start]
-        if len(before) == 0 or before[-1].end == domain.start:
+        if len(self.domains) == 1 or len(before) == 0 or domain.start >= self.domains[-1].end:
             return domain
-        return Interval.union([domain, Interval.open_closed(before[-1].start, domain.start)])
+        piece = before[-1]
+        step = piece.start if domain.start < piece.end else piece.end
+        return Interval.union([domain, Interval.open_closed(step, domain.start)])
 
     def y(self, x):
         for i in range(len(self.domains)):
-- 
2.43.0


From c1223b6d3f38ed99737fd78318424936107a04ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 54/72] fix: combined curves end where one of them has no more
 steps

---
 curvepy/aggregate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 43e5050..53c51d4 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -63,7 +63,10 @@ class Aggregate(Curve):
             if not domain.end_open:
                 return domain.end
             x, min_step = domain.end, MIN_STEP
-        x1 = max_or_none(map(lambda f: self._func_x_previous(f, x, min_step), self.funcs), x)
+        x0s = [self._func_x_previous(f, x, min_step) for f in self.funcs]
+        if not self.is_union and None in x0s:
+            return None
+        x1 = max_or_none(x0s, x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
             x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
@@ -76,7 +79,10 @@ class Aggregate(Curve):
             if not domain.start_open:
                 return domain.start
             x, min_step = domain.start, MIN_STEP
-        x1 = min_or_none(map(lambda f: self._func_x_next(f, x, min_step), self.funcs), x)
+        x1s = [self._func_x_next(f, x, min_step) for f in self.funcs]
+        if not self.is_union and None in x1s:
+            return None
+        x1 = min_or_none(x1s, x)
         if x1 is None or math.isinf(x1):
             # Only functions without steps are left
             x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
-- 
2.43.0


From df21005fb10735427e83e50aa773ead15323fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 55/72] fix: combined curves with open ends keep stepping to
 them

---
 curvepy/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 53c51d4..8c66473 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -64,10 +64,10 @@ class Aggregate(Curve):
                 return domain.end
             x, min_step = domain.end, MIN_STEP
         x0s = [self._func_x_previous(f, x, min_step) for f in self.funcs]
-        if not self.is_union and None in x0s:
-            return None
         x1 = max_or_none(x0s, x)
         if x1 is None or math.isinf(x1):
+            if not self.is_union and None in x0s:
+                return None
             # Only functions without steps are left
             x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
         return x1 if self.domain.contains(x1) else None
@@ -80,10 +80,10 @@ class Aggregate(Curve):
                 return domain.start
             x, min_step = domain.start, MIN_STEP
         x1s = [self._func_x_next(f, x, min_step) for f in self.funcs]
-        if not self.is_union and None in x1s:
-            return None
         x1 = min_or_none(x1s, x)
         if x1 is None or math.isinf(x1):
+            if not self.is_union and None in x1s:
+                return None
             # Only functions without steps are left
             x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
         return x1 if self.domain.contains(x1) else None
-- 
2.43.0


From 4b27b0c996ef7a63448f4f16e3c3783cda2cec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 56/72] fix: extremas announce as much at the end of an update
 as at its begin

---
 curvepy/extremas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a7509b..a1270ae 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -87,7 +87,7 @@ class Extremas(Scan):
     def end_scan_update(self, domain):
         # Drop anything scanned during the update
         self._reset_stale_scan(domain)
-        self.end_update(Interval.union([self.update_interval, self._unconfirmed_interval()]))
+        self.end_update(self.update_interval if self.is_updating else self._unconfirmed_interval())
 
     def _unconfirmed_interval(self):
         if len(self.extremas) == 0:
-- 
2.43.0


From e7a0eb7d1e1f8c36e234cd762390baada20a12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 57/72] fix: curves shifted by durations step, end and announce
 at whole durations

---
 curvepy/offset.py | 91 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 19 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index f1a8e13..a4f97ff 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -11,7 +11,11 @@ class Offset(Curve):
     """
 
     def get_domain(self):
-        return self._offset_interval(self.curve.domain)
+        domain = self.curve.domain
+        if self._moves_durations and not domain.is_empty:
+            # There are values at and between whole durations of the function
+            domain = self._whole_durations(domain)
+        return self._offset_interval(domain)
 
     def __init__(self, func, offset, duration=None):
         super().__init__()
@@ -60,37 +64,53 @@ class Offset(Curve):
         return y
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        if self._moves_durations:
+            return self._previous_whole_duration(x, self.resolve_min_step(min_step))
         x = self._unoffset_x(x, floor=False)
         if x is None:
             return None
-        if self.duration:
-            x1 = self.duration.previous(x)
-        else:
-            limit = self._unoffset_x(limit, floor=False)
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
-            if x1 is not None and self._is_open_edge(x1, start=False):
-                # Step in from an open end
-                x1 = self.curve.x_previous(x1, limit=limit)
+        limit = self._unoffset_x(limit, floor=False)
+        x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+        if x1 is not None and self._is_open_edge(x1, start=False):
+            # Step in from an open end
+            x1 = self.curve.x_previous(x1, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self._moves_durations:
+            return self._next_whole_duration(x, self.resolve_min_step(min_step))
         x = self._unoffset_x(x, floor=True)
         if x is None:
             return None
-        if self.duration:
-            x1 = self.duration.next(x)
-        else:
-            limit = self._unoffset_x(limit, floor=True)
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
-            if x1 is not None and self._is_open_edge(x1, start=True):
-                # Step in from an open start
-                x1 = self.curve.x_next(x1, limit=limit)
+        limit = self._unoffset_x(limit, floor=True)
+        x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+        if x1 is not None and self._is_open_edge(x1, start=True):
+            # Step in from an open start
+            x1 = self.curve.x_next(x1, limit=limit)
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
 
+    def _previous_whole_duration(self, x, min_step):
+        domain = self.domain
+        if domain.is_empty:
+            return None
+        x1 = min(x - min_step, domain.end)
+        if not math.isinf(x1):
+            x1 = self.duration.floor(x1)
+        return x1 if domain.contains(x1) else None
+
+    def _next_whole_duration(self, x, min_step):
+        domain = self.domain
+        if domain.is_empty:
+            return None
+        x1 = max(x + min_step, domain.start)
+        if not math.isinf(x1):
+            x1 = self.duration.ceil(x1)
+        return x1 if domain.contains(x1) else None
+
     def _is_open_edge(self, x, start):
         domain = self.curve.domain
         if domain.is_empty or math.isinf(x):
@@ -98,10 +118,43 @@ class Offset(Curve):
         return x == domain.start and domain.start_open if start else x == domain.end and domain.end_open
 
     def begin_offset_update(self, domain):
-        self.begin_update(self._offset_interval(domain))
+        self.begin_update(self._offset_update_interval(domain))
 
     def end_offset_update(self, domain):
-        self.end_update(self._offset_interval(domain))
+        self.end_update(self._offset_update_interval(domain))
+
+    @property
+    def _moves_durations(self):
+        return self.duration is not None and self.x_offset != 0
+
+    def _whole_durations(self, domain):
+        start, end = domain.start, domain.end
+        if not math.isinf(start):
+            start = self.duration.ceil(start)
+            if not domain.contains(start) and start == domain.start:
+                start = self.duration.next(start)
+        if not math.isinf(end):
+            end = self.duration.floor(end)
+            if not domain.contains(end) and end == domain.end:
+                end = self.duration.previous(end)
+        if start > end:
+            return Interval.empty()
+        return Interval(start, end, start_open=math.isinf(start), end_open=math.isinf(end))
+
+    def _offset_update_interval(self, domain):
+        if not self._moves_durations or domain.is_empty:
+            return self._offset_interval(domain)
+        # Values up to the next whole duration depend on the one which changes
+        start, end = domain.start, domain.end
+        if not math.isinf(start):
+            start = self.duration.floor(start)
+            if start == domain.start and not domain.start_open:
+                start = self.duration.previous(start)
+        if not math.isinf(end):
+            end = self.duration.ceil(end)
+            if end == domain.end and not domain.end_open:
+                end = self.duration.next(end)
+        return self._offset_interval(Interval(start, end, start_open=domain.start_open, end_open=domain.end_open))
 
     def _offset_x(self, x, floor=False):
         if x is None or math.isinf(x):
-- 
2.43.0


From f196a9d82857391f01883b9425bebbeb6c372a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 58/72] fix: positions next to the end of a series have values

---
 curvepy/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/points.py b/curvepy/points.py
index 5f80d9a..12b1b5c 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -318,6 +318,8 @@ class Points(Curve):
                 nearest_i = round(i)
                 if 0 <= nearest_i < len(self._points) and self._points[nearest_i][0] == x:
                     return nearest_i
+                if i > len(self._points) - 1 and x <= self._points[-1][0]:
+                    return len(self._points) - 1
             return i
         else:
             i1 = _bisect_points(self._points, x)
-- 
2.43.0


From 0799502d09d5b54500008bac290e30b8ecd29bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 59/72] fix: simple averages start at a sample, whatever the
 spacing

---
 curvepy/sma.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 061071d..ff84672 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -15,21 +15,17 @@ class SMA(Integral):
         if d.is_empty:
             return Interval.empty()
         if self.period is not None:
-            x = self._sma_end(d.start)
-            if x is None:
-                p = self.period
-            else:
-                p = x - d.start
+            d_start = self._sma_end(d.start)
+            if d_start is None:
+                d_start = d.start + self.period
         elif self.degree is not None:
-            x = d.start
+            d_start = d.start
             for _ in range(self.degree - 1):
-                x = self.curve.x_next(x, min_step=self.min_step)
-                if x is None:
+                d_start = self.curve.x_next(d_start, min_step=self.min_step)
+                if d_start is None:
                     return Interval.empty()
-            p = x - d.start
         else:
             raise Exception('Bad SMA configuration')
-        d_start = d.start + p
         if math.isnan(d_start) or d_start > d.end:
             return Interval.empty()
         return Interval.closed(d_start, d.end)
-- 
2.43.0


From 367c21fb8623e20caa815d944c0386dd83862f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 60/72] fix: shifted curves have values at their ends, whatever
 the shift

---
 curvepy/offset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index a4f97ff..1ea85a3 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -45,8 +45,8 @@ class Offset(Curve):
         return self._interpolated_func(self.curve.d_y, x, **kwargs)
 
     def _interpolated_func(self, f, x, **kwargs):
-        x0 = self._unoffset_x(x, floor=True)
-        x1 = self._unoffset_x(x, floor=False)
+        x0 = self._within_function(x, self._unoffset_x(x, floor=True))
+        x1 = self._within_function(x, self._unoffset_x(x, floor=False))
         if x0 is None or x1 is None or not self.curve.domain.contains(x0) or not self.curve.domain.contains(x1):
             return None
         if x0 == x1:
@@ -63,6 +63,13 @@ class Offset(Curve):
         y = y0 * (1 - u) + y1 * u
         return y
 
+    def _within_function(self, x, x0):
+        domain = self.curve.domain
+        if x0 is None or domain.is_empty or domain.contains(x0) or not self.domain.contains(x):
+            return x0
+        # Only rounding takes positions of this curve out of the function
+        return min(max(x0, domain.start), domain.end)
+
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         if self._moves_durations:
             return self._previous_whole_duration(x, self.resolve_min_step(min_step))
-- 
2.43.0


From ba55cc21dcfdfb5e9e837b3547e548b3966d5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 61/72] fix: updates begin wherever they end, also between
 separate ranges

---
 curvepy/curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index cceef97..c5cb82f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -458,7 +458,11 @@ class Curve:
     def begin_update(self, domain):
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
-        self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
+        begun = self._begin_update_interval
+        self._begin_update_interval = Interval.union([begun, domain])
+        if not begun.is_empty and not begun.intersects(domain):
+            # The update will end as one, including what is between
+            domain = self._begin_update_interval
         self._notify_observers(domain, begin=True)
 
     def end_update(self, domain):
-- 
2.43.0


From 60fab8515c00715633e86eee877e39b5e1e79810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 62/72] fix: unions announce what an update of one function may
 move

---
 curvepy/aggregate.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 8c66473..4f6d15a 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -23,14 +23,48 @@ class Aggregate(Curve):
         self.operator = operator
         self.name = name
         self.default = default
+        self._begun_func_updates = {}
         unique_funcs = list(set(list(self.funcs)))
-        self._observer_tokens = list(map(lambda f: f.add_observer(
-            begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
+        self._observer_tokens = list(map(self._observe_func, unique_funcs))
 
     def __del__(self):
         for func, token in zip(self.funcs, self._observer_tokens):
             func.remove_observer(token)
 
+    def _observe_func(self, func):
+        if not self.is_union:
+            return func.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
+        return func.add_observer(
+            begin=lambda domain: self._begin_func_update(func, domain),
+            end=lambda domain: self._end_func_update(func, domain),
+            prioritize=True)
+
+    def _begin_func_update(self, func, domain):
+        domain = self._func_update_interval(func, domain)
+        self._begun_func_updates[id(func)] = Interval.union([self._begun_func_updates.get(id(func), Interval.empty()), domain])
+        self.begin_update(domain)
+
+    def _end_func_update(self, func, domain):
+        domain = self._func_update_interval(func, domain)
+        self.end_update(Interval.union([self._begun_func_updates.pop(id(func), Interval.empty()), domain]))
+
+    def _func_update_interval(self, func, domain):
+        """
+        An update outside of the other functions' domains also moves the end of this
+        curve's domain. Curves scanning this one expect an update with an open start to
+        start at one of its steps, which positions outside of the function's domain are not.
+        """
+        if domain.is_empty:
+            return domain
+        others = Interval.union([f.domain for f in self.funcs if f is not func])
+        if not others.is_empty and others.end <= domain.start and not others.intersects(domain):
+            domain = Interval.union([Interval(others.end, domain.start, start_open=not others.end_open, end_open=False), domain])
+        elif not others.is_empty and domain.end <= others.start and not others.intersects(domain):
+            domain = Interval.union([domain, Interval(domain.end, others.start, start_open=False, end_open=not others.start_open)])
+        if domain.start_open and not math.isinf(domain.start) and not func.domain.contains(domain.start) and not others.contains(domain.start):
+            domain = Interval(domain.start, domain.end, start_open=False, end_open=domain.end_open)
+        return domain
+
     def __repr__(self):
         try:
             params = ", ".join(list(map(str, self.funcs)))
-- 
2.43.0


From 7134588c52619d3cbe139835c5e30cb4a0a48598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 63/72] fix: trailing ends of an update tell scans nothing new

---
 curvepy/scan.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index a6106fc..df057a8 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -15,6 +15,7 @@ class Scan(Curve):
         self.scan_start = None
         self.current = None
         self._begun_update_interval = Interval.empty()
+        self._ended_update = (Interval.empty(), Interval.empty())
         self._scan_update_count = 0
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
@@ -110,8 +111,15 @@ class Scan(Curve):
         self.begin_update(domain)
 
     def end_scan_update(self, domain):
-        # Several updates of the curve may end as one
-        domain = Interval.union([self._begun_update_interval, self._update_interval(domain)])
+        ended_func_domain, ended_domain = self._ended_update
+        if self._begun_update_interval.is_empty and ended_func_domain.is_superset_of(domain):
+            # Part of the update, which has ended already
+            domain = ended_domain
+        else:
+            # Several updates of the curve may end as one
+            func_domain = domain
+            domain = Interval.union([self._begun_update_interval, self._update_interval(domain)])
+            self._ended_update = (func_domain, domain)
         self._begun_update_interval = Interval.empty()
         # Drop anything scanned during the update
         self._reset_stale_scan(domain)
-- 
2.43.0


From d74629f6c877fcd0639d1363bace4250dfbdfdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 64/72] fix: shifts by durations end the updates they begin

---
 curvepy/offset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 1ea85a3..47c55be 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -26,6 +26,7 @@ class Offset(Curve):
             self.duration = Duration.parse(duration)
             if type(self.x_offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
+        self._begun_update_interval = Interval.empty()
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
 
@@ -125,10 +126,15 @@ class Offset(Curve):
         return x == domain.start and domain.start_open if start else x == domain.end and domain.end_open
 
     def begin_offset_update(self, domain):
-        self.begin_update(self._offset_update_interval(domain))
+        domain = self._offset_update_interval(domain)
+        self._begun_update_interval = Interval.union([self._begun_update_interval, domain])
+        self.begin_update(domain)
 
     def end_offset_update(self, domain):
-        self.end_update(self._offset_update_interval(domain))
+        # Several updates of the curve may end as one, whose ends move differently
+        domain = Interval.union([self._begun_update_interval, self._offset_update_interval(domain)])
+        self._begun_update_interval = Interval.empty()
+        self.end_update(domain)
 
     @property
     def _moves_durations(self):
-- 
2.43.0


From 4531f4df023fc12b4c0283b3384b7e0e76565806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:06 +0000
Subject: [PATCH 65/72] fix: unions end the updates they begin, also when
 domains move

---
 curvepy/aggregate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 4f6d15a..8ee1114 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -45,8 +45,13 @@ class Aggregate(Curve):
         self.begin_update(domain)
 
     def _end_func_update(self, func, domain):
-        domain = self._func_update_interval(func, domain)
-        self.end_update(Interval.union([self._begun_func_updates.pop(id(func), Interval.empty()), domain]))
+        begun = self._begun_func_updates.pop(id(func), Interval.empty())
+        if begun.is_empty:
+            domain = self._func_update_interval(func, domain)
+        else:
+            # The domains may have moved during the update
+            domain = Interval.union([begun, domain])
+        self.end_update(domain)
 
     def _func_update_interval(self, func, domain):
         """
-- 
2.43.0


From 16b77d1690def0595531f40462a267fd099bd254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 66/72] fix: cut curves announce updates from their start while
 the function has none

---
 curvepy/piecewise.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index 2dfc89d..ec5be50 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -16,6 +16,7 @@ class Piecewise(Curve):
             raise Exception("Must specify sub-domains for all sub-functions in a piecewise function")
         self.funcs = Curve.parse_many(funcs)
         self.domains = Interval.parse_many(domains)
+        self._begun_update_interval = Interval.empty()
         unique_funcs = list(set(list(self.funcs)))
         self._observer_tokens = list(map(lambda f: f.add_observer(begin=self.begin_piece_update, end=self.end_piece_update, prioritize=True), unique_funcs))
 
@@ -24,18 +25,30 @@ class Piecewise(Curve):
             func.remove_observer(token)
 
     def begin_piece_update(self, domain):
-        self.begin_update(self._update_interval(domain))
+        domain = self._update_interval(domain)
+        if len(self.domains) == 1:
+            self._begun_update_interval = Interval.union([self._begun_update_interval, domain])
+        self.begin_update(domain)
 
     def end_piece_update(self, domain):
-        self.end_update(self._update_interval(domain))
+        if self._begun_update_interval.is_empty:
+            domain = self._update_interval(domain)
+        else:
+            # The function's domain may have moved during the update
+            domain = Interval.union([self._begun_update_interval, domain])
+        self._begun_update_interval = Interval.empty()
+        self.end_update(domain)
 
     def _update_interval(self, domain):
         """
         Curves scanning this one expect an update to start at one of its steps,
-        which the steps of a function outside of its own pieces are not.
+        which the steps of a function outside of its own pieces are not, nor are
+        positions outside of the function's domain.
         """
         before = [d for d in self.domains if d.start < domain.start]
-        if len(self.domains) == 1 or len(before) == 0 or domain.start >= self.domains[-1].end:
+        if len(before) == 0 or domain.start >= self.domains[-1].end:
+            return domain
+        if len(self.domains) == 1 and (not domain.start_open or self.funcs[0].domain.contains(domain.start)):
             return domain
         piece = before[-1]
         step = piece.start if domain.start < piece.end else piece.end
-- 
2.43.0


From b010c6f00ff03eb81701592a6023f42401ef1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 67/72] fix: lists of samples from a position end with the
 domain

---
 curvepy/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index c5cb82f..52c647f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -241,7 +241,8 @@ class Curve:
                 x1 = self.x_next(x1, min_step=min_step)
             else:
                 x1 = self.x_previous(x1, min_step=min_step)
-            if x1 is None:
+            if x1 is None or not self.domain.contains(x1):
+                # Steps may lead onto an open edge of the domain
                 break
             y1 = self.y(x1)
             if y1 is None:
-- 
2.43.0


From bb8eeddb40822f115a2b2556c51101627a611f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 68/72] fix: trailing ends of an update repeat the range which
 ended

---
 curvepy/curve.py |  5 +++++
 curvepy/scan.py  | 12 ++----------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 52c647f..d0311bd 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -56,6 +56,7 @@ class Curve:
         self._ordered_observer_tokens = []
         self._begin_update_interval = Interval.empty()
         self._end_update_interval = Interval.empty()
+        self._ended_update_interval = Interval.empty()
         self.min_step = min_step
 
     def __call__(self, *args):
@@ -469,6 +470,9 @@ class Curve:
     def end_update(self, domain):
         if domain.is_empty or self._end_update_interval.is_superset_of(domain):
             return
+        if self._begin_update_interval.is_empty and self._ended_update_interval.is_superset_of(domain):
+            # Part of the update, which has ended already
+            domain = self._ended_update_interval
         self._end_update_interval = Interval.union([self._end_update_interval, domain])
         if not self._end_update_interval.is_superset_of(self._begin_update_interval):
             # Keep collecting updates
@@ -476,6 +480,7 @@ class Curve:
         
         # Updates complete
         update_interval = self._end_update_interval
+        self._ended_update_interval = update_interval
         self._begin_update_interval = Interval.empty()
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
diff --git a/curvepy/scan.py b/curvepy/scan.py
index df057a8..a6106fc 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -15,7 +15,6 @@ class Scan(Curve):
         self.scan_start = None
         self.current = None
         self._begun_update_interval = Interval.empty()
-        self._ended_update = (Interval.empty(), Interval.empty())
         self._scan_update_count = 0
         self._observer_token = self.curve.add_observer(begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
@@ -111,15 +110,8 @@ class Scan(Curve):
         self.begin_update(domain)
 
     def end_scan_update(self, domain):
-        ended_func_domain, ended_domain = self._ended_update
-        if self._begun_update_interval.is_empty and ended_func_domain.is_superset_of(domain):
-            # Part of the update, which has ended already
-            domain = ended_domain
-        else:
-            # Several updates of the curve may end as one
-            func_domain = domain
-            domain = Interval.union([self._begun_update_interval, self._update_interval(domain)])
-            self._ended_update = (func_domain, domain)
+        # Several updates of the curve may end as one
+        domain = Interval.union([self._begun_update_interval, self._update_interval(domain)])
         self._begun_update_interval = Interval.empty()
         # Drop anything scanned during the update
         self._reset_stale_scan(domain)
-- 
2.43.0


From 80b4258b82a41c474cb5671a34971716369d9861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 69/72] fix: trailing ends move nothing further in unions and
 cut curves

---
 curvepy/aggregate.py | 8 ++------
 curvepy/piecewise.py | 8 ++++----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 8ee1114..5637a51 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -45,13 +45,9 @@ class Aggregate(Curve):
         self.begin_update(domain)
 
     def _end_func_update(self, func, domain):
+        # The domains may have moved during the update
         begun = self._begun_func_updates.pop(id(func), Interval.empty())
-        if begun.is_empty:
-            domain = self._func_update_interval(func, domain)
-        else:
-            # The domains may have moved during the update
-            domain = Interval.union([begun, domain])
-        self.end_update(domain)
+        self.end_update(Interval.union([begun, domain]))
 
     def _func_update_interval(self, func, domain):
         """
diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index ec5be50..d58d5f3 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -31,12 +31,12 @@ class Piecewise(Curve):
         self.begin_update(domain)
 
     def end_piece_update(self, domain):
-        if self._begun_update_interval.is_empty:
-            domain = self._update_interval(domain)
-        else:
+        if len(self.domains) == 1:
             # The function's domain may have moved during the update
             domain = Interval.union([self._begun_update_interval, domain])
-        self._begun_update_interval = Interval.empty()
+            self._begun_update_interval = Interval.empty()
+        else:
+            domain = self._update_interval(domain)
         self.end_update(domain)
 
     def _update_interval(self, domain):
-- 
2.43.0


From 15053796dbb7c683155e580b1c66a10db8ddbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 70/72] fix: constants restricted to a domain have no value
 outside of it

---
 curvepy/constant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index aedbe78..2ec9bb3 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -38,9 +38,13 @@ class Constant(Curve):
             return super().__repr__() + f'({e})'
 
     def y(self, x):
+        if not self._const_interval.contains(x):
+            return None
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
+        if not self._const_interval.contains(x):
+            return None
         return 0.0
 
     def x(self, y):
-- 
2.43.0


From cbe240fc0d9841140ed0bb71e7921e41725243dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:56 +0000
Subject: [PATCH 71/72] fix: curves without steps of their own step no further
 from their ends

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index d0311bd..e8b5347 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -121,6 +121,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
+            if x1 <= x:
+                return None
         else:
             x1 = x + min_step
         if limit is not None and x1 > limit:
@@ -135,6 +137,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
+            if x1 >= x:
+                return None
         else:
             x1 = x - min_step
         if limit is not None and x1 < limit:
-- 
2.43.0


From 10a9ade49f8c1c09a4a9ab56fa071d21f3e660a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:00 +0000
Subject: [PATCH 72/72] fix: nothing steps within an empty curve

---
 curvepy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e8b5347..1fe3768 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -121,7 +121,7 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
-            if x1 <= x:
+            if x1 is None or x1 <= x:
                 return None
         else:
             x1 = x + min_step
@@ -137,7 +137,7 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
-            if x1 >= x:
+            if x1 is None or x1 >= x:
                 return None
         else:
             x1 = x - min_step
-- 
2.43.0

