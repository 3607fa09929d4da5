From ddb6a1aee207a49745c8c1d9818e1cf99151d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 01/29] fix: print word values in plain decimal notation
 without losing digits

---
 src/pygcode/dialects/linuxcnc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..31f39b5 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -24,15 +24,19 @@ REGEX_POSITIVEINT = re.compile(r'^\s*\d+')
 REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
 
 # Value cleaning functions
+def _clean_decimal(value):
+    # plain decimal notation (never an exponent), no trailing zeros
+    return ("%.3f" % value).rstrip('0').rstrip('.')
+
 def _clean_codestr(value):
     if value < 10:
-        return "0%g" % value
-    return "%g" % value
+        return "0" + _clean_decimal(value)
+    return _clean_decimal(value)
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+CLEAN_FLOAT = _clean_decimal
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From d8e898f1fccdf3f0cc60d66814e1eb36315b090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 02/29] fix: GCodeArcMove.assert_params raises
 GCodeParameterError instead of NameError

---
 src/pygcode/gcodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..233c661 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
-- 
2.43.0


From d2b39755d929548675f4b177fe1fc089ac6c79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 03/29] fix: linearize_arc default method

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..c47cf93 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -231,7 +231,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From 7c941bffa915427a2def654accf96004221b7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 04/29] fix: copy of a machine State keeps its coordinate
 systems and the selected one

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..aeebbbb 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -242,7 +242,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((k, copy(cs)) for (k, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From 7c7125c284cd9de7edb2a8ca13892d1d28a84cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 05/29] fix: reading Position.vector no longer adds axes to the
 position's values

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index aeebbbb..6d4d206 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -178,7 +178,7 @@ class Position(object):
 
     @property
     def vector(self):
-        return Vector3(self._value['X'], self._value['Y'], self._value['Z'])
+        return Vector3(*(self._value.get(k, 0.0) for k in 'XYZ'))
 
     # String representation(s)
     def __repr__(self):
-- 
2.43.0


From 9109335b7e934e5b4b2b880c701ffec2e14bd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 06/29] fix: adding and subtracting positions of different
 units converts the operand

---
 src/pygcode/machine.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 6d4d206..fb9daa2 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -95,9 +95,17 @@ class Position(object):
         return not self.__eq__(other)
 
     # Arithmetic
+    def _same_unit(self, other):
+        """Return other, converted to this position's unit (other is not altered)"""
+        if other._unit != self._unit:
+            other = copy(other)
+            other.unit = self._unit
+        return other
+
     def __add__(self, other):
         if self.axes ^ other.axes:
             raise MachineInvalidAxis("axes: %r != %r" % (self.axes, other.axes))
+        other = self._same_unit(other)
         new_obj = copy(self)
         for k in new_obj._value:
             new_obj._value[k] += other._value[k]
@@ -106,6 +114,7 @@ class Position(object):
     def __sub__(self, other):
         if other.axes - self.axes:
             raise MachineInvalidAxis("for a - b: axes in b, that are not in a: %r" % (other.axes - self.axes))
+        other = self._same_unit(other)
         new_obj = copy(self)
         for k in other._value:
             new_obj._value[k] -= other._value[k]
@@ -550,7 +559,7 @@ class Machine(object):
     def move_to(self, rapid=False, **coords):
         """Move machine to given position"""
         if isinstance(self.mode.distance, GCodeIncrementalDistanceMode):
-            pos_delta = Position(axes=self.axes, **coords)
+            pos_delta = Position(axes=self.axes, unit=self.abs_pos.unit, **coords)
             self.pos += pos_delta
         else:  # assumed: GCodeAbsoluteDistanceMode
             new_pos = self.pos
-- 
2.43.0


From cd0b11811e0e56193d48d7183757e6b3eab3c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 07/29] fix: modal_copy duplicates words, so editing a gcode
 does not alter a machine's mode

---
 src/pygcode/gcodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 233c661..da07bb4 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
-- 
2.43.0


From ad1017796f9fc7e8fdd5d25feed9144e66ca9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 08/29] fix: comments of mixed types, and '%' or ';' within
 brackets, stay out of the block

---
 src/pygcode/comment.py | 26 +++++++++++++++++---------
 src/pygcode/line.py    |  5 ++++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..d5ba4c7 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -47,16 +47,24 @@ def split_line(line_text):
     comments = []
     block_str = line_text.rstrip("\n") # to remove potential return carriage from comment body
 
-    for cls in sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER):
-        matches = list(cls.AUTO_REGEX.finditer(block_str))
-        if matches:
-            for match in reversed(matches):
-                # Build list of comment text
-                comments.insert(0, match.group('text'))  # prepend
-                # Remove comments from given block_str
-                block_str = block_str[:match.start()] + block_str[match.end():]
-            comments_class = cls
+    index = 0
+    while True:
+        # Next comment is the one opened first; comment characters within it are just text
+        matches = []
+        for cls in CommentBase.__subclasses__():
+            match = cls.AUTO_REGEX.search(block_str, index)
+            if match:
+                matches.append((match, cls))
+        if not matches:
             break
+        (match, cls) = min(matches, key=lambda x: x[0].start())
+        # Build list of comment text
+        comments.append(match.group('text'))
+        # Remove comment from given block_str
+        block_str = block_str[:match.start()] + block_str[match.end():]
+        index = match.start()
+        if (comments_class is None) or (cls.ORDER < comments_class.ORDER):
+            comments_class = cls
 
     # Create comment instance if content was found
     comment_obj = None
diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..0e05e5a 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,10 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    # note: a '%' within a bracketed comment does not start a macro
+    line_regex = re.compile(
+        r'^(?P<block_and_comment>(\([^\)\n]*\)|(?!\([^\)\n]*\))[^%\n])*?)(?P<macro>%.*%?)?\s*$'
+    )
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From 9b40dbea323e35dad87865554ddfab6a83f87d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 09/29] fix: blanks between a ';' comment and a macro are not
 part of the comment

---
 src/pygcode/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index d5ba4c7..717a524 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -17,7 +17,7 @@ class CommentBase(object):
 class CommentSemicolon(CommentBase):
     "Comments of the format: 'G00 X1 Y2 ; something profound'"
     ORDER = 1
-    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*)$')
+    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*?)\s*$')
 
     def __str__(self):
         return "; {text}".format(text=self.text)
-- 
2.43.0


From 93342bca36a74361e0495f1c76618575191f9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 10/29] fix: linearize_arc measures G18 and G19 arc angles in
 the arc's own plane

---
 src/pygcode/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c47cf93..6bcb72c 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -324,8 +324,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    plane_to_xy = plane.quat.conjugated()
+    xy_c2start = plane_to_xy * (arc_p_start - arc_p_center)
+    xy_c2end = plane_to_xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From a0cc8d990b3f6858c5dd5b3f79e2507a3a2d0ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 11/29] fix: linearize_arc no longer refuses IJK semi-circles
 because of rounding

---
 src/pygcode/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 6bcb72c..54f36be 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -301,7 +301,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
     if arc_radius < abs(arc_span_mid):
-        raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
+        if 'R' in arc_gcode.params:
+            raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
+        arc_radius = abs(arc_span_mid)  # IJK: only possible by a rounding error (semi-circle)
     # vector from arc_span midpoint -> circle's centre
     radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
 
-- 
2.43.0


From f49cab10a1676742bfc94ff3445b0da3c6fe4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 12/29] fix: linearize_arc plots a full circle for IJK arcs
 that end where they start

---
 src/pygcode/transform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 54f36be..697772e 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -300,6 +300,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
+    # IJK arc that ends where it starts is a full circle (R: refused above)
+    full_circle = ('R' not in arc_gcode.params) and (abs(arc_span) < 1e-9)
     if arc_radius < abs(arc_span_mid):
         if 'R' in arc_gcode.params:
             raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
@@ -313,7 +315,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_start + arc_span_mid - radius_mid_vect
         else:
             arc_p_center = arc_p_start + arc_span_mid + radius_mid_vect
-    else:
+    elif not full_circle:
         # IJK: radius vertex specified
         # arc_p_center is defined as per IJK params, this is an adjustment
         arc_p_center_options = [
@@ -334,6 +336,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
+    if full_circle:
+        arc_angle = (2 * pi) if isinstance(arc_gcode, GCodeArcMoveCW) else -(2 * pi)
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From fa8490375985d2fb73b878ca29594a057b35cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 13/29] fix: alignment quaternions of parallel and opposed
 vectors

---
 src/pygcode/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..f25fce3 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -1,5 +1,6 @@
 import sys
 from copy import copy, deepcopy
+from math import atan2
 
 from euclid3 import Vector3, Quaternion
 
@@ -24,10 +25,12 @@ def quat2align(to_align, with_this, normalize=True):
         to_align = to_align.normalized()
         with_this = with_this.normalized()
     # Calculate Quaternion
-    return Quaternion.new_rotate_axis(
-        angle=to_align.angle(with_this),
-        axis=to_align.cross(with_this),
-    )
+    axis = to_align.cross(with_this)
+    angle = atan2(abs(axis), to_align.dot(with_this))
+    if (to_align.dot(with_this) < 0) and (abs(axis) < 1e-9):
+        # vectors are opposed: rotate around anything perpendicular
+        axis = to_align.cross(Vector3(0, 1, 0) if abs(to_align.x) > 0.5 else Vector3(1, 0, 0))
+    return Quaternion.new_rotate_axis(angle=angle, axis=axis)
 
 
 def quat2coord_system(origin1, origin2, align1, align2):
@@ -48,7 +51,12 @@ def quat2coord_system(origin1, origin2, align1, align2):
     align2 = align2.normalized()
     # Calculate Quaternion
     q1 = quat2align(origin1, align1, normalize=False)
-    q2 = quat2align(q1 * origin2, align2, normalize=False)
+    # second rotation is around align1 (so align1 does not move)
+    origin2 = q1 * origin2
+    q2 = Quaternion.new_rotate_axis(
+        angle=atan2(origin2.cross(align2).dot(align1), origin2.dot(align2)),
+        axis=align1,
+    )
     return q2 * q1
 
 
-- 
2.43.0


From 33e34a6935aa4fc45abfd6e60014c0b710b75a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 14/29] fix: simplify_canned_cycle refuses cycles with no Z, R
 or peck increment (was: TypeError, or endless)

---
 src/pygcode/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 697772e..5666c6f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -421,6 +421,14 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
 
+    # Parameter Value Assertions
+    for letter in 'ZR':
+        if letter not in canned_gcode.params:
+            raise GCodeParameterError("canned cycle has no %s parameter: %r" % (letter, canned_gcode))
+    if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)):
+        if not canned_gcode.Q:
+            raise GCodeParameterError("canned cycle needs a non-zero peck increment (Q): %r" % canned_gcode)
+
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
         cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
-- 
2.43.0


From 6eb95d029188bdbedfc20dd6fe23631128f40cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 15/29] fix: simplify_canned_cycle drills in place along axes
 that are not given, and at least once

---
 src/pygcode/transform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 5666c6f..2e739da 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -431,18 +431,20 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
-        cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
+        # axes not given do not move, a cycle is run at least once (same as GCodeCannedCycle._process)
+        cycle_count = max(1, canned_gcode.L or 1)
+        hole_coords = canned_gcode.get_param_dict('XY', lc=True)
         cur_hole_p_axis = start_pos.vector
         for i in range(cycle_count):
             # Calculate Depths
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis = Vector3(**dict({'x': start_pos.X, 'y': start_pos.Y}, **hole_coords))
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(**hole_coords)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From 586f922b648664fa84af89f9213fabb24c616153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 16/29] fix: repeated canned cycle in incremental mode returns
 to the same level after each hole

---
 src/pygcode/gcodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index da07bb4..37a8407 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -559,6 +559,9 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            if isinstance(machine.mode.distance, GCodeIncrementalDistanceMode):
+                # each repeat returns to the same level
+                moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From 20cb78d46ca43a853caa3b6a77afdab46106defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 17/29] fix: pygcode-norm expands canned cycles in the active
 retract mode (G98/G99)

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..755afc1 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -344,6 +344,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From 726b6c07897637a5db05bfbc052fbab90191eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 18/29] fix: pygcode-norm --singles keeps motion parameters of
 lines with several gcodes

---
 scripts/pygcode-norm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 755afc1..2e92982 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -351,7 +351,8 @@ for line_str in args.infile.readlines():
                 write([simplified_gcode])
 
     else:
-        if args.full:
+        if args.full or (args.singles and line.block.gcodes and line.block.modal_params):
+            # (also with singles: modal parameters could not be split from the line's gcodes)
             write(effective_gcodes, comment=line.comment, macro=line.macro)
         else:
             write(line.block.gcodes, modal_params=line.block.modal_params, comment=line.comment, macro=line.macro)
-- 
2.43.0


From 329de32ed2042c32c4d9f01be5c3dd41f2aa04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 19/29] fix: pygcode-crop resumes in the original motion and
 distance mode, at the original position

---
 scripts/pygcode-crop | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..53d6be3 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,8 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove
+        from pygcode import GCodeRapidMove, GCodeMotion
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
         import sys, os, inspect
@@ -207,7 +208,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            # (not motion, or the likes of M0 & M2, they'd be executed)
+            mode = copy(old_machine.mode)
+            mode.motion = None
+            mode.stopping = None
+            mode_str = str(mode)
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
@@ -219,9 +224,12 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
+            incremental = isinstance(mode.distance, GCodeIncrementalDistanceMode)
+            if incremental:
+                print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
-                plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
+                plane.normal_axis: getattr(old_machine.abs2work(old_machine.abs_range_max), plane.normal_axis),
             }))
             # rapid move to X,Y
             print(GCodeRapidMove(**dict(
@@ -232,6 +240,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            if incremental:
+                print(mode.distance)
+            resume_motion = True  # traverse has left the machine in rapid motion mode
             print('')
 
     if (pre_crop, post_crop) == (False, False):
@@ -242,4 +253,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             break
         else:
             # inside cropping area
+            if resume_motion and any(g.modal_group == GCodeMotion.modal_group for g in line.block.gcodes):
+                resume_motion = False
+            elif resume_motion and line.block.modal_params:
+                # first line relying on the motion mode from before cropping: make it explicit
+                line.block.gcodes = old_machine.block_modal_gcodes(line.block)
+                line.block.modal_params = []
+                resume_motion = False
             print(line)
-- 
2.43.0


From 6a44cf90266ec6f6eec326eb97b3f11418d00af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 20/29] fix: assigning Position.unit converts the coordinates
 (was: silently ignored)

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index fb9daa2..37bda03 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -77,7 +77,7 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            super(Position, self).__setattr__(key, value)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 3bbdc34c6314bf717ce118501d3c7782c5c9e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 21/29] fix: a parameter given twice on a line without a motion
 code is refused, as it is with the code

---
 src/pygcode/machine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 37bda03..0066675 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -430,10 +430,11 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
-            params = copy(self.mode.motion.params)  # dict
-            params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
+            # retained modal parameters, where not overridden by those given
+            given_letters = set(w.letter for w in modal_params)
+            retained = [w for (l, w) in self.mode.motion.params.items() if l not in given_letters]
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                [self.mode.motion.word] + retained + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From b482aaa408881d0f90bee99b19670ff416d8798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 22/29] fix: the code a machine makes of bare parameters does
 not share words with the machine's mode

---
 src/pygcode/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 0066675..372c70a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -432,9 +432,9 @@ class Machine(object):
         else:
             # retained modal parameters, where not overridden by those given
             given_letters = set(w.letter for w in modal_params)
-            retained = [w for (l, w) in self.mode.motion.params.items() if l not in given_letters]
+            retained = [copy(w) for (l, w) in self.mode.motion.params.items() if l not in given_letters]
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + retained + list(modal_params)
+                [copy(self.mode.motion.word)] + retained + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 1b2be16b512131d96eec353644d28b83087ecc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 23/29] fix: linearize_arc refuses IJK arcs of zero radius
 (was: ZeroDivisionError)

---
 src/pygcode/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 2e739da..9970287 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -296,6 +296,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 
         # average the 2 radii to get the most accurate radius
         arc_radius = (abs(r1) + abs(r2)) / 2.
+        if arc_radius == 0:
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
 
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
-- 
2.43.0


From a2555c2bdd990f157f41ddef89854fdfeca63caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 24/29] fix: simplify_canned_cycle of G82 dwells (was:
 NameError, GCodeDwell not imported)

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 9970287..9927fd4 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -1,6 +1,6 @@
 from math import sin, cos, tan, asin, acos, atan2, pi, sqrt, ceil
 
-from .gcodes import GCodeLinearMove, GCodeRapidMove
+from .gcodes import GCodeLinearMove, GCodeRapidMove, GCodeDwell
 from .gcodes import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
 from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GCodeSelectZXPlane
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
-- 
2.43.0


From 10aba6996ff5775cf21f47796189f7578077b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 25/29] fix: canned cycles on a machine with no plane selected
 (assume XY)

---
 src/pygcode/gcodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 37a8407..79b72c6 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,15 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
+        plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default: G17
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
             moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
+                plane.normal_axis: self.R,
             })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            moveto_coords.pop(plane.normal_axis, None)
 
         # Process action 'L' times
         loop_count = self.L
@@ -561,7 +562,7 @@ class GCodeCannedCycle(GCode):
             machine.move_to(**moveto_coords)
             if isinstance(machine.mode.distance, GCodeIncrementalDistanceMode):
                 # each repeat returns to the same level
-                moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+                moveto_coords.pop(plane.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From b684ac5ca196f3f1f44b0fe66de65f274abea2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 26/29] fix: omit_redundant_modes applied retained canned cycle
 parameters again

---
 src/pygcode/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index f25fce3..9d2a66e 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -89,7 +89,10 @@ def omit_redundant_modes(gcode_iter):
         if (g.modal_group is not None) and (m.mode.modal_groups[g.modal_group] is not None):
             # g-code has a modal groups, and the machine's mode
             # (of the same modal group) is not None
-            if m.mode.modal_groups[g.modal_group].word == g.word:
+            mode_gcode = m.mode.modal_groups[g.modal_group]
+            # (parameters the machine retains, but g-code doesn't give, would be
+            #  applied again if the g-code's word was omitted)
+            if (mode_gcode.word == g.word) and not (set(mode_gcode.params) - set(g.params)):
                 # machine's mode & g-code's mode match (no machine change)
                 if g.modal_group == MODAL_GROUP_MAP['motion']:
                     # finally: g-code sets a motion mode in the machine
-- 
2.43.0


From 4b5a877f0e3f6714ed34ffbda42aea088cdba56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 27/29] fix: blanks between a T word and its number became part
 of its value

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..58566a2 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -112,7 +112,7 @@ def text2words(block_text, dialect=None):
             value_match = value_regex.search(block_text[index:])
             if value_match is None:
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
-            value = value_match.group() # matched text
+            value = value_match.group().strip() # matched text (without padding)
 
             yield Word(letter, value)
 
-- 
2.43.0


From bf16b2c34543415a0905a38a9f5c16639f38f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 28/29] fix: crop: conditions on rotary axes (documented, but
 the machine had none)

---
 scripts/pygcode-crop | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 53d6be3..845acea 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -187,6 +187,7 @@ args = parser.parse_args()
 # --- Machine
 class NullMachine(Machine):
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
+    axes = set('XYZABC')  # all those range conditions may refer to
 
 machine = NullMachine()
 
-- 
2.43.0


From 4356b7158624b8255333a3b7d297a21b4eca95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 29/29] fix: crop: bring rotary axes to where the original had
 them

---
 scripts/pygcode-crop | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 845acea..a1b8a34 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -232,10 +232,14 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs2work(old_machine.abs_range_max), plane.normal_axis),
             }))
-            # rapid move to X,Y
+            # rapid move to X,Y (and rotary axes, if they've been moved)
+            rotary_axes = set(
+                k for k in 'ABC'
+                if getattr(old_machine.abs_range_min, k) != getattr(old_machine.abs_range_max, k)
+            )
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if (k in plane.plane_axes) or (k in rotary_axes)
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0

