From e2bead0823d06e010b34a5c77f686f3c95ef1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 01/63] fix: pinned-pinned members shed their end moments with
 the wrong sign of end shear

---
 src/pycba/beam.py | 14 +++++++-------
 src/pycba/load.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 062f631..b2c68af 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -848,13 +848,13 @@ class Beam:
 
         if eType == 4:
             # Pinned-pinned: release both end moments.  Mirror the prismatic
-            # :meth:`pycba.load.Load.get_ref` convention exactly (the vertical
-            # correction is ``(Ma + Mb)/L`` applied to the fixed-fixed CNL),
-            # so the constant-EI limit is reproduced.
+            # :meth:`pycba.load.Load.get_ref` convention exactly (removing the
+            # end-moment couple leaves the simply-supported shears), so the
+            # constant-EI limit is reproduced.
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF so
@@ -1607,9 +1607,9 @@ class Beam:
         if eType == 4:
             # Pinned-pinned: release both end moments (mirror _ref_nonprismatic).
             Va_ff, Vb_ff = ref[0], ref[2]
-            ref[0] = Va_ff + (Ma + Mb) / L
+            ref[0] = Va_ff - (Ma + Mb) / L
             ref[1] = 0.0
-            ref[2] = Vb_ff - (Ma + Mb) / L
+            ref[2] = Vb_ff + (Ma + Mb) / L
             ref[3] = 0.0
         elif eType in (2, 3):
             # Single moment release: condense the released rotational DOF using
diff --git a/src/pycba/load.py b/src/pycba/load.py
index 68e7929..6056cb9 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -116,9 +116,9 @@ class Load:
             ref[2] = -fm * cnl.Ma
             ref[3] = 0.5 * cnl.Ma
         elif eType == 4:  # keep only vertical, remove moments
-            ref[0] = -(cnl.Ma + cnl.Mb) / L
+            ref[0] = (cnl.Ma + cnl.Mb) / L
             ref[1] = 1.0 * cnl.Ma
-            ref[2] = (cnl.Ma + cnl.Mb) / L
+            ref[2] = -(cnl.Ma + cnl.Mb) / L
             ref[3] = 1.0 * cnl.Mb
         else:
             # no nothing if it is FF
-- 
2.43.0


From f4dd07f612e63f9f5f5d7e9eaef788bfefd232c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 02/63] fix: partial UDL overhanging its span gives diagrams
 that disagree with its reactions

---
 src/pycba/load.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pycba/load.py b/src/pycba/load.py
index 6056cb9..9d8a7bb 100644
--- a/src/pycba/load.py
+++ b/src/pycba/load.py
@@ -351,16 +351,12 @@ class LoadPUDL(Load):
         """
 
         a = self.a
-        c = self.c
         w = self.w
         # Check if on span, if not, return zeros
         if self.a > L:
-            return [0.0] * 4
-        # Actual cover on span
-        d = L - (a + c)
-        # If cover hangs off span, adjust it
-        if d < 0:
-            c += d
+            return LoadCNL(Va=0.0, Vb=0.0, Ma=0.0, Mb=0.0)
+        # Actual cover on span (any overhang is ignored)
+        c = min(self.c, L - a)
         # More useful vars
         s = a + c / 2
         t = L - s
@@ -397,8 +393,9 @@ class LoadPUDL(Load):
         res = MemberResults(vals=None, n=npts)
         res.x = x
 
-        a = self.a
-        c = self.c
+        # Only the cover that is actually on the span (as in get_cnl)
+        a = min(self.a, L)
+        c = min(self.c, L - a)
         w = self.w
         b = c + a
 
-- 
2.43.0


From 2b1e1d06e34be64bcea220791894ea825cf0712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 03/63] fix: couples on shear-flexible prismatic members ignore
 the shear strain they cause

---
 src/pycba/beam.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index b2c68af..3040dc2 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -4,7 +4,7 @@ PyCBA - Beam Class definition
 from typing import Optional, Sequence, Union
 import numpy as np
 from scipy import integrate
-from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC
+from .load import parse_LM, LoadType, LoadMatrix, LoadCNL, LoadIC, LoadML
 from .types import MemberType
 from .section import SectionEI
 from .utils import supports_to_R, SupportType
@@ -1584,6 +1584,13 @@ class Beam:
             denom = 2.0 * (1.0 + phi)
             Ma = ((2.0 + phi) * cnl.Ma - phi * cnl.Mb) / denom
             Mb = (-phi * cnl.Ma + (2.0 + phi) * cnl.Mb) / denom
+            if isinstance(load, LoadML):
+                # A couple, unlike a transverse load, leaves a net shear on the
+                # simple span (V = M/L), whose shear strain also turns the ends.
+                shear = -load.M / (L * GAv)
+                Kth = np.linalg.inv(self._timo_flexibility(EI, GAv, L))
+                Ma += Kth[0].sum() * shear
+                Mb += Kth[1].sum() * shear
         else:
             theta0 = self._timo_theta0(load, EI, GAv, L)
             Kth = np.linalg.inv(self._timo_flexibility(EI, GAv, L))
-- 
2.43.0


From cbe5346155c178f8b862d20cae7024588591c9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 04/63] fix: point queries at the beam start and at supports
 return the closing zero of the diagrams

---
 src/pycba/load_cases.py |  4 ++--
 src/pycba/results.py    | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index c30c5ed..4a63e39 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -10,7 +10,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from .beam import Beam
 from .analysis import BeamAnalysis
-from .results import Envelopes
+from .results import Envelopes, _unique_stations
 from .load import LoadMatrix, factor_LM
 
 
@@ -1045,7 +1045,7 @@ def _response_at(x: np.ndarray, B: np.ndarray, x_target: float) -> np.ndarray:
             f"[{x.min()}, {x.max()}]."
         )
 
-    unique_x, unique_index = np.unique(x, return_index=True)
+    unique_x, unique_index = _unique_stations(x)
     unique_B = B[:, unique_index]
     return np.array([np.interp(x_target, unique_x, row) for row in unique_B])
 
diff --git a/src/pycba/results.py b/src/pycba/results.py
index cba6398..c061c8d 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -28,6 +28,20 @@ def _shear_point_offset(L: float) -> float:
     return _SHEAR_POINT_REL_OFFSET * L
 
 
+def _unique_stations(x: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+    """
+    De-duplicate the station coordinates ``x``, returning the unique values and
+    their indices.
+
+    The first occurrence is kept, i.e. the left-hand value at a step.  At the
+    very start of the beam the first occurrence is the (zero) closure station,
+    which has no left-hand value to offer, so it is skipped.
+    """
+    lead = 1 if len(x) > 1 and x[0] == x[1] else 0
+    ux, idx = np.unique(x[lead:], return_index=True)
+    return ux, idx + lead
+
+
 class BeamResults:
     """
     BeamResults Class for processing and containing the results for each member
@@ -187,6 +201,7 @@ class BeamResults:
 
         dx = L / self.npts
         xr = dx * np.arange(0, self.npts + 1)  # uniform interior stations [0, L]
+        xr[-1] = L  # dx * npts can miss L by a rounding error
 
         # Optionally splice in paired "shear point" stations either side of each
         # requested section so the closed-form shear is sampled just-left and
@@ -315,7 +330,7 @@ class BeamResults:
             load) the left-hand value is returned.
         """
         res = self.results
-        ux, uidx = np.unique(res.x, return_index=True)
+        ux, uidx = _unique_stations(res.x)
         out: Dict[str, float] = {}
         for a in attrs:
             vals = np.asarray(getattr(res, a))
@@ -784,7 +799,7 @@ class Envelopes:
     def _unique_x(self) -> Tuple[np.ndarray, np.ndarray]:
         """Return the de-duplicated station coordinates and their indices."""
 
-        return np.unique(self.x, return_index=True)
+        return _unique_stations(self.x)
 
     def at(
         self,
-- 
2.43.0


From 03fab58f6199b6c5f0a118ae5347fd34ab6043af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 05/63] fix: member rotation arrays carry unscaled values at
 the closure stations

---
 src/pycba/results.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/results.py b/src/pycba/results.py
index c061c8d..a173bc5 100644
--- a/src/pycba/results.py
+++ b/src/pycba/results.py
@@ -305,6 +305,9 @@ class BeamResults:
 
         res.R[1:-1] = psi
         res.D[1:-1] = D
+        # the closure stations carry no rotation (the loads left theirs, which
+        # are not divided by the rigidity)
+        res.R[[0, -1]] = 0.0
 
         return res
 
-- 
2.43.0


From 6583bb37fa4d22e1a2567ac6e5f69e3e1cb144cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 06/63] fix: foundation members report zero moment and shear at
 internal mesh nodes

---
 src/pycba/foundation.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index 99ae12e..fca8365 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -102,12 +102,23 @@ def _eb_member_values(L, EI, f, d, loads, npts) -> MemberResults:
 
 
 def _concat_results(res_list: List[MemberResults]) -> MemberResults:
-    """Concatenate per-sub-element results into a single member result."""
+    """
+    Concatenate per-sub-element results into a single member result: the closure
+    stations are kept at the ends of the member only.
+    """
+    last = len(res_list) - 1
     arrays = [
-        np.concatenate([getattr(r, a) for r in res_list])
+        np.concatenate(
+            [
+                getattr(r, a)[(0 if i == 0 else 1) : (None if i == last else -1)]
+                for i, r in enumerate(res_list)
+            ]
+        )
         for a in ("x", "M", "V", "R", "D")
     ]
-    return MemberResults(vals=tuple(arrays))
+    res = MemberResults(vals=tuple(arrays))
+    res.R[[0, -1]] = 0.0
+    return res
 
 
 class FoundationElement:
@@ -225,4 +236,6 @@ class FoundationElement:
             res = _eb_member_values(self.h, self.EI, f_e, d_e, per[e], npts_sub)
             res.x = res.x + e * self.h
             res_list.append(res)
-        return _concat_results(res_list)
+        res = _concat_results(res_list)
+        res.x[-2:] = self.L
+        return res
-- 
2.43.0


From bc5f1d3ef9d7568646def01ac427ef4edcec7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 07/63] fix: foundation member diagrams ignore the foundation
 pressure

---
 src/pycba/foundation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pycba/foundation.py b/src/pycba/foundation.py
index fca8365..7cd1d1d 100644
--- a/src/pycba/foundation.py
+++ b/src/pycba/foundation.py
@@ -22,7 +22,7 @@ from __future__ import annotations
 from typing import List, Optional
 import numpy as np
 from scipy import integrate
-from .load import LoadUDL, LoadPL, LoadPUDL, LoadMaMb
+from .load import LoadUDL, LoadPL, LoadPUDL, LoadMaMb, LoadTrapez
 from .section import SectionEI
 from .types import MemberResults
 
@@ -228,12 +228,16 @@ class FoundationElement:
         d_mesh[self.c] = dc
 
         npts_sub = max(2, int(round(npts / self.n)))
-        ke_bend = _k_ebeam(self.EI, self.h)
+        ke = _k_ebeam(self.EI, self.h) + _k_found(self.kf, self.h)
         res_list = []
         for e in range(self.n):
             d_e = d_mesh[2 * e : 2 * e + 4]
-            f_e = ke_bend @ d_e + ref_e_list[e]
-            res = _eb_member_values(self.h, self.EI, f_e, d_e, per[e], npts_sub)
+            f_e = ke @ d_e + ref_e_list[e]
+            # the foundation pressure is a load on the sub-element too
+            pressure = LoadTrapez(0, self.kf * d_e[0], self.kf * d_e[2])
+            res = _eb_member_values(
+                self.h, self.EI, f_e, d_e, per[e] + [pressure], npts_sub
+            )
             res.x = res.x + e * self.h
             res_list.append(res)
         res = _concat_results(res_list)
-- 
2.43.0


From 287b2d3292277c4fba2ecbc9ccfcf32a043ca923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 08/63] fix: adding a load to an analysis grows the caller's
 own load list

---
 src/pycba/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 3040dc2..e817bf2 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -150,7 +150,7 @@ class Beam:
             else:
                 self._prescribed_displacements = [None] * len(R)
         if LM is not None:
-            self.LM = LM
+            self.LM = list(LM)  # add_load must not grow the caller's list
 
     @staticmethod
     def _broadcast_GAv(GAv, n_spans: int) -> list:
@@ -302,7 +302,7 @@ class Beam:
         None
 
         """
-        self.LM = LM
+        self.LM = list(LM)  # add_load must not grow the caller's list
         self.no_loads = len(self.LM)
 
     def add_load(self, load: LoadType):
-- 
2.43.0


From 24782d27d3b90a10d561425c69b8dc79cee3fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 09/63] fix: critical shear at a section over an interior
 support reads the neighbouring grid station

---
 src/pycba/bridge.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 3d00c78..9ee6763 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -705,8 +705,14 @@ class BridgeAnalysis:
             support_xs = _vertical_support_xs(self.ba.beam)
             sp_block = {}
             for xg in self.shear_points_x:
-                left = np.nonzero(env.x < xg)[0]
-                right = np.nonzero(env.x > xg)[0]
+                # No pair is spliced in at a joint between members: there, the
+                # end stations of the two members are its two sides.
+                joint = np.nonzero(np.isclose(env.x, xg, rtol=0.0, atol=1e-10))[0]
+                if len(joint) > 1:
+                    left, right = joint[:1], joint[-1:]
+                else:
+                    left = np.nonzero(env.x < xg)[0]
+                    right = np.nonzero(env.x > xg)[0]
                 if len(left) == 0 or len(right) == 0:
                     continue
                 il = left[np.argmax(env.x[left])]
-- 
2.43.0


From 1455ea5303da6015ed89bc2be9f1821ff62bf8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 10/63] fix: axles of an earlier moving-load analysis are taken
 for static loads when the bridge is reused

---
 src/pycba/bridge.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 9ee6763..4bfea90 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -253,7 +253,7 @@ class BridgeAnalysis:
             if out != 0:
                 raise ValueError("Bridge analysis did not succeed")
         finally:
-            self.ba.shear_points = None
+            self._restore_bridge()
 
         if plotflag:
             self.plot_static(pos)
@@ -281,6 +281,15 @@ class BridgeAnalysis:
             )
         self.ba.shear_points = sp if sp else None
 
+    def _restore_bridge(self):
+        """
+        Leaves the bridge with its own (static) loads only, so that the axles of
+        one analysis are never taken for static loads by a later one.
+        """
+        self.ba.shear_points = None
+        self.ba.set_loads(self.static_LM)
+        self.static_LM = self.ba.beam.loads
+
     def _axle_LM(self, pos: float) -> List[list]:
         """
         Build the load-matrix rows for the vehicle axles with the front axle at
@@ -437,7 +446,7 @@ class BridgeAnalysis:
                     plt.pause(0.01)
                 self.vResults.append(self.ba.beam_results)
         finally:
-            self.ba.shear_points = None
+            self._restore_bridge()
 
         env = Envelopes(self.vResults)
 
@@ -585,7 +594,7 @@ class BridgeAnalysis:
                     raise ValueError(f"Bridge analysis did not succeed at {pos=}")
                 self.vResults.append(self.ba.beam_results)
         finally:
-            self.ba.shear_points = None
+            self._restore_bridge()
 
         env = Envelopes(self.vResults)
 
-- 
2.43.0


From 24b62c340a6e00ab944af9c92c7123d4b89c07b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 11/63] fix: vehicles share their axle arrays with the caller
 and the vehicle library

---
 src/pycba/vehicle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index f0796cd..3f4c13e 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -39,8 +39,8 @@ class Vehicle:
         None.
 
         """
-        self.axs = np.asarray(axle_spacings)
-        self.axw = np.asarray(axle_weights)
+        self.axs = np.array(axle_spacings)
+        self.axw = np.array(axle_weights)
 
         if len(self.axs) + 1 != len(self.axw):
             raise ValueError("Inconsistent axle spacing and weight counts")
-- 
2.43.0


From 502451e5457ef386cbc502ff6d87c36a83741c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 12/63] fix: make_train fails for vehicles with coincident
 axles

---
 src/pycba/vehicle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 3f4c13e..1a790ed 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -203,12 +203,10 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
     new_vehicle_axles = np.array([])
     new_vehicle_spaces = np.array([])
 
-    # loop through each vehicle
-    for veh in vehicles:
+    # loop through each vehicle, with the gap to it ahead of its own spacings
+    for veh, gap in zip(vehicles, np.append(0.0, spacings)):
         new_vehicle_axles = np.append(new_vehicle_axles, veh.axw)
-        new_vehicle_spaces = np.append(new_vehicle_spaces, np.insert(veh.axs, 0, 0))
-
-    new_vehicle_spaces[new_vehicle_spaces == 0] = np.insert(spacings, 0, 0)
+        new_vehicle_spaces = np.concatenate((new_vehicle_spaces, [gap], veh.axs))
 
     return Vehicle(new_vehicle_spaces[1:], new_vehicle_axles)
 
-- 
2.43.0


From 2f3a5cb2862a20756c83772269932b45e642757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 13/63] fix: make_train refuses the documented single spacing
 for more than two vehicles

---
 src/pycba/vehicle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index 1a790ed..b18741c 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -194,6 +194,9 @@ def make_train(vehicles: List[Vehicle], spacings: np.ndarray):
 
     """
 
+    if len(spacings) == 1 and len(vehicles) > 2:  # equal spacings throughout
+        spacings = np.repeat(spacings, len(vehicles) - 1)
+
     if len(vehicles) - 1 != len(spacings):
         raise ValueError("Inconsistent vehicle and spacing counts")
 
-- 
2.43.0


From 44a4091c2f9f95df4fbf5a23a3ce1cb403f58759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 14/63] fix: a vehicle reversed in place is not reversed in
 trains and copies

---
 src/pycba/vehicle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index b18741c..ba5f163 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -71,7 +71,9 @@ class Vehicle:
 
         """
         if in_place:
-            self.axle_coords = +self.L - self.axle_coords
+            self.axs = np.copy(self.axs[::-1])
+            self.axw = np.copy(self.axw[::-1])
+            self.axle_coords = +self.L - self.axle_coords[::-1]
         else:
             return Vehicle(np.copy(self.axs[::-1]), np.copy(self.axw[::-1]))
 
-- 
2.43.0


From b2661a73431df19b62b2190e532fe25166842e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 15/63] fix: ABAG semi-trailer weighs 53 t instead of its
 published 45.5 t

---
 src/pycba/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/vehicle.py b/src/pycba/vehicle.py
index ba5f163..efcf32b 100644
--- a/src/pycba/vehicle.py
+++ b/src/pycba/vehicle.py
@@ -281,7 +281,7 @@ class VehicleLibrary:
         ]
 
         abag_semitrailer_aw = (
-            np.array([6, 17 / 2, 17 / 2, 22.5 / 2, 22.5 / 2, 22.5 / 3]) * 9.81
+            np.array([6, 17 / 2, 17 / 2, 22.5 / 3, 22.5 / 3, 22.5 / 3]) * 9.81
         )  # t to kN
 
         abag_semitrailer_as = [
-- 
2.43.0


From 8b07a680e08f71d22af5cffc536249f2fd1c7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 16/63] fix: recreating influence lines keeps the load
 positions of the previous run

---
 src/pycba/inf_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index c1c061d..a033073 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -67,6 +67,7 @@ class InfluenceLines:
         None.
         """
         self.vResults = []  # reset
+        self.pos = []
 
         if step is None:
             step = self.L / 100
-- 
2.43.0


From 09f34214208b1f96da5e38471107d39b73bed309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 17/63] fix: reaction influence lines fail on beams with spring
 supports

---
 src/pycba/inf_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index a033073..5c24790 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -128,7 +128,7 @@ class InfluenceLines:
         # Get vector of the node locations
         node_locations = np.cumsum(np.insert(self.ba.beam.mbr_lengths, 0, 0))
         # Link the supported DOF to the index in the BeamAnalysis reactions vector
-        idx_mask = np.zeros_like(self.ba._beam.restraints)
+        idx_mask = np.zeros_like(self.ba._beam.restraints, dtype=int)
         idx_mask[np.where(np.array(self.ba._beam.restraints) == -1)] = np.arange(
             self.ba.beam.no_fixed_restraints
         )
-- 
2.43.0


From c8bf15d4e72f70a4bd2dbe00bac8496efd7fd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 18/63] fix: rounding takes the unit load off the end of the
 beam in influence lines

---
 src/pycba/inf_lines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycba/inf_lines.py b/src/pycba/inf_lines.py
index 5c24790..a327421 100644
--- a/src/pycba/inf_lines.py
+++ b/src/pycba/inf_lines.py
@@ -77,6 +77,8 @@ class InfluenceLines:
         for i in range(npts):
             # load position
             pos = i * step
+            if np.isclose(pos, self.L, rtol=1e-12, atol=0.0):
+                pos = self.L  # not a rounding error beyond the beam
             self.pos.append(pos)
             # locate load on span
             ispan, pos_in_span = self.ba.beam.get_local_span_coords(pos)
-- 
2.43.0


From 422d4e0970a21b80c0f80a6a3ab04b9935473ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 19/63] fix: load cases drop the elastic foundation of the beam
 they belong to

---
 src/pycba/load_cases.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 4a63e39..2395e8f 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -868,6 +868,7 @@ def build_pycba_model(
         eletype=list(beam.mbr_eletype),
         D=list(beam.prescribed_displacements),
         GAv=list(getattr(beam, "mbr_GAv", [])) or None,
+        kf=list(getattr(beam, "mbr_kf", [])) or None,
     )
 
 
-- 
2.43.0


From 63835e68aa524f14b36338ab51b1696d1aff1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 20/63] fix: a refused operation leaves load-case collections
 half-changed

---
 src/pycba/load_cases.py | 46 +++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 2395e8f..7df74be 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -438,25 +438,30 @@ class LoadCases:
         return case
 
     def extend(self, load_cases: Sequence[LoadCase]) -> None:
-        """Append several load cases."""
+        """Append several load cases, or none of them if any is refused."""
 
-        for load_case in load_cases:
-            self.append(load_case)
+        existing = list(self._cases)
+        try:
+            for load_case in load_cases:
+                self.append(load_case)
+        except Exception:
+            self._cases = existing
+            raise
 
     def add_span_udl(self, w: float) -> list[LoadCase]:
         """Add one full-span UDL case per span."""
 
-        added = []
-        for i, _ in enumerate(_beam_spans(self.beam_model)):
-            added.append(
-                self.add(
-                    name=f"UDL on span {i + 1}",
-                    loads=[[i + 1, 1, w]],
-                    loaded_spans=(i,),
-                    metadata={"type": "span_udl", "span": i, "w": w},
-                )
+        n_cases = len(self._cases)
+        self.extend(
+            LoadCase(
+                name=f"UDL on span {i + 1}",
+                loads=[[i + 1, 1, w]],
+                loaded_spans=(i,),
+                metadata={"type": "span_udl", "span": i, "w": w},
             )
-        return added
+            for i, _ in enumerate(_beam_spans(self.beam_model))
+        )
+        return self._cases[n_cases:]
 
     def add_load(self, load_case: str, load: list) -> LoadCase:
         """Append one raw load row to a named load case."""
@@ -490,7 +495,12 @@ class LoadCases:
         UDL rows as required.
         """
 
-        return self.case(load_case).add_segment_udl(self.beam_model, x0, x1, w)
+        # the rows are formed first so that a refused segment creates no case
+        rows = _make_segment_udl(self.beam_model, x0, x1, w)
+        case = self.case(load_case)
+        for row in rows:
+            case.add_load(row)
+        return case
 
     def add_all_spans_udl(self, load_case: str, w: float) -> LoadCase:
         """
@@ -536,12 +546,16 @@ class LoadCases:
     ) -> LoadCase:
         """Append a full-span or partial trapezoidal load to a named load case."""
 
-        return self.case(load_case).add_trap(i_span, w1, w2, a=a, c=c)
+        # the row is formed first so that a refused load creates no case
+        row = LoadCase(load_case).add_trap(i_span, w1, w2, a=a, c=c).loads[0]
+        return self.case(load_case).add_load(row)
 
     def add_ic(self, load_case: str, i_span: int, kappa) -> LoadCase:
         """Append an imposed-curvature load to a named load case."""
 
-        return self.case(load_case).add_ic(i_span, kappa)
+        # the row is formed first so that a refused load creates no case
+        row = LoadCase(load_case).add_ic(i_span, kappa).loads[0]
+        return self.case(load_case).add_load(row)
 
     def response_matrix(self, response: str = "M") -> tuple[np.ndarray, np.ndarray]:
         """Analyse all cases and return the common station vector and matrix."""
-- 
2.43.0


From 3a097354c5d654466875b3582ad9821614bf9a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 21/63] fix: leave no uncovered sliver between section segments

---
 src/pycba/section.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/section.py b/src/pycba/section.py
index c2839b1..fdbfba7 100644
--- a/src/pycba/section.py
+++ b/src/pycba/section.py
@@ -193,7 +193,7 @@ class SectionEI:
                 f"Unknown seg_type {seg_type!r}; expected one of {_SEG_TYPES}"
             )
 
-        x = np.asarray(x, dtype=float).ravel()
+        x = np.array(x, dtype=float).ravel()
         if x.ndim != 1 or len(x) < 2:
             raise ValueError("x must list at least the segment start and end")
         if np.any(np.diff(x) <= 0.0):
@@ -214,6 +214,10 @@ class SectionEI:
                 f"(gaps and overlaps are not allowed)"
             )
 
+        # Within that tolerance, start exactly at the running end: a sliver left
+        # between two pieces would belong to neither of them.
+        x[0] = x0 = anchor
+
         new_pieces: list[_Piece] = []
         new_kinks: list[float] = []
 
-- 
2.43.0


From d96c8c890f675783ac108df542e9d17c082b48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 22/63] fix: refuse a polynomial section that dips to zero
 between its samples

---
 src/pycba/section.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycba/section.py b/src/pycba/section.py
index fdbfba7..c9f0a22 100644
--- a/src/pycba/section.py
+++ b/src/pycba/section.py
@@ -266,6 +266,9 @@ class SectionEI:
                 coeffs = np.polyfit(x, ei_arr, deg)
                 new_pieces.append(_Piece(x0, x1, coeffs, degree=deg))
 
+            # Positive samples do not make the curve between them positive.
+            self._check_positive(new_pieces[-1](np.linspace(x0, x1, 201)))
+
         # Commit.  The first segment fixes the section start coordinate; every
         # segment records its end coordinate as a join (a breakpoint).
         if not self._joins:
-- 
2.43.0


From 04e4fe52ec157e0f1dbdfabdd504f4c3736060bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 23/63] fix: refuse beam strings with stray text or
 non-positive spans

---
 src/pycba/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycba/utils.py b/src/pycba/utils.py
index ebe3a53..5d9c4a7 100644
--- a/src/pycba/utils.py
+++ b/src/pycba/utils.py
@@ -210,6 +210,10 @@ def parse_beam_string(
         float(beam_string[spans_str[i] : spans_str[i + 1] - 1])
         for i in range(len(spans_str) - 1)
     ]
+    if beam_string[: spans_str[0] - 1].strip() or beam_string[spans_str[-1] :].strip():
+        raise ValueError("A beam string must start and end with a terminal")
+    if not all(0.0 < length < np.inf for length in L):
+        raise ValueError("Span lengths must be positive")
     if len(terminals) - 1 != len(L):
         raise ValueError("Inconsistent terminal count and span count")
 
-- 
2.43.0


From d857b259a16427923892e665357a6de012453be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 24/63] fix: a refused span leaves the beam as it was

---
 src/pycba/beam.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index e817bf2..ccfcec5 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -231,11 +231,14 @@ class Beam:
         if isinstance(GAv, SectionEI):
             # A variable shear rigidity must likewise cover the full member.
             GAv.validate_length(L)
+        mbr_type = MemberType.coerce(eletype)  # may refuse: before anything is added
+        if not L > 0.0:
+            raise ValueError(f"Span lengths must be positive, got {L}.")
         self.mbr_lengths.append(L)
         self.mbr_EIs.append(EI)
         self.mbr_GAv.append(GAv)
         self.mbr_kf.append(kf)
-        self.mbr_eletype.append(MemberType.coerce(eletype))
+        self.mbr_eletype.append(mbr_type)
         self._no_spans = len(self.mbr_lengths)
         self._length += L
         self._terminal_coords.append(self._terminal_coords[-1] + L)
-- 
2.43.0


From c58a3d07ff472dafa7a0d2ca92586b2bd61941ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 25/63] fix: a beam without member types has fixed-fixed
 members; refuse a type count that does not match

---
 src/pycba/beam.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index ccfcec5..5a8aa0c 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -120,7 +120,11 @@ class Beam:
                 raise ValueError("supports requires L to set the node count.")
             R = supports_to_R(supports, n_nodes=len(L) + 1)
 
-        if L is not None and eletype is not None:
+        if L is not None:
+            if eletype is None:
+                eletype = [MemberType.FF] * len(L)
+            if len(eletype) != len(L):
+                raise ValueError("Define a member type for each span.")
             # Normalise GAv / kf to one entry per span (None => off).
             GAv_list = self._broadcast_GAv(GAv, len(L))
             kf_list = self._broadcast_kf(kf, len(L))
-- 
2.43.0


From e1b17cc41cf9de183382540d2ba29102a0c9755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 26/63] fix: refuse a fractional member type

---
 src/pycba/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/types.py b/src/pycba/types.py
index 4064759..ffb08b3 100644
--- a/src/pycba/types.py
+++ b/src/pycba/types.py
@@ -64,8 +64,10 @@ class MemberType(enum.IntEnum):
                 f"A single member type is required, got {arr.size} values."
             )
         iv = int(arr.reshape(-1)[0])
-        if iv not in (1, 2, 3, 4):
-            raise ValueError(f"eletype must be 1-4 (or a MemberType/name), got {iv}.")
+        if iv not in (1, 2, 3, 4) or iv != arr.reshape(-1)[0]:
+            raise ValueError(
+                f"eletype must be 1-4 (or a MemberType/name), got {value!r}."
+            )
         return iv
 
 
-- 
2.43.0


From 0d3ca40b7a3ddc0576eb08fd7d5285314fe1ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 27/63] fix: modal analysis includes the foundation and holds
 prescribed degrees of freedom

---
 src/pycba/modal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycba/modal.py b/src/pycba/modal.py
index 5b0593a..4fc00ab 100644
--- a/src/pycba/modal.py
+++ b/src/pycba/modal.py
@@ -244,6 +244,9 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
         Li = beam.mbr_lengths[i]
         h = Li / nseg
         ke = _k_ebeam(EIi, h)
+        if beam.mbr_kf[i] is not None:
+            # Winkler foundation: the same shape functions as the mass
+            ke = ke + _m_consistent(beam.mbr_kf[i], h)
         me = _m_consistent(mass_list[i], h)
         base = i * nseg
         for s in range(nseg):
@@ -254,14 +257,17 @@ def solve_modal(beam, mass, n_modes: int = 10, nseg: int = 12) -> ModalResults:
             M[sdof : sdof + 4, sdof : sdof + 4] += me
 
     # Supports at the original span nodes: remove fixed DOFs; add spring stiffness.
+    # A DOF with a prescribed displacement is held there: it does not vibrate.
     restraints = np.asarray(beam.restraints)
+    held = [d is not None for d in beam.prescribed_displacements]
+    held = held or [False] * len(restraints)
     fixed = set()
     for j in range(N + 1):
         gnode = j * nseg
         for d in range(2):
             gdof = 2 * gnode + d
             r = restraints[2 * j + d]
-            if r == -1:
+            if r < 0 or held[2 * j + d]:
                 fixed.add(gdof)
             elif r > 0:
                 K[gdof, gdof] += r
-- 
2.43.0


From 5494e839ba0f09aa6fd248f8bac803b85c99d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 28/63] fix: compound parabola keeps its slope at the right
 contraflexure

---
 src/pycba/prestress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 79c5341..73c4b85 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -165,7 +165,7 @@ class CompoundParabola:
         centrelines respectively.
     c : float
         Low-point location measured from the left support centreline
-        (``b < c < L - a`` is required so the four pieces are well formed).
+        (``a < c < L - b`` is required so the four pieces are well formed).
     """
 
     e_left: float
@@ -192,7 +192,7 @@ class CompoundParabola:
         el, em, er = self.e_left, self.e_mid, self.e_right
         a1 = (a / c) * (em - el)
         a2 = (em - el) - a1
-        a4 = (b / d) * (em - er)
+        a4 = (b / (L - c)) * (em - er)
         a3 = (em - er) - a4
         # epp of each segment from sag over its half-span (sag a_i over length):
         # piece 1 [0,a] concave down, piece 2 [a,c] concave up,
-- 
2.43.0


From 59296844f0574ac76ed07052acb493399dfcdb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 29/63] fix: a tendon through a free interior node is not that
 of a cantilever

---
 src/pycba/prestress.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 73c4b85..876ebd3 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -357,13 +357,8 @@ def equivalent_loads(
             continue
         span = i + 1
         Li, Fi = L[i], F[i]
-        # a span with a free end node is a cantilever (tendon anchored at the tip)
-        if R[2 * i] == 0 and R[2 * i + 1] == 0:
-            cant = "left"
-        elif R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
-            cant = "right"
-        else:
-            cant = None
+        # a span with a free end is a cantilever (tendon anchored at the tip)
+        cant = _cantilever_side(R, i, n)
         segs = prof.segments(Li, cant)
         # distributed loads from curvature; point loads from interior kinks
         prev_end_slope = None
@@ -417,9 +412,10 @@ def _eval_e(segs: List[_Seg], x: float) -> float:
 
 
 def _cantilever_side(R, i, n):
-    if R[2 * i] == 0 and R[2 * i + 1] == 0:
+    # only the ends of the beam are tips; a free interior node is not
+    if i == 0 and R[0] == 0 and R[1] == 0:
         return "left"
-    if R[2 * (i + 1)] == 0 and R[2 * (i + 1) + 1] == 0:
+    if i == n - 1 and R[2 * n] == 0 and R[2 * n + 1] == 0:
         return "right"
     return None
 
-- 
2.43.0


From 6a397343c8f05d2ce3565f22b48e9278d1f1c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 30/63] fix: anchorage actions act where the tendon starts,
 stops or changes force

---
 src/pycba/prestress.py | 55 ++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index 876ebd3..e32b645 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -30,7 +30,7 @@ loads, a tendon sagging ``a`` below the chord of a simply-supported span gives a
 upward ``w = -8 F a / L²`` and a midspan moment ``-F a``; a constant eccentricity
 ``e`` gives a uniform ``-F e``.  Applying the returned matrix and analysing gives
 the **balanced** moment ``M_bal``; the secondary (parasitic) moment is
-``M₂ = M_bal − F·e``.
+``M₂ = M_bal + F·e``.
 """
 
 from __future__ import annotations
@@ -333,8 +333,8 @@ def equivalent_loads(
     Returns
     -------
     LoadMatrix
-        A PyCBA load matrix (UDLs, partial UDLs, point loads and the two end
-        anchorage moments) ready to pass to ``set_loads``/``add`` and analyse.
+        A PyCBA load matrix (UDLs, partial UDLs, point loads and the anchorage
+        moments) ready to pass to ``set_loads``/``add`` and analyse.
     """
     beam = model.beam if hasattr(model, "beam") else model
     R = list(beam.restraints)
@@ -347,10 +347,8 @@ def equivalent_loads(
         raise ValueError(f"expected {n} force values, got {len(F)}")
 
     LM: LoadMatrix = []
-    first_e: Optional[float] = None
-    first_F = 0.0
-    last_e: Optional[float] = None
-    last_F = 0.0
+    # F e and F e' at the left and right end of each span
+    ends = np.zeros((n, 2, 2))
 
     for i, prof in enumerate(profiles):
         if prof is None:
@@ -377,28 +375,27 @@ def equivalent_loads(
                     LM.append([span, 2, P, s.x1])
             prev_end_slope = s.slope_end()
 
-        # remember tendon eccentricity AND slope at the two ends of the beam
-        if first_e is None:
-            first_e, first_F = segs[0].e1, Fi
-            first_slope = segs[0].slope_start()
-        last_e, last_F = segs[-1].e2, Fi
-        last_slope = segs[-1].slope_end()
-
-    # Anchorage actions  M = F e (couple) and V = F e' (vertical).  At the left
-    # end +F e; at the right end -F e, so the moment pair is self-equilibrating
-    # (a constant eccentricity gives the correct uniform -F e).  The vertical
-    # anchorage force is reacted directly by any support there, so it is applied
-    # only at a free tip (where it is not absorbed).
-    left_free = R[0] == 0 and R[1] == 0
-    right_free = R[2 * n] == 0 and R[2 * n + 1] == 0
-    if first_e is not None and abs(first_e) > _TOL:
-        LM.append([1, 4, first_F * first_e, 0.0])
-    if last_e is not None and abs(last_e) > _TOL:
-        LM.append([n, 4, -last_F * last_e, L[-1]])
-    if left_free and abs(first_slope) > _TOL:
-        LM.append([1, 2, first_F * first_slope, 0.0])
-    if right_free and abs(last_slope) > _TOL:
-        LM.append([n, 2, -last_F * last_slope, L[-1]])
+        # remember tendon eccentricity AND slope at the two ends of the span
+        ends[i, 0] = Fi * segs[0].e1, Fi * segs[0].slope_start()
+        ends[i, 1] = Fi * segs[-1].e2, Fi * segs[-1].slope_end()
+
+    # Anchorage actions  M = F e (couple) and V = F e' (vertical), wherever the
+    # tendon starts, stops or changes force or level.  At the left end +F e; at
+    # the right end -F e, so the moment pair is self-equilibrating (a constant
+    # eccentricity gives the correct uniform -F e).  Vertical forces at a rigid
+    # support are reacted directly there, so they are applied only at the nodes
+    # that can move vertically.
+    for j in range(n + 1):
+        before = ends[j - 1, 1].tolist() if j > 0 else [0.0, 0.0]
+        after = ends[j, 0].tolist() if j < n else [0.0, 0.0]
+        if abs(after[0] - before[0]) > _TOL:
+            if abs(before[0]) > _TOL:
+                LM.append([j, 4, -before[0], L[j - 1]])
+            if abs(after[0]) > _TOL:
+                LM.append([j + 1, 4, after[0], 0.0])
+        dV = after[1] - before[1]
+        if R[2 * j] >= 0 and abs(dV) > _TOL:
+            LM.append([j + 1, 2, dV, 0.0] if j < n else [n, 2, dV, L[-1]])
 
     return LM
 
-- 
2.43.0


From 5a620ce7b73c80485e2f577659e0d79a80f63ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 31/63] fix: refuse tendon high points outside the span

---
 docs/source/general.md | 2 +-
 src/pycba/prestress.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/docs/source/general.md b/docs/source/general.md
index 884ad5e..1ecae8b 100644
--- a/docs/source/general.md
+++ b/docs/source/general.md
@@ -529,7 +529,7 @@ The equivalent loads are generated from first principles from the piecewise
 tendon `e(x)`: a uniform load `w = F·e″` over each parabolic segment, a point
 load `P = F·Δe′` at each interior kink, an anchorage moment `F·e` at each end,
 and an anchorage force `F·e′` at a free tip. Applying them gives the **balanced**
-moment `M_bal`; the secondary (parasitic) moment is then `M₂ = M_bal − F·e`,
+moment `M_bal`; the secondary (parasitic) moment is then `M₂ = M_bal + F·e`,
 where `e = e(x)` is the tendon eccentricity.
 
 The profile geometry and the equivalent-load derivation follow the standard PT
diff --git a/src/pycba/prestress.py b/src/pycba/prestress.py
index e32b645..3d03965 100644
--- a/src/pycba/prestress.py
+++ b/src/pycba/prestress.py
@@ -118,6 +118,10 @@ class Parabola:
 
     def segments(self, L: float, cantilever: Optional[str] = None) -> List[_Seg]:
         cl, cr = self.c_left, self.c_right
+        if cl < 0 or cr < 0:
+            raise ValueError("Parabola: c_left and c_right cannot be negative")
+        if (cl if cantilever == "right" else cr if cantilever else 0) >= L - _TOL:
+            raise ValueError("Parabola: the high point is beyond the tip")
         if cantilever == "right":  # support at x=0 (high point, zero slope), tip at L
             x1, x2 = cl, L
             Le = x2 - x1
@@ -238,6 +242,8 @@ class Harp:
 
     def segments(self, L: float, cantilever: Optional[str] = None) -> List[_Seg]:
         cl, cr = self.c_left, self.c_right
+        if cl < 0 or cr < 0:
+            raise ValueError("Harp: c_left and c_right cannot be negative")
         xb = self.a
         xl, xr = cl, L - cr
         if not (xl < xb < xr):
@@ -282,6 +288,8 @@ class DoubleHarp:
 
     def segments(self, L: float, cantilever: Optional[str] = None) -> List[_Seg]:
         cl, cr = self.c_left, self.c_right
+        if cl < 0 or cr < 0:
+            raise ValueError("DoubleHarp: c_left and c_right cannot be negative")
         xa, xb = self.a, self.b
         xl, xr = cl, L - cr
         if not (xl < xa < xb < xr):
-- 
2.43.0


From c7646253ea3dffb3cf56f52733d31596bbd9b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 32/63] fix: collapse is a mechanism, not just any two plastic
 hinges

---
 src/pycba/nonlinear.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d7feb32..8543c10 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -869,17 +869,23 @@ class NonlinearBeamAnalysis:
         the structure has become a mechanism.
         """
         reps = self._cluster_hinges(hinged_nodes)
-        if len(reps) < 2:
+        if not reps:
             return False
-        R_test = np.ones((self.n_elem, 2))
+        # a mechanism depends on neither rigidity nor units: EI = 1, mean h = 1
+        h = self.elem_L / self.elem_L.mean()
+        K_test = np.zeros((self.n_dof, self.n_dof))
+        for i in range(self.n_elem):
+            left, right = i in reps, i + 1 in reps
+            if left and right:
+                continue
+            k = _k_PF if left else _k_FP if right else _k_FF
+            d = 2 * i
+            K_test[d : d + 4, d : d + 4] += k(1.0, h[i])
+        # a released node turns freely without being a mechanism
         for j in reps:
-            if j > 0:
-                R_test[j - 1, 1] = 0.0
-            if j < self.n_elem:
-                R_test[j, 0] = 0.0
-        K_test = self._assemble_from_elem_R(R_test)
+            K_test[2 * j + 1, 2 * j + 1] = 1.0
         self._apply_bc_inplace(K_test)
-        return np.linalg.matrix_rank(K_test, tol=1e-6) < self.n_dof
+        return bool(np.linalg.matrix_rank(K_test) < self.n_dof)
 
     # ---- Static incremental analysis ----
 
-- 
2.43.0


From 9ada6d9ff51030596f477c2b4332adda2b33e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 33/63] fix: the weaker span governs the plastic hinge over a
 support

---
 src/pycba/nonlinear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 8543c10..e54617a 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -639,6 +639,12 @@ class NonlinearBeamAnalysis:
         self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
+        # over a support the hinge forms in the weaker of the two spans
+        for j in np.flatnonzero(np.diff(self.node_to_span)):
+            nxt = self.node_to_span[j + 1]
+            if self.span_Mp[nxt] < self.node_Mp[j]:
+                self.node_Mp[j] = self.span_Mp[nxt]
+                self.node_My[j] = self.span_My[nxt]
         self.node_gamma_y = self.node_My / self.node_Mp
 
         # ---- Precompute element stiffness matrices (n_elem, 4, 4) ----
-- 
2.43.0


From 4711115c0cb94b09baed3953a38d049bcccdd18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 34/63] fix: sign of the moment at the left end in nonlinear
 analyses

---
 src/pycba/nonlinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index e54617a..d8959f5 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -784,7 +784,7 @@ class NonlinearBeamAnalysis:
                 k = R1 * self._ke_all[i] + (R2 - R1) * self._k1_all[i]
             fe = k @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]
             moments[i + 1] = fe[3]
         return moments
 
@@ -795,7 +795,7 @@ class NonlinearBeamAnalysis:
             d = 2 * i
             fe = self._ke_all[i] @ u[d : d + 4]
             if i == 0:
-                moments[0] = fe[1]
+                moments[0] = -fe[1]
             moments[i + 1] = fe[3]
         return moments
 
-- 
2.43.0


From 81b8edd494673d96097cacf90019ef83f7957140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 35/63] fix: nonlinear analysis refuses loads it does not cover

---
 src/pycba/nonlinear.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index d8959f5..63ece12 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -724,6 +724,15 @@ class NonlinearBeamAnalysis:
             i_span = int(ld[0]) - 1
             lt = int(ld[1])
             val = float(ld[2])
+            if not 0 <= i_span < self.n_spans:
+                raise ValueError(f"there is no span {ld[0]}")
+            if lt not in (1, 2):
+                raise ValueError(
+                    "nonlinear analysis covers UDLs (type 1) and point loads "
+                    f"(type 2) only, not load type {lt}"
+                )
+            if lt == 2 and not 0 <= float(ld[3]) <= self.span_L[i_span]:
+                raise ValueError(f"point load at {ld[3]} is not on span {ld[0]}")
             if lt == 1:  # UDL
                 xs, xe = span_starts[i_span], span_starts[i_span + 1]
                 for ie in range(self.n_elem):
-- 
2.43.0


From c137fa482a9581eff9097e323557e00b479376cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 36/63] fix: nonlinear analysis refuses supports and capacities
 it cannot model

---
 src/pycba/nonlinear.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 63ece12..724a769 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -619,12 +619,21 @@ class NonlinearBeamAnalysis:
 
         _as = (
             lambda v, n: np.full(n, float(v))
-            if isinstance(v, (int, float))
+            if np.ndim(v) == 0
             else np.atleast_1d(np.asarray(v, dtype=float))
         )
         self.span_EI = _as(EI, self.n_spans)
         self.span_Mp = _as(Mp, self.n_spans)
         self.span_My = (self.span_Mp / 1.15) if My is None else _as(My, self.n_spans)
+        for name in ("EI", "Mp", "My"):
+            if len(getattr(self, "span_" + name)) != self.n_spans:
+                raise ValueError(f"expected {self.n_spans} values of {name}")
+        if np.any(self.span_My > self.span_Mp):
+            raise ValueError("My cannot exceed Mp")
+        if len(self.span_R) != 2 * (self.n_spans + 1):
+            raise ValueError(f"expected {2 * (self.n_spans + 1)} restraints")
+        if any(r not in (-1, 0) for r in self.span_R):
+            raise ValueError("nonlinear analysis covers rigid (-1) supports only")
 
         # Build mesh
         self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
@@ -660,6 +669,8 @@ class NonlinearBeamAnalysis:
 
         # Precompute elastic global K with BCs applied (for unloading)
         self._K_elastic_bc = self._apply_bc_inplace(self._assemble_elastic())
+        if self._is_mechanism(set()):
+            raise ValueError("the supports leave the beam free to move")
 
         # BC mask for fast BC application
         self._bc_set = set(self.bc_dofs)
@@ -884,8 +895,6 @@ class NonlinearBeamAnalysis:
         the structure has become a mechanism.
         """
         reps = self._cluster_hinges(hinged_nodes)
-        if not reps:
-            return False
         # a mechanism depends on neither rigidity nor units: EI = 1, mean h = 1
         h = self.elem_L / self.elem_L.mean()
         K_test = np.zeros((self.n_dof, self.n_dof))
-- 
2.43.0


From 5bb61b7e7f79902be7b205158d4a3832e263490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 37/63] fix: load increments of the nonlinear analysis stop at
 yield and plastic moments

---
 src/pycba/nonlinear.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 724a769..34300d2 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -840,8 +840,9 @@ class NonlinearBeamAnalysis:
             ie = max(0, j - 1)  # owning element
             end = 1 if j > 0 else 0
 
-            if gamma[j] >= gamma_max[j]:
-                gamma_max[j] = gamma[j]
+            # (within rounding: a plastic hinge stays at its moment)
+            if gamma[j] >= gamma_max[j] * (1.0 - 1e-9):
+                gamma_max[j] = max(gamma[j], gamma_max[j])
                 g, gy = gamma[j], self.node_gamma_y[j]
                 if g <= gy:
                     R_elem[ie, end] = 1.0
@@ -911,6 +912,20 @@ class NonlinearBeamAnalysis:
         self._apply_bc_inplace(K_test)
         return bool(np.linalg.matrix_rank(K_test) < self.n_dof)
 
+    def _increment_part(self, moments, dm, gamma_max):
+        """
+        Part of an increment until the first node reaches its yield moment, its
+        plastic moment or (reloading) its previous peak; 1 if none does.
+        """
+        part = 1.0
+        for level in (self.node_gamma_y, np.ones(self.n_nodes), gamma_max):
+            cap = level * self.node_Mp
+            cross = (np.abs(moments) < cap * (1.0 - 1e-9)) & (np.abs(moments + dm) > cap)
+            if cross.any():
+                end = np.sign(moments + dm) * cap * (1.0 + 1e-9)
+                part = min(part, float(np.min((end - moments)[cross] / dm[cross])))
+        return part
+
     # ---- Static incremental analysis ----
 
     def analyze(self, LM, lambda_max=20.0, record_every=0, max_steps=50000):
@@ -975,8 +990,11 @@ class NonlinearBeamAnalysis:
                     u_total,
                 )
 
-            u_total = u_total + u
-            moments += self._extract_moments(u, R_elem)
+            dm = self._extract_moments(u, R_elem)
+            part = self._increment_part(moments, dm, gamma_max)
+            lam -= (1.0 - part) * dl
+            u_total = u_total + part * u
+            moments += part * dm
             new_h = self._update_R(
                 moments, gamma_max, R_elem, yielded, hinged, hinge_events, lam
             )
-- 
2.43.0


From 46b3e511cec8778d577f216482a742c099558f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 38/63] fix: hinges of opposite sign are not one cluster,
 hinges that unloaded are no hinges

---
 src/pycba/nonlinear.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 34300d2..0504366 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -831,10 +831,11 @@ class NonlinearBeamAnalysis:
         *q* at gamma = 1 (full plasticity).  Unloading resets *R* to 1
         (elastic rebound) — the Clough "origin-oriented" rule.
 
-        Returns ``True`` if a new plastic hinge formed at any node.
+        Returns ``True`` if a plastic hinge formed, or took up again, at any node.
         """
         gamma = np.abs(moments) / self.node_Mp
         new_hinge = False
+        R_before = R_elem.copy()
 
         for j in range(self.n_nodes):
             ie = max(0, j - 1)  # owning element
@@ -858,6 +859,8 @@ class NonlinearBeamAnalysis:
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "initial_yield")
                 )
+            if gamma[j] >= 1.0 and R_before[ie, end] > R_elem[ie, end]:
+                new_hinge = True
             if gamma[j] >= 1.0 and j not in hinged:
                 hinged.add(j)
                 hinge_events.append(
@@ -868,7 +871,7 @@ class NonlinearBeamAnalysis:
 
     # ---- Mechanism test ----
 
-    def _cluster_hinges(self, hinged_nodes, tol=0.0):
+    def _cluster_hinges(self, hinged_nodes, moments, tol=0.0):
         """Cluster nearby hinged nodes into representative locations.
 
         Because the mesh may produce multiple hinged nodes at nearly the
@@ -882,20 +885,25 @@ class NonlinearBeamAnalysis:
         sn = sorted(hinged_nodes)
         clusters = [[sn[0]]]
         for n in sn[1:]:
-            if self.node_coords[n] - self.node_coords[clusters[-1][-1]] <= tol:
+            last = clusters[-1][-1]
+            near = self.node_coords[n] - self.node_coords[last] <= tol
+            if near and moments[n] * moments[last] > 0:
                 clusters[-1].append(n)
             else:
                 clusters.append([n])
         return [c[len(c) // 2] for c in clusters]
 
-    def _is_mechanism(self, hinged_nodes):
+    def _is_mechanism(self, hinged_nodes, moments=None):
         """Test whether the current hinge pattern forms a collapse mechanism.
 
         Builds a test stiffness matrix with *R* = 0 at both element ends
         of every clustered hinge location.  If this matrix is rank-deficient
         the structure has become a mechanism.
         """
-        reps = self._cluster_hinges(hinged_nodes)
+        moments = np.zeros(self.n_nodes) if moments is None else moments
+        held = self.node_Mp * (1.0 - 1e-6)
+        active = [j for j in hinged_nodes if abs(moments[j]) >= held[j]]
+        reps = self._cluster_hinges(active, moments)
         # a mechanism depends on neither rigidity nor units: EI = 1, mean h = 1
         h = self.elem_L / self.elem_L.mean()
         K_test = np.zeros((self.n_dof, self.n_dof))
@@ -999,7 +1007,7 @@ class NonlinearBeamAnalysis:
                 moments, gamma_max, R_elem, yielded, hinged, hinge_events, lam
             )
 
-            if new_h and self._is_mechanism(hinged):
+            if new_h and self._is_mechanism(hinged, moments):
                 return NonlinearResult(
                     lam,
                     True,
@@ -1186,7 +1194,7 @@ class NonlinearBeamAnalysis:
                 nh = self._update_R(
                     moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
                 )
-                if nh and self._is_mechanism(hinged):
+                if nh and self._is_mechanism(hinged, moments):
                     return self._mr(
                         x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
                     )
-- 
2.43.0


From 2e524b6775ff1079e44f0cd7aed049be4154114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 39/63] fix: moving-load plastic analysis keeps moments within
 capacity

---
 src/pycba/nonlinear.py | 84 +++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 0504366..819d5a2 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -869,6 +869,36 @@ class NonlinearBeamAnalysis:
                 new_hinge = True
         return new_hinge
 
+    def _hinge_increment(self, dF, moments, gamma_max):
+        """
+        Moments due to a load increment of any direction.  A node at its peak
+        moment keeps its degraded stiffness while its moment grows; every other
+        node responds elastically (unloading resets *R* to 1).
+        """
+        dF = dF.copy()
+        dF[self.bc_dofs] = 0.0
+        gamma = np.abs(moments) / self.node_Mp
+        peak = (gamma >= gamma_max * (1.0 - 1e-9)) & (gamma > self.node_gamma_y)
+        soft = 1.0 - (gamma - self.node_gamma_y) / np.maximum(
+            1.0 - self.node_gamma_y, 1e-12
+        ) * (1.0 - self.q)
+        soft = np.where(gamma >= 1.0 - 1e-9, self.q, soft)
+
+        R_one = np.ones((self.n_elem, 2))
+        dm = self._extract_moments_elastic(np.linalg.solve(self._K_elastic_bc, dF))
+        grows = peak & (dm * moments > 0)
+        while grows.any():
+            R_elem = R_one.copy()
+            for j in np.flatnonzero(grows):
+                R_elem[max(0, j - 1), 1 if j > 0 else 0] = soft[j]
+            K = self._apply_bc_inplace(self._assemble_from_elem_R(R_elem))
+            dm = self._extract_moments(np.linalg.solve(K, dF), R_elem)
+            more = grows | (peak & (dm * moments > 0))
+            if np.array_equal(more, grows):
+                break
+            grows = more
+        return dm
+
     # ---- Mechanism test ----
 
     def _cluster_hinges(self, hinged_nodes, moments, tol=0.0):
@@ -1125,26 +1155,16 @@ class NonlinearBeamAnalysis:
         yielded, hinged = set(), set()
 
         F_prev = np.zeros(self.n_dof)
-        K_el_bc = self._K_elastic_bc
 
         for i_pos, x_front in enumerate(positions):
             F_cur = self._vehicle_force_vector(aw, ax_coords, x_front)
+            dF = d_frac * (F_cur - F_prev)
 
-            if i_pos == 0:
-                for _ in range(n_sub):
-                    self._update_R(
-                        moments,
-                        gamma_max,
-                        R_elem,
-                        yielded,
-                        hinged,
-                        hinge_events,
-                        x_front,
-                    )
-                    K = self._assemble_from_elem_R(R_elem)
-                    K_bc, F_bc = self._apply_bc(K, d_frac * F_cur)
+            for _ in range(n_sub):
+                left, tries = 1.0, 0
+                while left > 1e-12:
                     try:
-                        u = np.linalg.solve(K_bc, F_bc)
+                        dm = self._hinge_increment(left * dF, moments, gamma_max)
                     except np.linalg.LinAlgError:
                         return self._mr(
                             x_front,
@@ -1155,17 +1175,13 @@ class NonlinearBeamAnalysis:
                             lam_hist,
                             mom_hist,
                         )
-                    moments += self._extract_moments(u, R_elem)
-            else:
-                for _ in range(n_sub):
-                    # Elastic unload
-                    F_ul = -d_frac * F_prev.copy()
-                    for dof in self.bc_dofs:
-                        F_ul[dof] = 0.0
-                    u_ul = np.linalg.solve(K_el_bc, F_ul)
-                    moments += self._extract_moments_elastic(u_ul)
-
-                    self._update_R(
+                    part = self._increment_part(moments, dm, gamma_max)
+                    tries += 1
+                    if tries > 20 * self.n_nodes:
+                        part = 1.0
+                    moments += part * dm
+                    left *= 1.0 - part
+                    nh = self._update_R(
                         moments,
                         gamma_max,
                         R_elem,
@@ -1174,12 +1190,7 @@ class NonlinearBeamAnalysis:
                         hinge_events,
                         x_front,
                     )
-
-                    K = self._assemble_from_elem_R(R_elem)
-                    K_bc, F_bc = self._apply_bc(K, d_frac * F_cur)
-                    try:
-                        u = np.linalg.solve(K_bc, F_bc)
-                    except np.linalg.LinAlgError:
+                    if nh and self._is_mechanism(hinged, moments):
                         return self._mr(
                             x_front,
                             True,
@@ -1189,15 +1200,6 @@ class NonlinearBeamAnalysis:
                             lam_hist,
                             mom_hist,
                         )
-                    moments += self._extract_moments(u, R_elem)
-
-                nh = self._update_R(
-                    moments, gamma_max, R_elem, yielded, hinged, hinge_events, x_front
-                )
-                if nh and self._is_mechanism(hinged, moments):
-                    return self._mr(
-                        x_front, True, hinge_events, moments, R_elem, lam_hist, mom_hist
-                    )
 
             F_prev = F_cur
             if record_every > 0 and i_pos % record_every == 0:
-- 
2.43.0


From ee49b9d963b0a02bca1cdc80fe021f29299e3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 40/63] fix: an axle on the very end of the beam still loads it

---
 src/pycba/nonlinear.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 819d5a2..7b80371 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -1086,8 +1086,9 @@ class NonlinearBeamAnalysis:
         F = np.zeros(self.n_dof)
         for w, ac in zip(axle_weights, axle_coords):
             x = pos - ac  # axle_coords[0]=0, subsequent trail behind
-            if 0 <= x <= self.total_length:
-                self._add_point_load(F, w, x)
+            tol = 1e-9 * self.total_length
+            if -tol <= x <= self.total_length + tol:
+                self._add_point_load(F, w, min(max(x, 0.0), self.total_length))
         return F
 
     # ---- Moving load analysis ----
-- 
2.43.0


From f105bfa6829357a41baebcf7344d4fa22c6aaaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 41/63] fix: a moment within rounding of its capacity has
 reached it

---
 src/pycba/nonlinear.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 7b80371..22b7ace 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -834,6 +834,7 @@ class NonlinearBeamAnalysis:
         Returns ``True`` if a plastic hinge formed, or took up again, at any node.
         """
         gamma = np.abs(moments) / self.node_Mp
+        full = 1.0 - 2e-9  # within rounding
         new_hinge = False
         R_before = R_elem.copy()
 
@@ -847,21 +848,21 @@ class NonlinearBeamAnalysis:
                 g, gy = gamma[j], self.node_gamma_y[j]
                 if g <= gy:
                     R_elem[ie, end] = 1.0
-                elif g >= 1.0:
+                elif g >= full:
                     R_elem[ie, end] = self.q
                 else:
                     R_elem[ie, end] = 1.0 - (g - gy) / (1.0 - gy) * (1.0 - self.q)
             else:
                 R_elem[ie, end] = 1.0
 
-            if gamma[j] >= self.node_gamma_y[j] and j not in yielded:
+            if gamma[j] >= self.node_gamma_y[j] * full and j not in yielded:
                 yielded.add(j)
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "initial_yield")
                 )
-            if gamma[j] >= 1.0 and R_before[ie, end] > R_elem[ie, end]:
+            if gamma[j] >= full and R_before[ie, end] > R_elem[ie, end]:
                 new_hinge = True
-            if gamma[j] >= 1.0 and j not in hinged:
+            if gamma[j] >= full and j not in hinged:
                 hinged.add(j)
                 hinge_events.append(
                     HingeEvent(pos_label, self.node_coords[j], j, "plastic_hinge")
@@ -882,7 +883,7 @@ class NonlinearBeamAnalysis:
         soft = 1.0 - (gamma - self.node_gamma_y) / np.maximum(
             1.0 - self.node_gamma_y, 1e-12
         ) * (1.0 - self.q)
-        soft = np.where(gamma >= 1.0 - 1e-9, self.q, soft)
+        soft = np.where(gamma >= 1.0 - 2e-9, self.q, soft)
 
         R_one = np.ones((self.n_elem, 2))
         dm = self._extract_moments_elastic(np.linalg.solve(self._K_elastic_bc, dF))
-- 
2.43.0


From 1d4b1086965dda7c64ba9f151a9cfe6d2c95ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 42/63] fix: the first element of a span has that span's
 rigidity

---
 src/pycba/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 22b7ace..4370e05 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -645,7 +645,7 @@ class NonlinearBeamAnalysis:
         self.support_coords = np.concatenate(([0.0], np.cumsum(self.span_L)))
 
         # Per-element / per-node properties
-        self.elem_EI = self.span_EI[self.node_to_span[: self.n_elem]]
+        self.elem_EI = self.span_EI[self.node_to_span[1:]]
         self.node_Mp = self.span_Mp[self.node_to_span]
         self.node_My = self.span_My[self.node_to_span]
         # over a support the hinge forms in the weaker of the two spans
-- 
2.43.0


From e96bbf1d4d48cc54da412e33343403b18bbdae38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 43/63] fix: a load between mesh nodes reaches them by the
 lever rule

---
 src/pycba/nonlinear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 4370e05..6f0372e 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -776,10 +776,8 @@ class NonlinearBeamAnalysis:
             h = self.node_coords[nR] - self.node_coords[nL]
             a = x - self.node_coords[nL]
             b = h - a
-            F[2 * nL] -= P * b**2 * (3 * a + b) / h**3
-            F[2 * nL + 1] -= P * a * b**2 / h**2
-            F[2 * nR] -= P * a**2 * (a + 3 * b) / h**3
-            F[2 * nR + 1] += P * a**2 * b / h**2
+            F[2 * nL] -= P * b / h
+            F[2 * nR] -= P * a / h
 
     def _point_load_vector(self, P: float, x: float) -> np.ndarray:
         """Return a new force vector for a single point load *P* at *x*."""
-- 
2.43.0


From 131a5c7b0ddc882b5178bccb0724e29a417bfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 44/63] fix: plastic hinges turn only in the sense of their
 moment

---
 src/pycba/nonlinear.py | 79 +++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 47 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 6f0372e..6ab02ad 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -36,6 +36,7 @@ from __future__ import annotations
 
 import numpy as np
 import matplotlib.pyplot as plt
+from scipy.optimize import linprog
 from dataclasses import dataclass, field
 from typing import Optional, Union
 
@@ -669,7 +670,7 @@ class NonlinearBeamAnalysis:
 
         # Precompute elastic global K with BCs applied (for unloading)
         self._K_elastic_bc = self._apply_bc_inplace(self._assemble_elastic())
-        if self._is_mechanism(set()):
+        if np.linalg.matrix_rank(self._K_elastic_bc) < self.n_dof:
             raise ValueError("the supports leave the beam free to move")
 
         # BC mask for fast BC application
@@ -900,54 +901,38 @@ class NonlinearBeamAnalysis:
 
     # ---- Mechanism test ----
 
-    def _cluster_hinges(self, hinged_nodes, moments, tol=0.0):
-        """Cluster nearby hinged nodes into representative locations.
+    def _is_mechanism(self, hinged_nodes, moments, F):
+        """Test whether the current hinges form a collapse mechanism under *F*.
 
-        Because the mesh may produce multiple hinged nodes at nearly the
-        same physical location, this groups them within *tol* (default
-        2 * min element length) and returns one representative per cluster.
+        A plastic hinge turns in the sense of its moment only.  So no more of
+        the load *F* can be carried when no increment of the moments which is
+        in equilibrium with *F* keeps every hinge at or below its moment.
         """
-        if not hinged_nodes:
-            return []
-        if tol <= 0.0:
-            tol = 2.0 * float(self.elem_L.min())
-        sn = sorted(hinged_nodes)
-        clusters = [[sn[0]]]
-        for n in sn[1:]:
-            last = clusters[-1][-1]
-            near = self.node_coords[n] - self.node_coords[last] <= tol
-            if near and moments[n] * moments[last] > 0:
-                clusters[-1].append(n)
-            else:
-                clusters.append([n])
-        return [c[len(c) // 2] for c in clusters]
-
-    def _is_mechanism(self, hinged_nodes, moments=None):
-        """Test whether the current hinge pattern forms a collapse mechanism.
-
-        Builds a test stiffness matrix with *R* = 0 at both element ends
-        of every clustered hinge location.  If this matrix is rank-deficient
-        the structure has become a mechanism.
-        """
-        moments = np.zeros(self.n_nodes) if moments is None else moments
         held = self.node_Mp * (1.0 - 1e-6)
-        active = [j for j in hinged_nodes if abs(moments[j]) >= held[j]]
-        reps = self._cluster_hinges(active, moments)
-        # a mechanism depends on neither rigidity nor units: EI = 1, mean h = 1
+        bounds = [(None, None)] * self.n_nodes + [(0.0, 1.0)]
+        for j in hinged_nodes:
+            if abs(moments[j]) >= held[j]:
+                bounds[j] = (None, 0.0) if moments[j] > 0 else (0.0, None)
+        size = float(np.abs(F).max()) or 1.0
         h = self.elem_L / self.elem_L.mean()
-        K_test = np.zeros((self.n_dof, self.n_dof))
-        for i in range(self.n_elem):
-            left, right = i in reps, i + 1 in reps
-            if left and right:
-                continue
-            k = _k_PF if left else _k_FP if right else _k_FF
-            d = 2 * i
-            K_test[d : d + 4, d : d + 4] += k(1.0, h[i])
-        # a released node turns freely without being a mechanism
-        for j in reps:
-            K_test[2 * j + 1, 2 * j + 1] = 1.0
-        self._apply_bc_inplace(K_test)
-        return bool(np.linalg.matrix_rank(K_test) < self.n_dof)
+        rows = []
+        for j in range(self.n_nodes):
+            row = np.zeros(self.n_nodes + 1)
+            if 2 * j not in self.bc_dofs:  # vertical equilibrium
+                for i in (j - 1, j):
+                    if 0 <= i < self.n_elem:
+                        row[j] += 1.0 / h[i]
+                        row[i if i < j else j + 1] -= 1.0 / h[i]
+                row[-1] = F[2 * j] / size
+                rows.append(row)
+            if j in (0, self.n_elem) and 2 * j + 1 not in self.bc_dofs:
+                row = np.zeros(self.n_nodes + 1)
+                row[j] = 1.0
+                rows.append(row)
+        load = np.zeros(self.n_nodes + 1)
+        load[-1] = -1.0
+        best = linprog(load, A_eq=rows, b_eq=np.zeros(len(rows)), bounds=bounds)
+        return bool(best.status == 0 and best.x[-1] < 1e-6)
 
     def _increment_part(self, moments, dm, gamma_max):
         """
@@ -1036,7 +1021,7 @@ class NonlinearBeamAnalysis:
                 moments, gamma_max, R_elem, yielded, hinged, hinge_events, lam
             )
 
-            if new_h and self._is_mechanism(hinged, moments):
+            if new_h and self._is_mechanism(hinged, moments, F_ref):
                 return NonlinearResult(
                     lam,
                     True,
@@ -1190,7 +1175,7 @@ class NonlinearBeamAnalysis:
                         hinge_events,
                         x_front,
                     )
-                    if nh and self._is_mechanism(hinged, moments):
+                    if nh and self._is_mechanism(hinged, moments, dF):
                         return self._mr(
                             x_front,
                             True,
-- 
2.43.0


From 7ef0ea89a5da419a82454fa31494865a3076589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 45/63] fix: hinges that close as others form do not end the
 analysis

---
 src/pycba/nonlinear.py | 49 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 6ab02ad..4b8384c 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -885,19 +885,43 @@ class NonlinearBeamAnalysis:
         soft = np.where(gamma >= 1.0 - 2e-9, self.q, soft)
 
         R_one = np.ones((self.n_elem, 2))
-        dm = self._extract_moments_elastic(np.linalg.solve(self._K_elastic_bc, dF))
-        grows = peak & (dm * moments > 0)
-        while grows.any():
+        u_el = np.linalg.solve(self._K_elastic_bc, dF)
+        dm_el = self._extract_moments(u_el, R_one)
+        tol = 1e-9 * np.abs(dm_el).max() * self.node_Mp
+
+        def turning(grows, soft):
             R_elem = R_one.copy()
             for j in np.flatnonzero(grows):
                 R_elem[max(0, j - 1), 1 if j > 0 else 0] = soft[j]
             K = self._apply_bc_inplace(self._assemble_from_elem_R(R_elem))
-            dm = self._extract_moments(np.linalg.solve(K, dF), R_elem)
-            more = grows | (peak & (dm * moments > 0))
-            if np.array_equal(more, grows):
-                break
-            grows = more
-        return dm
+            u = np.linalg.solve(K, dF)
+            free = not np.abs(u).max() <= 1e6 * np.abs(u_el).max()
+            return u, self._extract_moments(u, R_elem), free
+
+        u, dm, grows = u_el, dm_el, peak & (dm_el * moments > tol)
+        try:
+            while grows.any():
+                u, dm, free = turning(grows, soft)
+                if free:
+                    raise np.linalg.LinAlgError
+                more = grows | (peak & (dm * moments > tol))
+                if np.array_equal(more, grows):
+                    break
+                grows = more
+        except np.linalg.LinAlgError:
+            # of so many hinges some may have to close: give them a trace of
+            # stiffness, which tells the sense in which they turn
+            soft = np.maximum(soft, 1e-8)
+            grows = peak & (dm_el * moments > tol)
+            for _ in range(2 * self.n_nodes):
+                u, dm, free = turning(grows, soft)
+                opens = peak & (dm * moments > np.where(grows, 0.0, tol))
+                if np.array_equal(opens, grows):
+                    break
+                grows = opens
+            if free:
+                raise np.linalg.LinAlgError("more load turns the hinges freely")
+        return u, dm
 
     # ---- Mechanism test ----
 
@@ -994,10 +1018,8 @@ class NonlinearBeamAnalysis:
             lam += dl
             step += 1
 
-            K = self._assemble_from_elem_R(R_elem)
-            K_bc, F_bc = self._apply_bc(K, dl * F_ref)
             try:
-                u = np.linalg.solve(K_bc, F_bc)
+                u, dm = self._hinge_increment(dl * F_ref, moments, gamma_max)
             except np.linalg.LinAlgError:
                 return NonlinearResult(
                     lam - dl,
@@ -1012,7 +1034,6 @@ class NonlinearBeamAnalysis:
                     u_total,
                 )
 
-            dm = self._extract_moments(u, R_elem)
             part = self._increment_part(moments, dm, gamma_max)
             lam -= (1.0 - part) * dl
             u_total = u_total + part * u
@@ -1149,7 +1170,7 @@ class NonlinearBeamAnalysis:
                 left, tries = 1.0, 0
                 while left > 1e-12:
                     try:
-                        dm = self._hinge_increment(left * dF, moments, gamma_max)
+                        _, dm = self._hinge_increment(left * dF, moments, gamma_max)
                     except np.linalg.LinAlgError:
                         return self._mr(
                             x_front,
-- 
2.43.0


From 3af9ac93cf9cef9850b438ec90c2b45daaf8209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 46/63] fix: a section without yield plateau stays at its
 plastic moment

---
 src/pycba/nonlinear.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 4b8384c..1c14780 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -845,10 +845,10 @@ class NonlinearBeamAnalysis:
             if gamma[j] >= gamma_max[j] * (1.0 - 1e-9):
                 gamma_max[j] = max(gamma[j], gamma_max[j])
                 g, gy = gamma[j], self.node_gamma_y[j]
-                if g <= gy:
-                    R_elem[ie, end] = 1.0
-                elif g >= full:
+                if g >= full:
                     R_elem[ie, end] = self.q
+                elif g <= gy:
+                    R_elem[ie, end] = 1.0
                 else:
                     R_elem[ie, end] = 1.0 - (g - gy) / (1.0 - gy) * (1.0 - self.q)
             else:
@@ -878,7 +878,8 @@ class NonlinearBeamAnalysis:
         dF = dF.copy()
         dF[self.bc_dofs] = 0.0
         gamma = np.abs(moments) / self.node_Mp
-        peak = (gamma >= gamma_max * (1.0 - 1e-9)) & (gamma > self.node_gamma_y)
+        beyond = (gamma > self.node_gamma_y) | (gamma >= 1.0 - 2e-9)
+        peak = (gamma >= gamma_max * (1.0 - 1e-9)) & beyond
         soft = 1.0 - (gamma - self.node_gamma_y) / np.maximum(
             1.0 - self.node_gamma_y, 1e-12
         ) * (1.0 - self.q)
-- 
2.43.0


From 1026e593b7ba6007fa79b376eedcd111b70b7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 47/63] fix: nonlinear analysis refuses a rotation fixed
 between spans

---
 src/pycba/nonlinear.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 1c14780..1480556 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -635,6 +635,11 @@ class NonlinearBeamAnalysis:
             raise ValueError(f"expected {2 * (self.n_spans + 1)} restraints")
         if any(r not in (-1, 0) for r in self.span_R):
             raise ValueError("nonlinear analysis covers rigid (-1) supports only")
+        if any(self.span_R[3:-2:2]):
+            raise ValueError(
+                "nonlinear analysis does not cover a rotation fixed between spans: "
+                "analyse the parts on either side separately"
+            )
 
         # Build mesh
         self.node_coords, self.elem_L, self.bc_dofs, self.node_to_span = _build_mesh(
-- 
2.43.0


From 3f04de76f544e750a7a5722ebaf4a2d19d669fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 48/63] fix: theory and docstrings describe the nonlinear
 analysis as it is now

---
 docs/source/theory.md  | 29 +++++++++++++----------------
 src/pycba/nonlinear.py | 13 +++++++------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/docs/source/theory.md b/docs/source/theory.md
index 89c3202..253b74c 100644
--- a/docs/source/theory.md
+++ b/docs/source/theory.md
@@ -981,33 +981,30 @@ The proportional-load analysis proceeds incrementally:
 
 For a vehicle traversing the beam the load position changes at each step, and the
 load must be transferred from the old position to the new one without spurious
-plastic deformation. `PyCBA` uses paired **elastic-unload / nonlinear-reload**
-sub-increments at each position: unload the previous position's load fraction
-using the *elastic* stiffness (unloading is always elastic in the Clough model),
-then reload the new position's load fraction using the *current* (degraded)
-stiffness. Each position step is divided into $n_{\text{sub}}$ sub-increments for
-accuracy. This correctly accumulates plastic damage as the vehicle traverses
+plastic deformation. `PyCBA` applies the *difference* of the two load vectors in
+$n_{\text{sub}}$ sub-increments. Within each, a section at its peak moment keeps
+its degraded stiffness as long as its moment grows; every other section responds
+elastically (unloading is always elastic in the Clough model). Increments stop
+where a section reaches its yield or plastic moment, so no moment exceeds $M_p$.
+This correctly accumulates plastic damage as the vehicle traverses
 ([McCarthy, 2012](ref-mccarthy-2012);
 [Caprani, 2006](ref-caprani-2006)).
 
 ### Collapse detection
 
 A collapse mechanism requires enough plastic hinges to render the structure
-kinematically unstable. `PyCBA` detects this with a **rank test**: nearby hinged
-nodes are first clustered (within $2 h_{\min}$, where $h_{\min}$ is the smallest
-element length) to absorb mesh discretisation; at each clustered hinge $R = 0$ is
-set at *both* element ends, fully releasing the node as in a true mechanism; the
-test stiffness $\mathbf{K}_{\text{test}}$ is assembled with the boundary
-conditions applied; and if
-$\operatorname{rank}(\mathbf{K}_{\text{test}}) < n_{\text{dof}}$ the structure is
-a mechanism and collapse has occurred. This direct kinematic test is more robust
-than monitoring determinant magnitude or displacement growth.
+kinematically unstable, each turning in the sense of its moment. Equivalently (the
+static theorem), the beam collapses when no increment of moments in equilibrium
+with more of the load keeps every section that has reached $M_p$ at or below it.
+`PyCBA` decides this with a small linear programme in the nodal moments each time
+a hinge forms. Unlike a rank test of the released stiffness it does not mistake
+hinges of the same sense, or neighbouring hinges of a fine mesh, for a mechanism.
 
 ### Mesh considerations
 
 The continuous beam is internally meshed into short elements of a target length
 (`mesh_size`). Point loads at mesh nodes are represented exactly; loads between
-nodes are distributed to adjacent nodes by Hermite interpolation, and UDL is
+nodes are distributed to adjacent nodes by the lever rule, and UDL is
 lumped to nodal forces. Plastic hinges can form only at mesh nodes, so a hinge
 whose theoretical location (e.g. $x^{*} = 0.414\,L$ for a propped cantilever
 under UDL) falls between nodes "snaps" to the nearest node — a discretisation
diff --git a/src/pycba/nonlinear.py b/src/pycba/nonlinear.py
index 1480556..5546684 100644
--- a/src/pycba/nonlinear.py
+++ b/src/pycba/nonlinear.py
@@ -15,8 +15,8 @@ Each plastic hinge is *owned* by a single element end so that the adjacent
 element retains rotational stiffness at the shared node.  This keeps the
 global stiffness matrix non-singular during load redistribution and allows
 the analysis to continue past first-hinge formation.  True collapse is
-detected by a separate rank test that zeros both element ends at every
-hinged node and checks for global singularity.
+detected separately: no more of the load can be carried with every hinge
+at or below its moment.
 
 References
 ----------
@@ -768,8 +768,8 @@ class NonlinearBeamAnalysis:
     def _add_point_load(self, F: np.ndarray, P: float, x: float):
         """Add a point load *P* at global coordinate *x* into force vector *F*.
 
-        Uses Hermite shape-function interpolation when *x* falls between
-        mesh nodes.
+        Between mesh nodes the load reaches them by the lever rule, which
+        leaves the moments at the nodes in equilibrium with it.
         """
         if x < 0 or x > self.total_length:
             return
@@ -1116,8 +1116,9 @@ class NonlinearBeamAnalysis:
         Moving-load nonlinear analysis.
 
         A vehicle traverses the beam from left to right.  At each position
-        step the load is transferred via paired elastic-unload / nonlinear-
-        reload sub-increments.
+        step the difference of the loads is applied in sub-increments: sections
+        whose moment grows beyond its peak respond with their degraded
+        stiffness, all others elastically.
 
         The vehicle can be specified as:
 
-- 
2.43.0


From 9778c2f8b89323986b48bc7fc74d5c2b3a7f2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 49/63] fix: a partial UDL overhanging its span was drawn past
 the span

The analysis clips the load at the span end; the schematic drew it onto the
next span or beyond the beam.
---
 src/pycba/render.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index cefdece..41bde5a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -241,9 +241,12 @@ class BeamPlotter:
             if isinstance(ld, LoadUDL):
                 dist.append(DistLoad(ld.i_span, off, off + span_len, ld.w, ld.w))
             elif isinstance(ld, LoadPUDL):
-                dist.append(
-                    DistLoad(ld.i_span, off + ld.a, off + ld.a + ld.c, ld.w, ld.w)
-                )
+                # as in the analysis, what overhangs the span does not act
+                end = min(ld.a + ld.c, span_len)
+                if end > ld.a:
+                    dist.append(
+                        DistLoad(ld.i_span, off + ld.a, off + end, ld.w, ld.w)
+                    )
             elif isinstance(ld, LoadTrapez):
                 w1, w2, _dw, a, c = ld._resolve(span_len)
                 if c > 0:
-- 
2.43.0


From d1b6b763164df3939cceed0c4e5f3a5a1a3f794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 50/63] fix: schematic dimensions were labelled in metres
 whatever the units

---
 src/pycba/render.py | 4 ++--
 src/pycba/units.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 41bde5a..0667ebd 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -851,7 +851,7 @@ class BeamPlotter:
             ax.text(
                 0.5 * (x0 + x1),
                 yd - 0.15 * sh,
-                f"{x1 - x0:g} m",
+                self._us.fmt_length(x1 - x0),
                 ha="center",
                 va="top",
                 color="0.35",
@@ -874,7 +874,7 @@ class BeamPlotter:
         ax.text(
             0.5 * (x0 + x1),
             yd - 0.12 * sh,
-            f"{x1 - x0:g} m",
+            self._us.fmt_length(x1 - x0),
             ha="center",
             va="top",
             color="0.45",
diff --git a/src/pycba/units.py b/src/pycba/units.py
index 616be23..27e741e 100644
--- a/src/pycba/units.py
+++ b/src/pycba/units.py
@@ -95,6 +95,9 @@ class UnitSystem:
     def fmt_force(self, value: float) -> str:
         return self._val(f"{value:g}", self.force)
 
+    def fmt_length(self, value: float) -> str:
+        return self._val(f"{value:g}", self.length)
+
     def fmt_moment(self, value: float) -> str:
         return self._val(f"{value:g}", self.moment)
 
-- 
2.43.0


From ebb114169152e3a1dba185b06cc7b01b0511a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 51/63] fix: a load which changes direction was labelled as if
 it did not

---
 src/pycba/render.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 0667ebd..9e1ff00 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -771,12 +771,12 @@ class BeamPlotter:
                 zorder=4,
             )
         if show_val:
-            same = abs(d.w0 - d.w1) < 1e-9
-            lbl = (
-                self._us.fmt_distributed(abs(d.w0))
-                if same
-                else self._us.fmt_distributed(abs(d.w0), abs(d.w1))
-            )
+            if abs(d.w0 - d.w1) < 1e-9:
+                lbl = self._us.fmt_distributed(abs(d.w0))
+            elif d.w0 * d.w1 < 0:  # changes direction: keep the signs
+                lbl = self._us.fmt_distributed(d.w0, d.w1)
+            else:
+                lbl = self._us.fmt_distributed(abs(d.w0), abs(d.w1))
             ax.text(
                 0.5 * (x0 + x1),
                 max(h0, h1) + 0.25 * w_h,
@@ -1111,6 +1111,8 @@ class BeamPlotter:
                 for k, d in enumerate(self.dist_loads):
                     if abs(d.w0 - d.w1) < 1e-9:
                         lbl = f"${abs(d.w0):g}${du}"
+                    elif d.w0 * d.w1 < 0:  # changes direction: keep the signs
+                        lbl = f"${d.w0:g}\\rightarrow{d.w1:g}${du}"
                     else:
                         lbl = f"${abs(d.w0):g}\\rightarrow{abs(d.w1):g}${du}"
                     out.append(
-- 
2.43.0


From 2cc942c021b12609b6c544f33607f824df98fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 52/63] fix: TikZ drew upward distributed loads as downward
 ones

The sign was dropped, so uplift, and the reversed part of a load which changes
direction, pressed on the beam; and the light end of a triangular load was
drawn with a finite height.
---
 src/pycba/render.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 9e1ff00..e215a6a 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1100,9 +1100,23 @@ class BeamPlotter:
                 f1 = self._span_fraction(d.i_span, d.x1)
                 out.append(f"\\node (dl{k}a) at ($({ni})!{f0:g}!({nj})$){{}};")
                 out.append(f"\\node (dl{k}b) at ($({ni})!{f1:g}!({nj})$){{}};")
-                h0 = 0.3 + 0.4 * abs(d.w0) / wmax
-                h1 = 0.3 + 0.4 * abs(d.w1) / wmax
-                out.append(f"\\lineload{{1}}{{dl{k}a}}{{dl{k}b}}[{h0:g}][{h1:g}];")
+                h0 = 0.3 + 0.4 * abs(d.w0) / wmax if d.w0 else 0.0
+                h1 = 0.3 + 0.4 * abs(d.w1) / wmax if d.w1 else 0.0
+                # stanli draws the load on the left of its direction, pressing on
+                # the line: an upward load runs the other way, and one which
+                # changes direction is drawn as its two parts.
+                parts = [(f"dl{k}a", f"dl{k}b", h0, h1, d.w0 + d.w1)]
+                if d.w0 * d.w1 < 0:
+                    fz = f0 + (f1 - f0) * d.w0 / (d.w0 - d.w1)
+                    out.append(f"\\node (dl{k}z) at ($({ni})!{fz:g}!({nj})$){{}};")
+                    parts = [
+                        (f"dl{k}a", f"dl{k}z", h0, 0.0, d.w0),
+                        (f"dl{k}z", f"dl{k}b", 0.0, h1, d.w1),
+                    ]
+                for na, nb, ha, hb, w in parts:
+                    if w < 0:
+                        na, nb, ha, hb = nb, na, hb, ha
+                    out.append(f"\\lineload{{1}}{{{na}}}{{{nb}}}[{ha:g}][{hb:g}];")
             out.append("\\end{scope}")
             if show_val:
                 pdist = -max(0.6, 0.055 * self.L)
-- 
2.43.0


From 1f2d95251ace0234f44a44aeddb467684bb3929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 53/63] fix: TikZ showed members released over a support as
 continuous

---
 src/pycba/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index e215a6a..8685d52 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -1064,14 +1064,16 @@ class BeamPlotter:
     def _hinges_tikz(self, nodes: List[str]) -> List[str]:
         out: List[str] = []
         support_nodes = set()
+        released = {h.node for h in self.hinges}
         # Little pin at every pin/roller support: a full circle at an end
-        # support, and a half-circle (clipped to the member side) at an internal
+        # support or where the members are released over an internal one, and a
+        # half-circle (clipped to the member side) at a continuous internal
         # support - matching the doc examples (e.g. B in intro_ex_1).
         for s in self.supports:
             if s.kind in (PIN, ROLLER):
                 i = s.node
                 support_nodes.add(i)
-                if s.at_left_end or s.at_right_end:
+                if s.at_left_end or s.at_right_end or i in released:
                     out.append(f"\\hinge{{1}}{{{nodes[i]}}};")
                 else:
                     out.append(
-- 
2.43.0


From 0887874877693b6208fac2d4cbe82a696e072236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 54/63] fix: rotational springs were missing from schematics or
 drawn as vertical ones

---
 src/pycba/render.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 8685d52..25e6bce 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -217,10 +217,10 @@ class BeamPlotter:
                         node=i,
                         at_left_end=(i == 0),
                         at_right_end=(i == n_nodes - 1),
-                        # a pin/roller that also carries a rotational spring
+                        # a vertical support that also resists rotation
                         # (e.g. a sub-frame column) - drawn with a spiral so its
                         # moment reaction is explained
-                        rot_spring=(v == -1 and r > 0),
+                        rot_spring=(r != 0 and kind in (PIN, ROLLER, SPRING)),
                     )
                 )
         return supports
@@ -617,9 +617,13 @@ class BeamPlotter:
                     lw=0.8,
                     zorder=3,
                 )
-        elif s.kind in (SPRING, TORSION_SPRING):
+        elif s.kind == SPRING:
             self._spring_mpl(ax, x, sh)
             self._ground_mpl(ax, x, -1.2 * sh, 1.3 * sh)
+            if s.rot_spring:
+                self._rot_spring_mpl(ax, x, sh)
+        elif s.kind == TORSION_SPRING:
+            self._rot_spring_mpl(ax, x, sh)
         elif s.kind == GUIDED:
             ax.plot(
                 [x - 0.5 * sh, x + 0.5 * sh],
@@ -938,6 +942,8 @@ class BeamPlotter:
         lines.append("\t% Supports")
         for s in self.supports:
             lines.append("\t" + self._support_tikz(s, nodes))
+            if s.rot_spring:
+                lines.append(f"\t\\support{{6}}{{{nodes[s.node]}}};")
 
         hinge_lines = self._hinges_tikz(nodes)
         if hinge_lines:
-- 
2.43.0


From d9a90bb08ddcb1f1a09952eea0b29bc041a39ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 55/63] fix: TikZ schematics left out elastic foundations

---
 src/pycba/render.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 25e6bce..0634cb0 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -945,6 +945,10 @@ class BeamPlotter:
             if s.rot_spring:
                 lines.append(f"\t\\support{{6}}{{{nodes[s.node]}}};")
 
+        bed_lines = self._foundations_tikz(nodes)
+        if bed_lines:
+            lines.append("\t% Elastic foundation")
+            lines.extend("\t" + b for b in bed_lines)
         hinge_lines = self._hinges_tikz(nodes)
         if hinge_lines:
             lines.append("\t% Hinges")
@@ -1067,6 +1071,24 @@ class BeamPlotter:
             return f"\\support{{6}}{{{n}}};"
         return ""
 
+    def _foundations_tikz(self, nodes: List[str]) -> List[str]:
+        """
+        The springs along each span on an elastic foundation, spaced as in the
+        matplotlib backend.
+        """
+        out: List[str] = []
+        for i, kf in enumerate(getattr(self.beam, "mbr_kf", None) or []):
+            if kf is None:
+                continue
+            span_len = self.node_x[i + 1] - self.node_x[i]
+            n = int(np.clip(round(span_len / (0.07 * self.L)), 3, 18))
+            for j, f in enumerate(np.linspace(0.0, 1.0, n)):
+                out.append(
+                    f"\\node (fs{i}x{j}) at ($({nodes[i]})!{f:g}!({nodes[i + 1]})$){{}};"
+                )
+                out.append(f"\\support{{5}}{{fs{i}x{j}}};")
+        return out
+
     def _hinges_tikz(self, nodes: List[str]) -> List[str]:
         out: List[str] = []
         support_nodes = set()
-- 
2.43.0


From 8af04f5a17d34834750a7879fbd1e6d22a45b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 56/63] fix: supports past the 26th were labelled with
 punctuation

Node 28 became a backslash, which does not compile in the TikZ output.
---
 src/pycba/render.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycba/render.py b/src/pycba/render.py
index 0634cb0..22cea62 100644
--- a/src/pycba/render.py
+++ b/src/pycba/render.py
@@ -384,7 +384,7 @@ class BeamPlotter:
                 ax.text(
                     s.x + (0.8 * sh if right else -0.8 * sh),
                     -0.55 * sh,
-                    chr(ord("A") + s.node),
+                    self._node_letter(s.node),
                     ha="left" if right else "right",
                     va="center",
                     fontsize=9,
@@ -980,7 +980,7 @@ class BeamPlotter:
                     if s.at_right_end
                     else "below left=1mm and 4mm"
                 )
-                letter = chr(ord("A") + s.node)
+                letter = self._node_letter(s.node)
                 lines.append(
                     f"\t\\notation{{1}}{{{nodes[s.node]}}}{{${letter}$}}[{pos}];"
                 )
@@ -1042,6 +1042,16 @@ class BeamPlotter:
         return pdf
 
     # --- TikZ helpers --------------------------------------------------- #
+    @staticmethod
+    def _node_letter(i: int) -> str:
+        """The label of node ``i``: A to Z, then AA, AB and so on."""
+        s = ""
+        i += 1
+        while i:
+            i, r = divmod(i - 1, 26)
+            s = chr(ord("A") + r) + s
+        return s
+
     @staticmethod
     def _node_name(i: int) -> str:
         return chr(ord("a") + i) if i < 26 else f"p{i}"
-- 
2.43.0


From b8e326fe751eceda5f4ce8e4aab7496e04d7e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 57/63] fix: zeroed reaction histories of combined envelopes
 were plotted as reactions

---
 src/pycba/bridge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 4bfea90..70b0f0a 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1211,8 +1211,12 @@ class BridgeAnalysis:
 
         # Reactions may be force or moment; show both unit labels.
         react_u = f" ({us.force}/{us.moment})" if us.force and us.moment else ""
-        # Check if consistent envelope
-        if len(self.pos) == env.Rmax.shape[1]:
+        # Check if consistent envelope (an envelope of envelopes of different
+        # lengths keeps only the extremes, and its histories are zeroed)
+        histories = np.allclose(env.Rmax.max(axis=1), env.Rmaxval) and np.allclose(
+            env.Rmin.min(axis=1), env.Rminval
+        )
+        if histories and len(self.pos) == env.Rmax.shape[1]:
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
-- 
2.43.0


From 12f628929eb795aa444afd4f27e8516d4ef50109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 58/63] fix: trapezoidal loads given by their start only were
 left unshaded

---
 src/pycba/load_cases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycba/load_cases.py b/src/pycba/load_cases.py
index 7df74be..39a0454 100644
--- a/src/pycba/load_cases.py
+++ b/src/pycba/load_cases.py
@@ -827,9 +827,9 @@ def _load_case_loaded_regions(
         elif load_type == 3 and len(load) >= 5:
             a = float(load[3])
             c = float(load[4])
-        elif load_type == 5 and len(load) >= 6:
+        elif load_type == 5:  # a trapezoid from a, to the end unless c is given
             a = float(load[4])
-            c = float(load[5])
+            c = float(load[5]) if len(load) >= 6 else span_length - a
         else:
             continue
 
-- 
2.43.0


From ce9ad9bfa75cce51816cfb94197adab6c645da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 59/63] fix: in-place edits of restraints escaped the stability
 check

---
 src/pycba/analysis.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index addedb1..4b4722b 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -205,6 +205,9 @@ class BeamAnalysis:
         # check is not repeated across looped analyses (e.g. a moving load)
         # unless the structure itself changes.  ``None`` = never checked.
         self._checked_version = None
+        # ... and what was checked, since the restraints (lists) can be edited
+        # without the beam noticing.
+        self._checked_structure = None
 
     @property
     def beam_results(self) -> BeamResults:
@@ -452,9 +455,9 @@ class BeamAnalysis:
 
         f = np.copy(fU)
         ksysU = self._assemble()
-        if check_stability and self._checked_version != self._beam.structure_version:
+        if check_stability and not self._is_checked(ksysU, restraints, d_presc):
             self._check_stability(ksysU, restraints, d_presc)
-            self._checked_version = self._beam.structure_version
+            self._mark_checked(ksysU, restraints, d_presc)
         ksys = np.copy(ksysU)
         ksys, f = self._apply_bc(ksys, f)
         d = self._solver(ksys, f)
@@ -578,13 +581,30 @@ class BeamAnalysis:
         """
         restraints = self._beam.restraints
         d_presc = self._beam.prescribed_displacements
+        ksysU = self._assemble()
         try:
-            self._check_stability(self._assemble(), restraints, d_presc)
+            self._check_stability(ksysU, restraints, d_presc)
         except ValueError:
             return False
-        self._checked_version = self._beam.structure_version
+        self._mark_checked(ksysU, restraints, d_presc)
         return True
 
+    def _structure_key(self, ksysU: np.ndarray, restraints: list, d_presc: list):
+        """What the stability check depends on: the stiffness and the held DOFs."""
+        held = [restraints[i] < 0 or d_presc[i] is not None for i in range(self._nDOF)]
+        return ksysU.tobytes(), held
+
+    def _is_checked(self, ksysU, restraints, d_presc) -> bool:
+        return (
+            self._checked_version == self._beam.structure_version
+            and self._checked_structure
+            == self._structure_key(ksysU, restraints, d_presc)
+        )
+
+    def _mark_checked(self, ksysU, restraints, d_presc) -> None:
+        self._checked_version = self._beam.structure_version
+        self._checked_structure = self._structure_key(ksysU, restraints, d_presc)
+
     def _forces(self) -> np.ndarray:
         """
         Build the unrestricted global nodal force vector from the load matrix.
-- 
2.43.0


From b9b96695cbec44a9409c4fa4573efa8d7e2b2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 60/63] fix: judge stability with rotations measured at the
 span length

The eigenvalue ratio mixed force/length and force*length stiffnesses, so a
stable beam was refused as a mechanism when written in N and mm although the
same beam was accepted in kN and m.
---
 src/pycba/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycba/analysis.py b/src/pycba/analysis.py
index 4b4722b..9d1a5b8 100644
--- a/src/pycba/analysis.py
+++ b/src/pycba/analysis.py
@@ -528,6 +528,8 @@ class BeamAnalysis:
         eigenvalue collapses to zero relative to the largest.  The reciprocal
         condition number ``min|λ| / max|λ|`` is therefore compared against
         :attr:`_STABILITY_RCOND`; a value below it indicates a mechanism.
+        Rotations are measured as displacements at the mean span length, so that
+        the verdict does not depend on the units the model is written in.
 
         Parameters
         ----------
@@ -552,7 +554,9 @@ class BeamAnalysis:
         if not free:
             return  # fully constrained: nothing to solve, trivially stable
 
-        kff = ksysU[np.ix_(free, free)]
+        ell = self._beam.length / self._beam.no_spans
+        scale = np.where(np.arange(self._nDOF) % 2, ell, 1.0)
+        kff = (ksysU / np.outer(scale, scale))[np.ix_(free, free)]
         ev = np.abs(np.linalg.eigvalsh(kff))
         ev_max = ev.max()
         if ev_max == 0.0 or (ev.min() / ev_max) < self._STABILITY_RCOND:
-- 
2.43.0


From d3b0fdf6c6ef3f2407771fad3ce9c1372fa9ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 61/63] fix: give a pinned-pinned deformable member exactly no
 stiffness

Condensing both ends out of a Timoshenko or variable-EI member left round-off
stiffness, so a mechanism held by it alone passed for a stable structure.
---
 src/pycba/beam.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycba/beam.py b/src/pycba/beam.py
index 5a8aa0c..63020fe 100644
--- a/src/pycba/beam.py
+++ b/src/pycba/beam.py
@@ -898,6 +898,11 @@ class Beam:
         if i_span < len(self.mbr_kf) and self.mbr_kf[i_span] is not None:
             return self._foundation(i_span).k
 
+        # A member pinned at both ends has no bending stiffness, whatever its
+        # section (condensing it out leaves round-off, which hides a mechanism).
+        if eType == 4:
+            return self.k_PP(EI, L)
+
         # Shear-deformable (Timoshenko) member: opt-in via a finite ``GAv``.  A
         # variable EI and/or GAv goes through the flexibility integrator; the
         # common prismatic case uses the closed-form element and static
-- 
2.43.0


From b664edf836164c02543de523504fa19b91cfce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 62/63] fix: plotting a vehicle position leaves the bridge as
 analysing it does

plot_static left the axles among the beam's own loads, and static_vehicle with
plotflag repeated the analysis without the shear points asked for.
---
 src/pycba/bridge.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 70b0f0a..6251ef7 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -252,12 +252,11 @@ class BridgeAnalysis:
             out = self._single_analysis(pos)
             if out != 0:
                 raise ValueError("Bridge analysis did not succeed")
+            if plotflag:
+                self.plot_static(pos)
         finally:
             self._restore_bridge()
 
-        if plotflag:
-            self.plot_static(pos)
-
         return self.ba.beam_results
 
     def _apply_shear_points(self, shear_points, dv):
@@ -847,7 +846,10 @@ class BridgeAnalysis:
         fig = None
         if own_fig:
             self._check_objects()
-            self._single_analysis(pos)
+            try:
+                self._single_analysis(pos)
+            finally:
+                self._restore_bridge()
             fig, axs = plt.subplots(
                 3,
                 1,
-- 
2.43.0


From a181e1787730ef31ea0787a79c6c983ea437bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 63/63] fix: draw envelopes and ratios of a beam without rigid
 reactions

---
 src/pycba/bridge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycba/bridge.py b/src/pycba/bridge.py
index 6251ef7..70b3dcf 100644
--- a/src/pycba/bridge.py
+++ b/src/pycba/bridge.py
@@ -1218,7 +1218,7 @@ class BridgeAnalysis:
         histories = np.allclose(env.Rmax.max(axis=1), env.Rmaxval) and np.allclose(
             env.Rmin.min(axis=1), env.Rminval
         )
-        if histories and len(self.pos) == env.Rmax.shape[1]:
+        if nreactions and histories and len(self.pos) == env.Rmax.shape[1]:
             axsRight = np.atleast_1d(subfigs[1].subplots(nreactions, 1, sharex=True))
             pos = np.asarray(self.pos)
             for i, ax in enumerate(axsRight):
@@ -1301,9 +1301,9 @@ class BridgeAnalysis:
 
         us = resolve(units)
         # Set of keys we want to confirm are present
-        check_keys = set(
-            ["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup", "Rmax0", "Rmin0"]
-        )
+        check_keys = set(["x", "Mmax", "Mmin", "Vmax", "Vmin", "nsup"])
+        for i in range(env_ratios.get("nsup", 0)):
+            check_keys.update([f"Rmax{i}", f"Rmin{i}"])
         if not check_keys.issubset(env_ratios.keys()):
             raise ValueError(
                 "Dictionary argument does not contain sufficient ratios information"
-- 
2.43.0

