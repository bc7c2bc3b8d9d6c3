From dc543cace94a6d9413f2513c5e80e8e89eaaa21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 01/19] fix: mirrored parts and hinge lines of wings with
 symmetry plane 3

---
 src/lib/pytornado/objects/aircraft.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..664157e 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1869,6 +1869,9 @@ class StripSubdivision:
 
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
+            # In case of type 3 symmetry, the side edges of the mirrored strip run from trailing to leading edge
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
 
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
@@ -1903,6 +1906,9 @@ class StripSubdivision:
         # Only in case of type 2 symmetry, the xsi coordinates should be swapped
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+        # In case of type 3 symmetry, the side edges of the mirrored strip run from trailing to leading edge
+        elif mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
 
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
-- 
2.43.0


From b3ca8fe0c9656ee12a19e97f857fa7c885bd03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 02/19] fix: reject angles outside -90 to 90 degrees

---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..d0d1f79 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,7 +219,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From 77529e777b9eeb0c967d1cd3dd82957dc7c41167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 03/19] fix: flight state parameters set to null are not given

---
 src/lib/pytornado/objects/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index d0d1f79..83e3594 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -159,6 +159,11 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # A parameter which is 'None' is not given
+            if value is None:
+                self.aero[key] = None
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
-- 
2.43.0


From fc7556cc2239dcfdde9218b649d97cfd15d2e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 04/19] fix: raise an error if the linear system has no unique
 solution

---
 src/lib/pytornado/aero/vlm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..a170242 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -472,9 +472,12 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    if info != 0:
+        raise RuntimeError(f"Linear system could not be solved (LAPACK 'dgesv' returned info = {info})")
+
 ########
 ########
 ########
-- 
2.43.0


From e178cdbd2972e4cbc0775b453ba036ce8257413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 05/19] fix: deformation fields of wings with '_m' in their
 identifier

---
 src/lib/pytornado/fileio/native/deformation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..37a0302 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -63,8 +63,9 @@ def load(aircraft, settings):
         ####
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
-        if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+        # (unless '_m' is part of the wing UID itself)
+        if wing_uid.endswith('_m') and wing_uid not in aircraft.wings:
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 60a5e9498044ecd5054330f1ca72311fadffeef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 06/19] fix: deformed lattice points depend on how often they
 are computed

---
 src/lib/pytornado/objects/aircraft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 664157e..85c082f 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -977,7 +977,8 @@ class WingSegment:
         if def_field is None:
             return point
 
-        def_point = get_deformed_point(point, def_field)
+        # Pass a copy as the deformation field may be modified in place
+        def_point = get_deformed_point(point, np.array(def_field))
         return def_point
 
     def generate(self):
-- 
2.43.0


From 22727bcd1e929bbe48fea451e2a8cdaa7dcb002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 07/19] fix: control surfaces ending just outside an existing
 division line

---
 src/lib/pytornado/objects/aircraft.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 85c082f..80808b4 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -942,6 +942,15 @@ class WingSegment:
             if eta_b < outer_neighbour.rel_vertices['eta_b']:
                 self.add_subdivision(eta_b, eta_b)
 
+        # No dividing line at eta_b (too close to the inner end of the last
+        # subdivision): The control ends at the inner end of this subdivision
+        if eta_b < sd_list[-1][0].rel_vertices['eta_b']:
+            sd_list.pop()
+            if not sd_list:
+                raise ValueError("Control is too narrow")
+            sd_list[-1][2] = xsi2
+            sd_list[-1][4] = xsi_h2
+
         # Add subarea for all subdivisions
         for row in sd_list:
             subdivision, xsi1, xsi2, xsi_h1, xsi_h2 = row
-- 
2.43.0


From 3c5a4923548aaf7e1d925b5af8749e4dbf4975aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 08/19] fix: aircraft files without panel numbers of a control
 surface cannot be loaded

The entry 'panels' of a control surface is documented as optional.
---
 src/lib/pytornado/fileio/native/aircraft.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..8a91048 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,11 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            # Control panels are optional
+            if control_entry.get('panels', None):
+                for key, value in control_entry['panels'].items():
+                    control.panels[key] = value
+
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From 42bd1c011485d30051077d9d17be635bcc204631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 09/19] fix: settings objects share mutable values

Lists in the default settings and nested values of a dictionary given by the
user were shared between all settings objects made from them, so changing one
changed the others and the defaults.
---
 src/lib/pytornado/objects/settings.py | 3 ++-
 src/lib/pytornado/objects/utils.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/settings.py b/src/lib/pytornado/objects/settings.py
index a0075a6..7a39eee 100644
--- a/src/lib/pytornado/objects/settings.py
+++ b/src/lib/pytornado/objects/settings.py
@@ -27,6 +27,7 @@ Data structures for execution settings.
 Developed for Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import os
 import logging
 from pathlib import Path
@@ -209,7 +210,7 @@ class Settings:
         """
 
         for key, value in settings_dict.items():
-            self.settings[key] = value
+            self.settings[key] = deepcopy(value)
 
         # If 'results' are not specified, plot 'cp' values
         if not self.settings['plot']['results']['opt']:
diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..8747ccf 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -28,6 +28,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 """
 
 
+from copy import deepcopy
 from collections import OrderedDict
 from collections.abc import MutableMapping
 
@@ -124,5 +125,6 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        # Never share mutable default values (e.g. lists)
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From db9742df1ca1bf0f4a05bebcc0fcec63a67d2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/19] fix: saving settings removes internal settings from the
 settings object

The settings object cannot be used for a calculation afterwards.
---
 src/lib/pytornado/fileio/native/settings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..71941d8 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -27,6 +27,7 @@ Functions for reading and writing of PyTornado execution settings file.
 Developed at Airinnova AB, Stockholm, Sweden.
 """
 
+from copy import deepcopy
 import logging
 import json
 from pathlib import Path
@@ -78,10 +79,10 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    output = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(output, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From 85f9e33ffd7e7b3b41348efe656518fa251f82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 11/19] fix: read CPACS control deflections after all wings are
 loaded

A deflection for a control on a later wing was looked up while only the
first wing had been loaded, which ended in a ComponentDefinitionError.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..7dd1b8c 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # Deflections can refer to controls of any wing (all wings must be loaded)
+    get_aircraft_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -285,6 +288,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
+
+def get_aircraft_deflections(aircraft, tixi):
+    """
+    Extract the control surface deflections from the CPACS file
+
+    Args:
+        :aircraft: Aircraft model (with all wings and controls)
+        :tixi: Tixi handle
+    """
+
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-- 
2.43.0


From 5be4818a98db829869afe50ed392e46a6d10b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 12/19] fix: converting a CPACS file fails without an airfoil
 folder

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 7dd1b8c..aca5b17 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -384,6 +384,8 @@ def write_airfoil_files(settings, tixi):
     """
 
     logger.debug("Extracting airfoil data...")
+    settings.paths('d_airfoils', make_dirs=True, is_dir=True)
+
     num_airfoils = tixi.getNumberOfChilds(XPATHS.AIRFOILS)
     for i in range(1, num_airfoils + 1):
         node_airfoil = XPATHS.AIRFOILS + f"/wingAirfoil[{i}]"
-- 
2.43.0


From 02c70a107cb5893509f0319d761387e862e01e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 13/19] fix: CPACS controls name segments by their cleaned
 identifiers

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index aca5b17..7c08929 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -285,8 +285,8 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.rel_hinge_vertices['xsi_inner'] = xsi_h1
                 control.rel_hinge_vertices['xsi_outer'] = xsi_h2
 
-                control.segment_uid['inner'] = segment_uid_inner
-                control.segment_uid['outer'] = segment_uid_outer
+                control.segment_uid['inner'] = parse_str(segment_uid_inner)
+                control.segment_uid['outer'] = parse_str(segment_uid_outer)
 
 
 def get_aircraft_deflections(aircraft, tixi):
-- 
2.43.0


From 3969d329c1f7ecee2c3ae3755e5e646d95e0ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 14/19] fix: plotting writes the plot folder into the settings

---
 src/lib/pytornado/plot/makeplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..4a8ad4d 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,7 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From 69459705c9b72549a3a7944a877fe0da02942bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 15/19] fix: segments with missing vertices cannot be generated

check_vertices() turned a vertex which is not given (None) into a 0-d
array, so that generate() took it as provided and failed with IndexError
for every segment that is defined by geometric properties. The generated
vertices are arrays, as the given ones are.
---
 src/lib/pytornado/objects/aircraft.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 80808b4..7971455 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1301,10 +1301,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z], dtype=float, order='C')
+            self.vertices['b'] = np.array([b_x, b_y, b_z], dtype=float, order='C')
+            self.vertices['c'] = np.array([c_x, c_y, c_z], dtype=float, order='C')
+            self.vertices['d'] = np.array([d_x, d_y, d_z], dtype=float, order='C')
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1323,7 +1323,8 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
-            self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
+            if self.vertices[key] is not None:
+                self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
         """Check type and value of geometry dictionary"""
-- 
2.43.0


From 0e0a4df092186d3af5c0ed3ac5e0c9c6ad343385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 16/19] fix: segment properties equal to zero are taken as
 missing

An unswept segment (sweep 0), one without dihedral or one with an axis at
the leading edge was refused as ill-defined.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 7971455..58f5e74 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1027,16 +1027,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
-- 
2.43.0


From aea45c2232b6d3fd4f6550f569b6cd07eb24d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 17/19] fix: segment edge BC is computed from wrong vertices

The edge BC is given if the vertices B and C are, not A and B.
---
 src/lib/pytornado/objects/aircraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 58f5e74..d486870 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1110,7 +1110,7 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
-- 
2.43.0


From caace78fa515691183828d7e5764e481e5f0f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 18/19] fix: dihedral of twisted segments is measured at
 mirrored points

The chords AD and BC go down for positive incidence, so the axis points
are below A and B, as the lateral and longitudinal offsets assume.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index d486870..47dbe91 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1166,13 +1166,13 @@ class WingSegment:
 
         # axi_x = r_i*self.geometry['inner_axis']*cos_bi
         axi_y = r_i*self.geometry['inner_axis']*sin_bi
-        axi_z = r_i*self.geometry['inner_axis']*cos_bi*tan_ai
-        # Offset of point A wrt axis point (dihedral line) on AD
+        axi_z = -r_i*self.geometry['inner_axis']*cos_bi*tan_ai
+        # Offset of axis point (dihedral line) on AD wrt point A
 
         # axo_x = r_o*self.geometry['outer_axis']*cos_bo
         axo_y = r_o*self.geometry['outer_axis']*sin_bo
-        axo_z = r_o*self.geometry['outer_axis']*cos_bo*tan_ao
-        # Offset of point B wrt axis point (dihedral line) on BC
+        axo_z = -r_o*self.geometry['outer_axis']*cos_bo*tan_ao
+        # Offset of axis point (dihedral line) on BC wrt point B
 
         # Relative y, z-offset between axis on B, C-edge and axis on A, B-edge
         axs_y = axo_y - axi_y
-- 
2.43.0


From a125c7cd3fbfadd03cfc5e53555c25efe8a5a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:26 +0000
Subject: [PATCH 19/19] fix: edge yaw computed from vertices has the wrong sign

The angle did not describe the given edge: computing the edge from it
mirrors the edge.
---
 src/lib/pytornado/objects/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 47dbe91..3e71f9e 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1100,7 +1100,7 @@ class WingSegment:
             sin_bi = +d_y/r_i
 
             # atan2() handles singularity
-            self.geometry['inner_beta'] = -degrees(asin(sin_bi))
+            self.geometry['inner_beta'] = degrees(asin(sin_bi))
             self.geometry['inner_alpha'] = -degrees(atan2(d_z, r_i*cos_bi))
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
@@ -1148,7 +1148,7 @@ class WingSegment:
             cos_bo = +c_x/r_o
             sin_bo = +c_y/r_o
 
-            self.geometry['outer_beta'] = -degrees(asin(sin_bo))
+            self.geometry['outer_beta'] = degrees(asin(sin_bo))
             self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
-- 
2.43.0

