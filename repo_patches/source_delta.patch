From 87ee924aff1822a8956675103f147f48c639f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 01/34] fix: sample() and set_to_mean() no longer reset
 parameters that have no uncertainty

Both ran the callbacks of all parameters. The one of focallength_px copies the
common focal length over focallength_x_px and focallength_y_px, so sampling any
other parameter silently replaced the individual focal lengths.
---
 cameratransform/parameter_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..160e3e5 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -188,6 +188,9 @@ class ClassWithParameterSet(object):
         else:
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
+                # leave parameters without an uncertainty alone
+                if parameter_obj.mean is None:
+                    continue
                 parameter_obj.sample()
                 if parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
@@ -206,6 +209,9 @@ class ClassWithParameterSet(object):
         else:
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
+                # leave parameters without an uncertainty alone
+                if parameter_obj.mean is None:
+                    continue
                 parameter_obj.set_to_mean()
                 if parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
-- 
2.43.0


From d55eb3ac451f73043c69633f98c1acd4d1ff06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 02/34] fix: setting focallength_px on a copied camera changed
 the original

The callback was a closure over the Parameter objects of the first projection,
which deepcopy does not copy. It also left an older uncertainty of the individual
focal lengths behind.
---
 cameratransform/projection.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..9916daa 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -174,19 +174,9 @@ class CameraProjection(ClassWithParameterSet):
         )
 
         # add parameter focallength_px that sets x and y simultaneously
-        fx = self.parameters.parameters["focallength_x_px"]
-        fy = self.parameters.parameters["focallength_y_px"]
         f = Parameter(focallength_x_px, type=TYPE_INTRINSIC)
-
-        def callback():
-            fx.value = f.value
-            if fx.callback is not None:
-                fx.callback()
-            fy.value = f.value
-            if fy.callback is not None:
-                fy.callback()
-
-        f.callback = callback
+        # a bound method, so that a copy of the projection updates its own focal lengths
+        f.callback = self._setFocallengthXY
         self.parameters.parameters["focallength_px"] = f
 
         if view_x_deg is not None or view_y_deg is not None:
@@ -196,6 +186,16 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_mm is not None and self.focallength_px and sensor_height_mm is not None:
                     self.sensor_height_mm = focallength_mm / self.focallength_y_px * self.image_height_px
 
+    def _setFocallengthXY(self):
+        f = self.parameters.parameters["focallength_px"]
+        for name in ["focallength_x_px", "focallength_y_px"]:
+            parameter = self.parameters.parameters[name]
+            parameter.value = f.value
+            # an earlier uncertainty of the individual focal length is superseded
+            parameter.mean = None
+            if parameter.callback is not None:
+                parameter.callback()
+
     def __str__(self):
         string = ""
         string += "  intrinsic (%s):\n" % type(self).__name__
-- 
2.43.0


From a0ffaab248fc7fe2a8cc304d8622b0d46ab3a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 03/34] fix: lenses in a group use the current projection and
 coefficients of their own camera

With a projection shared by several lenses only the lens attached last noticed
changes of the focal length or center, and one lens shared by cameras with
different projections distorted the images of all of them with the last one.
Read scale and offset from the projection on use, recalculate the inverse when the
coefficients have changed, and give each projection its own lens object over the
shared parameters.
---
 cameratransform/camera.py          |  4 ++
 cameratransform/lens_distortion.py | 69 ++++++++++++++++++------------
 2 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..effd700 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -17,6 +17,7 @@
 # You should have received a copy of the license
 # along with cameratransform. If not, see <https://opensource.org/licenses/MIT>
 
+import copy
 import numpy as np
 import os
 import json
@@ -449,6 +450,9 @@ class Camera(ClassWithParameterSet):
         self.orientation = orientation
         if lens is None:
             lens = NoDistortion()
+        # a lens refers to one projection, with a second projection use a copy which shares the distortion parameters
+        if lens.projection is not None and lens.projection is not projection:
+            lens = copy.copy(lens)
         self.lens = lens
         self.lens.setProjection(projection)
 
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..da8863d 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -39,10 +39,21 @@ def invert_function(x, func):
 class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     offset = np.array([0, 0])
     scale = 1
+    projection = None
+    _inverse = None
 
     def __init__(self):
         self.parameters = ParameterSet()
 
+    def _convert_radius_inverse(self, r):
+        # the inverse is only recalculated when the distortion coefficients have changed
+        coefficients = tuple(getattr(self, name) for name in self._coefficients)
+        inverse = self._inverse
+        if inverse is None or inverse[0] != coefficients:
+            inverse = (coefficients, invert_function(np.arange(0, 2, 0.1), self._convert_radius))
+            self._inverse = inverse
+        return inverse[1](r)
+
     def imageFromDistorted(self, points):
         # return the points as they are
         return points
@@ -108,7 +119,7 @@ class BrownLensDistortion(LensDistortion):
         x_\mathrm{distorted} &= x_\mathrm{distorted}' \cdot f_x + c_x\\
         y_\mathrm{distorted} &= y_\mathrm{distorted}' \cdot f_y + c_y
     """
-    projection = None
+    _coefficients = ("k1", "k2", "k3")
 
     def __init__(self, k1=None, k2=None, k3=None, projection=None):
         self.parameters = ParameterSet(
@@ -117,9 +128,6 @@ class BrownLensDistortion(LensDistortion):
             k2=Parameter(k2, default=0, range=(0, None), type=TYPE_DISTORTION),
             k3=Parameter(k3, default=0, range=(0, None), type=TYPE_DISTORTION),
         )
-        for name in self.parameters.parameters:
-            self.parameters.parameters[name].callback = self._init_inverse
-        self._init_inverse()
 
     def setProjection(self, projection):
         self.projection = projection
@@ -134,16 +142,19 @@ class BrownLensDistortion(LensDistortion):
             center_x_px=self.projection.parameters.parameters["center_x_px"],
             center_y_px=self.projection.parameters.parameters["center_y_px"],
         )
-        for name in self.parameters.parameters:
-            self.parameters.parameters[name].callback = self._init_inverse
-        self._init_inverse()
 
-    def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
-        self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    @property
+    def offset(self):
+        # read from the projection on use, as the projection can be shared with other lenses
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -200,7 +211,7 @@ class ABCDistortion(LensDistortion):
 
 
     """
-    projection = None
+    _coefficients = ("a", "b", "c")
 
     def __init__(self, a=None, b=None, c=None):
         self.parameters = ParameterSet(
@@ -209,9 +220,6 @@ class ABCDistortion(LensDistortion):
             b=Parameter(b, default=0, type=TYPE_DISTORTION),
             c=Parameter(c, default=0, type=TYPE_DISTORTION)
         )
-        for name in self.parameters.parameters:
-            self.parameters.parameters[name].callback = self._init_inverse
-        self._init_inverse()
 
     def setProjection(self, projection):
         self.projection = projection
@@ -226,18 +234,23 @@ class ABCDistortion(LensDistortion):
             center_x_px=self.projection.parameters.parameters["center_x_px"],
             center_y_px=self.projection.parameters.parameters["center_y_px"],
         )
-        for name in self.parameters.parameters:
-            self.parameters.parameters[name].callback = self._init_inverse
-        self._init_inverse()
-
-    def _init_inverse(self):
-        self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
-        self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    @property
+    def d(self):
+        return 1 - self.a - self.b - self.c
+
+    @property
+    def offset(self):
+        # read from the projection on use, as the projection can be shared with other lenses
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From 1a693510ba973693463bf08c642f0bdf4aa7c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 04/34] fix: a failed or interrupted save no longer destroys
 the old file

The target was truncated before the content was serialised and written, so a value
json cannot handle (a numpy float32), a full disk or a crash left an empty or
partial file. Serialise first (numpy numbers too), write a temporary file and move
it over the target.
---
 cameratransform/camera.py          |  5 ++--
 cameratransform/lens_distortion.py |  4 +--
 cameratransform/projection.py      |  5 ++--
 cameratransform/spatial.py         |  4 +--
 cameratransform/utils.py           | 41 ++++++++++++++++++++++++++++++
 5 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index effd700..2919353 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -31,7 +31,7 @@ from .spatial import SpatialOrientation
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
-from cameratransform.utils import ensure_array_format
+from cameratransform.utils import ensure_array_format, save_json
 
 try:
     from numpy.typing import ArrayLike
@@ -1550,8 +1550,7 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
-        with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+        save_json(filename, export_dict, indent=4)
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index da8863d..3f5a685 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ClassWithParameterSet, ParameterSet, Parameter, TYPE_DISTORTION
 import json
+from cameratransform.utils import save_json
 
 def invert_function(x, func):
     from scipy import interpolate
@@ -75,8 +76,7 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
-        with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+        save_json(filename, export_dict)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 9916daa..961e5dc 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -20,7 +20,7 @@
 import json
 import numpy as np
 from cameratransform.parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_INTRINSIC
-from cameratransform.utils import ensure_array_format
+from cameratransform.utils import ensure_array_format, save_json
 
 
 class CameraProjection(ClassWithParameterSet):
@@ -210,8 +210,7 @@ class CameraProjection(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
-        with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+        save_json(filename, export_dict)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..ac2152f 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -20,6 +20,7 @@
 import numpy as np
 from .parameter_set import ParameterSet, Parameter, ClassWithParameterSet, TYPE_EXTRINSIC1, TYPE_EXTRINSIC2
 import json
+from cameratransform.utils import save_json
 
 
 class SpatialOrientation(ClassWithParameterSet):
@@ -205,8 +206,7 @@ class SpatialOrientation(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
-        with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+        save_json(filename, export_dict)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/utils.py b/cameratransform/utils.py
index 7841da9..52fede7 100644
--- a/cameratransform/utils.py
+++ b/cameratransform/utils.py
@@ -1,5 +1,46 @@
+import json
+import os
+import shutil
+import tempfile
 import numpy as np
 
+def write_file_atomic(filename, text):
+    """
+    Write the text to the file so that the file has either its old or its new content, even if the writing fails or is
+    interrupted: write it to a temporary file in the same directory and move that over the target.
+    """
+    filename = os.path.realpath(filename)
+    # devices, pipes, etc. cannot be replaced
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        with open(filename, "w") as fp:
+            fp.write(text)
+        return
+    tmp_filename = tempfile.mktemp(prefix=os.path.basename(filename) + ".", suffix=".tmp", dir=os.path.dirname(filename))
+    try:
+        with open(tmp_filename, "x") as fp:
+            fp.write(text)
+            fp.flush()
+            os.fsync(fp.fileno())
+        # keep the permissions of the target
+        if os.path.exists(filename):
+            shutil.copymode(filename, tmp_filename)
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        try:
+            os.remove(tmp_filename)
+        except OSError:
+            pass
+        raise
+
+def save_json(filename, data, **kwargs):
+    """ Save the data as json, numpy numbers are saved like the python numbers. """
+    def default(value):
+        if isinstance(value, (np.generic, np.ndarray)):
+            return value.item()
+        raise TypeError("Object of type %s is not JSON serializable" % type(value).__name__)
+
+    write_file_atomic(filename, json.dumps(data, default=default, **kwargs))
+
 def string_to_shape(shape_string):
     parts = shape_string.split("x")
     shape = []
-- 
2.43.0


From f80fc59d485a82e5cb2f9dda20022d64e6d7e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 05/34] fix: loading a camera keeps the yaw-pitch-roll
 orientation and the common focal length

A camera saved with a SpatialOrientationYawPitchRoll was loaded with a tilt-heading-
roll orientation which ignored the stored angles, and focallength_px of a loaded
camera was the 100 px of the placeholder projection.
---
 cameratransform/camera.py     | 12 ++++++++++--
 cameratransform/projection.py |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 2919353..9b2e35d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -27,7 +27,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1585,7 +1585,15 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        # the orientation type is given by its parameters
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
+        # the common focal length is not stored, let it not keep the value of the placeholder projection
+        if "focallength_x_px" in variables.keys():
+            self.focallength_px = variables["focallength_x_px"]
         for key in variables:
             setattr(self, key, variables[key])
 
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 961e5dc..b33eae8 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -215,6 +215,9 @@ class CameraProjection(ClassWithParameterSet):
     def load(self, filename):
         with open(filename, "r") as fp:
             variables = json.loads(fp.read())
+        # the common focal length is not stored, let it not keep its old value
+        if "focallength_x_px" in variables:
+            self.focallength_px = variables["focallength_x_px"]
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From e92f02f74efe32657d2ce59198d209b02b7ce61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 06/34] fix: top views and undistorted images are not taken
 from a cache that does not apply

The cached maps were reused for any call with the same extent and scaling: after the
camera parameters had changed, for another Z or hide_backpoints, when the caller had
changed the extent list in place, or while another thread was computing a different
map. Compare everything the map depends on, and return the map that belongs to it.
---
 cameratransform/camera.py | 47 ++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 9b2e35d..1dbcd0f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -440,6 +440,10 @@ class Camera(ClassWithParameterSet):
     last_extent_undistort = None
     last_scaling_undistort = None
 
+    # the maps together with everything they depend on
+    _cached_map = None
+    _cached_map_undistort = None
+
     R_earth = 6371e3
 
     def __init__(self, projection: CameraProjection, orientation: SpatialOrientation = None, lens: LensDistortion = None):
@@ -1281,6 +1285,11 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getMapKey(self, *args):
+        # the map depends on the arguments, and on the parts of the camera and all their parameters
+        parts = (self.projection, self.orientation, self.lens)
+        return args + parts + tuple(getattr(part, name) for part in parts for name in part.parameters.parameters)
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1291,10 +1300,11 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
-        if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
-            return self.map_undistort
+        key = self._getMapKey(*extent, scaling)
+        cached = self._cached_map_undistort
+        if cached is not None and cached[0] == key:
+            self.last_extent_undistort = list(extent)
+            return cached[1]
 
         # get a mesh grid
         mesh = np.array(np.meshgrid(np.arange(extent[0], extent[1], scaling),
@@ -1307,13 +1317,15 @@ class Camera(ClassWithParameterSet):
         mesh_points_shape = self.lens.distortedFromImage(mesh_points)
 
         # reshape the map and cache it
-        self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self._cached_map_undistort = (key, map_undistort)
 
-        self.last_extent_undistort = extent
+        self.map_undistort = map_undistort
+        self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
 
         # return the calculated map
-        return self.map_undistort
+        return map_undistort
 
     def undistortImage(self, image: Image, extent: List[Number] = None, scaling: Number=None,
                        do_plot: bool = False, alpha: Number = None, skip_size_check: bool = False) -> Image:
@@ -1373,17 +1385,18 @@ class Camera(ClassWithParameterSet):
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-        # if we have cached the map, use the cached map
-        if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
-            return self.map
-
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
         if scaling is None:
             scaling = np.sqrt((extent[1] - extent[0]) * (extent[3] - extent[2])) / \
                       np.sqrt((self.projection.parameters.image_width_px * self.projection.parameters.image_height_px))
 
+        # if we have cached the map, use the cached map
+        key = self._getMapKey(*extent, scaling, Z, hide_backpoints)
+        cached = self._cached_map
+        if cached is not None and cached[0] == key:
+            self.last_extent = list(extent)
+            return cached[1]
+
         # get a mesh grid
         mesh = np.array(np.meshgrid(np.arange(extent[0], extent[1], scaling),
                                     np.arange(extent[2], extent[3], scaling)))
@@ -1396,13 +1409,15 @@ class Camera(ClassWithParameterSet):
         mesh_points_shape = self.imageFromSpace(mesh_points, hide_backpoints=hide_backpoints)
 
         # reshape the map and cache it
-        self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
+        self._cached_map = (key, map)
 
-        self.last_extent = extent
+        self.map = map
+        self.last_extent = list(extent)
         self.last_scaling = scaling
 
         # return the calculated map
-        return self.map
+        return map
 
     def getTopViewOfImage(self, image: Image, extent: List[Number] = None, scaling: Number = None,
                           do_plot: bool = False, alpha: Number = None, Z: Number = 0., skip_size_check: bool = False,
-- 
2.43.0


From c8168283e9bac0d198ddbd4176a196a21e1d21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 07/34] fix: metropolis proposals stay within the parameter
 ranges

The bounds of the truncated normal distribution ignored the adaptive scale factor
which multiplies its samples. With a factor above one the proposals left the ranges
and the next draw failed with a domain error.
---
 cameratransform/statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..60bafdc 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,10 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scale = adaptive_scale_factor*step
+            next_pos = last_pos + scale*truncnorm((ranges[:,0]-last_pos)/scale, (ranges[:,1]-last_pos)/scale).rvs()
+            # do not leave the range by rounding errors
+            next_pos = np.clip(next_pos, ranges[:,0], ranges[:,1])
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From f100073659158cdc422032d23c601e1adadcb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 08/34] fix: metropolis with additional parameters, and fit
 parameters with a custom distribution

The step sizes were only collected for the camera parameters, so that a run with an
additional parameter failed with a shape mismatch. A FitParameter with a custom
distribution had no parents and could not be used at all.
---
 cameratransform/parameter_set.py | 4 ++--
 cameratransform/statistic.py     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 160e3e5..cb595cb 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -303,7 +303,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+self.additional_parameters])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
@@ -314,7 +314,7 @@ class ClassWithParameterSet(object):
         trys = 0
         max_tries = 1000
         while np.isinf(getLogProb(start)) and trys < max_tries:
-            start = [param.random()[()] for param in parameter+self.additional_parameters]
+            start = [param.random()[()] for param in list(parameter)+self.additional_parameters]
             trys += 1
         if trys >= max_tries:
             raise ValueError("Could not find a starting position with non-zero probability.")
diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 60bafdc..e558a1c 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -274,6 +274,7 @@ class FitParameter:
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
         if distribution is not None:
+            self.parents = dict()
             self.distribution = distribution
         elif lower is not None and upper is not None:
             self.parents = dict(lower=lower, upper=upper)
-- 
2.43.0


From 5b29c58895bffb7deb6e0d87be07fa57f8d5096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 09/34] fix: sample() and set_to_mean() with a trace whose
 index is not 0..N-1

The random position was used as an index label, which fails or takes wrong rows for
a sliced, filtered or concatenated trace given to set_trace().
---
 cameratransform/parameter_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index cb595cb..fc439dc 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -180,7 +180,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
@@ -201,8 +201,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = int(np.nanargmax(self.parameters.trace["probability"]))
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 0f55c900e8c7dddff974b9958980a4db53f87089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 10/34] fix:
 addObjectHeightInformation/addObjectLengthInformation accept an array of
 variations

The documented array was taken for a stochastic variable, and every evaluation of the
log-probability failed with an AttributeError.
---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1dbcd0f..e5a3901 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -541,7 +541,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -609,7 +609,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From f87dac5213f34e7845d1b0dad1ea13445c027a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 11/34] fix: imageFromCamera and getClosestPointFromLine do not
 change the arrays of the caller

---
 cameratransform/projection.py | 6 +++---
 cameratransform/ray.py        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index b33eae8..cca8246 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -397,7 +397,7 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -474,7 +474,7 @@ class CylindricalProjection(CameraProjection):
                                  (-z )                               sqrt(x**2+z**2)
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -552,7 +552,7 @@ class EquirectangularProjection(CameraProjection):
                                ( z )                                    (sqrt(x**2+z**2))
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..1fa3cbb 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -323,7 +323,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From 5caff835eefd95c101fb605b71b198c148f9877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 12/34] fix: keep the heights of two GPS points and the
 elevation given with a GPS tuple

spaceFromGPS took the number of points for the number of coordinates: exactly two
points lost their heights, and points without heights failed unless there were two.
setGPSpos([lat, lon], elevation=...) ignored the elevation.
---
 cameratransform/camera.py | 4 +++-
 cameratransform/gps.py    | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index e5a3901..4c11604 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -511,7 +511,9 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
+                if height is not None:
+                    elevation = height
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 538c45c0f8ede6a228dd7e3f51bab3e2f4879c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 13/34] fix: a failed download no longer leaves a broken sensor
 database behind

The cache file was created before the download, so that a connection error left an
empty file and an error page was stored as the database; both were used forever.
---
 cameratransform/camera.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4c11604..ffd718d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -31,7 +31,7 @@ from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
-from cameratransform.utils import ensure_array_format, save_json
+from cameratransform.utils import ensure_array_format, save_json, write_file_atomic
 
 try:
     from numpy.typing import ArrayLike
@@ -73,10 +73,10 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
-        with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
-            fp.write(r.text)
+        print("Downloading database from:", url)
+        r = requests.get(url)
+        r.raise_for_status()
+        write_file_atomic(database_filename, r.text)
     # load the database
     with open(database_filename, "r") as fp:
         data = fp.readlines()
-- 
2.43.0


From 52c6180ef5948289919d51bc82ef2e64458b9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 14/34] fix: read the rational EXIF values of current pillow
 versions

They are numbers and no longer tuples, so that getCameraParametersFromExif always
failed. Also allow sensor_from_database=False, which left sensor_size undefined.
---
 cameratransform/camera.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index ffd718d..6c3c23a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -149,18 +149,25 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
             ret[decoded] = value
         return ret
 
+    def get_number(value):
+        # older versions of pillow give a tuple of numerator and denominator
+        if isinstance(value, tuple):
+            return value[0] / value[1]
+        return float(value)
+
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = get_number(exif["FocalLength"])
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / get_number(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / get_number(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 0ee486dade26ca213c0a9e99bbb3c7efced96adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 15/34] fix: an interrupted calibration no longer leaves
 incomplete corner files

They were loaded by the next run: with a changed last corner, or the image was
skipped for good. Also allow to process an image without an output directory.
---
 cameratransform/gui_tools/calibrate/calibrate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/calibrate.py b/cameratransform/gui_tools/calibrate/calibrate.py
index c66b333..3c12428 100644
--- a/cameratransform/gui_tools/calibrate/calibrate.py
+++ b/cameratransform/gui_tools/calibrate/calibrate.py
@@ -31,6 +31,7 @@ default values:
 '''
 
 
+import io
 import os
 import sys
 import getopt
@@ -39,15 +40,17 @@ import glob
 import cv2 as cv
 import numpy as np
 
+from cameratransform.utils import write_file_atomic
+
 
 def processImage(fn, pattern_size, w=None, h=None, pattern_points=None, output_directory=None):
     print('processing %s... ' % fn)
     name = os.path.splitext(os.path.split(fn)[1])[0]
-    corners_file = os.path.join(output_directory, name + '_corners.txt')
-    output_image = os.path.join(output_directory, name + '_chess.png')
 
     # if an output directory is given
     if output_directory:
+        corners_file = os.path.join(output_directory, name + '_corners.txt')
+        output_image = os.path.join(output_directory, name + '_chess.png')
         # if there already exists a file with the corner data stored, load it
         if os.path.exists(corners_file):
             # load the corners
@@ -93,8 +96,10 @@ def processImage(fn, pattern_size, w=None, h=None, pattern_points=None, output_d
         vis = cv.cvtColor(img, cv.COLOR_GRAY2BGR)
         cv.drawChessboardCorners(vis, pattern_size, corners, found)
         cv.imwrite(output_image, vis)
-        # and save the corner positions
-        np.savetxt(os.path.join(output_directory, name + '_corners.txt'), corners)
+        # and save the corner positions (an interrupted run must not leave an incomplete file, as it would be used later)
+        text = io.StringIO()
+        np.savetxt(text, corners)
+        write_file_atomic(corners_file, text.getvalue())
 
     # return the corners
     print('           %s... OK' % fn)
-- 
2.43.0


From 0af415858462f27aaf2e069dfdefbe6bae838501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:38 +0000
Subject: [PATCH 16/34] fix: reducing the heading modulo 360 keeps its
 uncertainty

The reduction assigned the parameter like a user would, which removes the mean and
standard deviation: after a sample beyond 360 degrees the heading was never sampled
again and set_to_mean() kept the sample.
---
 cameratransform/spatial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index ac2152f..4b20ca9 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -106,8 +106,9 @@ class SpatialOrientation(ClassWithParameterSet):
         return string
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
-        if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
-            self.heading_deg = self.heading_deg % 360
+        heading_deg = self.parameters.parameters["heading_deg"]
+        if heading_deg.value is not None and (heading_deg.value < -360 or heading_deg.value > 360):  # pragma: no cover
+            heading_deg.value = heading_deg.value % 360
         # convert the angle to radians
         tilt = np.deg2rad(self.parameters.tilt_deg)
         roll = np.deg2rad(self.parameters.roll_deg)
@@ -254,8 +255,9 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
         return string
 
     def _initCameraMatrix(self):
-        if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
-            self.pitch_deg = self.pitch_deg % 360
+        pitch_deg = self.parameters.parameters["pitch_deg"]
+        if pitch_deg.value is not None and (pitch_deg.value < -360 or pitch_deg.value > 360):  # pragma: no cover
+            pitch_deg.value = pitch_deg.value % 360
         # convert the angle to radians
         tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)
         roll = -np.deg2rad(self.parameters.roll_deg)
-- 
2.43.0


From 43dcdbf818f514de4f59cb35c3e54911ba320d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 17/34] fix: an image that cannot be processed no longer stops
 the batch of the calibration window

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 1e41b0d..481fcb6 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -23,6 +23,7 @@ import os
 import re
 import sys
 import threading
+import traceback
 
 import cv2
 import numpy as np
@@ -128,8 +129,13 @@ class MyImage(QtWidgets.QWidget):
 
         pattern_size, pattern_points = self.getPatternPoints()
 
-        result = processImage(self.filename, pattern_size, None, None, pattern_points,
-                              output_directory=self.output_folder)
+        try:
+            result = processImage(self.filename, pattern_size, None, None, pattern_points,
+                                  output_directory=self.output_folder)
+        except Exception:
+            # the batch has to go on with the other images
+            traceback.print_exc()
+            result = None
         if result is None:
             self.status = "Failed"
         else:
-- 
2.43.0


From 15cfa870cfab0e99a5a3d1ee6724336919ab8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 18/34] fix: pressing Process again in the calibration window
 started several images at once

---
 .../gui_tools/calibrate/gui_calibrate.py         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 481fcb6..6db776e 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -176,6 +176,8 @@ class MyImage(QtWidgets.QWidget):
 
 class Window(QtWidgets.QWidget):
     calibration = None
+    # the index of the next image to process, None if no images are being processed
+    process_image_index = None
 
     def __init__(self):
         QtWidgets.QWidget.__init__(self)
@@ -299,6 +301,10 @@ class Window(QtWidgets.QWidget):
         self.button_load.valueChanged.connect(self.loadCalibration)
 
     def clearImages(self):
+        # stop the processing after the current image
+        for image in self.images:
+            image.processing_finished.disconnect(self.processNextImage)
+        self.process_image_index = None
         # remove all images from the list
         self.images = []
         self.updateTable()
@@ -401,6 +407,9 @@ class Window(QtWidgets.QWidget):
         self.newCalibration()
 
     def processImages(self):
+        # only one image is processed at a time
+        if self.process_image_index is not None:
+            return
         # aysnchronously process all images, start with the first
         self.process_image_index = 0
         self.processNextImage()
@@ -408,12 +417,12 @@ class Window(QtWidgets.QWidget):
     def processNextImage(self):
         # if no images are left, abort
         if self.process_image_index >= len(self.images):
+            self.process_image_index = None
             return
         # get the next image
         image = self.images[self.process_image_index]
         # and schedule the next image
         self.process_image_index += 1
-        image.processing_finished.connect(self.processNextImage)
         # start the processing in a second thread
         self._run_thread = threading.Thread(target=image.processImage, args=(), daemon=True)
         self._run_thread.start()
@@ -434,7 +443,10 @@ class Window(QtWidgets.QWidget):
         output_directory = os.path.join(directory, "output")
 
         # create MyImage objects with the filenames
-        self.images += [MyImage(file, output_directory) for file in glob.glob(filename)]
+        new_images = [MyImage(file, output_directory) for file in glob.glob(filename)]
+        for image in new_images:
+            image.processing_finished.connect(self.processNextImage)
+        self.images += new_images
         # and set their table and table_row index
         for index, image in enumerate(self.images):
             image.table_row = index
-- 
2.43.0


From 261c8c62d976a3caf629b5cd68e98b35759c05bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:01 +0000
Subject: [PATCH 19/34] fix: the calibration window showed images that were
 undistorted with an outdated calibration

---
 .../gui_tools/calibrate/gui_calibrate.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 6db776e..d39a9ef 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -71,9 +71,12 @@ class MyImage(QtWidgets.QWidget):
 
     image_data = None
     image_data_undistorted = None
+    # the camera with the current calibration
+    camera = None
 
     def __init__(self, filename, output_folder):
         QtWidgets.QWidget.__init__(self)
+        self.camera_lock = threading.Lock()
         self.filename = filename
         self.name = os.path.split(filename)[1]
 
@@ -158,15 +161,22 @@ class MyImage(QtWidgets.QWidget):
         return self.image_data
 
     def getUndistortedImage(self, camera):
-        if self.image_data_undistorted is None:
+        image_data_undistorted = self.image_data_undistorted
+        if image_data_undistorted is None:
             if camera is None:
-                self.image_data_undistorted = self.image_data
+                image_data_undistorted = self.image_data
             else:
-                self.image_data_undistorted = camera.undistortImage(self.image_data)
-        return self.image_data_undistorted
-
-    def resetCalibration(self):
-        self.image_data_undistorted = None
+                image_data_undistorted = camera.undistortImage(self.image_data)
+            # do not keep it if there is a new calibration by now
+            with self.camera_lock:
+                if camera is self.camera:
+                    self.image_data_undistorted = image_data_undistorted
+        return image_data_undistorted
+
+    def resetCalibration(self, camera):
+        with self.camera_lock:
+            self.camera = camera
+            self.image_data_undistorted = None
 
     def loadImage(self, camera):
         self.getImage()
@@ -183,7 +193,7 @@ class Window(QtWidgets.QWidget):
         QtWidgets.QWidget.__init__(self)
 
         # the camera
-        self.camera = ct.Camera(ct.RectilinearProjection(image=[1920, 1080], focallength_px=1200), lens=ct.BrownLensDistortion())
+        self.camera = self.createCamera()
         # the list of loaded images
         self.images = []
 
@@ -300,6 +310,9 @@ class Window(QtWidgets.QWidget):
                                                       just_button=True)
         self.button_load.valueChanged.connect(self.loadCalibration)
 
+    def createCamera(self):
+        return ct.Camera(ct.RectilinearProjection(image=[1920, 1080], focallength_px=1200), lens=ct.BrownLensDistortion())
+
     def clearImages(self):
         # stop the processing after the current image
         for image in self.images:
@@ -359,10 +372,9 @@ class Window(QtWidgets.QWidget):
         # display the calibration data
         self.calibration_result.setText(
             "\n".join(str(key) + ": " + str(value) for key, value in self.calibration.items()))
-        # update the camera
+        # create a new camera, as other threads might still use the old one
+        self.camera = self.createCamera()
         self.camera.parameters.set_fit_parameters(self.calibration.keys(), self.calibration.values())
-        # remove the cached undistort map
-        self.camera.map_undistort = None
         # enable the save button
         self.button_save.setDisabled(False)
 
@@ -385,7 +397,7 @@ class Window(QtWidgets.QWidget):
 
         # notify all images that the calibration has been changed
         for image in self.images:
-            image.resetCalibration()
+            image.resetCalibration(self.camera)
         # update the currently displayed image
         self.imageSelected()
 
@@ -446,6 +458,8 @@ class Window(QtWidgets.QWidget):
         new_images = [MyImage(file, output_directory) for file in glob.glob(filename)]
         for image in new_images:
             image.processing_finished.connect(self.processNextImage)
+            if self.calibration is not None:
+                image.resetCalibration(self.camera)
         self.images += new_images
         # and set their table and table_row index
         for index, image in enumerate(self.images):
-- 
2.43.0


From 1e1ac57d6c8e64bc7557a5581d1b5ed34bc7c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 20/34] fix: an interrupted save of the calibration no longer
 destroys the existing file

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index d39a9ef..7c14182 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -33,6 +33,7 @@ from qtpy import QtGui, QtCore, QtWidgets
 import cameratransform as ct
 from cameratransform.gui_tools.demonstrator import QtShortCuts
 from cameratransform.gui_tools.calibrate.QExtendedGraphicsView import QExtendedGraphicsView
+from cameratransform.utils import save_json
 
 sys.path.insert(0, os.path.dirname(__file__))
 from calibrate import processImage
@@ -403,8 +404,7 @@ class Window(QtWidgets.QWidget):
 
     def saveCalibration(self, filename):
         # save the calibration as a json file
-        with open(filename, "w") as fp:
-            json.dump(self.calibration, fp)
+        save_json(filename, self.calibration)
 
         # inform the user that the data was saved
         QtWidgets.QMessageBox.information(self, 'Saved', "The calibration has been saved to %s" % filename,
-- 
2.43.0


From 42492eae9e273a575d56bb488909e1d60522f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 21/34] fix: loading a file which is no calibration no longer
 replaces the calibration of the window

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 7c14182..3f3101f 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -413,7 +413,13 @@ class Window(QtWidgets.QWidget):
     def loadCalibration(self, filename):
         # load the data
         with open(filename, "r") as fp:
-            self.calibration = json.load(fp)
+            calibration = json.load(fp)
+        # keep the current calibration if the file does not contain one
+        for key in ["image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px",
+                    "center_x_px", "center_y_px", "k1", "k2", "k3"]:
+            if key not in calibration:
+                raise ValueError("The file %s does not contain a calibration, %s is missing." % (filename, key))
+        self.calibration = calibration
 
         # update the display with the new calibration data
         self.newCalibration()
-- 
2.43.0


From d7a25c4d5db2f9db1130ed5cf5923ba2358ed68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 22/34] fix: fitting while an image is being processed failed
 if the image had its corners but not yet the pattern points

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 3f3101f..ea33ab7 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -144,8 +144,9 @@ class MyImage(QtWidgets.QWidget):
             self.status = "Failed"
         else:
             corners, pattern_points = result
-            self.corner_data = corners
+            # the image can be used for the fit as soon as it has corners
             self.pattern_points = pattern_points
+            self.corner_data = corners
             self.status = "True"
             self.use = True
         self.status_changed.emit()
-- 
2.43.0


From b6fd0ccc7c01894279aa1bdde9e8c253c72f4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 23/34] fix: scaleSpace scaled an orientation which all cameras
 share once per camera

---
 cameratransform/camera.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 6c3c23a..3da83d0 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -429,7 +429,12 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
+        scaled = []
         for cam in self:
+            # scale an orientation which the cameras share only once
+            if any(cam.orientation is orientation for orientation in scaled):
+                continue
+            scaled.append(cam.orientation)
             cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
 
 
-- 
2.43.0


From 11ce7cee481ae41e6a08a938081180090939b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 24/34] fix: a calibration that was loaded no longer replaces
 the image size which the next fit uses

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index ea33ab7..4ed7262 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -380,11 +380,10 @@ class Window(QtWidgets.QWidget):
         # enable the save button
         self.button_save.setDisabled(False)
 
-        self.w = self.calibration["image_width_px"]
-        self.h = self.calibration["image_height_px"]
+        w = self.calibration["image_width_px"]
 
         # plot the calibration curve
-        x = np.arange(0, self.w)
+        x = np.arange(0, w)
         points = np.vstack((x, np.zeros_like(x))).T
         transformed = self.camera.lens.distortedFromImage(points)
         plt.cla()
@@ -392,7 +391,7 @@ class Window(QtWidgets.QWidget):
         plt.plot(x, transformed[:, 0])
         plt.ylabel("raw pixel x")
         plt.xlabel("corrected pixel x position")
-        plt.ylim(0, self.w)
+        plt.ylim(0, w)
         plt.axis("equal")
         plt.tight_layout()
         plt.draw()
-- 
2.43.0


From 9118b4f1a60163b749adafe777a037040881e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:32 +0000
Subject: [PATCH 25/34] fix: png images were displayed as black images in the
 calibration window

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 4ed7262..f066e1a 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -157,9 +157,13 @@ class MyImage(QtWidgets.QWidget):
         if self.image_data is not None:
             return self.image_data
         if os.path.exists(self.output_image_corners):
-            self.image_data = (plt.imread(self.output_image_corners) * 255).astype(np.uint8)
+            image_data = plt.imread(self.output_image_corners)
         else:
-            self.image_data = plt.imread(self.filename)
+            image_data = plt.imread(self.filename)
+        # png images are loaded as float values from 0 to 1
+        if image_data.dtype != np.uint8:
+            image_data = np.round(image_data * 255).astype(np.uint8)
+        self.image_data = image_data
         return self.image_data
 
     def getUndistortedImage(self, camera):
-- 
2.43.0


From f8741c26d7775817e21f0c222a5ba47170d77be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 26/34] fix: choosing the same file again (e.g. to save the
 calibration to it) was ignored

QInput emits only values that differ from the last emitted one, but did not
forget that value when the program set another one (or cleared the field).
---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index d3a00c1..dc51605 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -121,10 +121,15 @@ class QInput(QtWidgets.QWidget):
     def _valueChangedEvent(self, value):
         if self.no_signal:
             return
-        self.setValue(value)
+        self._applyValue(value)
         self._emitSignal()
 
     def setValue(self, value):
+        self._applyValue(value)
+        # the next input of the user has to be emitted, even if it is the same value as the last emitted one
+        self.last_emited_value = None
+
+    def _applyValue(self, value):
         self.no_signal = True
         try:
             self._doSetValue(value)
@@ -193,7 +198,7 @@ class QInputNumber(QInput):
     def _valueChangedEvent(self, value):
         if self.no_signal:
             return
-        self.setValue(value)
+        self._applyValue(value)
         if not self.slider_dragged:
             self._emitSignal()
 
-- 
2.43.0


From 18066659956f8a8ecc9d7e2f15d56d652cb42107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 27/34] fix: in the matplotlib demonstrator hidden sliders
 reacted to the mouse

The hidden sliders lie below the visible ones, grabbed the mouse, and the
press on a slider raised "Another Axes already grabs mouse input".
---
 cameratransform/gui_tools/demonstrator/demo_matplotlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
index c52167e..546c810 100644
--- a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
+++ b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
@@ -114,6 +114,9 @@ def open_demo():
             sliders[7].set_val(sliders[4].val - 90)
             sliders[8].set_val(-sliders[5].val)
             cam = cam2
+        # hidden sliders are below the visible ones and must not react to the mouse
+        for slider, ax in zip(sliders, slider_axs):
+            slider.set_active(ax.get_visible())
         update()
     radio_buttons.on_clicked(change_spatial)
 
-- 
2.43.0


From 85fa15f046879030d9b8b8cabe1b7eac8736a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:45 +0000
Subject: [PATCH 28/34] fix: clicking the selected orientation in the
 matplotlib demonstrator brought back old values

---
 .../gui_tools/demonstrator/demo_matplotlib.py            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
index 546c810..4bd670c 100644
--- a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
+++ b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
@@ -78,12 +78,19 @@ def open_demo():
     slider_offset += 1
     radio_buttons = RadioButtons(resetax, ('tilt-heading-roll', 'yaw-pith-roll'))
 
+    # The spatial orientation that is currently selected
+    selected = None
+
     # Function to change the spatial orientation
     def change_spatial(label):
         """
         Change the spatial orientation of the camera.
         """
-        nonlocal cam
+        nonlocal cam, selected
+        # clicking on the selected orientation must not bring back the old values of the hidden sliders
+        if label == selected:
+            return
+        selected = label
         if label == 'tilt-heading-roll':
             # Show the sliders for heading, tilt, and roll
             slider_axs[3].set_visible(True)
-- 
2.43.0


From 3f1691b48266a53941e78e61d9a5218c23015a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 29/34] fix: Scene.renderImage gave all images the size of the
 first one

---
 cameratransform/scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 06a66ff..c9d73df 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -83,8 +83,11 @@ class Scene:  # pragma: no cover
 
     def renderImage(self, filename):
         import matplotlib.pyplot as plt
-        fig = plt.figure(0, (self.camera.projection.parameters.image_width_px / 100,
-                             self.camera.projection.parameters.image_height_px / 100))
+        # the figure may still exist from an earlier image, which may have had another size
+        fig = plt.figure(0)
+        fig.clear()
+        fig.set_size_inches(self.camera.projection.parameters.image_width_px / 100,
+                            self.camera.projection.parameters.image_height_px / 100)
         ax = plt.axes([0, 0, 1, 1])
         im = np.zeros(
             [self.camera.projection.parameters.image_height_px, self.camera.projection.parameters.image_width_px])
-- 
2.43.0


From 61eac34797d27c22c0814d2d5e85d32eec1824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 30/34] fix: redrawing the calibration window while the
 selected image is still loading raised an exception

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index f066e1a..b06b6e5 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -534,12 +534,11 @@ class Window(QtWidgets.QWidget):
     def displayImage(self):
         # get the current Image
         image = self.getSelectedImage()
-        if image is None:
+        # if the image is still being loaded, it is displayed as soon as it is there
+        if image is None or image.image_data is None:
             return
-        # if the image data is there
-        if image.image_data is not None:
-            # set it to the display
-            self.preview_pixMapItem.setPixmap(QtGui.QPixmap(array2qimage(image.image_data)))
+        # set it to the display
+        self.preview_pixMapItem.setPixmap(QtGui.QPixmap(array2qimage(image.image_data)))
 
         # if there is an undistorted image and the bock is ticked, display the undistorted in the second view
         if self.input_display_undistorted.value() is True and image.image_data_undistorted is not None:
-- 
2.43.0


From 94c44645ff68c5baf718b7a94b04d6ceb1c8adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 31/34] fix: images added after a calibration were displayed
 without it

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index b06b6e5..0b3b5f8 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -492,6 +492,9 @@ class Window(QtWidgets.QWidget):
         self.view2.fitInView()
         # display the images
         self.displayImage()
+        # if there already is a calibration, the displayed image has to be undistorted, too
+        if self.calibration is not None:
+            self.imageSelected()
 
     def imageDoubleClicked(self, row, col):
         # double clicking on the use row toggles the state
-- 
2.43.0


From e267f48c91efba1b4b7a2a323c99150eedf7fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 32/34] fix: an image still being processed when the list is
 cleared wrote its status into the row of a new image

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 0b3b5f8..d67a77f 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -323,6 +323,8 @@ class Window(QtWidgets.QWidget):
         # stop the processing after the current image
         for image in self.images:
             image.processing_finished.disconnect(self.processNextImage)
+            # and do not show its status in the row of an image that is added later
+            image.status_changed.disconnect(image.setTableRow)
         self.process_image_index = None
         # remove all images from the list
         self.images = []
-- 
2.43.0


From 2984c49eb384aa399319ced06de2f56cf08a572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:35 +0000
Subject: [PATCH 33/34] fix: plotTrace for a trace with repeated row numbers

---
 cameratransform/statistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index e558a1c..86a57fa 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -190,7 +190,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         return trace_ax_dict[name]
 
     try:
-        most_probable_index = trace["probability"].idxmax()
+        most_probable_index = int(np.nanargmax(trace["probability"]))
     except KeyError:
         most_probable_index = 0
 
@@ -231,7 +231,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         plt.ylabel("frequency")
         plt.xlabel(name)
         if show_mean_median:
-            plt.axvline(data[most_probable_index], color="r")
+            plt.axvline(data.iloc[most_probable_index], color="r")
             plt.axvline(np.mean(data), color="k")
 
         if not just_distributions:
@@ -239,7 +239,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
             plt.title(name)
             plt.plot(data[::skip])
             if show_mean_median:
-                plt.axhline(data[most_probable_index], color="r")
+                plt.axhline(data.iloc[most_probable_index], color="r")
                 plt.axhline(np.mean(data), color="k")
             plt.ylabel("sampled value")
     #plt.tight_layout()
-- 
2.43.0


From 512b9fd09a608f4e68282285f28eb8f29253c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:35 +0000
Subject: [PATCH 34/34] fix: a broken picture of the corners does not keep the
 calibration window from loading the images

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index d67a77f..79ad655 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -156,9 +156,14 @@ class MyImage(QtWidgets.QWidget):
         import matplotlib.pyplot as plt
         if self.image_data is not None:
             return self.image_data
+        image_data = None
         if os.path.exists(self.output_image_corners):
-            image_data = plt.imread(self.output_image_corners)
-        else:
+            try:
+                image_data = plt.imread(self.output_image_corners)
+            except Exception:
+                # the picture is broken if the processing was interrupted while it was stored
+                traceback.print_exc()
+        if image_data is None:
             image_data = plt.imread(self.filename)
         # png images are loaded as float values from 0 to 1
         if image_data.dtype != np.uint8:
-- 
2.43.0

