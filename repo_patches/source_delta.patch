From 1085d49d38958ba1fa6bc3fb4ff586f436a59b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:37 +0000
Subject: [PATCH 01/57] fix: angle between (nearly) parallel vectors is NaN
 after rounding

---
 attitude/geom/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 5ef2bca..c5dec81 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -60,7 +60,8 @@ def angle(v1,v2, cos=False):
     angle will be returned. False by default.
     """
     n = (norm(v1)*norm(v2))
-    _ = dot(v1,v2)/n
+    # Rounding can push the cosine just outside of its domain
+    _ = N.clip(dot(v1,v2)/n,-1,1)
     return _ if cos else N.arccos(_)
 
 class Plane(N.ndarray):
-- 
2.43.0


From 4ddbfaa9c7abfe73cbba74e4b2ed0c8ae6efc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:37 +0000
Subject: [PATCH 02/57] fix: plotting and conic queries flip the axes of the
 fit in place

---
 attitude/display/polar.py   | 3 ++-
 attitude/orientation/pca.py | 8 +++++---
 attitude/stereonet.py       | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..73fa1e5 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,8 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        # Not in place: the axes belong to the fit
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..8f71a53 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,10 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            # Not in place: that would change the fit (and its hash)
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +418,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..547a2bf 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,8 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        # Not in place: the axes belong to the caller
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +130,8 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        # Not in place: the axes belong to the caller
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From d4f69d6c834906a75b719500b7eb7db02dc3528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 03/57] fix: create_groups loses or leaks group membership when
 it copies

---
 attitude/orientation/grouped.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..c481e7f 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -11,21 +11,25 @@ class GroupedPlaneError(Exception):
 class GroupedOrientation(PCAOrientation):
     def __init__(self, *orientations, **kwargs):
         self.same_plane = kwargs.pop("same_plane", False)
+        for o in orientations:
+            if hasattr(o,'members'):
+                raise GroupedPlaneError("Cannot group already-grouped planes")
+
         all_values = N.vstack([o.array for o in orientations])
         if self.same_plane:
             array = all_values
         else:
             array = N.vstack([o.centered_array for o in orientations])
-        for o in orientations:
-            if hasattr(o,'members'):
-                raise GroupedPlaneError("Cannot group already-grouped planes")
-            o.member_of = self
 
         self.members = orientations
 
         super().__init__(array,**kwargs)
         self.mean = all_values.mean(axis=0)
 
+        # Only once the fit has succeeded
+        for o in orientations:
+            o.member_of = self
+
     def to_mapping(self,**values):
         values.setdefault('centered_array',None)
         values['members'] = [a.hash for a in self.members]
@@ -40,11 +44,19 @@ def create_groups(orientations, *groups, **kwargs):
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        originals = list(orientations)
+        orientations = [copy(o) for o in originals]
+        # Groups carry over to the copies of their members
+        copies = {id(o): c for o, c in zip(originals, orientations)}
+        for o in orientations:
+            if hasattr(o, 'members'):
+                o.members = tuple(copies.setdefault(id(a), copy(a))
+                                  for a in o.members)
 
+    # Get rid of and recreate group membership
     for o in orientations:
-        # Get rid of and recreate group membership
         o.member_of = None
+    for o in orientations:
         try:
             grouped += o.members
             for a in o.members:
@@ -66,6 +78,7 @@ def create_groups(orientations, *groups, **kwargs):
     for uid_list in groups:
         vals = [find(uid) for uid in uid_list]
         o = GroupedOrientation(*vals, **kwargs)
+        grouped += vals
         orientations.append(o)
 
     return orientations
-- 
2.43.0


From cc3cce19e0dcbda17fbca143f4b84a8dad1f055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 04/57] fix: Regression centers 3 x n input along the wrong
 axis

---
 attitude/orientation/linear/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/linear/regression.py b/attitude/orientation/linear/regression.py
index 78c3740..3592b27 100644
--- a/attitude/orientation/linear/regression.py
+++ b/attitude/orientation/linear/regression.py
@@ -22,9 +22,11 @@ class Regression(object):
         Solves plane equation Z = a(C[0])+b(C[1])+c by solving linear equation Cm=Z where m=[a,b,c]
         C and Z are the dependent and independent variables, respectively.
         """
-        coordinates = centered(N.array(coordinates))
+        coordinates = N.array(coordinates)
         if len(coordinates[0]) > 3:
             coordinates = N.swapaxes(coordinates, 0, 1)
+        # Center each coordinate axis (not each point)
+        coordinates = centered(coordinates)
 
         self.C = add_ones(coordinates[:,0:2])
         self.Z = coordinates[:,-1]
-- 
2.43.0


From 78150f021ce967676feafcc79da8d6016b259b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 05/57] fix: rotated_covariance rotates away from the dip
 direction

---
 attitude/orientation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/base.py b/attitude/orientation/base.py
index 7cf12cf..274cb0a 100644
--- a/attitude/orientation/base.py
+++ b/attitude/orientation/base.py
@@ -51,7 +51,7 @@ class BaseOrientation(object):
     @property
     def rotated_covariance(self):
         r = rotation(self.azimuth)
-        return dot(r.T,self.covariance_matrix,r)
+        return dot(r,self.covariance_matrix,r.T)
 
     def standard_errors(self):
         return N.sqrt(N.diagonal(self.rotated_covariance))
-- 
2.43.0


From 602e47ee10a4946c44a237c7eb3360a370223a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 06/57] fix: coordinates.cartesian does not invert
 coordinates.spherical

---
 attitude/coordinates/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/coordinates/__init__.py b/attitude/coordinates/__init__.py
index a407156..c980d80 100644
--- a/attitude/coordinates/__init__.py
+++ b/attitude/coordinates/__init__.py
@@ -9,11 +9,11 @@ def spherical(coordinates):
     return N.column_stack((r,theta,phi))
 
 def cartesian(spherical):
-    r,theta,phi = spherical
+    r,theta,phi = N.transpose(spherical)
     z = r*N.cos(theta)
     zc = r*N.sin(theta)
-    x = zc*N.sin(phi)
-    y = zc*N.cos(phi)
+    x = zc*N.cos(phi)
+    y = zc*N.sin(phi)
     return x,y,z
 
 def centered(coordinates):
-- 
2.43.0


From 3f27e386bad637b1ffa09f4901ca7843a22063a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 07/57] fix: rotations.transform is not a rotation (elementwise
 exponential)

---
 attitude/coordinates/rotations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 10d30e5..2464900 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -6,7 +6,8 @@ Prior art: http://bl.ocks.org/ivyywang/7c94cb5a3accd9913263
 from __future__ import division
 import numpy as N
 from mplstereonet import stereonet_math, stereonet2xyz, xyz2stereonet
-from ..geom.util import angle, vector, dot
+from scipy.linalg import expm
+from ..geom.util import angle, vector, dot, perpendicular_vector
 
 def transform(v1, v2):
     """
@@ -17,13 +18,16 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
+    if not N.any(x):
+        # Parallel or opposite vectors: any perpendicular axis will do
+        x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
 
     A = N.array([
         [0, -x[2], x[1]],
         [x[2], 0, -x[0]],
         [-x[1], x[0], 0]])
-    R = N.exp(A*theta)
+    R = expm(A*theta)
 
     return R
 
-- 
2.43.0


From be13867bcee5d8ff08b4991288d0574bc3e1de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:14 +0000
Subject: [PATCH 08/57] fix: perpendicular_vector is not perpendicular in two
 dimensions

---
 attitude/geom/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index c5dec81..dfc56c2 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -96,7 +96,7 @@ def perpendicular_vector(n):
     """
     dim = len(n)
     if dim == 2:
-        return n[::-1]
+        return N.array([n[1],-n[0]])
     # More complex in 3d
     for ix in range(dim):
         _ = N.zeros(dim)
-- 
2.43.0


From 837856258158682a3bce3e5df8121697b4573c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 09/57] fix: default axes of a conic slice are not unit length

---
 attitude/geom/conics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 1245220..c7e3286 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -151,6 +151,8 @@ class Conic(N.ndarray):
         if axes is None:
             n = plane.normal()
             v1 = perpendicular_vector(n)
+            # Lengths within the slice must be true lengths
+            v1 = v1/N.linalg.norm(v1)
             if dim == 3:
                 v2 = N.cross(v1,n)
                 axes = (v1,v2)
-- 
2.43.0


From a6e1bddebe98aa10960ef9dae35e0c0f4cc14274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 10/57] fix: Conic.major_axes only holds for centered unit
 spheres

---
 attitude/geom/conics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index c7e3286..7467ad9 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -83,8 +83,9 @@ class Conic(N.ndarray):
         """
         _ = ell[:-1,:-1]
         U,s,V = N.linalg.svd(_)
-        scalar = -(ell.sum()-_.sum())
-        return N.sqrt(s*scalar)*V
+        # Value of the quadratic form at the center
+        scalar = -ell.solve(augment(ell.center()))
+        return N.sqrt(scalar/s)[:,N.newaxis]*V
 
     def __type(self):
         return N.linalg.det(self[:-1,:-1])
-- 
2.43.0


From 3c2f3679757a1529029348301399e194c2231fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 11/57] fix: error level is ignored for normals and iterative
 error surfaces

---
 attitude/stereonet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 547a2bf..3195e00 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -54,7 +54,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
     axis_lengths = d[:2]
     f = N.linalg.norm(
         ell*axis_lengths,axis=1)
@@ -135,7 +135,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
 
     def sdot(a,b):
         return sum([i*j for i,j in zip(a,b)])
@@ -175,7 +175,7 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     scales = dict(upper=1,lower=-1,nominal=0)
-    c1 = scales[sheet]*2 # We double the scale of errors since they are symmetrical
+    c1 = scales[sheet]*2*level # We double the scale of errors since they are symmetrical
     c1 *= -1 # We assume upper hemisphere
     if axes[2,2] < 0:
         c1 *= -1
-- 
2.43.0


From 0b0e0c84cfe6eb69fb79a1c10fdc3b63bf148f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:47 +0000
Subject: [PATCH 12/57] fix: dip direction and rake of an exactly horizontal
 plane are NaN

---
 attitude/orientation/pca.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 8f71a53..b21f1cc 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -226,7 +226,12 @@ class PCAOrientation(BaseOrientation):
         self._vertical = v
         self.strike = N.cross(self.normal,self._vertical)
         try:
-            self.dip_dr = normalize(N.cross(self.strike,self.normal))
+            dip_dr = N.cross(self.strike,self.normal)
+            if not N.any(dip_dr):
+                # Horizontal plane: follow the strike we report
+                az = N.radians(self.strike_dip()[0]+90)
+                dip_dr = vector(N.sin(az),N.cos(az),0)
+            self.dip_dr = normalize(dip_dr)
         except ValueError:
             # Can't do this in 2D cases
             self.dip_dr = None
-- 
2.43.0


From add9f5b85dd783c4189841f5b1e824a449536942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 13/57] fix: explained_variance is not a proportion of variance

---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index b21f1cc..d145155 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -338,7 +338,7 @@ class PCAOrientation(BaseOrientation):
         represent the planar fit). Analogous to R^2 of
         linear least squares.
         """
-        v = N.diagonal(self.covariance_matrix)
+        v = self.eigenvalues
         return v[0:2].sum()/v.sum()
 
     @property
-- 
2.43.0


From ee512867663deae9c90faeeb3aa8d4c2d9074348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 14/57] fix: random_pca(scattered=False) and compose_affine
 raise NameError

---
 attitude/orientation/pca.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index d145155..c99a969 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -7,12 +7,13 @@ from scipy.linalg import lu
 from scipy.sparse.linalg import svds
 from scipy.integrate import quad
 from itertools import chain
+from functools import reduce
 from ..coordinates import centered
 from .base import BaseOrientation, rotation
 from ..error.ellipse import ellipse
 from ..stereonet import plane_errors, error_coords
 from ..error.axes import sampling_axes, sampling_covariance, angular_errors, noise_axes
-from ..test import scattered_plane
+from ..test import scattered_plane, random_plane
 from ..geom.util import dot, vector
 from ..geom.util import angle as vector_angle
 from ..geom.conics import conic
-- 
2.43.0


From 7ca21342ad0b7595a234c96df96370253efad4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 15/57] fix: ReconstructedPlane has no strike_dip, so
 dip_direction raises

---
 attitude/orientation/reconstructed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attitude/orientation/reconstructed.py b/attitude/orientation/reconstructed.py
index f98d7a1..1906e8a 100644
--- a/attitude/orientation/reconstructed.py
+++ b/attitude/orientation/reconstructed.py
@@ -89,6 +89,9 @@ class ReconstructedPlane(ErrorShell, BaseOrientation):
         self.hyperbolic_axes = N.array(list(lengths)+[normal_error])
         self.covariance_matrix = N.diag(self.hyperbolic_axes)
 
+    def strike_dip(self):
+        return self.__strike, self.__dip
+
     def strike_dip_rake(self):
         return self.__strike, self.__dip, self.__rake
 
-- 
2.43.0


From 2d71a48e61cc30456326ed7165c471d4bbabc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 16/57] fix: plot_interactive emits broken javascript for
 quotes in names

---
 attitude/display/nbextension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..e2b4c44 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=<<<data>>>;
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,9 +44,11 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
-    script = __TEMPLATE__.replace("<<<data>>>",data)
+    # JSON is a javascript literal as is, but must not
+    # be able to close the script element
+    data = dumps(attitudes).replace("<","\\u003c")
 
     classname = "A"+str(uuid4())
-    script = script.replace("<<<hash>>>",classname)
+    script = __TEMPLATE__.replace("<<<hash>>>",classname)
+    script = script.replace("<<<data>>>",data)
     display(HTML(script))
-- 
2.43.0


From 227ecaeec440f89662283c3bd85d7c4684d42e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 17/57] fix: notebook javascript library symlink dangles

---
 attitude/display/lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/lib b/attitude/display/lib
index 25a333a..64a739a 120000
--- a/attitude/display/lib
+++ b/attitude/display/lib
@@ -1 +1 @@
-../../js-frontend/lib
\ No newline at end of file
+../../frontend/packages/attitude/lib
\ No newline at end of file
-- 
2.43.0


From 8375fa8988c5879114e11acd96f1a3e6ffb8935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 18/57] fix: computeCentroidAverage refers to undefined d3

---
 frontend/packages/attitude/src/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/util.ts b/frontend/packages/attitude/src/util.ts
index e2bf71b..bcafa01 100644
--- a/frontend/packages/attitude/src/util.ts
+++ b/frontend/packages/attitude/src/util.ts
@@ -33,7 +33,7 @@ const computeCentroidAverage = function(planes){
     return d.center.map(a => a*len);
   });
 
-  const overallCenter = [0, 1, 2].map(i => d3.sum(weights, d => d[i]/totalLength));
+  const overallCenter = [0, 1, 2].map(i => sum(weights, d => d[i]/totalLength));
   return overallCenter;
 };
 
-- 
2.43.0


From 19e281470bcd84b80493fff7916cdc15cb1d16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 19/57] fix: DEM helpers cannot be imported with current
 shapely

---
 attitude/helpers/dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
-- 
2.43.0


From ebb380a50251af70841bba2d640a53051d8d4f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 20/57] fix: DEM interpolation relies on geometries being
 mutable

---
 attitude/helpers/interpolation.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index 256afa8..a95b895 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -9,20 +9,19 @@ Possible options are:
 
 """
 from __future__ import division
-from shapely.geometry import MultiLineString
+from shapely.geometry import MultiLineString, Point
 
 def __factory__(order):
     def interpolate(array,geometry):
         """Interpolates geometries to the specified order"""
         import numpy as N
         from scipy.ndimage import map_coordinates
-        from shapely.geometry import shape, mapping, asLineString
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
 
         def point_handler(coords):
-            return line_handler([coords])[0]
+            return line_handler(coords)[0]
 
         def line_handler(coords):
             coordinates = N.array(coords)
@@ -35,13 +34,11 @@ def __factory__(order):
             return list(map(tuple, coordinates))
 
         if geometry.geom_type == "Point":
-            geometry.coords  = point_handler(geometry.coords)
+            return Point(point_handler(geometry.coords))
         elif geometry.geom_type == "MultiLineString":
-            return MultiLineString([line_handler(g.coords) for g in geometry])
+            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
         else:
-            geometry.coords  = line_handler(geometry.coords)
-
-        return geometry
+            return type(geometry)(line_handler(geometry.coords))
     return interpolate
 
 nearest = __factory__(0)
-- 
2.43.0


From 168eb408e136297b36452bd0cf9360132b9907da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:17 +0000
Subject: [PATCH 21/57] fix: extract_line does not interpolate at the edges of
 its window

---
 attitude/helpers/dem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index cfe1146..76401cb 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -83,8 +83,11 @@ def extract_line(geom, dem, **kwargs):
     # are outside of footprint of DEM
 
     coords_px = coords_array(px)
-    mins = N.floor(coords_px.min(axis=0))
-    maxs = N.ceil(coords_px.max(axis=0))
+    # (values are interpolated between pixel centers, so include
+    # the neighbors on all sides)
+    bounds = N.array([dem.width, dem.height])
+    mins = N.clip(N.floor(coords_px.min(axis=0)-0.5), 0, bounds-1)
+    maxs = N.clip(N.ceil(coords_px.max(axis=0)+0.5), mins+1, bounds)
 
     window = tuple((int(mn),int(mx))
         for mn,mx in zip(mins[::-1],maxs[::-1]))
-- 
2.43.0


From 101fdd767597b5c371fcfa5a8e71472855ecfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 22/57] fix: extract_line rejects lines that have z coordinates

---
 attitude/helpers/dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 76401cb..f257b73 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -65,7 +65,7 @@ def extract_line(geom, dem, **kwargs):
     coords_in = coords_array(geom)
 
     # Transform geometry into pixels
-    f = lambda *x: ~dem.transform * x
+    f = lambda *x: ~dem.transform * (x[0],x[1])
     px = transform(f,geom)
 
     # Subdivide geometry segments if option is given
-- 
2.43.0


From 5d5d1891f3354bf03761a4943f920583e719d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:22 +0000
Subject: [PATCH 23/57] fix: convolveAxes is not the inverse of deconvolveAxes

---
 frontend/packages/attitude/src/math.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 9765816..7485238 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -231,7 +231,7 @@ const convolveAxes = function (axes, sv) {
   // In case we don't pass normalized axes
   let residual;
   [residual, axes] = deconvolveAxes(axes);
-  return axes.map((row, i) => row.map((e) => e * sv[i]));
+  return axes.map((row) => row.map((e, i) => e * sv[i]));
 };
 
 var deconvolveAxes = function (axes) {
-- 
2.43.0


From 27e1e5a7195fcd4eafff3b3dd92f0cbc42b8d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 24/57] fix: error hyperbola along a vertical axis is drawn
 horizontally

---
 attitude/display/hyperbola.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index 4e4feb9..54af955 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -13,7 +13,8 @@ def apparent_dip_correction(axes):
     """
     a1 = axes[0].copy()
     a1[-1] = 0
-    cosa = angle(axes[0],a1,cos=True)
+    # A vertical axis has no horizontal direction to measure from
+    cosa = angle(axes[0],a1,cos=True) if N.any(a1) else 0
     _ = 1-cosa**2
     if _ > 1e-12:
         sina = N.sqrt(_)
-- 
2.43.0


From 03eb6618d7946e48a208dc9df3654a5d858b6285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 25/57] fix: error_comparison(do_bootstrap=True) raises
 NameError

---
 attitude/display/error_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/display/error_comparison.py b/attitude/display/error_comparison.py
index 7932d1c..886aff3 100644
--- a/attitude/display/error_comparison.py
+++ b/attitude/display/error_comparison.py
@@ -8,7 +8,7 @@ from ..geom.util import vector
 from .plot.cov_types import hyperbola, bootstrap_noise, augment, ci
 from .hyperbola import HyperbolicErrors
 
-def bootstrap_ci(deskewed_data):
+def bootstrap_ci(deskewed_data, xvals):
     # Bootstrap with noise std greater of 1m or the standard deviation of residuals
     # (in this case about 1m)
     def func(arr):
@@ -72,7 +72,7 @@ def error_comparison(fit, do_bootstrap=False, **kwargs):
     err.plot(ax, fc='dodgerblue', alpha=0.3, label="Noise-based")
 
     if do_bootstrap:
-        err_bands = bootstrap_ci(deskewed_data)
+        err_bands = bootstrap_ci(deskewed_data, xvals)
         ax.fill_between(xvals, *err_bands, facecolor="none",edgecolor='blue',
                         alpha=.5, label="Noise bootstrap",linestyle='--')
 
-- 
2.43.0


From 4bdf3812cf61d5cfb80766d333462c7e9a404f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:07 +0000
Subject: [PATCH 26/57] fix: angle_subtended measures distances from the
 origin, not the viewpoint

---
 attitude/geom/conics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 7467ad9..908c7a8 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -16,6 +16,10 @@ def angle_subtended(ell, **kwargs):
         viewpoint   Defaults to origin
     """
     return_tangent = kwargs.pop('tangent',False)
+    viewpoint = kwargs.pop('viewpoint',None)
+    if viewpoint is not None:
+        # Distances are measured from the origin
+        ell = ell.translate(-N.array(viewpoint))
 
     con, transform, offset = ell.projection(**kwargs)
     v = N.linalg.norm(N.array(con.major_axes()),axis=1)
-- 
2.43.0


From 035f1a841f5cf9b88b0a623ce5d301a063e1486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:12 +0000
Subject: [PATCH 27/57] fix: rotation between opposite vectors is wrong when
 their lengths differ

---
 attitude/coordinates/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 2464900..3793125 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -18,7 +18,7 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
-    if not N.any(x):
+    if N.linalg.norm(x) < 1e-8*N.linalg.norm(v1)*N.linalg.norm(v2):
         # Parallel or opposite vectors: any perpendicular axis will do
         x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
-- 
2.43.0


From 8da7d06d9b382d313e155043a9e71d22411af88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:38 +0000
Subject: [PATCH 28/57] fix: extract_line cannot subdivide lines with current
 shapely

---
 attitude/helpers/dem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index f257b73..60eeae2 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -5,7 +5,6 @@ import rasterio
 import rasterio.env
 from rasterio.features import rasterize, geometry_mask
 from affine import Affine
-from subdivide import subdivide
 
 from shapely.geometry import shape, mapping
 from shapely.ops import transform
@@ -71,7 +70,7 @@ def extract_line(geom, dem, **kwargs):
     # Subdivide geometry segments if option is given
     interval = kwargs.pop('subdivide', 1)
     if interval is not None:
-        px = subdivide(px, interval=interval)
+        px = px.segmentize(interval)
 
     # Transform pixels back to geometry
     # to capture subdivisions
-- 
2.43.0


From e057ccf5716e0766e132d6961d10f1bd38505e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 29/57] fix: PlaneData cannot compute a mean (d3 mean shadowed
 by the argument)

---
 frontend/packages/attitude/src/hyperbola.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 77574d5..bd5fab0 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -6,7 +6,7 @@
  */
 import M from "mathjs";
 import Q from "quaternion";
-import { mean } from "d3-array";
+import { mean as arrayMean } from "d3-array";
 import { line } from "d3-shape";
 import * as d3 from "d3";
 import "d3-jetpack";
@@ -500,7 +500,7 @@ class PlaneData {
     }
     //# Extract mean of data on each axis ##
     if (this.mean == null) {
-      this.mean = [0, 1, 2].map((i) => mean(this.array, (d) => d[i]));
+      this.mean = [0, 1, 2].map((i) => arrayMean(this.array, (d) => d[i]));
     }
     if (this.centered == null) {
       this.centered = this.array.map((d) => M.subtract(d, this.mean));
-- 
2.43.0


From 1dcd1fd9975cfbd3225e032c7f696120c6cb2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:47 +0000
Subject: [PATCH 30/57] fix: plot_aligned draws cross-sections upside down
 (normal is always upward)

---
 attitude/display/pca_aligned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/pca_aligned.py b/attitude/display/pca_aligned.py
index 50c2821..2017d90 100644
--- a/attitude/display/pca_aligned.py
+++ b/attitude/display/pca_aligned.py
@@ -23,7 +23,7 @@ def plot_aligned(pca, sparse=True, **kwargs):
 
     A = pca.rotated()
     # Flip the result if upside down
-    if pca.normal[2] < 0:
+    if pca.axes[2][2] < 0:
         A[:,-1] *= -1
     minmax = [(A[:,i].min(),A[:,i].max()) for i in range(3)]
     lengths = [j-i for i,j in minmax]
-- 
2.43.0


From 4c554336d421fd3d68fdcbf079e651771bd9da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 31/57] fix: Conic.semiaxes raises for conics with integer
 entries

---
 attitude/geom/conics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 908c7a8..6e2971e 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -79,7 +79,7 @@ class Conic(N.ndarray):
         """
 
         d = N.abs(N.diagonal(self)[:-1])
-        return d**-1
+        return 1/d
 
     def major_axes(ell):
         """
-- 
2.43.0


From c93bc1845f3662d160a96da681cef5ca0617536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:17 +0000
Subject: [PATCH 32/57] fix: plane_errors puts the sheets of exactly vertical
 planes on the other side than normal_errors and the iterative version

---
 attitude/stereonet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 3195e00..255b622 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -101,7 +101,9 @@ def plane_errors(axes, covariance_matrix, sheet='upper',**kwargs):
     #if traditional_layout:
     #if axes[2,2] > 0:
 
-    if axes[2,2] > 0:
+    # Exactly vertical planes count as upright, as in
+    # `normal_errors` and the iterative version
+    if axes[2,2] >= 0:
         res *= -1
 
     if sheet == 'upper':
-- 
2.43.0


From d5679142e79c5736a2c4a9da4657e63aed41716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:36 +0000
Subject: [PATCH 33/57] fix: width of cross-section error bands depends on the
 signs of the axes (acos loses the quadrant)

---
 frontend/packages/attitude/src/hyperbola.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index bd5fab0..4d89645 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -92,7 +92,7 @@ const getRatios = function (x, y) {
 const __planeAngle = function (axes, angle) {
   // Get angle of the plane from the major axes
   const a0 = axes.toArray()[0];
-  return angle - M.acos(vecAngle([a0[0], a0[1], 0], [1, 0, 0]));
+  return angle - Math.atan2(a0[1], a0[0]);
 };
 
 const createTransform = function (
-- 
2.43.0


From 109217f965a2e9c33727d503441ea0dddca4556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 34/57] fix: the notebook UI cannot be created (this is used
 before super, updateSelection is not bound)

---
 frontend/packages/notebook-ui/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index df3c4ad..dc44e3c 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -45,10 +45,11 @@ class AttitudeUI extends React.Component {
     };
   }
   constructor(props) {
+    super(props);
     this.getData = this.getData.bind(this);
     this.onStereonetRotate = this.onStereonetRotate.bind(this);
     this.onHover = this.onHover.bind(this);
-    super(props);
+    this.updateSelection = this.updateSelection.bind(this);
     this.state = {
       showGroups: true,
       azimuth: 0,
-- 
2.43.0


From b951117320ff3a7a7c1972ba263198f9e7b28fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 35/57] fix: the notebook UI changes its selection in place, so
 that views of it are not redrawn

---
 frontend/packages/notebook-ui/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index dc44e3c..0b8636e 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -165,7 +165,8 @@ class AttitudeUI extends React.Component {
   }
 
   updateSelection(ids) {
-    const collectedIDs = this.state.selection;
+    // A new list: views compare their data by identity
+    const collectedIDs = [...this.state.selection];
     for (let id of Array.from(ids)) {
       if (id.members != null && !this.props.allowGroupSelection) {
         continue;
-- 
2.43.0


From 413074751eb449163d946116f6e96e81ab067f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 36/57] fix: hovering a group fails in the notebook UI if its
 members are not shown

---
 frontend/packages/notebook-ui/src/index.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index 0b8636e..ffc66a4 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -62,7 +62,11 @@ class AttitudeUI extends React.Component {
     const { attitudes } = this.props;
     const out = [];
     for (var o of Array.from(list)) {
-      out.push(attitudes.find((d) => o === d.uid));
+      const found = attitudes.find((d) => o === d.uid);
+      // Members of a group need not be shown themselves
+      if (found != null) {
+        out.push(found);
+      }
     }
     return out;
   }
-- 
2.43.0


From 2ec26f4a87f9e1d5374f8b772c2cfffeb94e8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 37/57] fix: horizontal extent of the side view is not a number

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 16c8211..493e418 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -61,7 +61,7 @@ class SideViewComponent extends React.Component {
       }
       const hyp = Math.hypot(x, y);
       if (hyp > xsize) {
-        xsize = h;
+        xsize = hyp;
       }
 
       p.inGroup = false;
-- 
2.43.0


From ba8c3daddded527c35f2e780aed1cdd5d762ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:37 +0000
Subject: [PATCH 38/57] fix: only the last of several stereonets on a page can
 be rotated by dragging (listeners of the window are replaced)

---
 frontend/packages/attitude/src/stereonet/interaction.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index 872c2f3..3febe3f 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -47,7 +47,9 @@ export default (function(stereonet){
   };
 
   el.on('mousedown', mousedown);
+  // Namespaced, so that each stereonet on a page has its own listeners
+  const id = stereonet.uid();
   return select(window)
-    .on("mousemove", mousemove)
-    .on("mouseup", mouseup);
+    .on(`mousemove.${id}`, mousemove)
+    .on(`mouseup.${id}`, mouseup);
 });
-- 
2.43.0


From 8f3a0ed124d9b1647f45b4da129aca9e682bf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:37 +0000
Subject: [PATCH 39/57] fix: labels and listeners of a stereonet do not follow
 when it is re-centered

---
 frontend/packages/attitude/src/stereonet/index.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 775272e..f9c328c 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -367,6 +367,7 @@ function Stereonet(o1 = {}) {
       c = [0, 90];
     }
     proj.rotate(c);
+    dispatch.call(uid + "rotate", f);
     if (el != null) {
       return __redraw();
     }
-- 
2.43.0


From c57db15fd5ec5e7e9d86d996c3bc05c4f6abedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:37 +0000
Subject: [PATCH 40/57] fix: cells of the data sheet are marked valid by
 another rule than the one that decides what is plotted

---
 frontend/packages/webapp/src/sheet.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/webapp/src/sheet.ts b/frontend/packages/webapp/src/sheet.ts
index 84d114c..e8d0975 100644
--- a/frontend/packages/webapp/src/sheet.ts
+++ b/frontend/packages/webapp/src/sheet.ts
@@ -255,8 +255,8 @@ function DataSheet({ data, updateData }) {
     attributesRenderer(cell, row, col) {
       if (cell.value == null || cell.value == "")
         return { "data-status": "empty" };
-      const { isValid } = getFieldData(orientationFields[col]);
-      const status = isValid(cell.value) ? "ok" : "invalid";
+      const { isValid, transform } = getFieldData(orientationFields[col]);
+      const status = isValid(transform(cell.value)) ? "ok" : "invalid";
       return { "data-status": status };
     },
     onContextMenu: (...args) => {
-- 
2.43.0


From 44eb682f3c357440d2dd92c02c5d2392db8bcbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:37 +0000
Subject: [PATCH 41/57] fix: the rectangular stereonet keeps showing earlier
 data when its data change

---
 frontend/packages/plots/src/rectangular.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/plots/src/rectangular.ts b/frontend/packages/plots/src/rectangular.ts
index 03e1f49..9f1e688 100644
--- a/frontend/packages/plots/src/rectangular.ts
+++ b/frontend/packages/plots/src/rectangular.ts
@@ -14,6 +14,7 @@ import { AzimuthLabels, DipLabels } from "./graticule-labels";
 const scale = scaleLinear().domain([2, 10]).range([0.8, 0.2]).clamp(true);
 
 function drawStereonet(el_, data) {
+  el_.innerHTML = "";
 
   const margin = 25;
   const size = { height: 390, width: 800 };
-- 
2.43.0


From 36a25dae719ea03066c619b43e53cbed3b992af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:01 +0000
Subject: [PATCH 42/57] fix: clipped stereonets extend beyond their frame at
 large clip angles (radius of another projection)

---
 frontend/packages/attitude/src/stereonet/index.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index f9c328c..49b8970 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -178,8 +178,10 @@ function Stereonet(o1 = {}) {
       radius = scale / 2.5 - margin;
     }
 
-    if (clipAngle < 89) {
-      const _pscale = radius / Math.sin((Math.PI / 180) * clipAngle);
+    if (clipAngle < 90) {
+      // The equal-area projection puts directions at an angle a from the
+      // center at a distance of 2*sin(a/2)
+      const _pscale = radius / (2 * Math.sin((Math.PI / 360) * clipAngle));
       if (shouldClip) {
         proj.clipAngle(clipAngle);
       }
-- 
2.43.0


From 2f9b69374184d4e452a160b423bd2daaa9b72067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:04 +0000
Subject: [PATCH 43/57] fix: points of the stereonet's labels are not drawn
 until it is rotated

---
 frontend/packages/attitude/src/stereonet/labels.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/attitude/src/stereonet/labels.ts b/frontend/packages/attitude/src/stereonet/labels.ts
index feb5259..3e9d63a 100644
--- a/frontend/packages/attitude/src/stereonet/labels.ts
+++ b/frontend/packages/attitude/src/stereonet/labels.ts
@@ -127,6 +127,7 @@ const globalLabels = function(opts){
     esel.append("text")
       .text(d => d.name);
 
+    stereonet.refresh();
     updateLabels.apply(stereonet);
 
     return stereonet.on('rotate', updateLabels);
-- 
2.43.0


From 5f74e9b679fc114e6a591dc09e23ab2634fdc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:49 +0000
Subject: [PATCH 44/57] fix: nominal planes and hovered errors vanish from the
 notebook stereonet when it is redrawn (select replaces their data)

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index e80a7a7..131a17a 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -20,12 +20,13 @@ import { Switch, Button, Card } from "@blueprintjs/core";
 
 const setHoveredFill = function (d) {
   const s = d3.select(this);
-  const err = s.select("path.error");
+  // selectAll: select would replace the geometry of the paths by that of s
+  const err = s.selectAll("path.error");
   err.style("fill", d.color);
   err.style("stroke", d.color);
   err.style("opacity", 1);
 
-  s.select("path.nominal").style("stroke", d.color);
+  s.selectAll("path.nominal").style("stroke", d.color);
   if (d.member_of != null) {
     return;
   }
@@ -141,7 +142,7 @@ class StereonetComponent extends React.Component {
           d3.select(this).select("path.error").remove();
         }
 
-        return d3.select(this).select("path.nominal").attr("stroke", d.color);
+        return d3.select(this).selectAll("path.nominal").attr("stroke", d.color);
       });
   }
 
-- 
2.43.0


From 8df9cbdefed4739cd6f630a080476a01cf5c3576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:44 +0000
Subject: [PATCH 45/57] fix: the side view marks the wrong planes as grouped
 after its azimuth changes (elements are sorted, data joined by index)

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 493e418..635b2dc 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -198,13 +198,11 @@ class SideViewComponent extends React.Component {
       .selectAll("g.error-hyperbola")
       .data(this.singlePlanes);
 
-    let esel = sel
-      .enter()
-      .append("g.error-hyperbola")
-      .classed("in-group", (d) => d.group != null);
+    let esel = sel.enter().append("g.error-hyperbola");
 
     esel
       .merge(sel)
+      .classed("in-group", (d) => d.group != null)
       .each(hyp)
       .sort((a, b) => a.__z - b.__z);
 
-- 
2.43.0


From cd6a4440a68ac605893adc02108775279f51ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:44 +0000
Subject: [PATCH 46/57] fix: the side view keeps a trace highlighted when
 nothing is hovered any more

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 635b2dc..e0f7334 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -238,10 +238,7 @@ class SideViewComponent extends React.Component {
 
   updateHovered() {
     const { hovered } = this.props;
-    if (hovered == null) {
-      return;
-    }
-    const hoveredIDs = hovered.map((d) => d.uid);
+    const hoveredIDs = (hovered ?? []).map((d) => d.uid);
     return this.planeContainer
       .selectAll("path.trace")
       .attr("stroke", function (v) {
-- 
2.43.0


From 2986db84ee4cde881cf212781b31dd02bc1274ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:19 +0000
Subject: [PATCH 47/57] fix: the side view has no scale if all planes are at
 one elevation or one place

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index e0f7334..b3194b1 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -115,8 +115,8 @@ class SideViewComponent extends React.Component {
     };
 
     // For 1:1
-    const yRatio = Math.abs(1 / (y(1) - y(0)));
-    const xRatio = Math.abs(1 / (x(1) - x(0)));
+    const yRatio = (2 * ysize) / innerSize.height;
+    const xRatio = (2 * xsize) / innerSize.width;
 
     if (xRatio > yRatio) {
       setScale(y, xRatio);
-- 
2.43.0


From 3f3f90b2bec6ced6f5f707840592cd09d2d6ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 48/57] fix: the frontend shows wrong errors for reconstructed
 planes (exported axis lengths are not squared as those of fits)

---
 attitude/orientation/reconstructed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attitude/orientation/reconstructed.py b/attitude/orientation/reconstructed.py
index 1906e8a..cd60fc1 100644
--- a/attitude/orientation/reconstructed.py
+++ b/attitude/orientation/reconstructed.py
@@ -98,6 +98,11 @@ class ReconstructedPlane(ErrorShell, BaseOrientation):
     def angular_errors(self):
         return self.__angular_errors
 
+    def to_mapping(self, **values):
+        # The frontend expects squared axis lengths, as exported for fits
+        values.setdefault('hyperbolic_axes', (self.hyperbolic_axes**2).tolist())
+        return super().to_mapping(**values)
+
     @property
     def hash(self):
         return hash_array(self.hyperbolic_axes*self.axes)
-- 
2.43.0


From f4a6487d7fbdc5ceb78c214acc69fdc73ae422ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:54 +0000
Subject: [PATCH 49/57] fix: drawing an overturned plane changes the data
 passed to the frontend

---
 frontend/packages/attitude/src/functions.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 78a2d06..66325ac 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -55,7 +55,8 @@ const createNominalPlane = function (d, baseData = null) {
 
 const flipAxesIfNeeded = function (axes) {
   if (axes[2][2] < 0) {
-    axes[2] = axes[2].map((e) => -e);
+    // Not in place: the axes belong to the caller
+    return [axes[0], axes[1], axes[2].map((e) => -e)];
   }
   return axes;
 };
-- 
2.43.0


From 8becbc22ee6d1181c688f1adac21b05b4692235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:06 +0000
Subject: [PATCH 50/57] fix: hovering a measurement in the web application
 fails (the stereonet has no default for onHover)

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index 131a17a..3cc57ad 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -36,6 +36,7 @@ const setHoveredFill = function (d) {
 class StereonetComponent extends React.Component {
   static defaultProps = {
     onRotate() {},
+    onHover() {},
     mode: "planes",
     drawPlanes: true,
     drawPoles: false,
-- 
2.43.0


From 7cc69cf5c6e5099749301ee8bc3387bd6db786cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:39 +0000
Subject: [PATCH 51/57] fix: a stereonet stays clipped to an earlier clip angle
 when it is set back to 90 degrees

---
 frontend/packages/attitude/src/stereonet/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 49b8970..a389424 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -187,6 +187,9 @@ function Stereonet(o1 = {}) {
       }
       proj.scale(_pscale).translate([scale / 2, scale / 2]);
     } else {
+      if (shouldClip) {
+        proj.clipAngle(90);
+      }
       proj.scale(radius).translate([scale / 2, scale / 2]);
     }
 
-- 
2.43.0


From 4b2aa5fab27a1e741a966edaafeec146b6821d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:39 +0000
Subject: [PATCH 52/57] fix: labels of a stereonet are judged by its earlier
 size after it is resized

---
 frontend/packages/attitude/src/stereonet/labels.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/labels.ts b/frontend/packages/attitude/src/stereonet/labels.ts
index 3e9d63a..fb51455 100644
--- a/frontend/packages/attitude/src/stereonet/labels.ts
+++ b/frontend/packages/attitude/src/stereonet/labels.ts
@@ -57,7 +57,6 @@ const globalLabels = function(opts){
   }
 
   return function(stereonet){
-    const sz = stereonet.size();
     let proj = stereonet.projection();
     const svg = stereonet.overlay();
 
@@ -71,8 +70,8 @@ const globalLabels = function(opts){
 
     const updateLabels = function() {
       proj = this.projection();
-      const centerPos = proj.invert([sz/2,sz/2]);
       const width = stereonet.size();
+      const centerPos = proj.invert([width/2,width/2]);
 
       const v = container.selectAll(".label");
 
-- 
2.43.0


From 2ec2fe9df45101314bdde2f4b9d2385ff79eedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:15 +0000
Subject: [PATCH 53/57] fix: a fit re-loaded from its stored axes has another
 identifier (rounding)

---
 attitude/orientation/pca.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index c99a969..84ece9b 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -206,6 +206,9 @@ class PCAOrientation(BaseOrientation):
         # to self.axes*self.singular_values
         s = N.linalg.norm(axes,axis=0)
         self.V = axes/s
+        # Splitting and recombining the axes would round them, and
+        # thereby change the hash
+        self._stored_axes = N.array(axes)
         # Don't compute U unless we have to
         self._U = None
         self.singular_values = s
@@ -252,6 +255,15 @@ class PCAOrientation(BaseOrientation):
             self._U = dot(self.arr,self.V.T,sinv)
         return self._U
 
+    # Only for fits loaded from saved axes
+    _stored_axes = None
+
+    @property
+    def principal_axes(self):
+        if self._stored_axes is not None:
+            return self._stored_axes.copy()
+        return super().principal_axes
+
     @property
     def eigenvalues(self):
         """
-- 
2.43.0


From abc331e703e90908499a38bd4f9850d20a1f96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:40 +0000
Subject: [PATCH 54/57] fix: error bands stay at true angles in a cross-section
 once drawn that way

---
 frontend/packages/attitude/src/hyperbola.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 4d89645..779dcee 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -149,7 +149,7 @@ const hyperbolicErrors = function (viewpoint, axes, xScale, yScale) {
   // at each step. This is much more efficient, at the cost of the fine structure
   // of the hyperbola near the origin
   const nCoords = 3;
-  let { ratioX, ratioY, screenRatio, lineGenerator } = getRatios(
+  const { ratioX, ratioY, screenRatio, lineGenerator } = getRatios(
     xScale,
     yScale
   );
@@ -274,8 +274,9 @@ const hyperbolicErrors = function (viewpoint, axes, xScale, yScale) {
     //console.log 'Angle', __angle
     //__angle = 0
 
+    let bandLine = lineGenerator;
     if (!scaleErrorAngles) {
-      lineGenerator = line()
+      bandLine = line()
         .x((d) => d[0] * ratioX)
         .y((d) => d[1] * ratioX);
     }
@@ -317,7 +318,7 @@ rotate(${v})`
     hyp
       .selectAppend("path.hyperbola")
       .datum(poly)
-      .attr("d", (v) => lineGenerator(v) + "Z")
+      .attr("d", (v) => bandLine(v) + "Z")
       .each(oa)
       .attr("mask", `url(#${mid})`);
 
-- 
2.43.0


From 4112f8ac6abcf1242451205bbca4bdb906f02cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 55/57] fix: the error ellipse bundled with error coordinates
 ignores the plane and its errors

---
 attitude/stereonet.py | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 255b622..6005189 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -204,31 +204,10 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
         for i in u])
 
 def error_ellipse(axes, covariance_matrix, **kwargs):
-    level = kwargs.pop('level',1)
-    traditional_layout = kwargs.pop('traditional_layout',True)
-
-    d = N.sqrt(covariance_matrix)
-
-    ell = ellipse(**kwargs)
-    # Bundle of vectors surrounding nominal values
-    bundle = dot(ell, d[:2])
-    res = d[2]*level
-
-    # Switch hemispheres if PCA is upside-down
-    # Normal vector is always correctly fit
-    if axes[2,2] > 0:
-        res *= -1
-
-    normal = vector(0,0,1)
-
-    _ = normal + bundle
-
-    if traditional_layout:
-        lon,lat = stereonet_math.cart2sph(_[2],_[0],_[1])
-    else:
-        lon,lat = stereonet_math.cart2sph(-_[1],_[0],_[2])
-
-    return list(zip(lon,lat))
+    """
+    The error ellipse of the pole to the plane
+    """
+    return normal_errors(axes, covariance_matrix, **kwargs)
 
 def error_coords(axes, covariance_matrix, **kwargs):
 
-- 
2.43.0


From 0efc9c3e097e58074ae8a62c78c910e4ae7ea77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:28 +0000
Subject: [PATCH 56/57] fix: interpolated elevations of integer rasters lose
 their fraction

---
 attitude/helpers/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index a95b895..9c3235d 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -26,7 +26,7 @@ def __factory__(order):
         def line_handler(coords):
             coordinates = N.array(coords)
             aligned = (coordinates - 0.5)[:,0:2].T[::-1]  # align fractional pixel coordinates to array
-            z = map_coordinates(array, aligned, mode="nearest", order=order)
+            z = map_coordinates(array, aligned, mode="nearest", order=order, output=float)
             try:
                 coordinates[:,2] = z
             except IndexError:
-- 
2.43.0


From 660b88f5ea590df60fe63a3e5205bd5d61a174d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:55 +0000
Subject: [PATCH 57/57] fix: plot_conjugate_conics failed when asked for the
 inverse hyperbola (undefined color)

---
 attitude/display/parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/parametric.py b/attitude/display/parametric.py
index 52a83ca..931067e 100644
--- a/attitude/display/parametric.py
+++ b/attitude/display/parametric.py
@@ -79,7 +79,7 @@ def plot_conjugate_conics(ax, axes, width=None, plot_foci=False, plot_inverse_hy
     if plot_inverse_hyperbola:
         # Plot inverse hyperbola
         hyp_inv, = ax.plot(*hyperbola(1/axes, opens_up=True),
-                            color=color, zorder=-1,
+                            color=hyp.get_color(), zorder=-1,
                            label='Inverse hyperboloid')
 
     ell, = ax.plot(*ellipse(ax1, center=[0,center]), color='red',
-- 
2.43.0

