From 6098ff54c1b618e90a4d056c7727a0abcaaedd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 01/51] fix: reject unsupported pseudopotential orders with
 ValueError

---
 electrode/system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..51cd5df 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -289,6 +289,9 @@ class System(list):
             Pseudopotential derivative. Fully expanded since this is not
             generally harmonic.
         """
+        if not 0 <= derivative <= 4:
+            raise ValueError("only know how to generate pseudopotentials "
+                "up to 4th order")
         try:
             p = [self.rf_coeff*self.electrical_potential(x, i, "rf", 
                 expand=True) for i in range(1, derivative+2)]
@@ -310,7 +313,7 @@ class System(list):
             a += b.transpose(0, 2, 1, 3)
             a += b.transpose(0, 3, 2, 1)
             return 2*a
-        elif derivative == 4:
+        else:
             a = np.einsum("ij,ijklmn->iklmn", p[0], p[4])
             b = np.einsum("ijk,ijlmn->iklmn", p[1], p[3])
             a += b
@@ -322,9 +325,6 @@ class System(list):
             a += c.transpose(0, 1, 4, 3, 2)
             a += c.transpose(0, 1, 3, 2, 4)
             return 2*a
-        else:
-            raise ValueError("only know how to generate pseudopotentials "
-                "up to 4th order")
 
     def potential(self, x, derivative=0, typ='tot'):
         """Combined electrical and ponderomotive potential.
@@ -344,9 +344,9 @@ class System(list):
             Pseudopotential derivative. Fully expanded since this is not
             generally harmonic.
         """
+        rf = self.pseudo_potential(x, derivative)
         dc = self.electrical_potential(x, derivative, "dc",
                 expand=True)
-        rf = self.pseudo_potential(x, derivative)
         if typ == 'tot':
             return dc + rf
         elif typ == 'dc':
-- 
2.43.0


From 1211b52235ebc0afc08600082a603fdc8b6498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 02/51] fix: restore voltages when entering with_voltages fails
 half way

---
 electrode/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 51cd5df..034f55b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,18 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        old_dcs, old_rfs = self.dcs, self.rfs
         try:
             if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
+                self.dcs = dcs
             if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
+                self.rfs = rfs
             yield
         finally:
             if dcs is not None:
-                self.dcs = dcs
+                self.dcs = old_dcs
             if rfs is not None:
-                self.rfs = rfs
+                self.rfs = old_rfs
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From 646265c8ae64b38519aad824473b151b20119940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 03/51] fix: saddle transforms derivatives with the basis used
 for the position

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 034f55b..2e4b49f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -566,9 +566,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From d05df21abc8e470e9e6f54501290ad7d4e2fcaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 04/51] fix: minimum and saddle search with integer start
 points

---
 electrode/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 2e4b49f..2e16afe 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -510,7 +510,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -558,7 +558,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -570,7 +570,7 @@ class System(list):
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
                 coord)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, x[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
-- 
2.43.0


From 2a47fdd5aa7d2179c2901cb64fb14f54a84da522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 05/51] fix: solve minimizes the sum of all local objectives,
 not just the last

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 2e16afe..34ee668 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -747,7 +747,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From f24d7f838f5b8f84d1eb9f2227addc2c35d454e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 06/51] fix: keep all independent proportionality conditions in
 optimize

---
 electrode/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 34ee668..b385098 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -796,8 +796,9 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # there is one singular value: drop the line that contributes most
+        # to the linear dependency, any other might be independent
+        B1 = np.delete(B1, np.argmax(np.abs(np.dot(g, Bp))), 0)
         # B*g_perp*p == 0
         ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
-- 
2.43.0


From bb98bf8494622b40c9678ded5194e82733073878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 07/51] fix: shims keeps other objectives at zero and restores
 their targets

---
 electrode/system.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index b385098..d996d47 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -692,12 +692,18 @@ class System(list):
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
                 np.double)
-        for i, objective in enumerate(obj):
-            objective.value = 1
-            p, c = self.optimize(constraints+obj, verbose=False,
-                    **kwargs)
-            objective.value = 0
-            vectors[i] = p/c
+        values = [oi.value for oi in obj]
+        try:
+            for i, objective in enumerate(obj):
+                for oi in obj:
+                    oi.value = 0
+                objective.value = 1
+                p, c = self.optimize(constraints+obj, verbose=False,
+                        **kwargs)
+                vectors[i] = p/c
+        finally:
+            for oi, vi in zip(obj, values):
+                oi.value = vi
         return vectors
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
-- 
2.43.0


From 3db6b48ead4e12651d563bf0ae704c777436a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 08/51] fix: do not leak solver options into later
 optimizations

---
 electrode/system.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index d996d47..55fc43b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -708,8 +708,6 @@ class System(list):
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
         solver = cvxopt.modeling.op(obj, ctrs)
-        cvxopt.solvers.options.update(**kwargs)
-        cvxopt.solvers.options["show_progress"] = verbose
         if verbose:
             logger.info("variables: %i", sum(v._size
                     for v in solver.variables()))
@@ -717,7 +715,14 @@ class System(list):
                     for v in solver.inequalities()))
             logger.info("equalities: %i", sum(v.multiplier._size
                     for v in solver.equalities()))
-        solver.solve("sparse")
+        options = dict(cvxopt.solvers.options)
+        cvxopt.solvers.options.update(**kwargs)
+        cvxopt.solvers.options["show_progress"] = verbose
+        try:
+            solver.solve("sparse")
+        finally:
+            cvxopt.solvers.options.clear()
+            cvxopt.solvers.options.update(options)
         if not solver.status == "optimal":
             raise ValueError("solve failed: %s" % solver.status)
         return solver
-- 
2.43.0


From c07f62851d4b06c9e8a1d82cbc5d4446b9a60da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 09/51] fix: optimize works with a single objective

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 55fc43b..056fb9d 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -811,7 +811,8 @@ class System(list):
         # to the linear dependency, any other might be independent
         B1 = np.delete(B1, np.argmax(np.abs(np.dot(g, Bp))), 0)
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1): # a single objective has nothing to be kept proportional to
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From d65ac76d7355f1202a10d8a4125318e049198f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 10/51] fix: fallback polygon potential on the electrode plane

---
 electrode/expressions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/electrode/expressions.py b/electrode/expressions.py
index 5786f0d..0e2bf73 100644
--- a/electrode/expressions.py
+++ b/electrode/expressions.py
@@ -19,7 +19,7 @@
 
 from __future__ import print_function, division, absolute_import
 
-from math import pi, sqrt, atan, atan2, fabs
+from math import pi, sqrt, atan2, fabs
 import logging
 
 import numpy as np
@@ -121,10 +121,7 @@ def edge_potential_expr(x1, x2, y1, y2, r1, r2, l2, z, a, derivative, d):
     if derivative == 0:
         zs = fabs(z)
         n = a/pi
-        # numpy issue
-        #d[0] += atan2(z*(x1*y2-y1*x2), zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2)))*n
-        d[0] += atan(z*(x1*y2-y1*x2) /
-                (zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2))))*n
+        d[0] += atan2(z*(x1*y2-y1*x2), zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2)))*n
     elif derivative == 1:
         n = a*(r1+r2)/(r1*r2*((r1+r2)**2-l2))/pi
         d[0] += -(y1-y2)*z*n
-- 
2.43.0


From 3b54c5adeede980d61acfb9df53c5d0b2cedca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 11/51] fix: mesh from polygons keeps the cover parameters

---
 electrode/electrode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index ff5b1b7..59daa2c 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -369,6 +369,7 @@ class MeshPixelElectrode(SurfaceElectrode):
         edges = []
         polygons = []
         potentials = []
+        cover = {}
         for p in s:
             assert isinstance(p, PolygonPixelElectrode), p
             for i in p.paths:
@@ -377,8 +378,9 @@ class MeshPixelElectrode(SurfaceElectrode):
                 edges.extend(np.c_[np.roll(ei, 1, 0), ei])
                 polygons.extend(len(potentials)*np.ones(len(ei)))
             potentials.append(p.dc)
+            cover = dict(cover_height=p.cover_height, cover_nmax=p.cover_nmax)
         return cls(dc=1, points=points, edges=edges, polygons=polygons,
-                potentials=potentials)
+                potentials=potentials, **cover)
 
     def potential(self, x, derivative=0, potential=1., out=None):
         return mesh_potential(x, self.points, self.edges, self.polygons,
-- 
2.43.0


From 17287ce54178fc62a308f0e1b5970452ff743383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 12/51] fix: group by unspecified thresholds and by any
 sequence of voltages

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 056fb9d..aa196e2 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -844,8 +844,9 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asanyarray(voltages)
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From 261fc0fe20503ec05f9953381b197ee85b3ea3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 13/51] fix: group keeps the cover parameters of the grouped
 electrodes

---
 electrode/system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index aa196e2..b9c8230 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -856,13 +856,16 @@ class System(list):
             paths = []
             dcs = []
             rfs = []
+            cover = {}
             for j in np.argwhere(good)[:, 0]:
                 el = self[j]
                 paths.extend(el.paths)
                 dcs.append(el.dc)
                 rfs.append(el.rf)
+                cover = dict(cover_height=el.cover_height,
+                        cover_nmax=el.cover_nmax)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs)))
+                dc=np.mean(dcs), rf=np.mean(rfs), **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From ed31eb9922129772ae7e3f6f3a4fab2683bd2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 14/51] fix: axis arrays and contour plots of non-cubic grids

---
 electrode/grid.py   | 4 ++--
 electrode/system.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
diff --git a/electrode/system.py b/electrode/system.py
index b9c8230..eb6a9c4 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -426,7 +426,7 @@ class System(list):
         e3 = slc_at
         sec = {'x':[1,2],'y':[0,2],'z':[0,1]}
         coord = {'x':[2,0,1],'y':[0,2,1],'z':[0,1,2]}
-        xyz = grid.to_xyz()[sec[slc]]    # point arrays of the other two axes
+        xyz = [grid.to_xyz()[i] for i in sec[slc]]    # point arrays of the other two axes
         axis = coord[slc]
         pot = []
         for e2 in xyz[1]:
-- 
2.43.0


From 78fdd13509f71d6ab41771a32f32bc192cdb5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 15/51] fix: raise NotImplementedError for the mesh of an
 unstructured grid

---
 electrode/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 02ecd0c..ff3727f 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -77,7 +77,7 @@ class UnstructuredGrid(Grid):
         self.shape = (points.shape[1],)
         
     def to_mgrid(self):
-        raise NotImplemented
+        raise NotImplementedError("an unstructured grid has no mesh")
         
     def to_points(self):
         return self.points.T
-- 
2.43.0


From 581a44bf4cfc6efefcb4cf3636b82e6e54864915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 16/51] fix: numpy aliases int and complex removed in numpy
 1.24

---
 electrode/constraints.py         | 2 +-
 electrode/mathieu.py             | 4 ++--
 electrode/spherical_harmonics.py | 2 +-
 electrode/utils.py               | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/constraints.py b/electrode/constraints.py
index 612c01c..e87b36b 100644
--- a/electrode/constraints.py
+++ b/electrode/constraints.py
@@ -140,7 +140,7 @@ class VoltageConstraint(Constraint):
 
 
 class SymmetryConstraint(SingleIndexConstraint):
-    symmetry = Array(dtype=np.int, shape=(None, 2)) # variable mapping
+    symmetry = Array(dtype=int, shape=(None, 2)) # variable mapping
     weight = 0.
     equal = True
 
diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..69b3639 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..046ce89 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=complex)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 31bfb9a835f30d8ff1ca98ece1efb38b7455f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 17/51] fix: spherical harmonics always sample 2 nmax azimuths

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 69b3639..a085256 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -92,7 +92,7 @@ class SphericalHarmonics(object):
         self.theta = np.arccos(x)[:, None]
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
-        self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
+        self.phi = np.arange(2 * nmax)[None, :] * np.pi / nmax
         self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
-- 
2.43.0


From b17aefc95f0899d342fc0a0e9fa4029ffe8c115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 18/51] fix: Mathieu initial values and solutions in every
 exponent mode

---
 electrode/mathieu.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..d717431 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -253,7 +253,8 @@ class Mathieu():
         Parameters
         ----------
         nc : int
-            Truncated order of coefficients
+            Truncated order of coefficients. By default the order used by
+            mode 'det' for exponent nu, else 10.
         ng : int
             Truncated order of gn continued fraction
         tol_nu : float
@@ -272,7 +273,7 @@ class Mathieu():
         else:
             raise ValueError("Invalid characteristic exponent mode.")
         if nc == None:
-            nc = nu_n
+            nc = nu_n if mode == 'det' else 10
         self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
         return 0
 
@@ -349,7 +350,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
-    def sol_plot():
+    def sol_plot(self):
         pass
\ No newline at end of file
-- 
2.43.0


From 451cb212f80e1fa2feb43a62408224acc586416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 19/51] fix: trajectory accepts lists and integer start points

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index eb6a9c4..27013e3 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -644,8 +644,8 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
+        x0, v0 = np.array(x0, np.double), np.array(v0, np.double)
         t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
             f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
-- 
2.43.0


From dec790ceeecd79666d8ed26a5b5589ec69df7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 20/51] fix: components of separate MultiPotentialObjectives
 are not shared

---
 electrode/pattern_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/pattern_constraints.py b/electrode/pattern_constraints.py
index 210538d..69d2ea3 100644
--- a/electrode/pattern_constraints.py
+++ b/electrode/pattern_constraints.py
@@ -178,9 +178,9 @@ class MultiPotentialObjective(SingleValueConstraint):
     **kwargs : any
         Passed to `SingleValueConstraint()`.
     """
-    def __init__(self, components=[], **kwargs):
+    def __init__(self, components=None, **kwargs):
         super(MultiPotentialObjective, self).__init__(**kwargs)
-        self.components = components
+        self.components = [] if components is None else components
         # component values are weights
 
     def get(self, system, variables):
-- 
2.43.0


From 4141764bc12625e38076631bfc12895fabfd7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 21/51] fix: Adjust.next_step uses names and attributes that
 exist

---
 electrode/adjust.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..e68461b 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -25,7 +25,7 @@ class Adjust():
 		self.system = system
 		volts = {}
 		for ele in system:
-			volts[ele.name] = []    # initial .dc
+			volts[ele.name] = [ele.dc]    # initial .dc
 		self.volts = volts    # self.volts is a dict, {ele1:[v0,v1,...],ele2:[v0,v1...],...}
 
 	def set_move_init(self, E_config=None, xm=None, axis_order=None):
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
@@ -111,7 +111,7 @@ class Adjust():
 		# deltaV = [scipy_solve(coef,Ev*ev) for Ev,ev in zip(E_scale,self.basis)]
 		return deltaV
 
-	def fix_position():
+	def fix_position(self):
 		pass
 
 	def xm_freq_change(self,deltaV):
@@ -142,26 +142,27 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
+		userown = deltaV is not None    # user own deltaV
+		if not userown:
 			try:
 				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
 			except AttributeError:
 				warnings.warn("Propose a volt_change() first.")
+				raise
 
 		if accept:
+			if userown:
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
 			config = self.construct_config(deltaV)
 			self.set_volts(config, save=True)
-			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts({ele: v[-1] for ele, v in self.volts.items()})
 			# print("Stay")
 
-		del self._propose
+		self.__dict__.pop("_propose", None)
 		return 0
 
-- 
2.43.0


From 5b28e5c94cd7928c468a8c42ccbcd36cc25c6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 22/51] fix: two ion mode line of analyze_static has four
 values for four placeholders

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 27013e3..adddecf 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1071,7 +1071,7 @@ class System(list):
             yield " separation: %.3g (%.3g µm, %.3g µm harmonic)" % (
                 r2, r2*l/1e-6, r2a/1e-6)
             for ci, fi, mi in zip("abcdef", freqs_ppi, mis.transpose(2, 0, 1)):
-                yield " %s: %.4g MHz, %s/%s" % (ci, fi/1e6, mi)
+                yield " %s: %.4g MHz, %s/%s" % (ci, fi/1e6, mi[0], mi[1])
 
     def ions(self, x0, q):
         """Find minimum energy positions of an multiple ions and
-- 
2.43.0


From e022b01a43133af0dbee518be82a062e5f1c3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 23/51] fix: xic_to_list reads coordinates and skips blank
 lines

---
 electrode/xic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..528f689 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,14 +30,14 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if line[:1] == "P":
             p = [line.split()[1:]]
-        elif line[0] == " ":
+        elif line[:1] == " ":
             if not line.endswith(";"):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         elif not line.strip():
             pass
         else:
-- 
2.43.0


From 7f4d7dff717cde2b39d519d1d6c994abe503eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 24/51] fix: compiled kernels reject arrays of inconsistent
 size and out of range mesh indices

---
 electrode/cexpressions.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/electrode/cexpressions.pyx b/electrode/cexpressions.pyx
index 36da9e0..8bdb8eb 100644
--- a/electrode/cexpressions.pyx
+++ b/electrode/cexpressions.pyx
@@ -44,9 +44,12 @@ def point_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     assert x.shape[1] == 3
     assert points.shape[1] == 2
+    assert areas.shape[0] == nv
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx
+    assert out.shape[1] == derivative*2+1
 
     with nogil:
         for i in range(nv):
@@ -75,10 +78,15 @@ def polygon_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx
+    assert out.shape[1] == derivative*2+1
 
     for polygon in iter(polygons):
+        assert polygon is not None
         no = polygon.shape[0]
         assert polygon.shape[1] == 2
+        if no == 0:
+            continue
         with nogil:
             for j in range(nx):
                 for m in range(-cover_nmax, cover_nmax+1):
@@ -113,9 +121,15 @@ def mesh_potential(np.ndarray[dtype_t, ndim=2] x not None,
     assert edges.shape[1] == 2
     assert points.shape[1] == 2
     assert x.shape[1] == 3
+    for i in range(ne):
+        assert 0 <= edges[i, 0] < points.shape[0]
+        assert 0 <= edges[i, 1] < points.shape[0]
+        assert 0 <= polygons[i] < potentials.shape[0]
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx
+    assert out.shape[1] == derivative*2+1
 
     with nogil:
         for i in range(ne):
-- 
2.43.0


From 42a4250fdb9beb553e75be168d769fd72a837e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 25/51] fix: compiled transformations report a failing truth
 test of their flags

---
 electrode/transformations.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..874cc2a 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1330,8 +1330,10 @@ py_projection_matrix(
         PyConverter_DoubleVector3OrNone, &perspective,
         &pseudobj)) goto _fail;
 
-    if (pseudobj != NULL)
+    if (pseudobj != NULL) {
         pseudo = PyObject_IsTrue(pseudobj);
+        if (pseudo < 0) goto _fail;
+    }
 
     result = (PyArrayObject*)PyArray_SimpleNew(2, dims, NPY_DOUBLE);
     if (result == NULL) {
@@ -1489,8 +1491,10 @@ py_clip_matrix(
         &left, &right, &bottom, &top, &hither, &yon, &boolobj))
         goto _fail;
 
-    if (boolobj != NULL)
+    if (boolobj != NULL) {
         perspective = PyObject_IsTrue(boolobj);
+        if (perspective < 0) goto _fail;
+    }
 
     if ((left >= right) || (bottom >= top) || (hither >= yon)) {
         PyErr_Format(PyExc_ValueError, "invalid frustum");
@@ -1747,8 +1751,10 @@ py_superimposition_matrix(
         PyConverter_AnyDoubleArray, &v1,
         &scalingobj, &usesvdobj)) goto _fail;
 
-    if (scalingobj != NULL)
+    if (scalingobj != NULL) {
         scaling = PyObject_IsTrue(scalingobj);
+        if (scaling < 0) goto _fail;
+    }
 
     if (!PyArray_SAMESHAPE(v0, v1)) {
         PyErr_Format(PyExc_ValueError, "shape of vector sets must match");
@@ -2600,8 +2606,10 @@ py_quaternion_from_matrix(
         goto _fail;
     }
 
-    if (boolobj != NULL)
+    if (boolobj != NULL) {
         isprecise = PyObject_IsTrue(boolobj);
+        if (isprecise < 0) goto _fail;
+    }
 
     if (isprecise) {
         /* precise rotation matrix */
@@ -2905,8 +2913,10 @@ py_quaternion_slerp(
         PyConverter_DoubleVector4, &quaternion1,
         &fraction, &spin, &boolobj)) goto _fail;
 
-    if (boolobj != NULL)
+    if (boolobj != NULL) {
         shortestpath = PyObject_IsTrue(boolobj);
+        if (shortestpath < 0) goto _fail;
+    }
 
     result = (PyArrayObject*)PyArray_SimpleNew(1, &dims, NPY_DOUBLE);
     if (result == NULL) {
-- 
2.43.0


From 6e22b7c45ec5ee05cc16afa4fed09ac7ad701112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 26/51] fix: quaternion_slerp released NULL quaternions when
 its arguments are invalid

---
 electrode/transformations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 874cc2a..a715651 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2979,8 +2979,8 @@ py_quaternion_slerp(
 
   _fail:
     Py_XDECREF(result);
-    Py_DECREF(quaternion0);
-    Py_DECREF(quaternion1);
+    Py_XDECREF(quaternion0);
+    Py_XDECREF(quaternion1);
     return NULL;
 }
 
-- 
2.43.0


From 2c715a518c33fe45f25cc28edc2be371949fd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 27/51] fix: quaternion_from_matrix restored a thread state it
 had not saved

---
 electrode/transformations.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index a715651..af5d07e 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2616,7 +2616,6 @@ py_quaternion_from_matrix(
         double *q = (double *)PyArray_DATA(result);
         double *M = (double *)PyArray_DATA(matrix);
         if (quaternion_from_matrix(M, q) != 0) {
-            PyEval_RestoreThread(_save);
             PyErr_Format(PyExc_ValueError,
                 "quaternion_from_matrix() failed");
             goto _fail;
-- 
2.43.0


From 99d7fa79215d525961ba48e5d30907f4411fe616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 28/51] fix: axis strings: release the encoded copy, reject
 non-ASCII text

---
 electrode/transformations.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index af5d07e..f3d7b12 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2131,9 +2131,18 @@ static int axis2tuple(
         char *s = PyString_AS_STRING(axes);
 #else
     if (PyUnicode_Check(axes) && (PyUnicode_GetSize(axes) == 4)) {
-        char *s = PyBytes_AsString(PyUnicode_AsASCIIString(axes));
+        PyObject *ascii = PyUnicode_AsASCIIString(axes);
+        char *s;
+        if (ascii == NULL) {
+            PyErr_Format(PyExc_ValueError, "invalid axes string");
+            return -1;
+        }
+        s = PyBytes_AS_STRING(ascii);
 #endif
         int hash = *((int *)s);
+#if PY_MAJOR_VERSION >= 3
+        Py_DECREF(ascii);
+#endif
         switch (hash)
         {
         case 2054781043:
-- 
2.43.0


From e9461f34e07b9dfa89a079c6cc0612adb780767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 29/51] fix: arcball_map_to_sphere reports coordinates it
 cannot read

---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index f3d7b12..93c5ca6 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3293,6 +3293,7 @@ py_arcball_map_to_sphere(
             p[1] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred()) goto _fail;
     } else {
         PyErr_Format(PyExc_ValueError, "invalid point");
         goto _fail;
@@ -3310,6 +3311,7 @@ py_arcball_map_to_sphere(
             c[1] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred()) goto _fail;
     } else {
         PyErr_Format(PyExc_ValueError, "invalid center");
         goto _fail;
-- 
2.43.0


From 5f69f87c58673b4683a106f7021f2c7422c0c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 30/51] fix: vector_norm checks its iterators before using them

---
 electrode/transformations.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 93c5ca6..c6a17bd 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3521,6 +3521,10 @@ py_vector_norm(
         dit = (PyArrayIterObject *) PyArray_IterAllButAxis((PyObject *)data,
                                                            &axis);
         oit = (PyArrayIterObject *) PyArray_IterNew((PyObject *)out);
+        if (dit == NULL || oit == NULL) {
+            PyErr_Format(PyExc_ValueError, "failed to create iterator(s)");
+            goto _fail;
+        }
         dstride = PyArray_STRIDE(data, axis);
         size = PyArray_DIM(data, axis);
 
-- 
2.43.0


From b0449f73e3ac781259f08bf1b4b0f1f03330b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 31/51] fix: vector_norm compares the given output's shape with
 the data

---
 electrode/transformations.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index c6a17bd..3d3a4bc 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3509,7 +3509,8 @@ py_vector_norm(
             }
             j = 0;
             for (i = 0; i < n; i++) {
-                if ((i != axis) && (PyArray_DIM(data, i) != newshape[j++])) {
+                if ((i != axis) &&
+                    (PyArray_DIM(data, i) != PyArray_DIM(oout, j++))) {
                     PyErr_Format(PyExc_ValueError, "incorrect output size");
                     goto _fail;
                 }
-- 
2.43.0


From 84a37dcd7d30636a67852790edb6b27970527832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 32/51] fix: module initialisation checks its allocations

---
 electrode/transformations.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 3d3a4bc..b58b05b 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -4121,6 +4121,10 @@ init_transformations(void)
     PyObject *module;
 
     char *doc = (char *)PyMem_Malloc(sizeof(module_doc) + sizeof(_VERSION_));
+    if (doc == NULL) {
+        PyErr_NoMemory();
+        INITERROR;
+    }
     PyOS_snprintf(doc, sizeof(module_doc) + sizeof(_VERSION_),
                   module_doc, _VERSION_);
 
@@ -4148,7 +4152,11 @@ init_transformations(void)
     PyObject *s = PyUnicode_FromString(_VERSION_);
 #endif
     PyObject *dict = PyModule_GetDict(module);
-    PyDict_SetItemString(dict, "__version__", s);
+    if ((s == NULL) || (PyDict_SetItemString(dict, "__version__", s) < 0)) {
+        Py_XDECREF(s);
+        Py_DECREF(module);
+        INITERROR;
+    }
     Py_DECREF(s);
     }
 
-- 
2.43.0


From 8b131d6e9d19f2222cf20a93c6f0c17454fb08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 33/51] fix: arcball_map_to_sphere went on reading coordinates
 after a failure

---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index b58b05b..7007855 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3288,6 +3288,7 @@ py_arcball_map_to_sphere(
             p[0] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred()) goto _fail;
         o = PySequence_GetItem(point, 1);
         if (o != NULL) {
             p[1] = PyFloat_AsDouble(o);
@@ -3306,6 +3307,7 @@ py_arcball_map_to_sphere(
             c[0] = PyFloat_AsDouble(o);
         }
         Py_XDECREF(o);
+        if (PyErr_Occurred()) goto _fail;
         o = PySequence_GetItem(center, 1);
         if (o != NULL) {
             c[1] = PyFloat_AsDouble(o);
-- 
2.43.0


From 8d4ba197b0042324b8b7673ff309dd114f82fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 34/51] fix: axes sequences: stop reading after an item that is
 not an integer

---
 electrode/transformations.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 7007855..bc9fffb 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2227,8 +2227,11 @@ static int axis2tuple(
     if (PySequence_Check(axes) && (PySequence_Size(axes) == 4)) {
         /* axes tuples */
         *firstaxis = (int)PySequence_GetInteger(axes, 0);
+        if (PyErr_Occurred()) return -1;
         *parity = (int)PySequence_GetInteger(axes, 1);
+        if (PyErr_Occurred()) return -1;
         *repetition = (int)PySequence_GetInteger(axes, 2);
+        if (PyErr_Occurred()) return -1;
         *frame = (int)PySequence_GetInteger(axes, 3);
         if (((*firstaxis != 0) && (*firstaxis != 1) && (*firstaxis != 2)) ||
             ((*parity != 0) && (*parity != 1)) ||
-- 
2.43.0


From 54e1791673d41a3473e3011faa964da7d830b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 35/51] fix: compiled quaternion_matrix normalised the caller's
 quaternion in place

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index bc9fffb..18038c7 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -676,7 +676,7 @@ int quaternion_matrix(
     double *matrix)  /* double[16] */
 {
     double *M = matrix;
-    double *q = quat;
+    double q[4] = {quat[0], quat[1], quat[2], quat[3]};
     double n = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]);
 
     if (n < EPSILON) {
-- 
2.43.0


From d3411b32a197bb0fb287b16435309138a5a9dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 36/51] fix: compiled arcball_constrain_to_axis returned points
 on the far hemisphere

---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 18038c7..3302a7c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3387,6 +3387,8 @@ py_arcball_constrain_to_axis(
         n = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
 
         if (n > EPSILON) {
+            if (v[2] < 0.0)
+                n = -n;
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-- 
2.43.0


From cae22d5e576fff1623176051bd83c0d4372f84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 37/51] fix: compiled quaternion_slerp took fraction -1 for 1

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 3302a7c..af5942c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2956,7 +2956,7 @@ py_quaternion_slerp(
             goto _fail;
         }
 
-        if (fabs(fabs(fraction) - 1.0) < EPSILON) {
+        if (fabs(fraction - 1.0) < EPSILON) {
             q[0] = q1[0] / n;
             q[1] = q1[1] / n;
             q[2] = q1[2] / n;
-- 
2.43.0


From 66330a8bfbbf0e040b7a0d2a0c8dbf09bd79ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 38/51] fix: compiled scale_matrix did not normalise the
 direction

---
 electrode/transformations.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index af5942c..431bf3c 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1588,6 +1588,14 @@ py_scale_matrix(
             double dx = d[0];
             double dy = d[1];
             double dz = d[2];
+            double t = sqrt(dx*dx + dy*dy + dz*dz);
+            if (t < EPSILON) {
+                PyErr_Format(PyExc_ValueError, "invalid direction vector");
+                goto _fail;
+            }
+            dx /= t;
+            dy /= t;
+            dz /= t;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
-- 
2.43.0


From f9b57855c5aaee329611e6a93f63dc76f565f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 39/51] fix: arcball_constrain_to_axis gave NaN for points on
 the axis -z

---
 electrode/transformations.c  | 2 +-
 electrode/transformations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 431bf3c..7f0d3ad 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3400,7 +3400,7 @@ py_arcball_constrain_to_axis(
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-        } else if (a[2] == 1.0) {
+        } else if (fabs(a[2]) == 1.0) {
             v[0] = 1.0;
             v[1] = 0.0;
             v[2] = 0.0;
diff --git a/electrode/transformations.py b/electrode/transformations.py
index 80d92a8..f875eb5 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1647,7 +1647,7 @@ def arcball_constrain_to_axis(point, axis):
             numpy.negative(v, v)
         v /= n
         return v
-    if a[2] == 1.0:
+    if abs(a[2]) == 1.0:
         return numpy.array([1.0, 0.0, 0.0])
     return unit_vector([-a[1], a[0], 0.0])
 
-- 
2.43.0


From 418517ce2620debf8ca9342cc0f380476243a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 40/51] fix: interpreted unit_vector rejected an axis for one
 dimensional outputs

---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index f875eb5..44e5d76 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1761,7 +1761,7 @@ def unit_vector(data, axis=None, out=None):
         data = out
     length = numpy.atleast_1d(numpy.sum(data*data, axis))
     numpy.sqrt(length, length)
-    if axis is not None:
+    if axis is not None and data.ndim > 1:
         length = numpy.expand_dims(length, axis)
     data /= length
     if out is None:
-- 
2.43.0


From ee732e8194bc1907f8290666c0353a2bf6f44104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 41/51] fix: Polygons.to_gds: write integer coordinates so that
 the library can be saved

---
 electrode/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..496937f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -391,7 +391,7 @@ class Polygons(list):
                 if edge:
                     poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
@@ -421,7 +421,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From c861f03a98aa93f4bd61802e350b9d6541d51764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 42/51] fix: Polygons.from_gds: raise for a structure that the
 file does not contain

---
 electrode/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 496937f..ce68ed5 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -227,6 +227,8 @@ class Polygons(list):
             assert isinstance(stru, structure.Structure)
             if name is None or name == stru.name.decode():
                 break
+        else:
+            raise ValueError("no structure %s" % name)
         for e in stru:
             path = np.array(e.xy)*lib.physical_unit/scale
             props = dict(e.properties)
-- 
2.43.0


From 903c412a027936ca157c36aa511664c7eabf8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 43/51] fix: Polygons.to_gds: write all parts of a clipped
 polygon and none of an empty one

---
 electrode/polygons.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index ce68ed5..3e87639 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -384,14 +384,15 @@ class Polygons(list):
             props = {}
             if name:
                 props[self._attr_name] = name.encode("ascii")
+            if edge:
+                # may leave several parts, lines, points or nothing at all
+                polys = polys.intersection(field)
             if not hasattr(polys, "geoms"):
                 polys = [polys]
             for poly in polys:
                 assert poly.is_valid, poly
-                if poly.is_empty:
+                if not poly.area:
                     continue
-                if edge:
-                    poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
-- 
2.43.0


From 5fe551163eea2e54c311cd9c529647a248467cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 44/51] fix: System.analyze_static: search minimum and saddle
 along the given axes only

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index adddecf..53acb8c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1011,7 +1011,7 @@ class System(list):
             trap = x
         else:
             # 'Nelder-Mead'/'Powell' don't use jac and hess, can avoid precision loss
-            trap = self.minimum(x+min_offset, method=min_method)
+            trap = self.minimum(x+min_offset, axis=axis, method=min_method)
         yield " minimum is at offset: %s" % (trap - x,)
         yield "                      (%s µm)" % ((trap - x)*l/1e-6,)
         p_dc = self.electrical_potential(x, 0, "dc")[0]
@@ -1020,7 +1020,7 @@ class System(list):
         yield " dc electrical: %.2g eV" % p_dc
         yield " rf pseudo: %.2g eV" % p_rf
         try:
-            xs, xsp = self.saddle(x + saddle_offset)    # 1e-2*x[2]
+            xs, xsp = self.saddle(x + saddle_offset, axis=axis)    # 1e-2*x[2]
             yield " saddle offset: %s" % (xs - x,)
             yield "               (%s µm)" % ((xs - x)*l/1e-6,)
             yield " saddle height: %.2g eV" % (xsp - (p_dc + p_rf))
-- 
2.43.0


From f1328bbd64157b50f67ee27a2b0a18d3d2ca7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 45/51] fix: Polygons.filter: apply the default test also with
 deep=False

---
 electrode/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 3e87639..3e2e59d 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -563,6 +563,9 @@ class Polygons(list):
         if test is None and deep:
             def test(name, boundary):
                 return abs(geometry.Polygon(boundary).area) > 1e-2
+        elif test is None:
+            def test(name, poly):
+                return poly.area > 1e-2
 
         p = Polygons()
         for ni, pi in self:
-- 
2.43.0


From c34c22d68d6ce0584a0b57893f28259690d55956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 46/51] fix: SphericalHarmonics: raise -1. (not the integer -1)
 to the negative order

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index a085256..a2de015 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From 50ab6cce5f66fb15653b68e8d34720771a7abb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 47/51] fix: derivatives_spherical_cartesian: components
 ordered (dr, dtheta, dphi) as documented

---
 electrode/spherical_harmonics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index a2de015..50b759a 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -38,12 +38,12 @@ def derivatives_spherical_cartesian(d, r, theta, phi,
     cp, sp = cis_phi.real, cis_phi.imag
     if direction == "to_spherical":
         m = [[cp*st, sp*st, ct],
-             [-sp/(r*st), cp/(r*st), np.zeros_like(r)],
-             [cp*ct/r, sp*ct/r, -st/r]]
+             [cp*ct/r, sp*ct/r, -st/r],
+             [-sp/(r*st), cp/(r*st), np.zeros_like(r)]]
     elif direction == "to_cartesian":
-        m = [[cp*st, -r*sp*st, r*cp*ct],
-             [sp*st, r*cp*st, r*sp*ct],
-             [ct, np.zeros_like(r), -r*st]]
+        m = [[cp*st, r*cp*ct, -r*sp*st],
+             [sp*st, r*sp*ct, r*cp*st],
+             [ct, -r*st, np.zeros_like(r)]]
     return [sum(m[i][j]*k for j, k in enumerate(d))
             for i in range(3)]
 
-- 
2.43.0


From 07b51b9cfc20de912eb3ac7e6f843aa08014812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 48/51] fix: Adjust.volt_change: electrode potentials take
 points of shape (n, 3)

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index e68461b..f9ff63b 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -106,7 +106,7 @@ class Adjust():
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
 		for ith in range(Nele):    # ith is the column index of coef.
 			for ele in self.E_config[ith]:
-				coef[:,ith] += self.system[ele].potential(xm_evaluate,derivative=1)[0].T    # GridElectrode.potential
+				coef[:,ith] += self.system[ele].potential(xm_evaluate[None,:],derivative=1)[0].T    # GridElectrode.potential
 		deltaV = scipy_solve(coef,nonhomo.T)    # Corresponds to the order of E_config.
 		# deltaV = [scipy_solve(coef,Ev*ev) for Ev,ev in zip(E_scale,self.basis)]
 		return deltaV
-- 
2.43.0


From c54a3ae7563811df7583bc3b33708915fba7a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 49/51] fix: a boundary edge is not a potential jump to the
 last triangle

---
 electrode/adaptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 490d8a3..525dc49 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -143,7 +143,9 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
             print("objective:", c)
         potentials = v[len(fixed):]
         neighbors = args.pop("neighbors")
-        edge_changes = potentials.take(neighbors) - potentials[:, None]
+        # boundary edges have no neighbor (-1)
+        edge_changes = np.where(neighbors < 0, 0.,
+                potentials.take(neighbors) - potentials[:, None])
         refine = np.fabs(edge_changes).max(1) > threshold
         args["triangleareas"] = np.where(refine, areas/down, areas*up)
     return s, v, c
-- 
2.43.0


From 17f48d91d2b9c884271d3dc306d881dee3ec6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 50/51] fix: the curvature of the ion crystal energy had its
 axes in another order than its gradient

---
 electrode/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 53acb8c..4962d37 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1116,15 +1116,15 @@ class System(list):
 
         def h(x0):
             x0 = x0.reshape(-1, 3)
-            p0 = self.potential(x0, 2).T
+            p0 = self.potential(x0, 2)
             x, y, z = (x0[None, :] - x0[:, None]).transpose(2, 0, 1)
             p = expand_tensor(
                 (-qs*[2*x**2-y**2-z**2, 3*x*y, 3*x*z,
                     2*y**2-x**2-z**2, 3*y*z]/np.ma.array(
                     x**2+y**2+z**2)**(5/2.)).T)
-            p = p.transpose(2, 0, 3, 1)
+            p = p.transpose(0, 2, 1, 3)
             for i, (p0i, pii) in enumerate(
-                    zip(p0.transpose(2, 0, 1), p.sum(2))):
+                    zip(p0, p.sum(2))):
                 p[i, :, i, :] += p0i-pii
             return p.reshape(p.shape[0]*p.shape[1], -1)
 
-- 
2.43.0


From a1848877441365685d1c053f688cb4b51fe936e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:04 +0000
Subject: [PATCH 51/51] fix: analyze_static used inconsistent units for two
 ions

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 4962d37..7a620d7 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1062,9 +1062,9 @@ class System(list):
                 ci, semi*q**2/(4*m*ct.h*fi), semi*fi)
         if ions > 1:
             xi = x+np.random.randn(ions)[:, None]*1e-3
-            qi = np.ones(ions)*q/(l*4*np.pi*ct.epsilon_0)**.5
+            qi = np.ones(ions)*(q/(l*4*np.pi*ct.epsilon_0))**.5
             xis, cis, mis = self.ions(xi, qi)
-            freqs_ppi = (cis/l**2/m)**.5/(1e6*np.pi)
+            freqs_ppi = np.sqrt(q*cis/m)/(2*np.pi*l)
             r2 = norm(xis[1]-xis[0])
             r2a = ((q*l)**2/(2*np.pi*ct.epsilon_0*q*curves[0]))**(1/3.)
             yield "two ion modes:"
-- 
2.43.0

