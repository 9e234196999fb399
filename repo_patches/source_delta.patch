From 9d9caee2324918478ad131fab1fa9fbcc141b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 01/22] fix: include surface load in the coupling term of the
 free particular integral

The rotation row only subtracted B11/A11*qt, so the solution of free
segments violated z' = Kz + q for layered slabs (B11 != 0) with a surface
load on a slope.
---
 weac/eigensystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..62293fd 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,8 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt
+                    - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From bcc71319d4428b130a98c7b4f3661897272f6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 02/22] fix: set inclination before the crack height that
 depends on it

set_tc() evaluated the normal load with the inclination of the previous
layout (or zero), so the crack height depended on the call history.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..112ebda 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From 93bcfc5ebabb0a8e337bffedb8a45b9790a0bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 03/22] fix: restrict touchdown stages to the systems that
 implement them

For vertical-face PSTs the crack height (mm) of stages B and C was written
into a shear-force equation.
---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 112ebda..5ac0210 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -782,7 +782,7 @@ class SlabContactMixin:
 
     def calc_touchdown_mode(self):
         """Calculate touchdown-mode from thresholds"""
-        if self.touchdown:
+        if self.touchdown and self.system in ["pst-", "-pst"]:
             # Calculate stage transitions
             a1 = self.calc_a1()
             a2 = self.calc_a2()
-- 
2.43.0


From 2da910eab03e395bcc3b92030dec56ec007b2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 04/22] fix: refuse unknown rotation units explicitly

psi() ended in an UnboundLocalError.
---
 weac/mixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 5ac0210..5acbc27 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -82,6 +82,8 @@ class FieldQuantitiesMixin:
             psi = np.rad2deg(Z[4, :])
         elif unit in ["rad", "radian", "radians"]:
             psi = Z[4, :]
+        else:
+            raise ValueError(f"Unit {unit} not defined.")
         return psi
 
     def dpsi_dx(self, Z):
-- 
2.43.0


From f3826ac25c9d53ca410705440e461936d185e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 05/22] fix: refuse unknown support types and degrees of
 freedom

An unknown dof ended in an UnboundLocalError and a misspelled support
was silently treated as supported.
---
 weac/mixins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 5acbc27..a25f5ad 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -594,6 +594,11 @@ class SlabContactMixin:
         -------
         k : stiffness of substitute spring.
         """
+        if dof not in ["rot", "trans"]:
+            raise ValueError(f"Degree of freedom {dof} not defined.")
+        if support not in ["rested", "supported"]:
+            raise ValueError(f"Support type {support} not defined.")
+
         # adjust system to substitute system
         if dof in ["rot"]:
             tempsys = self.system
-- 
2.43.0


From 5951418ea3bf5e58886c9bf97336b314edd126d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 06/22] fix: restore the model when a substitute stiffness
 cannot be computed

An exception in the auxiliary problem left system type and weak-layer
stiffness of the auxiliary configuration behind.
---
 weac/mixins.py | 77 +++++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index a25f5ad..eaf410c 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -599,45 +599,44 @@ class SlabContactMixin:
         if support not in ["rested", "supported"]:
             raise ValueError(f"Support type {support} not defined.")
 
-        # adjust system to substitute system
-        if dof in ["rot"]:
-            tempsys = self.system
-            self.system = "rot"
-        if dof in ["trans"]:
-            tempsys = self.system
-            self.system = "trans"
-
-        # Change eigensystem for rested segment
-        if support in ["rested"]:
-            tempkn = self.kn
-            tempkt = self.kt
-            self.kn = self.ratio * self.kn
-            self.kt = self.ratio * self.kt
-            self.calc_system_matrix()
-            self.calc_eigensystem()
-
-        # prepare list of segment characteristics
-        segments = {
-            "li": np.array([L, 0.0]),
-            "mi": np.array([0]),
-            "ki": np.array([True, True]),
-        }
-        # solve system of equations
-        constants = self.assemble_and_solve(phi=0, **segments)
-        # calculate stiffness
-        _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
-        if dof in ["rot"]:
-            k = abs(1 / self.psi(z_pst)[0])
-        if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
-
-        # Reset to previous system and eigensystem
-        self.system = tempsys
-        if support in ["rested"]:
-            self.kn = tempkn
-            self.kt = tempkt
-            self.calc_system_matrix()
-            self.calc_eigensystem()
+        # store current system and stiffnesses
+        tempsys = self.system
+        tempkn = self.kn
+        tempkt = self.kt
+
+        try:
+            # adjust system to substitute system
+            self.system = dof
+
+            # Change eigensystem for rested segment
+            if support in ["rested"]:
+                self.kn = self.ratio * self.kn
+                self.kt = self.ratio * self.kt
+                self.calc_system_matrix()
+                self.calc_eigensystem()
+
+            # prepare list of segment characteristics
+            segments = {
+                "li": np.array([L, 0.0]),
+                "mi": np.array([0]),
+                "ki": np.array([True, True]),
+            }
+            # solve system of equations
+            constants = self.assemble_and_solve(phi=0, **segments)
+            # calculate stiffness
+            _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
+            if dof in ["rot"]:
+                k = abs(1 / self.psi(z_pst)[0])
+            if dof in ["trans"]:
+                k = abs(1 / self.w(z_pst)[0])
+        finally:
+            # Reset to previous system and eigensystem
+            self.system = tempsys
+            if support in ["rested"]:
+                self.kn = tempkn
+                self.kt = tempkt
+                self.calc_system_matrix()
+                self.calc_eigensystem()
 
         return k
 
-- 
2.43.0


From 20491c1cb5b662695abc3ec470382252349f5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 07/22] fix: refuse undefined combinations of contact stage and
 position

bc() ended in an UnboundLocalError.
---
 weac/mixins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index eaf410c..9d6cb5f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -874,6 +874,11 @@ class SolutionMixin:
                     kR = self.substitute_stiffness(self.a - self.td, "rested", "rot")
                     # Touchdown left
                     bc = np.array([self.N(z), self.M(z) - kR * self.psi(z), self.w(z)])
+                else:
+                    raise ValueError(
+                        f"Boundary conditions not defined for mode {self.mode} "
+                        f"and position {pos}."
+                    )
             else:
                 # Free end
                 bc = np.array([self.N(z), self.M(z), self.V(z)])
-- 
2.43.0


From 0f5b15ba59e27b2d8607ec7070210e5f2aa73153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 08/22] fix: normalise weak-layer stress with the strength in
 the same unit

Stresses in MPa were divided by the strength in kPa.
---
 weac/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 9d6cb5f..3a28049 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1774,7 +1774,8 @@ class AnalysisMixin:
 
         # Normalize compressive stresses to compressive strength
         if normalize and val == "min":
-            return ps / sc
+            # Strength is given in kPa
+            return ps / ({"kPa": 1, "MPa": 1e-3}[unit] * sc)
 
         # Return absolute principal stresses
         return ps
-- 
2.43.0


From 0a855e3aff9774dd8ac74549d2dd11f71bd25c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 09/22] fix: solve single-segment assemblies without touching
 the caller's lists

The dummy segment was appended in place: arrays raised an AttributeError,
lists of the caller grew with every call and the returned constants did not
match the given segments.
---
 weac/mixins.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 3a28049..99e5a58 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1160,10 +1160,11 @@ class SolutionMixin:
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
+        nC = nS  # Number of segments to return constants for
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li = np.append(li, 0)
+            ki = np.append(ki, True)
+            mi = np.append(mi, 0)
             nS = 2
 
         # Assemble position vector
@@ -1257,7 +1258,7 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        return C.reshape([-1, nDOF]).T[:, :nC]
 
 
 class AnalysisMixin:
-- 
2.43.0


From e403f16f09b6e8eb7f2df0c5cbd916dbbe2a53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 10/22] fix: accept layerings given as arrays

The truth value of an array with several entries is ambiguous, so the
documented ndarray input raised a ValueError.
---
 weac/layered.py | 2 +-
 weac/tools.py   | 9 ++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..0e99f89 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,6 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties([[240, 200], ] if layers is None or len(layers) == 0 else layers)
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 1092959..cc02c91 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -299,13 +299,8 @@ def touchdown_distance(
         Steady-state touchdown distance (mm).
     """
     # Check if layering is defined
-    layers = (
-        layers
-        if layers
-        else [
-            [240, 200],
-        ]
-    )
+    if layers is None or len(layers) == 0:
+        layers = [[240, 200]]
 
     # Initialize model with user input
     touchdown = weac.Layered(system="pst-", touchdown=True)
-- 
2.43.0


From 0d490c911942774422b4d16c8663875285d48a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 11/22] fix: make the inverse model usable

Segments could not be laid out because the slab contact methods were
missing, and the default layering could not be processed.
---
 weac/inverse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..be59520 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
@@ -49,6 +50,7 @@ class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
-        self.set_beam_properties(layers=layers, C0=C0, C1=C1)
+        self.set_beam_properties(
+            [[240, 200], ] if layers is None else layers, C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
-- 
2.43.0


From b6941b97387d50e7ba8d8c87f71a0c81cf8ff1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 12/22] fix: horizontal centre of gravity of the vertical-face
 wedge

The wedge is (H/2 - z)*tan(phi) wide at depth z, so its centre lies at half
the tangent, not at the tangent of half the angle.
---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index cc02c91..93f002a 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 62400479c9fff7bc1a43840964a7b4dbc91b4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 13/22] fix: slab stresses carry the surface load at the top
 face

Shear and transverse normal stress started from a stress-free top face, so
with a surface load they missed the weak-layer stresses at the bottom face
by exactly the surface load.
---
 weac/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index 99e5a58..48b9814 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1601,6 +1601,8 @@ class AnalysisMixin:
         # to obtain shear stress Txz in MPa
         Txz = cumulative_trapezoid(dsxx_dx, zi, axis=0, initial=0)
         Txz += cumulative_trapezoid(qt, zi, initial=0)[:, None]
+        # Add tangential surface load acting on the top face
+        Txz += self.get_surface_load(phi)[1]
 
         # Return shear stress Txz in specified unit
         return convert[unit] * Txz
@@ -1658,6 +1660,8 @@ class AnalysisMixin:
         integrand = cumulative_trapezoid(dsxx_dxdx, zi, axis=0, initial=0)
         Szz = cumulative_trapezoid(integrand, zi, axis=0, initial=0)
         Szz += cumulative_trapezoid(-qn, zi, initial=0)[:, None]
+        # Add normal surface load acting on the top face
+        Szz -= self.get_surface_load(phi)[0]
 
         # Return shear stress txz in specified unit
         return convert[unit] * Szz
-- 
2.43.0


From 2369a2a9b283a6db58af3bd31847c2c411a48e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 14/22] fix: axial slab stress does not depend on the mesh size

A term weight times element height was superimposed on the axial stress: it
grew with the chosen mesh size, was zero at layer interfaces, and broke the
mirror symmetry of the stress field. The weight already acts through the
beam solution (and through the shear stress).
---
 weac/mixins.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 48b9814..f6dba92 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1528,8 +1528,9 @@ class AnalysisMixin:
 
         # Get mesh along z-axis
         zmesh = self.get_zmesh(dz=dz)
-        zi = zmesh[:, 0]
-        rho = 1e-12 * zmesh[:, 3]
+
+        # Weight acts on axial stresses through the beam solution only
+        _ = phi
 
         # Get dimensions of stress field (n rows, m columns)
         n = zmesh.shape[0]
@@ -1542,12 +1543,6 @@ class AnalysisMixin:
         for i, (z, E, nu, _) in enumerate(zmesh):
             Sxx[i, :] = E / (1 - nu**2) * self.du_dx(Z, z)
 
-        # Calculate weight load at grid points and superimpose on stress field
-        qt = -rho * self.g * np.sin(np.deg2rad(phi))
-        for i, qi in enumerate(qt[:-1]):
-            Sxx[i, :] += qi * (zi[i + 1] - zi[i])
-        Sxx[-1, :] += qt[-1] * (zi[-1] - zi[-2])
-
         # Return axial normal stress in specified unit
         return convert[unit] * Sxx
 
-- 
2.43.0


From 2f15c61f12da7909d6cd3e5ea0bf0540ba7738d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 15/22] fix: external potential of surface load and unsupported
 systems

The tangential surface load did work on the displacement of the centre of
gravity instead of the top face it acts on, loads ignored the inclination
argument, and systems other than pst ended in an UnboundLocalError.
---
 weac/mixins.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index f6dba92..292670d 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1815,29 +1815,31 @@ class OutputMixin:
         # Rasterize solution
         xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
         _ = xq, xb
-        # Compute displacements where weight loads are applied
+        # Compute displacements where weight and surface loads are applied
         w0 = self.w(zq)
         us = self.u(zq, z0=self.zs)
-        # Get weight loads
-        qn = self.calc_qn()
-        qt = self.calc_qt()
+        ut = self.u(zq, z0=-self.h / 2)
+        # Get weight and surface loads
+        qn, qt = self.get_weight_load(phi)
+        pn, pt = self.get_surface_load(phi)
         # use +/- and us[0]/us[-1] according to system and phi
         # compute total external potential
         Pi_ext = (
-            -qn * (segments["li"][0] + segments["li"][1]) * np.average(w0)
-            - qn * (L - (segments["li"][0] + segments["li"][1])) * self.tc
+            -(qn + pn) * (segments["li"][0] + segments["li"][1]) * np.average(w0)
+            - (qn + pn) * (L - (segments["li"][0] + segments["li"][1])) * self.tc
         )
         # Ensure
         if self.system in ["pst-"]:
-            ub = us[-1]
+            ub, utb = us[-1], ut[-1]
         elif self.system in ["-pst"]:
-            ub = us[0]
+            ub, utb = us[0], ut[0]
+        else:
+            raise ValueError("Input error: Only pst-setup implemented at the moment.")
         Pi_ext += (
-            -qt * (segments["li"][0] + segments["li"][1]) * np.average(us)
-            - qt * (L - (segments["li"][0] + segments["li"][1])) * ub
+            -(segments["li"][0] + segments["li"][1])
+            * (qt * np.average(us) + pt * np.average(ut))
+            - (L - (segments["li"][0] + segments["li"][1])) * (qt * ub + pt * utb)
         )
-        if self.system not in ["pst-", "-pst"]:
-            print("Input error: Only pst-setup implemented at the moment.")
 
         return Pi_ext
 
-- 
2.43.0


From fd9d791547018c37ae7194660b7316b4634ae468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 16/22] fix: internal potential uses conjugate forces,
 deformations and lengths

The weak-layer energy was integrated over the whole column instead of the
supported part and used the slab displacement instead of the shear
deformation, the bending energy used the midplane moment together with the
neutral-axis stiffness, and the energy of the rotational spring was moment
times squared rotation. Internal and external potential of an uncracked
linear model now satisfy Clapeyron's theorem.
---
 weac/mixins.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 292670d..e0d3d8d 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1869,8 +1869,9 @@ class OutputMixin:
         # Rasterize solution
         xq, zq, xb = self.rasterize_solution(C=C, phi=phi, **segments)
 
-        # Compute section forces
-        N, M, V = self.N(zq), self.M(zq), self.V(zq)
+        # Compute section forces (bending moment about the neutral axis)
+        N, V = self.N(zq), self.V(zq)
+        M = self.M(zq) - self.B11 / self.A11 * N
 
         # Drop parts of the solution that are not a foundation
         zweak = zq[:, ~np.isnan(xb)]
@@ -1878,7 +1879,11 @@ class OutputMixin:
 
         # Compute weak layer displacements
         wweak = self.w(zweak)
-        uweak = self.u(zweak, z0=self.h / 2)
+        uweak = self.gamma(zweak) * self.t
+
+        # Compute lengths of slab and weak layer covered by the solution
+        L = sum(segments["li"])
+        Lweak = sum(l for l, k in zip(segments["li"], segments["ki"]) if k)
 
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
@@ -1892,14 +1897,14 @@ class OutputMixin:
             / (self.D11 - self.B11**2 / self.A11)
             * np.sum([Mi**2 for Mi in M])
             + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            + Lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
+            + Lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int -= 1 / 2 * self.M(zq)[-1] * self.psi(zq)[-1]
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * self.M(zq)[0] * self.psi(zq)[0]
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From c57467c399f716ddd1ce1c0000061f41469a4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 17/22] fix: deformed() draws on its own figure only

Without dark background it drew on and closed whatever figure the caller
had open, a refused field left a figure and style settings behind, and the
global colormap was modified.
---
 weac/plot.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..71a61a5 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -237,6 +237,12 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     ValueError
         If invalid stress or displacement field is requested.
     """
+    # Refuse undefined fields before any figure is created
+    if field not in ['u', 'w', 'Sxx', 'Txz', 'Szz', 'principal']:
+        raise ValueError(
+            f"Invalid input '{field}' for field. Valid options are "
+            "'u', 'w', 'Sxx', 'Txz', 'Szz', or 'principal'")
+
     # Plot Setup
     plt.rcdefaults()
     plt.rc('font', family='serif', size=10)
@@ -245,8 +251,12 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     # Set dark figure background if requested
     if dark:
         plt.style.use('dark_background')
-        fig = plt.figure()
-        ax = plt.gca()
+
+    # Create figure
+    fig = plt.figure()
+    ax = plt.gca()
+
+    if dark:
         fig.set_facecolor('#282c34')
         ax.set_facecolor('white')
 
@@ -359,7 +369,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
                  'k', linewidth=1)
 
     # Colormap
-    cmap = plt.cm.RdBu_r
+    cmap = plt.cm.RdBu_r.copy()
     cmap.set_over(adjust_lightness(cmap(1.0), 0.9))
     cmap.set_under(adjust_lightness(cmap(0.0), 0.9))
 
-- 
2.43.0


From 063b85a7471f0d390335312bc8e30fcb567da038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 18/22] fix: translational substitute stiffness does not count
 the slab weight

---
 weac/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index e0d3d8d..991a31f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -628,7 +628,8 @@ class SlabContactMixin:
             if dof in ["rot"]:
                 k = abs(1 / self.psi(z_pst)[0])
             if dof in ["trans"]:
-                k = abs(1 / self.w(z_pst)[0])
+                # deflection relative to the settlement under constant load
+                k = abs(1 / (self.w(z_pst)[0] - self.w(self.zp(x=0, phi=0))[0]))
         finally:
             # Reset to previous system and eigensystem
             self.system = tempsys
-- 
2.43.0


From 32d8e1295c147a54c06b6999ea4c3fad1f93e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 19/22] fix: weak-layer shear strain has the sign of the shear
 stress

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 991a31f..78ed8aa 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -269,7 +269,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From ea4a8591e932d445ba52ba03a8e402bf90e22a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 20/22] fix: plot data without segments

plot_data iterates over the segment lists when vertical lines are requested,
and fea_disp and fea_stress pass none: both raised TypeError on every call.
---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 71a61a5..80fa4b2 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -416,7 +416,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From f62e85bb376efcd245b767e1a384e1a1369f7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:08 +0000
Subject: [PATCH 21/22] fix: place curve labels on curves with few points

The label index was the position of the 95th percentile minus ten points per
curve without regard to the length of the curve: plots of less than about 15
points (coarse grids, few crack lengths) raised IndexError.
---
 weac/plot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 80fa4b2..78c459c 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -412,6 +412,14 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 # === BASE PLOT FUNCTION ======================================================
 
 
+def label_position(x, y, pos):
+    """Get the midpoint of the curve points before and at index pos."""
+    if len(x) == 1:
+        return x[0], y[0]
+    pos = max(1, pos % len(x))
+    return (x[pos - 1] + x[pos])/2, (y[pos - 1] + y[pos])/2
+
+
 def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
@@ -469,8 +477,7 @@ def plot_data(
             line, = ax1.plot(x, y, ':', linewidth=1)  # , color='black'
             thislabelpos = -2
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
-            xtx = (x[thislabelpos - 1] + x[thislabelpos])/2
-            ytx = (y[thislabelpos - 1] + y[thislabelpos])/2
+            xtx, ytx = label_position(x, y, thislabelpos)
             ax1.text(xtx, ytx, label, color=line.get_color(),
                      **labelstyle)
         else:
@@ -480,8 +487,7 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                xtx, ytx = label_position(x, y, labelpos - 10*i)
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
@@ -498,8 +504,7 @@ def plot_data(
             line, = ax2.plot(x, y, linewidth=1, color=colors[8, 0])
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
-            xtx = (x[labelpos - 1] + x[labelpos])/2
-            ytx = (y[labelpos - 1] + y[labelpos])/2
+            xtx, ytx = label_position(x, y, labelpos)
             ax2.text(xtx, ytx, label, color=line.get_color(),
                      **labelstyle)
 
-- 
2.43.0


From a064e2eb57e5b20ff5187dd541439af58af655a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 22/22] fix: documented defaults of gravity, slab thickness and
 stiffness exponent

---
 weac/eigensystem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index 62293fd..e217698 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -19,7 +19,7 @@ class Eigensystem:
     Attributes
     ----------
     g : float
-        Gravitational constant (mm/s^2). Default is 9180.
+        Gravitational constant (mm/s^2). Default is 9810.
     lski : float
         Effective out-of-plance length of skis (mm). Default is 1000.
     tol : float
@@ -45,7 +45,7 @@ class Eigensystem:
     k : float
         Shear correction factor of the slab. Default is 5/6.
     h : float
-        Slab thickness (mm). Default is 300.
+        Slab thickness (mm). Default is 200.
     zs : float
         Z-coordinate of the center of gravity of the slab (mm).
     A11 : float
@@ -204,7 +204,7 @@ class Eigensystem:
             according to Bergfeld et al. (2023). Default is 6.5.
         C1 : float, optional
             Exponent of Young modulus parameterization according to
-            Bergfeld et al. (2023). Default is 4.6.
+            Bergfeld et al. (2023). Default is 4.4.
         nu : float, optional
             Possion's ratio. Default is 0.25
         update : bool, optional
-- 
2.43.0

