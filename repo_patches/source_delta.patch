From 9bb93b200a7efba988949f58fa223af59f045d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/14] fix: delete element and material type along with the
 element

del_element left elem_type and mat_type untouched, so that all following
elements used the type of their predecessor.
---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..80d5986 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -103,6 +103,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From 50d45dc92c6558f4c59b97d4839f1affcc55d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 02/14] fix: store material and geometric properties as floats

If the first element was given with integer properties, real valued
properties assigned later were truncated to integers.
---
 src/trusspy/handlers/handler_element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 80d5986..e747463 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,10 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array(
+                [E.geometric_properties], dtype=float
+            )
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 4d68e312dc75cd4206f1f6b1394a7beb6b2abdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/14] fix: keep boundary values two-dimensional for a single
 boundary

Deleting the only displacement boundary removed one component instead of
the row and made the table unusable.
---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..b981f3d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From 87a5a41af675a9b586154183d609c3899c584824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 04/14] fix: accept the linearized solution if it is already
 converged

The increment was recorded as accepted although neither the solution
vector was advanced nor the state variables were updated.
---
 src/trusspy/solvers/tpsolver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..3ed3f70 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -405,6 +405,14 @@ def pathfollow(
             if abs(v1) > dxtol:
                 nr_success_pre = False
 
+            # linearized solution is already a valid solution: accept it
+            if nr_success_pre:
+                x = x_pre
+                analysis.dVmax = dxmax
+                # UPDATE STATE VARIABLES
+                f(x, *args[:-1], True)
+                b = b + 1
+
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
         # -----------------------------------------------------------------
-- 
2.43.0


From 86ed43041c110ad760b250184189c3db7676bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 05/14] fix: do not record a failed increment as result

An increment stopped by ERROR 1 or ERROR 2 was appended to the results
as if it were converged.
---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..1bcdbfe 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 3ed3f70..f3e866e 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -549,8 +549,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -562,10 +565,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From 8b1fd7618452cdf4643e68070ddc7f152badf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 06/14] fix: draw elements between the nodes with their labels

Node labels were used as row numbers, which is wrong (or fails) unless
nodes are labelled 1...n.
---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..5db95eb 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -121,7 +121,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From 70ae984b95406cc777ea3a7715dc3987c7b9b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 07/14] fix: keep movie frames in order beyond 999 increments

Frames are collected in alphabetical order of their file names.
---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 5db95eb..84b7aa7 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -194,7 +194,7 @@ def p_movie(
 
     for i in incs:
         self.plot_model(view, contour, lim_scale, force_scale, nodesize, cbar_limits, i)
-        plt.savefig("figures/png/fig_{:03d}.png".format(i), dpi=200)
+        plt.savefig("figures/png/fig_{:08d}.png".format(i), dpi=200)
         plt.close("all")
 
     png_to_gif(**kwargs)
-- 
2.43.0


From 3dde2d9f14eab0f6f52db10cab290f73dd057dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 08/14] fix: respect the initial control component

Settings.j0 was ignored unless the component was locked and raised a
TypeError for log > 1.
---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 1bcdbfe..3928a8f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 == None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index f3e866e..ec5695e 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -324,7 +324,7 @@ def pathfollow(
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-    if not j_fixed:
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From c0b44a7f3654acd4eed3d78ff7cacfc1641ef9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 09/14] fix: restore stdout if a run with logfile fails

---
 src/trusspy/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 3928a8f..c057538 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -201,6 +201,13 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        try:
+            self._run()
+        finally:
+            if self.logfile:
+                sys.stdout = self.stdout
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -437,9 +444,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From c5285fa01b58fbfde9d9a009300b4757a9110df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 10/14] fix: keep adapted step width inside its limits

One reduction or increase could leave [minfac, maxfac] * initial limit.
---
 src/trusspy/solvers/tpsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index ec5695e..2981533 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -154,7 +154,7 @@ def dxmax_control(
                     print(
                         "* reduce NR-step size by factor: {:10.3g}".format(1 / reduce)
                     )
-                dxmax = dxmax / reduce
+                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)
                 dx_changed = True
                 b = 0  # reset counter to increase width again
 
@@ -179,7 +179,9 @@ def dxmax_control(
                     #   nfev = 8, n = 4
                     #   1+(8-n)/8 = 1.5
                     #   total_increase = increase*1.5
-                    dxmax = dxmax * (1 + (nfev - n) / nfev * increase)
+                    dxmax = np.minimum(
+                        dxmax * (1 + (nfev - n) / nfev * increase), dxmax0 * maxfac
+                    )
                     dx_changed = True
                     if verbose > 1:
                         print(
-- 
2.43.0


From ff18bed0a1143744b18578f17d8f9db3dd986894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 11/14] fix: plot every result at its own increment number

The undeformed state was drawn twice, which shifted the increment number
of all results by one.
---
 src/trusspy/tools/plot_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 84b7aa7..bc70609 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -232,8 +232,8 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
 
 def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None):
     # loop over increments
-    xx = [0]
-    yy = [0]
+    xx = []
+    yy = []
     dir_dict = {"X": 0, "Y": 1, "Z": 2}
 
     x, y = np.nan, np.nan
@@ -261,9 +261,9 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
         yy.append(y)
 
     if "Increments" in X:
-        xx = np.arange(1 + len(self.Results.R), dtype=int)
+        xx = np.arange(len(self.Results.R), dtype=int)
     if "Increments" in Y:
-        yy = np.arange(1 + len(self.Results.R))
+        yy = np.arange(len(self.Results.R))
 
     if fig is None:
         fig, ax = plt.subplots()
-- 
2.43.0


From 71ab7a48f8e6b105f19410bbdcac755675965b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 12/14] fix: end the step if the solver returns no finite
 solution

A singular matrix gives NaN as solution; the choice of the control
component then raised ValueError instead of ending the step.
---
 src/trusspy/solvers/tpsolver.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 2981533..108ec95 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -393,7 +393,12 @@ def pathfollow(
                 (Dx_pre / dxmax).T[Dxi_pre - 1]
             )
             i1, v1 = Dxi_pre[-1], Dxs_pre[-1]
-            j_pre = int(i1 * np.sign(v1))
+            if np.isfinite(v1):
+                j_pre = int(i1 * np.sign(v1))
+            else:
+                # no linearized solution available: keep control component
+                j_pre = j
+                Dx_pre, Dxs_pre = np.zeros_like(x0), np.ones_like(x0)
             if verbose > 1:
                 print(
                     "| {0:2d}  |  {1:2d}  |  {2:2d}   |{3:1.3e}|{4:4d}|{5:8.1g}|    |        |    |        |".format(
@@ -476,7 +481,8 @@ def pathfollow(
                 )
 
             # set new control comp. if not fixed by the user
-            if not j_fixed:
+            # (keep it if there is no finite solution)
+            if not j_fixed and np.isfinite(v1):
                 j = int(i1 * np.sign(v1))
 
             # save current dxmax as dVmax to analysis object
-- 
2.43.0


From db28de91194216646a16c403c1a4be64e0a1327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 13/14] fix: default boundaries and forces of an earlier build
 give way to later edits

Model.build() appends free boundaries and zero forces for nodes without
them to the user's tables. Adding a boundary or force to such a node
afterwards, or deleting the node, made the next build raise ValueError.
---
 src/trusspy/handlers/handler_boundary.py | 13 +++++++++++++
 src/trusspy/handlers/handler_extforce.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index b981f3d..3c82b14 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -22,6 +22,9 @@ class BoundaryHandler:
         # 0=inactive (locked) DOF
         self.Uvalues = None
 
+        # nodes without a boundary given by the user (set to free by a build)
+        self.Ufixed = []
+
         # NOT IMPLEMENTED
         # Element based thermal boundary condition
         self.Telements = None
@@ -39,6 +42,10 @@ class BoundaryHandler:
         if "BoundaryU" not in str(type(B)):
             B = BoundaryU(B, *args, **kwargs)
 
+        # a given boundary takes the place of the one set by a build
+        if B.node in self.Ufixed:
+            self.del_bound_U(B.node)
+
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
             self.Uvalues = np.array([B.values])
@@ -51,6 +58,7 @@ class BoundaryHandler:
         idx = np.where(self.Unodes == label)[0]
         self.Unodes = np.delete(self.Unodes, idx, axis=0)
         self.Uvalues = np.delete(self.Uvalues, idx, axis=0)
+        self.Ufixed = [n for n in self.Ufixed if n != label]
 
     def add_bounds_U(self, BB):
         """add list of displacement boundaries"""
@@ -58,6 +66,10 @@ class BoundaryHandler:
             self.add_bound_U(B)
 
     def fix_bounds_U(self, nodelist):
+        # drop boundaries of deleted nodes which were set by an earlier build
+        for n in [n for n in self.Ufixed if n not in nodelist]:
+            self.del_bound_U(n)
+
         # check for undefined DOF --> set them all to free
 
         # are nodelist entries in Unodes?
@@ -66,6 +78,7 @@ class BoundaryHandler:
         for n in fix_nodes:
             B = BoundaryU(n, (1, 1, 1))
             self.add_bound_U(B)
+        self.Ufixed = self.Ufixed + list(fix_nodes)
         indices = np.argsort(self.Unodes)
         self.Unodes = self.Unodes.take(indices)
         self.Uvalues = self.Uvalues.take(indices, axis=0)
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7e703ab..e749d51 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -17,6 +17,9 @@ class ExternalForceHandler:
         self.nodes = None
         self.forces = None
 
+        # nodes without a force given by the user (set to zero by a build)
+        self.fixed = []
+
     def __enter__(self):
         return self
 
@@ -27,6 +30,10 @@ class ExternalForceHandler:
         if "ExternalForce" not in str(type(F)):
             F = ExternalForce(F, *args, **kwargs)
 
+        # a given force takes the place of the one set by a build
+        if F.node in self.fixed:
+            self.del_force(F.node)
+
         if self.nodes is None:
             self.nodes = np.array([F.node])
             self.forces = np.array([F.force])
@@ -38,12 +45,17 @@ class ExternalForceHandler:
         idx = np.where(self.nodes == label)[0]
         self.nodes = np.delete(self.nodes, idx, axis=0)
         self.forces = np.delete(self.forces, idx, axis=0)
+        self.fixed = [n for n in self.fixed if n != label]
 
     def add_forces(self, FF):
         for F in FF:
             self.add_force(F)
 
     def fix_forces(self, nodelist):
+        # drop forces of deleted nodes which were set by an earlier build
+        for n in [n for n in self.fixed if n not in nodelist]:
+            self.del_force(n)
+
         # check for missing external forces --> set them all to zero
 
         # are nodelist entries in force-nodes?
@@ -53,6 +65,7 @@ class ExternalForceHandler:
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
+        self.fixed = self.fixed + list(fix_nodes)
         indices = np.argsort(self.nodes)
         self.nodes = self.nodes.take(indices)
         self.forces = self.forces.take(indices, axis=0)
-- 
2.43.0


From 5299eec24d0a3311346b652b46b02d2182b1ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 14/14] fix: return the current internal forces of the active
 degrees of freedom

---
 src/trusspy/core/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/core/analysis.py b/src/trusspy/core/analysis.py
index 949bd66..129d2c3 100644
--- a/src/trusspy/core/analysis.py
+++ b/src/trusspy/core/analysis.py
@@ -148,6 +148,6 @@ class Analysis:
         if flat:
             return self.r.flatten()
         elif red:
-            return self.rred
+            return self.r.flatten()[self.DOF1]
         else:
             return self.r
-- 
2.43.0

