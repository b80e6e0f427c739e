From 249828b05ef03451043bbe8080a7689d5fe3f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 01/49] fix: generate meshes that have not been generated when
 preparing a model for analysis

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e675f8c..d6d76b0 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -27,7 +27,7 @@ def _prepare_model(model):
     
     # Generate all meshes
     for mesh in model.meshes.values():
-        if mesh.is_generated == False:
+        if mesh.is_generated() == False:
             mesh.generate()
 
     # Activate all springs and members for all load combinations
-- 
2.43.0


From e82c80fe9db0e38f7cc6648f346d701132606893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 02/49] fix: do not carry the solution status or reactions of
 an earlier analysis into a new one

---
 PyNite/Analysis.py  | 14 ++++++++++----
 PyNite/FEModel3D.py | 25 ++++++++++++++++---------
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index d6d76b0..62edc77 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -10,7 +10,10 @@ def _prepare_model(model):
     :type model: FEModel3D
     """
     
-    # Reset any nodal displacements
+    # Flag the model as unsolved until the analysis has run to completion
+    model.solution = None
+
+    # Reset any nodal displacements and reactions
     model._D = {}
     for node in model.nodes.values():
         node.DX = {}
@@ -19,6 +22,12 @@ def _prepare_model(model):
         node.RX = {}
         node.RY = {}
         node.RZ = {}
+        node.RxnFX = {}
+        node.RxnFY = {}
+        node.RxnFZ = {}
+        node.RxnMX = {}
+        node.RxnMY = {}
+        node.RxnMZ = {}
 
     # Ensure there is at least 1 load combination to solve if the user didn't define any
     if model.load_combos == {}:
@@ -259,9 +268,6 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
 
         # Increment the P-Delta iteration count
         iter_count_PD += 1
-    
-    # Flag the model as solved
-    model.solution = 'P-Delta'
 
 def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices, D2_indices, D2, log=True, sparse=True, check_stability=False):
 
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 3fae33c..fc1b296 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2169,16 +2169,23 @@ class FEModel3D():
             # Run the P-Delta analysis for this load combination
             Analysis._PDelta_step(self, combo.name, P1, FER1, D1_indices, D2_indices, D2, log, sparse, check_stability, max_iter, True)
         
-        # Calculate reactions
-        Analysis._calc_reactions(self, log, combo_tags)
+        try:
 
-        if log:
-            print('')
-            print('- Analysis complete')
-            print('')
-        
-        # Flag the model as solved
-        self.solution = 'P-Delta'
+            # Flag the model as solved. Member end forces only include geometric stiffness once the model is flagged as a P-Delta solution, so this has to be done before calculating reactions.
+            self.solution = 'P-Delta'
+
+            # Calculate reactions
+            Analysis._calc_reactions(self, log, combo_tags)
+
+            if log:
+                print('')
+                print('- Analysis complete')
+                print('')
+
+        except BaseException:
+            # The analysis did not run to completion
+            self.solution = None
+            raise
     
     def _not_ready_yet_analyze_pushover(self, log=False, check_stability=True, push_combo='Push', max_iter=30, tol=0.01, sparse=True, combo_tags=None):
 
-- 
2.43.0


From 00b7bd95dc058057eee085c58c7ad561c8a6d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 03/49] fix: track the activity of one-way spring supports
 separately for each load combination

---
 PyNite/Analysis.py  | 24 +++++++++++++++---------
 PyNite/FEModel3D.py | 24 ++++++++++++------------
 PyNite/Node3D.py    |  2 +-
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 62edc77..87c1ea5 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -39,6 +39,12 @@ def _prepare_model(model):
         if mesh.is_generated() == False:
             mesh.generate()
 
+    # Activate all spring supports for all load combinations
+    for node in model.nodes.values():
+        for support_spring in (node.spring_DX, node.spring_DY, node.spring_DZ, node.spring_RX, node.spring_RY, node.spring_RZ):
+            if support_spring[0] is not None:
+                support_spring[2] = {combo_name: True for combo_name in model.load_combos.keys()}
+
     # Activate all springs and members for all load combinations
     for spring in model.springs.values():
         for combo_name in model.load_combos.keys():
@@ -493,15 +499,15 @@ def _check_TC_convergence(model, combo_name="Combo 1", log=True, spring_toleranc
             spring = getattr(node, f"spring_{direction}")
             displacement = getattr(node, direction)[combo_name]
 
-            if spring[1] is not None:
+            if spring[0] is not None and spring[1] is not None:
                 # Determine if the spring should be active based on its designation ('+' or '-') and the displacement
                 should_be_active = (
                     spring[1] == "-" and displacement <= -spring_tolerance
                 ) or (spring[1] == "+" and displacement >= spring_tolerance)
 
                 # Check if there's a need to switch the active state of the spring
-                if spring[2] != should_be_active:
-                    spring[2] = should_be_active
+                if spring[2][combo_name] != should_be_active:
+                    spring[2][combo_name] = should_be_active
                     convergence = False
 
     # TODO: Adjust the code below to allow elements to reactivate on subsequent iterations if deformations at element nodes indicate the member goes back into an active state. This will lead to a less conservative and more realistic analysis. Nodal springs (above) already do this.
@@ -801,37 +807,37 @@ def _calc_reactions(model, log=False, combo_tags=None):
                                 node.RxnMZ[combo.name] -= load[1]*factor
             
             # Calculate any reactions due to active spring supports at the node
-            if node.spring_DX[0] != None and node.spring_DX[2] == True:
+            if node.spring_DX[0] != None and node.spring_DX[2][combo.name] == True:
                 sign = node.spring_DX[1]
                 k = node.spring_DX[0]
                 if sign != None: k = float(sign + str(k))
                 DX = node.DX[combo.name]
                 node.RxnFX[combo.name] += k*DX
-            if node.spring_DY[0] != None and node.spring_DY[2] == True:
+            if node.spring_DY[0] != None and node.spring_DY[2][combo.name] == True:
                 sign = node.spring_DY[1]
                 k = node.spring_DY[0]
                 if sign != None: k = float(sign + str(k))
                 DY = node.DY[combo.name]
                 node.RxnFY[combo.name] += k*DY
-            if node.spring_DZ[0] != None and node.spring_DZ[2] == True:
+            if node.spring_DZ[0] != None and node.spring_DZ[2][combo.name] == True:
                 sign = node.spring_DZ[1]
                 k = node.spring_DZ[0]
                 if sign != None: k = float(sign + str(k))
                 DZ = node.DZ[combo.name]
                 node.RxnFZ[combo.name] += k*DZ
-            if node.spring_RX[0] != None and node.spring_RX[2] == True:
+            if node.spring_RX[0] != None and node.spring_RX[2][combo.name] == True:
                 sign = node.spring_RX[1]
                 k = node.spring_RX[0]
                 if sign != None: k = float(sign + str(k))
                 RX = node.RX[combo.name]
                 node.RxnMX[combo.name] += k*RX
-            if node.spring_RY[0] != None and node.spring_RY[2] == True:
+            if node.spring_RY[0] != None and node.spring_RY[2][combo.name] == True:
                 sign = node.spring_RY[1]
                 k = node.spring_RY[0]
                 if sign != None: k = float(sign + str(k))
                 RY = node.RY[combo.name]
                 node.RxnMY[combo.name] += k*RY
-            if node.spring_RZ[0] != None and node.spring_RZ[2] == True:
+            if node.spring_RZ[0] != None and node.spring_RZ[2][combo.name] == True:
                 sign = node.spring_RZ[1]
                 k = node.spring_RZ[0]
                 if sign != None: k = float(sign + str(k))
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index fc1b296..e95cefd 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -951,17 +951,17 @@ class FEModel3D():
         if dof in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
             if direction in ('+', '-', None):
                 if dof == 'DX':
-                    self.nodes[node_name].spring_DX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DX = [stiffness, direction, {}]
                 elif dof == 'DY':
-                    self.nodes[node_name].spring_DY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DY = [stiffness, direction, {}]
                 elif dof == 'DZ':
-                    self.nodes[node_name].spring_DZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_DZ = [stiffness, direction, {}]
                 elif dof == 'RX':
-                    self.nodes[node_name].spring_RX = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RX = [stiffness, direction, {}]
                 elif dof == 'RY':
-                    self.nodes[node_name].spring_RY = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RY = [stiffness, direction, {}]
                 elif dof == 'RZ':
-                    self.nodes[node_name].spring_RZ = [stiffness, direction, True]
+                    self.nodes[node_name].spring_RZ = [stiffness, direction, {}]
             else:
                 raise ValueError('Invalid support spring direction. Specify \'+\', \'-\', or None.')
         else:
@@ -1310,7 +1310,7 @@ class FEModel3D():
             if node.spring_DX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DX[2] == True:
+                if node.spring_DX[2][combo_name] == True:
                     m, n = node.ID*6, node.ID*6
                     if sparse == True:
                         data.append(float(node.spring_DX[0]))
@@ -1322,7 +1322,7 @@ class FEModel3D():
             if node.spring_DY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DY[2] == True:
+                if node.spring_DY[2][combo_name] == True:
                     m, n = node.ID*6 + 1, node.ID*6 + 1
                     if sparse == True:
                         data.append(float(node.spring_DY[0]))
@@ -1334,7 +1334,7 @@ class FEModel3D():
             if node.spring_DZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_DZ[2] == True:
+                if node.spring_DZ[2][combo_name] == True:
                     m, n = node.ID*6 + 2, node.ID*6 + 2
                     if sparse == True:
                         data.append(float(node.spring_DZ[0]))
@@ -1346,7 +1346,7 @@ class FEModel3D():
             if node.spring_RX[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RX[2] == True:
+                if node.spring_RX[2][combo_name] == True:
                     m, n = node.ID*6 + 3, node.ID*6 + 3
                     if sparse == True:
                         data.append(float(node.spring_RX[0]))
@@ -1358,7 +1358,7 @@ class FEModel3D():
             if node.spring_RY[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RY[2] == True:
+                if node.spring_RY[2][combo_name] == True:
                     m, n = node.ID*6 + 4, node.ID*6 + 4
                     if sparse == True:
                         data.append(float(node.spring_RY[0]))
@@ -1370,7 +1370,7 @@ class FEModel3D():
             if node.spring_RZ[0] != None:
 
                 # Check for an active spring support
-                if node.spring_RZ[2] == True:
+                if node.spring_RZ[2][combo_name] == True:
                     m, n = node.ID*6 + 5, node.ID*6 + 5
                     if sparse == True:
                         data.append(float(node.spring_RZ[0]))
diff --git a/PyNite/Node3D.py b/PyNite/Node3D.py
index 9049619..493e61f 100644
--- a/PyNite/Node3D.py
+++ b/PyNite/Node3D.py
@@ -46,7 +46,7 @@ class Node3D():
         self.support_RZ = False
 
         # Inititialize all support springs
-        self.spring_DX = [None, None, None]  # [stiffness, direction, active]
+        self.spring_DX = [None, None, None]  # [stiffness, direction, active], where `active` is a dictionary: Key = load combo name, Value = True or False
         self.spring_DY = [None, None, None]
         self.spring_DZ = [None, None, None]
         self.spring_RX = [None, None, None]
-- 
2.43.0


From cf2f7b1eb2bc39475dad3ee933d4006fd79b7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 04/49] fix: spring support reactions oppose the displacement
 of the support

---
 PyNite/Analysis.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 87c1ea5..4187a6b 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -808,41 +808,29 @@ def _calc_reactions(model, log=False, combo_tags=None):
             
             # Calculate any reactions due to active spring supports at the node
             if node.spring_DX[0] != None and node.spring_DX[2][combo.name] == True:
-                sign = node.spring_DX[1]
-                k = node.spring_DX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DX[0])
                 DX = node.DX[combo.name]
-                node.RxnFX[combo.name] += k*DX
+                node.RxnFX[combo.name] -= k*DX
             if node.spring_DY[0] != None and node.spring_DY[2][combo.name] == True:
-                sign = node.spring_DY[1]
-                k = node.spring_DY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DY[0])
                 DY = node.DY[combo.name]
-                node.RxnFY[combo.name] += k*DY
+                node.RxnFY[combo.name] -= k*DY
             if node.spring_DZ[0] != None and node.spring_DZ[2][combo.name] == True:
-                sign = node.spring_DZ[1]
-                k = node.spring_DZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_DZ[0])
                 DZ = node.DZ[combo.name]
-                node.RxnFZ[combo.name] += k*DZ
+                node.RxnFZ[combo.name] -= k*DZ
             if node.spring_RX[0] != None and node.spring_RX[2][combo.name] == True:
-                sign = node.spring_RX[1]
-                k = node.spring_RX[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RX[0])
                 RX = node.RX[combo.name]
-                node.RxnMX[combo.name] += k*RX
+                node.RxnMX[combo.name] -= k*RX
             if node.spring_RY[0] != None and node.spring_RY[2][combo.name] == True:
-                sign = node.spring_RY[1]
-                k = node.spring_RY[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RY[0])
                 RY = node.RY[combo.name]
-                node.RxnMY[combo.name] += k*RY
+                node.RxnMY[combo.name] -= k*RY
             if node.spring_RZ[0] != None and node.spring_RZ[2][combo.name] == True:
-                sign = node.spring_RZ[1]
-                k = node.spring_RZ[0]
-                if sign != None: k = float(sign + str(k))
+                k = float(node.spring_RZ[0])
                 RZ = node.RZ[combo.name]
-                node.RxnMZ[combo.name] += k*RZ
+                node.RxnMZ[combo.name] -= k*RZ
 
 def _check_statics(model, combo_tags=None):
     '''
-- 
2.43.0


From 1f9a7128fb3c44b223e5387e333169f674c8bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 05/49] fix: do not reuse member segments from an earlier
 analysis or from an interrupted query

---
 PyNite/Member3D.py   | 3 +++
 PyNite/PhysMember.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index ef7f2d7..625fa42 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1931,6 +1931,9 @@ class Member3D():
         # Sort the list and eliminate duplicate values
         disconts = sorted(set(disconts))
         
+        # The segments stop representing the last solved load combination once we start to rebuild them
+        self._solved_combo = None
+
         # Clear out old data from any previous analyses
         SegmentsZ.clear()
         SegmentsY.clear()
diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04e3f41..04010e1 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -27,6 +27,9 @@ class PhysMember(Member3D):
         # Clear out any old sub_members
         self.sub_members = {}
 
+        # Flag the member as unsolved. Any segments left over from a prior analysis are no longer valid.
+        self._solved_combo = None
+
         # Start a new list of nodes along the member
         int_nodes = []
 
-- 
2.43.0


From 12622ad2645923a0d186e085fd59295c54a979e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 06/49] fix: repair the dense solver path of the P-Delta
 analysis

---
 PyNite/Analysis.py  | 4 ++--
 PyNite/FEModel3D.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 4187a6b..27f32ed 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -211,7 +211,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                 Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, True), D1_indices, D2_indices)
             else:
                 # For subsequent iterations P will be calculated based on member end displacements
-                Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+                Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             K11 = K11 + Kg11
             K12 = K12 + Kg12
@@ -316,7 +316,7 @@ def _pushover_step(model, combo_name, push_combo, step_num, P1, FER1, D1_indices
             
             # Geometric stiffness matrix
             # The `combo_name` variable in the code below is not the name of the pushover load combination. Rather it is the name of the primary combination that the pushover load will be added to. Axial loads used to develop Kg are calculated from the displacements stored in `combo_name`.
-            Kg11, Kg12, Kg21, Kg22 = _partition(model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
+            Kg11, Kg12, Kg21, Kg22 = _partition(model, model.Kg(combo_name, log, sparse, False), D1_indices, D2_indices)
             
             # Calculate the stiffness reduction matrix
             Km11, Km12, Km21, Km22 = _partition(model, model.Km(combo_name, push_combo, step_num, log, sparse), D1_indices, D2_indices)
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index e95cefd..5a9a2e6 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -1607,7 +1607,7 @@ class FEModel3D():
             from scipy.sparse import lil_matrix
             Kg = lil_matrix((len(self.nodes)*6, len(self.nodes)*6))
         else:
-            Kg = zeros(len(self.nodes)*6, len(self.nodes)*6)
+            Kg = zeros((len(self.nodes)*6, len(self.nodes)*6))
         
         # Add stiffness terms for each physical member in the model
         if log: print('- Adding member geometric stiffness terms to global geometric stiffness matrix')
-- 
2.43.0


From 0b4bb611cf4a99bd2af577bd2f96306194667763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 07/49] fix: allow P-Delta analysis to iterate when every
 displacement is known

---
 PyNite/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 27f32ed..f29229c 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -222,7 +222,7 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
         if log: print('- Calculating changes to the global displacement vector')
         if K11.shape == (0, 0):
             # All displacements are known, so D1 is an empty vector
-            Delta_D1 = []
+            Delta_D1 = zeros((0, 1))
         else:
             try:
                 # Calculate the change in the displacements Delta_D1
-- 
2.43.0


From e82a098965fb48b1bd774aa832de8f78978e6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 08/49] fix: do not report degrees of freedom with enforced
 displacements as unstable

---
 PyNite/Analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index f29229c..e250df8 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -105,17 +105,17 @@ def _check_stability(model, K):
 
         # Check to see if this degree of freedom is supported
         if dof == 0:
-            supported = node.support_DX
+            supported = node.support_DX or node.EnforcedDX is not None
         elif dof == 1:
-            supported = node.support_DY
+            supported = node.support_DY or node.EnforcedDY is not None
         elif dof == 2:
-            supported = node.support_DZ
+            supported = node.support_DZ or node.EnforcedDZ is not None
         elif dof == 3:
-            supported = node.support_RX
+            supported = node.support_RX or node.EnforcedRX is not None
         elif dof == 4:
-            supported = node.support_RY
+            supported = node.support_RY or node.EnforcedRY is not None
         elif dof == 5:
-            supported = node.support_RZ
+            supported = node.support_RZ or node.EnforcedRZ is not None
 
         # Check if the degree of freedom on this diagonal is unstable
         if isclose(K[i, i], 0) and not supported:
-- 
2.43.0


From efec09cbf8d8cd564d839dd6faf178acf59475d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 09/49] fix: delete springs along with the node they are
 attached to

---
 PyNite/FEModel3D.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 5a9a2e6..084bfa4 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -840,6 +840,7 @@ class FEModel3D():
         self.nodes.pop(node_name)
         
         # Find any elements attached to the node and remove them
+        self.springs = {name: spring for name, spring in self.springs.items() if spring.i_node.name != node_name and spring.j_node.name != node_name}
         self.members = {name: member for name, member in self.members.items() if member.i_node.name != node_name and member.j_node.name != node_name}
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
-- 
2.43.0


From 1876179b3ab2af86488ae0d691c02fc4d6361b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 10/49] fix: detach members from an auxiliary node when it is
 deleted

---
 PyNite/FEModel3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 084bfa4..28fef70 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -860,7 +860,7 @@ class FEModel3D():
 
         # Remove the auxiliary node from any members that were using it
         for member in self.members.values():
-            if member.auxNode == auxnode_name:
+            if member.auxNode is not None and member.auxNode.name == auxnode_name:
                 member.auxNode = None
         
         # Flag the model as unsolved
-- 
2.43.0


From 4b233d9901eedd537f2a9067648a453d93605ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 11/49] fix: do not overwrite existing nodes and elements when
 generating annulus, frustrum and cylinder meshes

---
 PyNite/Mesh.py | 56 ++++++--------------------------------------------
 1 file changed, 6 insertions(+), 50 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 352063a..cc1b5d1 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -863,16 +863,9 @@ class AnnulusMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            elif element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
+        # Some of the element or node names may already be being used in the model. Rename any names
+        # that are already being used, and add the nodes and elements to the model.
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -988,17 +981,6 @@ class AnnulusRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        # Add the elements to the model
-        for element in self.elements.values():
-            if element.type.upper() == 'QUAD':
-                self.model.quads[element.name] = element
-            if element.type.upper() == 'RECT':
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1166,16 +1148,6 @@ class AnnulusTransRingMesh(Mesh):
                                                                self.nodes['N' + str(n_node + node_offset)],
                                                                self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-        
         # Flag the mesh as generated
         self._is_generated = True
 
@@ -1348,15 +1320,9 @@ class CylinderMesh(Mesh):
             element.m_node = self.nodes[element.m_node.name]
             element.n_node = self.nodes[element.n_node.name]
 
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
+        # Some of the element or node names may already be being used in the model. Rename any names
+        # that are already being used, and add the nodes and elements to the model.
+        self._rename_duplicates()
         
         # Flag the mesh as generated
         self._is_generated = True
@@ -1531,16 +1497,6 @@ class CylinderRingMesh(Mesh):
                                                       self.nodes['N' + str(n_node + node_offset)],
                                                       self.thickness, self.material_name, self.model, self.kx_mod, self.ky_mod)
         
-        # Add the nodes and elements to the model
-        for node in self.nodes.values():
-            self.model.nodes[node.name] = node
-        
-        for element in self.elements.values():
-            if element.type == 'Quad':
-                self.model.quads[element.name] = element
-            else:
-                self.model.plates[element.name] = element
-            
         # Flag the mesh as generated
         self._is_generated = True
         
-- 
2.43.0


From 97f62d7f898a3b6ed8059ea9367e8337b0859077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 12/49] fix: do not duplicate a mesh that is generated a second
 time

---
 PyNite/Mesh.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index cc1b5d1..8705a98 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -448,6 +448,9 @@ class RectangleMesh(Mesh):
     
     def generate(self):
 
+        # Generating a mesh a second time would duplicate all of its nodes and elements
+        if self._is_generated: return
+
         mesh_size = self.mesh_size
         width = self.width
         height = self.height
@@ -803,7 +806,10 @@ class AnnulusMesh(Mesh):
         # self.generate()
     
     def generate(self):
-        
+
+        # Generating a mesh a second time would duplicate all of its nodes and elements
+        if self._is_generated: return
+
         mesh_size = self.mesh_size
         r_outer = self.outer_radius
         r_inner = self.inner_radius
@@ -1168,6 +1174,9 @@ class FrustrumMesh(AnnulusMesh):
     
     def generate(self):
 
+        # Generating a mesh a second time would duplicate all of its nodes and elements
+        if self._is_generated: return
+
         super().generate()
         
         Xo = self.origin[0]
@@ -1259,7 +1268,10 @@ class CylinderMesh(Mesh):
         self.generate()
     
     def generate(self):
-        
+
+        # Generating a mesh a second time would duplicate all of its nodes and elements
+        if self._is_generated: return
+
         # Get the mesh thickness and the material name
         thickness = self.thickness
         material_name = self.material_name
-- 
2.43.0


From cd1b9a1eb6f5aacd07120e8e735c03422f4698b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 13/49] fix: do not write mesh boundaries into the caller's
 lists of control points

---
 PyNite/Mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 8705a98..f8f5219 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -438,10 +438,10 @@ class RectangleMesh(Mesh):
         self.plane = plane
 
         if x_control is None: self.x_control = []
-        else: self.x_control = x_control
+        else: self.x_control = list(x_control)
 
         if y_control is None: self.y_control = []
-        else: self.y_control = y_control
+        else: self.y_control = list(y_control)
 
         self.element_type = element_type
         self.openings = {}
-- 
2.43.0


From 09a6bf5d3f4cb027e441dd240ba9ec0199539952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 14/49] fix: flag the model as unsolved when a mesh is
 generated or receives an opening

---
 PyNite/Mesh.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index f8f5219..2e1ba63 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -84,6 +84,9 @@ class Mesh():
         # Replace the old dictionaries of nodes and elements with the revised dictionaries
         self.nodes = revised_nodes
         self.elements = revised_elements
+
+        # Flag the model as unsolved
+        self.model.solution = None
             
     def generate(self):
         """
@@ -756,6 +759,9 @@ class RectangleMesh(Mesh):
         # Flag the mesh as not generated yet
         self._is_generated = False
 
+        # Flag the model as unsolved
+        self.model.solution = None
+
 #%%
 class RectOpening():
     """
-- 
2.43.0


From a3f938a2acd8e599c0e1ebb388ac60a10e3954fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 15/49] fix: delete a node and the elements attached to it from
 meshes too

---
 PyNite/FEModel3D.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 28fef70..f363b1f 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -845,6 +845,11 @@ class FEModel3D():
         self.plates = {name: plate for name, plate in self.plates.items() if plate.i_node.name != node_name and plate.j_node.name != node_name and plate.m_node.name != node_name and plate.n_node.name != node_name}
         self.quads = {name: quad for name, quad in self.quads.items() if quad.i_node.name != node_name and quad.j_node.name != node_name and quad.m_node.name != node_name and quad.n_node.name != node_name}
 
+        # Remove the node and the elements attached to it from any meshes they are a part of
+        for mesh in self.meshes.values():
+            mesh.nodes = {name: node for name, node in mesh.nodes.items() if node.name != node_name}
+            mesh.elements = {name: element for name, element in mesh.elements.items() if element.i_node.name != node_name and element.j_node.name != node_name and element.m_node.name != node_name and element.n_node.name != node_name}
+
         # Flag the model as unsolved
         self.solution = None
 
-- 
2.43.0


From 2dc385bf92dea2bd9705ae72fffce0cef4618d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 16/49] fix: do not lose nodes or elements when renaming, and
 keep meshes in step with the new names

---
 PyNite/FEModel3D.py | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index f363b1f..2e304d8 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -2343,49 +2343,54 @@ class FEModel3D():
         """
 
         # Rename each node in the model
-        temp = self.nodes.copy()
+        temp = {}
         id = 1
-        for old_key in temp.keys():
-            new_key = 'N' + str(id)
-            self.nodes[new_key] = self.nodes.pop(old_key)
-            self.nodes[new_key].name = new_key
+        for node in self.nodes.values():
+            node.name = 'N' + str(id)
+            temp[node.name] = node
             id += 1
+        self.nodes = temp
         
         # Rename each spring in the model
-        temp = self.springs.copy()
+        temp = {}
         id = 1
-        for old_key in temp.keys():
-            new_key = 'S' + str(id)
-            self.springs[new_key] = self.springs.pop(old_key)
-            self.springs[new_key].name = new_key
+        for spring in self.springs.values():
+            spring.name = 'S' + str(id)
+            temp[spring.name] = spring
             id += 1
+        self.springs = temp
 
         # Rename each member in the model
-        temp = self.members.copy()
+        temp = {}
         id = 1
-        for old_key in temp.keys():
-            new_key = 'M' + str(id)
-            self.members[new_key] = self.members.pop(old_key)
-            self.members[new_key].name = new_key
+        for member in self.members.values():
+            member.name = 'M' + str(id)
+            temp[member.name] = member
             id += 1
+        self.members = temp
         
         # Rename each plate in the model
-        temp = self.plates.copy()
+        temp = {}
         id = 1
-        for old_key in temp.keys():
-            new_key = 'P' + str(id)
-            self.plates[new_key] = self.plates.pop(old_key)
-            self.plates[new_key].name = new_key
+        for plate in self.plates.values():
+            plate.name = 'P' + str(id)
+            temp[plate.name] = plate
             id += 1
+        self.plates = temp
         
         # Rename each quad in the model
-        temp = self.quads.copy()
+        temp = {}
         id = 1
-        for old_key in temp.keys():
-            new_key = 'Q' + str(id)
-            self.quads[new_key] = self.quads.pop(old_key)
-            self.quads[new_key].name = new_key
+        for quad in self.quads.values():
+            quad.name = 'Q' + str(id)
+            temp[quad.name] = quad
             id += 1
+        self.quads = temp
+
+        # Update the names of the nodes and elements in each mesh
+        for mesh in self.meshes.values():
+            mesh.nodes = {node.name: node for node in mesh.nodes.values()}
+            mesh.elements = {element.name: element for element in mesh.elements.values()}
 
     def orphaned_nodes(self):
         """
-- 
2.43.0


From 92f2129c54e3369507f032a1c4055a0d309e8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 17/49] fix: keep the loads and enforced displacements of nodes
 removed by merge_duplicate_nodes

---
 PyNite/FEModel3D.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 2e304d8..7a2b377 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -799,6 +799,15 @@ class FEModel3D():
                     if value != [None, None, None]:
                         setattr(self.nodes[node_1_name], dof, value)
                 
+                # Merge any enforced displacements
+                enforced_cond = ('EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')
+                for dof in enforced_cond:
+                    if getattr(self.nodes[node_1_name], dof) is None:
+                        setattr(self.nodes[node_1_name], dof, getattr(self.nodes[node_2_name], dof))
+
+                # Merge any nodal loads
+                self.nodes[node_1_name].NodeLoads.extend(self.nodes[node_2_name].NodeLoads)
+
                 # Fix the mesh labels
                 for mesh in self.meshes.values():
 
-- 
2.43.0


From c6d5ba8a26d57d8c7445a0b9c59a327306167ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 18/49] fix: give each load combination its own dictionary of
 factors

---
 PyNite/LoadCombo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/LoadCombo.py b/PyNite/LoadCombo.py
index 2e2d0ae..19eae18 100644
--- a/PyNite/LoadCombo.py
+++ b/PyNite/LoadCombo.py
@@ -15,7 +15,7 @@ class LoadCombo():
         
         self.name = name             # A unique user-defined name for the load combination
         self.combo_tags = combo_tags   # Used to categorize the load combination (e.g. strength or serviceability)
-        self.factors = factors       # A dictionary containing each load case name and associated load factor
+        self.factors = dict(factors)       # A dictionary containing each load case name and associated load factor
     
     def AddLoadCase(self, case_name, factor):
         '''
-- 
2.43.0


From 6d4c69ac4480a2ebaba3fcfe43e025641e3f46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 19/49] fix: check statics of the tagged load combinations when
 others have no tags

---
 PyNite/Analysis.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index e250df8..c5603cd 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -854,13 +854,7 @@ def _check_statics(model, combo_tags=None):
     statics_table.field_names = ['Load Combination', 'Sum FX', 'Sum RX', 'Sum FY', 'Sum RY', 'Sum FZ', 'Sum RZ', 'Sum MX', 'Sum RMX', 'Sum MY', 'Sum RMY', 'Sum MZ', 'Sum RMZ']
 
     # Identify which load combinations to evaluate
-    if combo_tags is None:
-        combo_list = model.load_combos.values()
-    else:
-        combo_list = []
-        for combo in model.load_combos.values():
-            if any(tag in combo.combo_tags for tag in combo_tags):
-                combo_list.append(combo)
+    combo_list = _identify_combos(model, combo_tags)
 
     # Step through each load combination
     for combo in combo_list:
-- 
2.43.0


From 6ed6f11696af049af73498ecab627d67984f8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 20/49] fix: keep the slope of trapezoidal loads that pass a
 member's internal nodes

---
 PyNite/PhysMember.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 04010e1..2659f21 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -112,7 +112,7 @@ class PhysMember(Member3D):
                     case = dist_load[5]
 
                     # Equation describing the load as a function of x
-                    w = lambda x: (w2 - w1)/(x2_load - x1_load)*(x - x1_load) + w1
+                    w = lambda x: (dist_load[2] - dist_load[1])/(x2_load - x1_load)*(x - x1_load) + dist_load[1]
 
                     # Chop up the distributed load for the sub-member
                     if x1_load > xi:
-- 
2.43.0


From a7bed936a5a8da7584fbb0536d60469e78732848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 21/49] fix: include P-little-delta effects in the maximum
 moment after a P-Delta analysis

---
 PyNite/BeamSegY.py | 8 ++++----
 PyNite/Member3D.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index a252f45..8f2e4c4 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -145,10 +145,10 @@ class BeamSegY(BeamSegZ):
             x2 = 0
     
         # Find the moment at each location of interest
-        M1 = self.moment(x1)
-        M2 = self.moment(x2)
-        M3 = self.moment(x3)
-        M4 = self.moment(x4)
+        M1 = self.moment(x1, P_delta)
+        M2 = self.moment(x2, P_delta)
+        M3 = self.moment(x3, P_delta)
+        M4 = self.moment(x4, P_delta)
     
         # Return the maximum moment
         return max(M1, M2, M3, M4)
diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 625fa42..4e4055c 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1023,9 +1023,9 @@ class Member3D():
 
                 for segment in self.SegmentsZ:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
                         
             if Direction == 'My':
                 
@@ -1033,9 +1033,9 @@ class Member3D():
 
                 for segment in self.SegmentsY:
                     
-                    if segment.max_moment() > Mmax:
+                    if segment.max_moment(P_delta) > Mmax:
                         
-                        Mmax = segment.max_moment()
+                        Mmax = segment.max_moment(P_delta)
             
             return Mmax
         
-- 
2.43.0


From 923bab1d4ee11ce8cdee22f3c5fa3a55602ce343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 22/49] fix: return arrays of results for members with internal
 nodes from their sub-members

---
 PyNite/Member3D.py   |  12 +++++
 PyNite/PhysMember.py | 102 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 111 insertions(+), 3 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 4e4055c..80ce778 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1821,6 +1821,18 @@ class Member3D():
 
             return 0
 
+    def _chord(self, Direction, x, combo_name='Combo 1'):
+        """
+        Returns the deflection at `x` of the straight line between the member's displaced ends.
+        """
+
+        # The index of the i-node's displacement in the given direction
+        i = {'dy': 1, 'dz': 2}[Direction]
+
+        d = self.d(combo_name)
+
+        return d[i, 0] + (d[i + 6, 0] - d[i, 0])/self.L()*x
+
     def plot_rel_deflection(self, Direction, combo_name='Combo 1', n_points=20):
         """
         Plots the deflection diagram for the member
diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 2659f21..7bdc0a4 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -1,4 +1,4 @@
-from numpy import array, dot, cross
+from numpy import array, dot, cross, hstack, linspace, vstack, zeros
 from numpy.linalg import norm
 from math import isclose, acos
 
@@ -419,8 +419,104 @@ class PhysMember(Member3D):
             The name of the load combination to get the results for (not the combination itself).
         """
         
-        member, x_mod = self.find_member(x)
-        return member.rel_deflection(Direction, x_mod, combo_name)
+        # Only calculate results if the member is currently active
+        if self.active[combo_name]:
+
+            # The sub-member's deflections are relative to its own chord. Convert them to be relative
+            # to the chord of the physical member.
+            member, x_mod = self.find_member(x)
+            return member.rel_deflection(Direction, x_mod, combo_name) + member._chord(Direction, x_mod, combo_name) - self._chord(Direction, x, combo_name)
+
+        else:
+
+            return 0
+
+    def shear_array(self, Direction, n_points: int, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the shear in the member for the given direction. See `Member3D.shear_array`.
+        """
+
+        return self._array_results(lambda member, x: member.shear_array(Direction, n_points, combo_name, x), n_points, combo_name, x_array)
+
+    def moment_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the moment in the member for the given direction. See `Member3D.moment_array`.
+        """
+
+        return self._array_results(lambda member, x: member.moment_array(Direction, n_points, combo_name, x), n_points, combo_name, x_array)
+
+    def torque_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the torque in the member. See `Member3D.torque_array`.
+        """
+
+        return self._array_results(lambda member, x: member.torque_array(n_points, combo_name, x), n_points, combo_name, x_array)
+
+    def axial_array(self, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the axial force in the member. See `Member3D.axial_array`.
+        """
+
+        return self._array_results(lambda member, x: member.axial_array(n_points, combo_name, x), n_points, combo_name, x_array)
+
+    def deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the deflection in the member for the given direction. See `Member3D.deflection_array`.
+        """
+
+        return self._array_results(lambda member, x: member.deflection_array(Direction, n_points, combo_name, x), n_points, combo_name, x_array)
+
+    def rel_deflection_array(self, Direction, n_points, combo_name='Combo 1', x_array=None):
+        """
+        Returns the array of the relative deflection in the member for the given direction. See `Member3D.rel_deflection_array`.
+        """
+
+        results = self._array_results(lambda member, x: vstack((x, member.rel_deflection_array(Direction, n_points, combo_name, x)[1] + member._chord(Direction, x, combo_name))), n_points, combo_name, x_array)
+
+        # The deflections are relative to the chord of the physical member
+        if self.active[combo_name]:
+            results[1] -= self._chord(Direction, results[0], combo_name)
+
+        return results
+
+    def _array_results(self, sub_results, n_points, combo_name, x_array=None):
+        """
+        Assembles an array of results along the physical member from the results in its sub-members.
+
+        Parameters
+        ----------
+        sub_results : function
+            A function returning the array of results for a sub-member, at an array of locations on
+            that sub-member.
+        n_points : int
+            The number of points in the array if no locations have been provided.
+        combo_name : string
+            The name of the load combination to get the results for (not the load combination itself).
+        x_array : array, optional
+            The locations on the physical member to get the results at, in ascending order.
+        """
+
+        L = self.L()
+        if x_array is None:
+            x_array = linspace(0, L, n_points)
+        else:
+            if any(x_array<0) or any(x_array>L):
+                raise ValueError(f"All x values must be in the range 0 to {L}")
+
+        # There are no results in an inactive member
+        if not self.active[combo_name]:
+            return vstack((x_array, zeros(len(x_array))))
+
+        # Find the sub-member each location lies on, and the location on that sub-member
+        locations = [self.find_member(x) for x in x_array]
+
+        # Get the results for each sub-member
+        results = []
+        for member in self.sub_members.values():
+            x_mod = [min(x, member.L()) for sub_member, x in locations if sub_member is member]
+            if x_mod: results.append(sub_results(member, array(x_mod))[1])
+
+        return vstack((x_array, hstack(results)))
 
     def find_member(self, x):
         """
-- 
2.43.0


From 8e06b7419d1accf530899ce640e7473248419021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 23/49] fix: report a singular stiffness matrix instead of
 storing displacements that are not finite

---
 PyNite/Analysis.py  | 4 +++-
 PyNite/FEModel3D.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index c5603cd..aebb465 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -1,6 +1,6 @@
 from math import isclose
 from PyNite.LoadCombo import LoadCombo
-from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax
+from numpy import array, atleast_2d, zeros, subtract, matmul, divide, seterr, nanmax, isfinite
 from numpy.linalg import solve
 
 def _prepare_model(model):
@@ -235,6 +235,8 @@ def _PDelta_step(model, combo_name, P1, FER1, D1_indices, D2_indices, D2, log=Tr
                     # The partitioned stiffness matrix is in `csr` format. It will be
                     # converted to a 2D dense array for mathematical operations.
                     Delta_D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                # The sparse solver does not raise an exception when `K` is singular
+                if not isfinite(Delta_D1).all(): raise ValueError('The displacements are not finite.')
 
             except:
                 # Return out of the method if 'K' is singular and provide an error message
diff --git a/PyNite/FEModel3D.py b/PyNite/FEModel3D.py
index 7a2b377..2a063b2 100644
--- a/PyNite/FEModel3D.py
+++ b/PyNite/FEModel3D.py
@@ -3,7 +3,7 @@ from os import rename
 import warnings
 from math import isclose
 
-from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all
+from numpy import array, zeros, matmul, divide, subtract, atleast_2d, all, isfinite
 from numpy.linalg import solve
 
 from PyNite.Node3D import Node3D
@@ -2013,6 +2013,8 @@ class FEModel3D():
                             D1 = D1.reshape(len(D1), 1)
                         else:
                             D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                        # The sparse solver does not raise an exception when `K` is singular
+                        if not isfinite(D1).all(): raise ValueError('The displacements are not finite.')
                     except:
                         # Return out of the method if 'K' is singular and provide an error message
                         raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
@@ -2117,6 +2119,8 @@ class FEModel3D():
                         D1 = D1.reshape(len(D1), 1)
                     else:
                         D1 = solve(K11, subtract(subtract(P1, FER1), matmul(K12, D2)))
+                    # The sparse solver does not raise an exception when `K` is singular
+                    if not isfinite(D1).all(): raise ValueError('The displacements are not finite.')
                 except:
                     # Return out of the method if 'K' is singular and provide an error message
                     raise Exception('The stiffness matrix is singular, which implies rigid body motion. The structure is unstable. Aborting analysis.')
-- 
2.43.0


From 3755e1077332919ada96a4d5bd0ef1fd50acafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 24/49] fix: include the loads on inactive members in the
 reactions

---
 PyNite/Analysis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index aebb465..0e31f9e 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -652,11 +652,13 @@ def _calc_reactions(model, log=False, combo_tags=None):
                     # Sum the sub-member end forces at the node
                     for member in phys_member.sub_members.values():
                         
-                        if member.i_node == node and phys_member.active[combo.name] == True:
+                        if member.i_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # Inactive members have no stiffness, but the loads on them are still carried by their nodes
+                            if phys_member.active[combo.name] == True: member_F = member.F(combo.name)
+                            else: member_F = member.FER(combo.name)
 
                             if node.support_DX: node.RxnFX[combo.name] += member_F[0, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[1, 0]
@@ -665,11 +667,13 @@ def _calc_reactions(model, log=False, combo_tags=None):
                             if node.support_RY: node.RxnMY[combo.name] += member_F[4, 0]
                             if node.support_RZ: node.RxnMZ[combo.name] += member_F[5, 0]
 
-                        elif member.j_node == node and phys_member.active[combo.name] == True:
+                        elif member.j_node == node:
                         
                             # Get the member's global force matrix
                             # Storing it as a local variable eliminates the need to rebuild it every time a term is needed                    
-                            member_F = member.F(combo.name)
+                            # Inactive members have no stiffness, but the loads on them are still carried by their nodes
+                            if phys_member.active[combo.name] == True: member_F = member.F(combo.name)
+                            else: member_F = member.FER(combo.name)
                         
                             if node.support_DX: node.RxnFX[combo.name] += member_F[6, 0]
                             if node.support_DY: node.RxnFY[combo.name] += member_F[7, 0]
-- 
2.43.0


From 349182d3f9e27393ef609f80a024b5bcc5ca345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 25/49] fix: report no force in inactive springs whatever their
 direction

---
 PyNite/Spring3D.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/PyNite/Spring3D.py b/PyNite/Spring3D.py
index 482f97d..86bb044 100644
--- a/PyNite/Spring3D.py
+++ b/PyNite/Spring3D.py
@@ -208,22 +208,20 @@ class Spring3D():
         D = zeros((12, 1))
         
         # Read in the global displacements from the nodes
-        # Apply axial displacements only if the spring is active
+        # Apply displacements only if the spring is active. There is no force in an inactive spring.
         if self.active[combo_name] == True:
             D[0, 0] = self.i_node.DX[combo_name]
+            D[1, 0] = self.i_node.DY[combo_name]
+            D[2, 0] = self.i_node.DZ[combo_name]
+            D[3, 0] = self.i_node.RX[combo_name]
+            D[4, 0] = self.i_node.RY[combo_name]
+            D[5, 0] = self.i_node.RZ[combo_name]
             D[6, 0] = self.j_node.DX[combo_name]
-
-        # Apply the remaining displacements
-        D[1, 0] = self.i_node.DY[combo_name]
-        D[2, 0] = self.i_node.DZ[combo_name]
-        D[3, 0] = self.i_node.RX[combo_name]
-        D[4, 0] = self.i_node.RY[combo_name]
-        D[5, 0] = self.i_node.RZ[combo_name]
-        D[7, 0] = self.j_node.DY[combo_name]
-        D[8, 0] = self.j_node.DZ[combo_name]
-        D[9, 0] = self.j_node.RX[combo_name]
-        D[10, 0] = self.j_node.RY[combo_name]
-        D[11, 0] = self.j_node.RZ[combo_name]      
+            D[7, 0] = self.j_node.DY[combo_name]
+            D[8, 0] = self.j_node.DZ[combo_name]
+            D[9, 0] = self.j_node.RX[combo_name]
+            D[10, 0] = self.j_node.RY[combo_name]
+            D[11, 0] = self.j_node.RZ[combo_name]
 
         # Return the global displacement vector
         return D
-- 
2.43.0


From dfd93f9f7d852d9a54529914b9c9b6a4d98e68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 26/49] fix: include the results of the solved load
 combinations in reports

---
 PyNite/Report_Template.html | 172 ++++++++++++++++++------------------
 PyNite/Reporting.py         |   4 +
 2 files changed, 90 insertions(+), 86 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 402b681..133fa75 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -393,29 +393,29 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, 0, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -423,29 +423,29 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, -1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(1, 1, combo)[2][0]) }}</td>
-
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(-1, 1, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, -1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(1, 1, True, combo)[2][0]) }}</td>
+
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -477,11 +477,11 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -489,11 +489,11 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.shear(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.moment(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.shear(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.moment(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -543,21 +543,21 @@
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -566,21 +566,21 @@
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, -1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, -1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(1, 1, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[1]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, combo)[2]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(-1, 1, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
             {% endfor %}
@@ -608,9 +608,9 @@
                 <tr>
                     <td>{{ plate.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width()/2, plate.height()/2, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -618,9 +618,9 @@
                 <tr>
                     <td>{{ quad.name }}</td>
                     <td>{{ combo }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(quad.membrane(0, 0, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(quad.membrane(0, 0, True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
diff --git a/PyNite/Reporting.py b/PyNite/Reporting.py
index 15b12a8..b5d00db 100644
--- a/PyNite/Reporting.py
+++ b/PyNite/Reporting.py
@@ -58,6 +58,10 @@ def create_report(model, output_filepath=path/'./Pynite Report.pdf', **kwargs):
     kwargs['plates'] = model.plates.values()
     kwargs['quads'] = model.quads.values()
 
+    # Results can only be reported for load combinations that have been solved
+    if model.solution is None: kwargs['load_combos'] = []
+    else: kwargs['load_combos'] = [name for name in model.load_combos if name in model._D]
+
     # Create the report HTML using jinja2
     HTML = template.render(**kwargs)
 
-- 
2.43.0


From 3d536e6fafdc4e45967e34f1441502c950f46964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 27/49] fix: P-Delta analysis of models with quads (local
 coordinates were not available yet)

---
 PyNite/Analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 0e31f9e..5b0d542 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -54,6 +54,10 @@ def _prepare_model(model):
     for phys_member in model.members.values():
         for combo_name in model.load_combos.keys():
             phys_member.active[combo_name] = True
+
+    # Bring the local coordinates of all quads up to date (their fixed end reactions depend on them)
+    for quad in model.quads.values():
+        quad._local_coords()
     
     # Assign an internal ID to all nodes and elements in the model. This number is different from the name used by the user to identify nodes and elements.
     _renumber(model)
-- 
2.43.0


From 48c381c2fe3358a3abecf2125822e8279b7c9dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 28/49] fix: P-Delta deflection queries never returned where
 the deflection is exactly zero

---
 PyNite/BeamSegY.py | 4 ++--
 PyNite/BeamSegZ.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index 8f2e4c4..e0a7d61 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -94,8 +94,8 @@ class BeamSegY(BeamSegZ):
                 if delta_last != 0:
                     d_delta = abs(delta_x/delta_last - 1)
                 else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
+                    # Members with no relative deflection after at least one iteration need no further iterations, and neither do locations where the deflection stays at zero
+                    if delta_1 - delta_x == 0 or delta_x == 0:
                         break
             
             # Return the calculated deflection
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index dda5869..86efc1c 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -213,8 +213,8 @@ class BeamSegZ():
                 if delta_last != 0:
                     d_delta = abs(delta_x/delta_last - 1)
                 else:
-                    # Members with no relative deflection after at least one iteration need no further iterations
-                    if delta_1 - delta_x == 0:
+                    # Members with no relative deflection after at least one iteration need no further iterations, and neither do locations where the deflection stays at zero
+                    if delta_1 - delta_x == 0 or delta_x == 0:
                         break
             
             # Return the calculated deflection
-- 
2.43.0


From e3ce504a63fac68cf6bb460b87b2fec015ae9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 29/49] fix: array results at the very start of a sub-member

---
 PyNite/PhysMember.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 7bdc0a4..6eeca72 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -513,7 +513,7 @@ class PhysMember(Member3D):
         # Get the results for each sub-member
         results = []
         for member in self.sub_members.values():
-            x_mod = [min(x, member.L()) for sub_member, x in locations if sub_member is member]
+            x_mod = [min(max(x, 0), member.L()) for sub_member, x in locations if sub_member is member]
             if x_mod: results.append(sub_results(member, array(x_mod))[1])
 
         return vstack((x_array, hstack(results)))
-- 
2.43.0


From 64c23fa5b68cbb9abb90099456aacd101635e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 30/49] fix: leave nothing of a mesh behind when its generation
 fails or is interrupted during an analysis

---
 PyNite/Analysis.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyNite/Analysis.py b/PyNite/Analysis.py
index 5b0d542..7bcc5c1 100644
--- a/PyNite/Analysis.py
+++ b/PyNite/Analysis.py
@@ -37,7 +37,15 @@ def _prepare_model(model):
     # Generate all meshes
     for mesh in model.meshes.values():
         if mesh.is_generated() == False:
-            mesh.generate()
+            # Leave nothing of the mesh behind if it can't be generated completely
+            nodes, plates, quads = dict(model.nodes), dict(model.plates), dict(model.quads)
+            mesh_nodes, mesh_elements = dict(mesh.nodes), dict(mesh.elements)
+            try:
+                mesh.generate()
+            except BaseException:
+                model.nodes, model.plates, model.quads = nodes, plates, quads
+                mesh.nodes, mesh.elements, mesh._is_generated = mesh_nodes, mesh_elements, False
+                raise
 
     # Activate all spring supports for all load combinations
     for node in model.nodes.values():
-- 
2.43.0


From b22e34355b486071049def497bac1697243bcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 31/49] fix: P-Delta analysis of members with axial end
 releases

---
 PyNite/Member3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 80ce778..7482832 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -208,10 +208,12 @@ class Member3D():
                
         # Calculate the condensed local geometric stiffness matrix
         # Note that a matrix of zeros cannot be inverted, so if P is 0 an error will occur
+        # Note also that axial terms are zeros, so `kg22` cannot be inverted if an end is released axially. Nothing is
+        # condensed out for those terms, and that is what the pseudo-inverse does.
         if isclose(P, 0.0):
             kg_Condensed = zeros(kg11.shape)
         else:
-            kg_Condensed = subtract(kg11, matmul(matmul(kg12, inv(kg22)), kg21))
+            kg_Condensed = subtract(kg11, matmul(matmul(kg12, pinv(kg22)), kg21))
         
         # Expand the condensed local geometric stiffness matrix
         i=0
-- 
2.43.0


From 0441a7ebe50614c57e3db8c53232733031e8a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 32/49] fix: P-Delta deflection queries could iterate forever

---
 PyNite/BeamSegY.py | 27 +++------------------------
 PyNite/BeamSegZ.py | 28 +++-------------------------
 2 files changed, 6 insertions(+), 49 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index e0a7d61..fc4eb09 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -71,35 +71,14 @@ class BeamSegY(BeamSegZ):
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
     
-        # Iteration is required to calculate P-little-delta effects
+        # The P-little-delta moment depends on the deflection at `x` itself. The deflection is the solution of a linear equation
         if P_delta == True:
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                delta_x = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1 + P1*delta_x)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
-
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations, and neither do locations where the deflection stays at zero
-                    if delta_1 - delta_x == 0 or delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            delta_0 = delta_1 - theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) - x**2*(-M1 - P1*delta_1)/(2*EI) - x**5*(w1 - w2)/(120*EI*L)
+            return delta_0/(1 + P1*x**2/(2*EI))
         
         # Non-P-delta solutions are not iterative
         else:
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 86efc1c..3a198fc 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -189,36 +189,14 @@ class BeamSegZ():
         w2 = self.w2
         theta_1 = self.theta1
         delta_1 = self.delta1
-        d_delta = 1
         L = self.Length()
         EI = self.EI
         
-        # Iteration is required to calculate P-little-delta effects
+        # The P-little-delta moment depends on the deflection at `x` itself. The deflection is the solution of a linear equation
         if P_delta == True:
 
-            # Initialize the deflection at `x` to match the deflection at the start of the segment
-            delta_x = delta_1
-
-            # Iterate until we reach a deflection convergence of 1%
-            while d_delta > 0.01: 
-                
-                # Save the deflection value from the last iteration
-                delta_last = delta_x
-
-                # Compute the deflection
-                # delta_x = delta1 + theta1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                delta_x = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1 - P1*delta_x)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
-                
-                # Check the change in deflection between iterations
-                if delta_last != 0:
-                    d_delta = abs(delta_x/delta_last - 1)
-                else:
-                    # Members with no relative deflection after at least one iteration need no further iterations, and neither do locations where the deflection stays at zero
-                    if delta_1 - delta_x == 0 or delta_x == 0:
-                        break
-            
-            # Return the calculated deflection
-            return delta_x
+            delta_0 = delta_1 + theta_1*x + V1*x**3/(6*EI) + w1*x**4/(24*EI) + x**2*(-M1 + P1*delta_1)/(2*EI) + x**5*(-w1 + w2)/(120*EI*L)
+            return delta_0/(1 + P1*x**2/(2*EI))
         
         # Non-P-delta solutions are not iterative
         else:
-- 
2.43.0


From 9bf952782fec55a1405a16433b6645501debf32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 33/49] fix: meshes kept a reference to the caller's origin
 list (and to the shared default)

---
 PyNite/Mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 2e1ba63..1a6d747 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -437,7 +437,7 @@ class RectangleMesh(Mesh):
         self.mesh_size = mesh_size
         self.width = width
         self.height = height
-        self.origin = origin
+        self.origin = list(origin)
         self.plane = plane
 
         if x_control is None: self.x_control = []
@@ -803,7 +803,7 @@ class AnnulusMesh(Mesh):
         self.inner_radius = inner_radius
         self.outer_radius = outer_radius
         self.mesh_size = mesh_size
-        self.origin = origin
+        self.origin = list(origin)
         self.axis = axis
 
         self.num_quads_inner = None
@@ -1256,7 +1256,7 @@ class CylinderMesh(Mesh):
         self.radius = radius
         self.h = height
         self.mesh_size = mesh_size
-        self.origin = origin
+        self.origin = list(origin)
         self.axis = axis
 
         # Check if the user has requested a specific number of elements for each course of plates. This can be useful for ensuring the mesh matches up with other meshes.
-- 
2.43.0


From 1bac73f15bbe846f6f5e36963dddb23d3207fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 34/49] fix: reports showed plate results of the j-node under
 the n-node and the other way round

---
 PyNite/Report_Template.html | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/PyNite/Report_Template.html b/PyNite/Report_Template.html
index 133fa75..aaf5777 100644
--- a/PyNite/Report_Template.html
+++ b/PyNite/Report_Template.html
@@ -399,11 +399,11 @@
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.shear(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
@@ -411,11 +411,11 @@
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.moment(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.shear(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.moment(plate.width(), 0, True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.shear(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.moment(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
@@ -547,17 +547,17 @@
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(0, 0, True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
 
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[0][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[1][0]) }}</td>
                     <td>{{ "%.3g" | format(plate.membrane(plate.width(), plate.height(), True, combo)[2][0]) }}</td>
 
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[0][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[1][0]) }}</td>
-                    <td>{{ "%.3g" | format(plate.membrane(plate.width(), 0, True, combo)[2][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[0][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[1][0]) }}</td>
+                    <td>{{ "%.3g" | format(plate.membrane(0, plate.height(), True, combo)[2][0]) }}</td>
                 </tr>
                 {% endfor %}
 
-- 
2.43.0


From 984d5e0ecc98266b10d2f2b65e3957b6046390bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 35/49] fix: extreme moments were lost when a sum of
 distributed loads is nearly uniform

---
 PyNite/BeamSegY.py | 16 ++++++++++++----
 PyNite/BeamSegZ.py | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/PyNite/BeamSegY.py b/PyNite/BeamSegY.py
index fc4eb09..2335eaf 100644
--- a/PyNite/BeamSegY.py
+++ b/PyNite/BeamSegY.py
@@ -111,8 +111,12 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny if the load is nearly uniform
+            if b < 0: q = (-b+(b**2-4*a*c)**0.5)/2
+            else: q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            if q != 0: x2 = c/q
+            else: x2 = x1
     
         x3 = 0
         x4 = L
@@ -157,8 +161,12 @@ class BeamSegY(BeamSegZ):
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny if the load is nearly uniform
+            if b < 0: q = (-b+(b**2-4*a*c)**0.5)/2
+            else: q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            if q != 0: x2 = c/q
+            else: x2 = x1
     
         x3 = 0
         x4 = L
diff --git a/PyNite/BeamSegZ.py b/PyNite/BeamSegZ.py
index 3a198fc..ba0bbb7 100644
--- a/PyNite/BeamSegZ.py
+++ b/PyNite/BeamSegZ.py
@@ -294,8 +294,12 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny if the load is nearly uniform
+            if b < 0: q = (-b+(b**2-4*a*c)**0.5)/2
+            else: q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            if q != 0: x2 = c/q
+            else: x2 = x1
     
         x3 = 0
         x4 = L
@@ -339,8 +343,12 @@ class BeamSegZ():
             x1 = 0
             x2 = 0
         else:
-            x1 = (-b+(b**2-4*a*c)**0.5)/(2*a)
-            x2 = (-b-(b**2-4*a*c)**0.5)/(2*a)
+            # Avoid subtracting nearly equal numbers: `a` is tiny if the load is nearly uniform
+            if b < 0: q = (-b+(b**2-4*a*c)**0.5)/2
+            else: q = (-b-(b**2-4*a*c)**0.5)/2
+            x1 = q/a
+            if q != 0: x2 = c/q
+            else: x2 = x1
     
         x3 = 0
         x4 = L
-- 
2.43.0


From 37b247bc461260521ba826ceb1f4e206c2b2e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 36/49] fix: deflections of members with released translations
 started from the node instead of the member's own end

---
 PyNite/Member3D.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 7482832..91862e8 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1983,6 +1983,12 @@ class Member3D():
         f = self.f(combo_name)           # Member local end force vector
         fer = self._fer_unc(combo_name)  # Member local fixed end reaction vector
         d = self.d(combo_name)           # Member local displacement vector
+
+        # The ends of a member do not follow its nodes in the directions of released translations
+        if any(self.Releases[i] for i in (0, 1, 2, 6, 7, 8)):
+            R1_indices, R2_indices = self._partition_D()
+            k11, k12, k21, k22 = self._partition(self._k_unc())
+            d[R2_indices] = -inv(k22) @ (k21 @ d[R1_indices] + fer[R2_indices])
         
         # Get the local deflections and calculate the slope at the start of the member
         # Note 1: The slope may not be available directly from the local displacement vector if member end releases have been used, so slope-deflection has been applied to solve for it.
-- 
2.43.0


From d480fd6f8e21002027e50020a5e4039f994a0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 37/49] fix: loads ending within round-off of a member's end
 left a tiny last segment, which spoiled the P-Delta results there

---
 PyNite/Member3D.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 91862e8..a907c66 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1942,8 +1942,9 @@ class Member3D():
             disconts.append(load[3]) # Distributed load start locations
             disconts.append(load[4]) # Distributed load end locations
         
-        # Sort the list and eliminate duplicate values
-        disconts = sorted(set(disconts))
+        # Sort the list and eliminate duplicate values, including those that differ by round-off only
+        disconts = list({round(x, 10): x for x in sorted(disconts)}.values())
+        if round(disconts[-1], 10) == round(L, 10): disconts[-1] = L
         
         # The segments stop representing the last solved load combination once we start to rebuild them
         self._solved_combo = None
-- 
2.43.0


From 2098db19a54a99cab993170fb56c1b30b72059fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 38/49] fix: local axes of vertical and horizontal members
 flipped when round-off in a node's coordinates tilted them or a part of them

---
 PyNite/Member3D.py   | 18 ++++++++++++++----
 PyNite/PhysMember.py |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index a907c66..99a4879 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -49,6 +49,9 @@ class Member3D():
             self.Iz = model.sections[section_name].Iz
             self.J = model.sections[section_name].J
         
+        # Direction of the local y-axis for members that take their orientation from a physical member
+        self._y_axis = None
+
         # Variables used to track nonlinear material member end forces
         self._fxi = 0
         self._myi = 0
@@ -507,8 +510,15 @@ class Member3D():
         # Calculate the direction cosines for the local x-axis
         x = [(x2-x1)/L, (y2-y1)/L, (z2-z1)/L]
         
+        # Sub-members have the orientation of their physical member, no matter how closely their nodes follow its axis
+        if self._y_axis is not None:
+
+            z = cross(x, self._y_axis)
+            z = divide(z, (z[0]**2 + z[1]**2 + z[2]**2)**0.5)
+            y = cross(z, x)
+
         # Calculate the direction cosines for the local z-axis based on the auxiliary node
-        if self.auxNode != None:
+        elif self.auxNode != None:
             
             xa = self.auxNode.X
             ya = self.auxNode.Y
@@ -532,8 +542,8 @@ class Member3D():
         else:
             
             # Calculate the remaining direction cosines. The local z-axis will be kept parallel to the global XZ plane in all cases
-            # Vertical members
-            if isclose(x1, x2) and isclose(z1, z2):
+            # Vertical members (nodes that are not perfectly aligned due to round-off are considered to be aligned)
+            if isclose(x1, x2, abs_tol=1e-9*L) and isclose(z1, z2, abs_tol=1e-9*L):
                 
                 # For vertical members, keep the local y-axis in the XY plane to make 2D problems easier to solve in the XY plane
                 if y2 > y1:
@@ -544,7 +554,7 @@ class Member3D():
                     z = [0, 0, 1]
 
             # Horizontal members
-            elif isclose(y1, y2):
+            elif isclose(y1, y2, abs_tol=1e-9*L):
             
                 # Find a vector in the direction of the local z-axis by taking the cross-product
                 # of the local x-axis and the local y-axis. This vector will be perpendicular to
diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 6eeca72..8ef031d 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -85,6 +85,9 @@ class PhysMember(Member3D):
             else: section_name = self.section.name
             new_sub_member = Member3D(name, i_node, j_node, self.material_name, self.model, self.Iy, self.Iz, self.J, self.A, self.auxNode, self.tension_only, self.comp_only, section_name)
             
+            # The sub-member has the same orientation as the physical member
+            new_sub_member._y_axis = self.T()[1, 0:3]
+
             # Flag the sub-member as active
             for combo_name in self.model.load_combos.keys():
                 new_sub_member.active[combo_name] = True
-- 
2.43.0


From 81115a52a273d2cf44af0cec4fda481c7cfcbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 39/49] fix: results at the end of a long member were NaN when
 its length as a plain and as a numpy number round differently

---
 PyNite/Member3D.py   | 4 ++--
 PyNite/PhysMember.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyNite/Member3D.py b/PyNite/Member3D.py
index 99a4879..0a50545 100644
--- a/PyNite/Member3D.py
+++ b/PyNite/Member3D.py
@@ -1953,8 +1953,8 @@ class Member3D():
             disconts.append(load[4]) # Distributed load end locations
         
         # Sort the list and eliminate duplicate values, including those that differ by round-off only
-        disconts = list({round(x, 10): x for x in sorted(disconts)}.values())
-        if round(disconts[-1], 10) == round(L, 10): disconts[-1] = L
+        disconts = list({round(float(x), 10): float(x) for x in sorted(disconts)}.values())
+        if round(disconts[-1], 10) == round(float(L), 10): disconts[-1] = float(L)
         
         # The segments stop representing the last solved load combination once we start to rebuild them
         self._solved_combo = None
diff --git a/PyNite/PhysMember.py b/PyNite/PhysMember.py
index 8ef031d..9a22b2b 100644
--- a/PyNite/PhysMember.py
+++ b/PyNite/PhysMember.py
@@ -131,7 +131,7 @@ class PhysMember(Member3D):
                         w2 = w(xj)
 
                     # Add the load to the sub-member
-                    new_sub_member.DistLoads.append([direction, w1, w2, x1, x2, case])
+                    new_sub_member.DistLoads.append([direction, w1, w2, float(x1), float(x2), case])
 
             # Add point loads to the sub-member
             for pt_load in self.PtLoads:
@@ -144,7 +144,7 @@ class PhysMember(Member3D):
                 # Determine if the point load should be applied to this segment
                 if x >= xi and x < xj or (isclose(x, xj) and isclose(xj, self.L())):
 
-                    x = x - xi
+                    x = float(x - xi)
                     
                     # Add the load to the sub-member
                     new_sub_member.PtLoads.append([direction, P, x, case])
-- 
2.43.0


From b78ef0a8105168a8cde53bc1b7c54d1871dfb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 40/49] fix: cylinder meshes ignored their origin off the axis,
 took their height for the elevation of the top, and lost a course to
 round-off

---
 PyNite/Mesh.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/PyNite/Mesh.py b/PyNite/Mesh.py
index 1a6d747..7cf8ffb 100644
--- a/PyNite/Mesh.py
+++ b/PyNite/Mesh.py
@@ -1307,19 +1307,20 @@ class CylinderMesh(Mesh):
             num_elements = int(2*pi/mesh_size)
 
         # Mesh the cylinder from the bottom toward the top
-        while round(y, 10) < round(h, 10):
+        top = y + h
+        while round(y, 10) < round(top, 10):
 
-            height = h - y  #Remaining height to be meshed
+            height = top - y  #Remaining height to be meshed
             # Number of times the plate height fits in the remaining unmeshed height, resulting at least one element
-            n_vert = max(int(abs(height)/mesh_size),1)
+            n_vert = max(int(round(abs(height)/mesh_size, 10)), 1)
             h_y = height/n_vert             # Element height in the vertical direction
             # Create a mesh of nodes for the ring
             if self.axis == 'Y':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, y, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], y, self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'X':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, 0, 0], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [y, self.origin[1], self.origin[2]], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
             elif self.axis == 'Z':
-                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [0, 0, y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
+                ring = CylinderRingMesh(radius, h_y, num_elements, thickness, material_name, self.model, 1, 1, [self.origin[0], self.origin[1], y], self.axis, 'N' + str(n), 'Q' + str(q), element_type)
 
             n += num_elements
             q += num_elements
-- 
2.43.0


From f9732b83f188b1797bdf2076144d4f7fb99d8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 41/49] fix: VTK contours always showed 'Combo 1', and
 displacement contours of quads had their corners mixed up

---
 PyNite/Visualization.py | 71 +++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 7b813cb..ff949ad 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1453,56 +1453,51 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
       
             # Determine which stress result has been requested by the user
             if stress_type == 'dz':
-                # Internally PyNite defines the nodes for a rectangular element in the order (i, j, m, n),
-                # while it defines the nodes for a quadrilateral element in the order (m, n, i, j)
-                if element.type == 'Rect':
-                    i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], :]
-                else:
-                    i, j, m, n = element.d(combo_name)[[14, 20, 2, 8], :]
+                i, j, m, n = element.d(combo_name)[[2, 8, 14, 20], 0]
                 element.i_node.contour.append(i)
                 element.j_node.contour.append(j)
                 element.m_node.contour.append(m)
                 element.n_node.contour.append(n)
             elif stress_type == 'Mx':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'My':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Mxy':
-                element.i_node.contour.append(element.moment(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.moment(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.moment(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.moment(r_left, s_top, combo_name)[2])
+                element.i_node.contour.append(element.moment(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.moment(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.moment(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.moment(r_left, s_top, True, combo_name)[2])
             elif stress_type == 'Qx':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Qy':
-                element.i_node.contour.append(element.shear(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.shear(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.shear(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.shear(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.shear(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.shear(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.shear(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.shear(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Sx':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[0])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[0])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[0])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[0])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[0])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[0])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[0])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[0])
             elif stress_type == 'Sy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[1])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[1])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[1])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[1])
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[1])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[1])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[1])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[1])
             elif stress_type == 'Txy':
-                element.i_node.contour.append(element.membrane(r_left, s_bot, combo_name)[2])
-                element.j_node.contour.append(element.membrane(r_right, s_bot, combo_name)[2])
-                element.m_node.contour.append(element.membrane(r_right, s_top, combo_name)[2])
-                element.n_node.contour.append(element.membrane(r_left, s_top, combo_name)[2])                 
+                element.i_node.contour.append(element.membrane(r_left, s_bot, True, combo_name)[2])
+                element.j_node.contour.append(element.membrane(r_right, s_bot, True, combo_name)[2])
+                element.m_node.contour.append(element.membrane(r_right, s_top, True, combo_name)[2])
+                element.n_node.contour.append(element.membrane(r_left, s_top, True, combo_name)[2])                 
       
         # Average the values at each node to obtain a smoothed contour
         for node in model.nodes.values():
-- 
2.43.0


From 8095c52d9c65eb325596e1df0726292d9a5ed748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 42/49] fix: updating a VTK renderer left part of the previous
 drawing in the scene

---
 PyNite/Visualization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index ff949ad..80c27ac 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -248,8 +248,7 @@ class Renderer():
         renderer = self.renderer
 
         # Clear out all the old actors from any previous renderings
-        for actor in renderer.GetActors():
-            renderer.RemoveActor(actor)
+        renderer.RemoveAllViewProps()
 
         # Add actors for each spring
         for vis_spring in vis_springs:
-- 
2.43.0


From 7d3ad39fe35d96fab403630ccd01824eae9c2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 43/49] fix: drawing a load case ignored plate pressures in
 models without members

---
 PyNite/Rendering.py     | 14 +++++++-------
 PyNite/Visualization.py | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index a769ade..ebeac18 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -959,16 +959,16 @@ class Renderer:
                         if abs(load[2]) > max_dist_load:
                             max_dist_load = abs(load[2])
                 
-                # Step through each plate
-                for plate in self.model.plates.values():
+            # Step through each plate
+            for plate in self.model.plates.values():
             
-                    # Step through each plate load
-                    for load in plate.pressures:
+                # Step through each plate load
+                for load in plate.pressures:
             
-                        if load[1] == self.case:
+                    if load[1] == self.case:
                 
-                            if abs(load[0]) > max_area_load:
-                                max_area_load = abs(load[0])
+                        if abs(load[0]) > max_area_load:
+                            max_area_load = abs(load[0])
             
             # Step through each quad
             for quad in self.model.quads.values():
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 80c27ac..9aee45f 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -2092,16 +2092,16 @@ def _MaxLoads(model, combo_name=None, case=None):
                     if abs(load[2]) > max_dist_load:
                         max_dist_load = abs(load[2])
             
-            # Step through each plate
-            for plate in model.plates.values():
+        # Step through each plate
+        for plate in model.plates.values():
           
-                # Step through each plate load
-                for load in plate.pressures:
+            # Step through each plate load
+            for load in plate.pressures:
           
-                    if load[1] == case:
+                if load[1] == case:
             
-                        if abs(load[0]) > max_area_load:
-                            max_area_load = abs(load[0])
+                    if abs(load[0]) > max_area_load:
+                        max_area_load = abs(load[0])
           
         # Step through each quad
         for quad in model.quads.values():
-- 
2.43.0


From c8a8be485ebe7b7c0296cb9b0f7a1e4ac5de3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 44/49] fix: area loads were drawn against their direction
 (pyvista: suction; VTK: negative load factors)

---
 PyNite/Rendering.py     | 8 +-------
 PyNite/Visualization.py | 4 ++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index ebeac18..cc33db2 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1122,12 +1122,6 @@ class Renderer:
             
                     # Calculate the factored value for this load
                     load_value = load[0]*load_factors[load[1]]
-                    
-                    # Find the sign for this load. Intercept any divide by zero errors
-                    if load[0] == 0:
-                        sign = 1
-                    else:
-                        sign = abs(load[0])/load[0]
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
@@ -1136,7 +1130,7 @@ class Renderer:
                     position3 = [plate.n_node.X, plate.n_node.Y, plate.n_node.Z]
             
                     # Create an area load and get its data
-                    self.plot_area_load(position0, position1, position2, position3, dir_cos*sign, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
+                    self.plot_area_load(position0, position1, position2, position3, dir_cos, load_value/max_area_load*5*self.annotation_size, str(sig_fig_round(load_value, 3)), color='green')
 
 def _PerpVector(v):
     '''
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 9aee45f..99436b0 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1740,10 +1740,10 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 load_value = load[0]*load_factors[load[1]]
                 
                 # Find the sign for this load. Intercept any divide by zero errors
-                if load[0] == 0:
+                if load_value == 0:
                     sign = 1
                 else:
-                    sign = abs(load[0])/load[0]
+                    sign = abs(load_value)/load_value
           
                 # Find the position of the load's 4 corners
                 position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
-- 
2.43.0


From 3043262d4f4e92dd69d9e4327c661f5964ae061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 45/49] fix: drawing a model with a load factored to zero
 divided by zero

---
 PyNite/Rendering.py     | 12 ++++++++++++
 PyNite/Visualization.py | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index cc33db2..728d933 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -1010,6 +1010,9 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or
                     # negative)
                     load_value = load[1]*load_factors[load[2]]
+
+                    # There is nothing to draw for loads factored to zero
+                    if load_value == 0: continue
                     if load_value != 0:
                         sign = load_value/abs(load_value)
                     else:
@@ -1045,6 +1048,9 @@ class Renderer:
             
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     load_value = load[1]*load_factors[load[3]]
+
+                    # There is nothing to draw for loads factored to zero
+                    if load_value == 0: continue
                     sign = load_value/abs(load_value)
             
                     # Calculate the load's location in 3D space
@@ -1086,6 +1092,9 @@ class Renderer:
                     # Calculate the factored value for this load and it's sign (positive or negative)
                     w1 = load[1]*load_factors[load[5]]
                     w2 = load[2]*load_factors[load[5]]
+
+                    # There is nothing to draw for loads factored to zero
+                    if w1 == 0 and w2 == 0: continue
             
                     # Calculate the loads location in 3D space
                     x1 = load[3]
@@ -1122,6 +1131,9 @@ class Renderer:
             
                     # Calculate the factored value for this load
                     load_value = load[0]*load_factors[load[1]]
+
+                    # There is nothing to draw for loads factored to zero
+                    if load_value == 0: continue
             
                     # Find the position of the load's 4 corners
                     position0 = [plate.i_node.X, plate.i_node.Y, plate.i_node.Z]
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 99436b0..a35988f 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1610,6 +1610,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
               
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[2]]
+
+                # There is nothing to draw for loads factored to zero
+                if load_value == 0: continue
                 if load_value != 0:
                     sign = load_value/abs(load_value)
                 else:
@@ -1650,6 +1653,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 load_value = load[1]*load_factors[load[3]]
+
+                # There is nothing to draw for loads factored to zero
+                if load_value == 0: continue
                 sign = load_value/abs(load_value)
           
                 # Calculate the load's location in 3D space
@@ -1695,6 +1701,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
                 # Calculate the factored value for this load and it's sign (positive or negative)
                 w1 = load[1]*load_factors[load[5]]
                 w2 = load[2]*load_factors[load[5]]
+
+                # There is nothing to draw for loads factored to zero
+                if w1 == 0 and w2 == 0: continue
           
                 # Calculate the loads location in 3D space
                 x1 = load[3]
@@ -1738,6 +1747,9 @@ def _RenderLoads(model, renderer, annotation_size, combo_name, case, theme='defa
         
                 # Calculate the factored value for this load
                 load_value = load[0]*load_factors[load[1]]
+
+                # There is nothing to draw for loads factored to zero
+                if load_value == 0: continue
                 
                 # Find the sign for this load. Intercept any divide by zero errors
                 if load_value == 0:
-- 
2.43.0


From 5cc907bd1a5667e7dc2c850d9bcfcb258da723ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 46/49] fix: pyvista drew the deformed shape of members that
 are inactive in the load combination

---
 PyNite/Rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 728d933..80b6618 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -625,8 +625,8 @@ class Renderer:
   
     def plot_deformed_member(self, member, scale_factor):
         
-        # Determine if this member is active for each load combination
-        if member.active:
+        # Determine if this member is active for the load combination
+        if member.active[self.combo_name]:
         
             L = member.L() # Member length
             T = member.T() # Member local transformation matrix
-- 
2.43.0


From e94d3e99f53b9e668daf3d9760484fd88804a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 47/49] fix: drawing a model before it had load combinations
 switched its loads off in every later drawing

---
 PyNite/Rendering.py     | 7 ++++---
 PyNite/Visualization.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index 80b6618..f807d73 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -221,8 +221,9 @@ class Renderer:
         if self.deformed_shape and self.case != None:
             raise Exception('Deformed shape is only available for load combinations,'
                             ' not load cases.')
-        if self.model.load_combos == {} and self.render_loads == True and self.case == None:
-            self.render_loads = False
+        render_loads = self.render_loads
+        if self.model.load_combos == {} and render_loads == True and self.case == None:
+            render_loads = False
             warnings.warn('Unable to render load combination. No load combinations defined.', UserWarning)
 
         # Clear out the old plot (if any)
@@ -294,7 +295,7 @@ class Renderer:
             # _DeformedShape(self.model, self.deformed_scale, self.annotation_size, self.combo_name, self.render_nodes, self.theme)
 
         # Render the loads if requested
-        if (self.combo_name != None or self.case != None) and self.render_loads != False:
+        if (self.combo_name != None or self.case != None) and render_loads != False:
 
             # Plot the loads
             self.plot_loads()
diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index a35988f..6f73201 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -212,8 +212,9 @@ class Renderer():
         if self.deformed_shape and self.case != None:
             raise Exception('Deformed shape is only available for load combinations,'
                             ' not load cases.')
-        if self.model.load_combos == {} and self.render_loads == True and self.case == None:
-            self.render_loads = False
+        render_loads = self.render_loads
+        if self.model.load_combos == {} and render_loads == True and self.case == None:
+            render_loads = False
             warnings.warn('Unable to render load combination. No load combinations defined.', UserWarning)
         
         # Check if nodes are to be rendered
@@ -340,7 +341,7 @@ class Renderer():
             _DeformedShape(self.model, renderer, self.deformed_scale, self.annotation_size, self.combo_name, self.render_nodes, self.theme)
 
         # Render the loads if requested
-        if (self.combo_name != None or self.case != None) and self.render_loads != False:
+        if (self.combo_name != None or self.case != None) and render_loads != False:
             _RenderLoads(self.model, renderer, self.annotation_size, self.combo_name, self.case, self.theme)
         
         # Render the plates and quads, if present
-- 
2.43.0


From 31e70306030c540ec10df4963be8a4f2a1d7a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 48/49] fix: show_labels had no effect on pyvista drawings

---
 PyNite/Rendering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyNite/Rendering.py b/PyNite/Rendering.py
index f807d73..7c67dad 100644
--- a/PyNite/Rendering.py
+++ b/PyNite/Rendering.py
@@ -256,7 +256,8 @@ class Renderer:
         label_points = [[node.X, node.Y, node.Z] for node in self.model.nodes.values()]
         labels = [node.name for node in self.model.nodes.values()]
         
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
+        if self.show_labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=True, point_color='grey', point_size=5, shape=None, render_points_as_spheres=True)
 
         # Check if there are springs in the model
         if self.model.springs:
@@ -266,7 +267,8 @@ class Renderer:
                 self.plot_spring(spring, self.annotation_size, 'grey')
             
             # Render the spring labels
-            self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
+            if self.show_labels == True:
+                self.plotter.add_point_labels(self._spring_label_points, self._spring_labels, text_color='black', bold=False, shape=None, render_points_as_spheres=False)
         
         # Render the members
         for member in self.model.members.values():
@@ -275,7 +277,8 @@ class Renderer:
         # Render the member labels
         label_points = [[(member.i_node.X+member.j_node.X)/2, (member.i_node.Y+member.j_node.Y)/2, (member.i_node.Z+member.j_node.Z)/2] for member in self.model.members.values()]
         labels = [member.name for member in self.model.members.values()]
-        self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
+        if self.show_labels == True:
+            self.plotter.add_point_labels(label_points, labels, bold=False, text_color='black', show_points=False, shape=None, render_points_as_spheres=False)
 
         # Render the deformed shape if requested
         if self.deformed_shape == True:
-- 
2.43.0


From 45fef2615f99d87bf231e02f47027dd4070a6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 49/49] fix: VTK refused to draw force contours

---
 PyNite/Visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyNite/Visualization.py b/PyNite/Visualization.py
index 6f73201..0bc1ced 100644
--- a/PyNite/Visualization.py
+++ b/PyNite/Visualization.py
@@ -1503,7 +1503,7 @@ def _PrepContour(model, stress_type='Mx', combo_name='Combo 1'):
         for node in model.nodes.values():
             # Prevent divide by zero errors for nodes with no contour values
             if node.contour != []:
-                node.contour = sum(node.contour)/len(node.contour)
+                node.contour = array(sum(node.contour)/len(node.contour)).item()
 
 def _DeformedShape(model, vtk_renderer, scale_factor, annotation_size, combo_name, render_nodes=True, theme='default'):
     '''
-- 
2.43.0

