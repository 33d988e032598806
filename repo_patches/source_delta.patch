From a31d55dd67827942cb8bb35e8189124e35c201c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 01/21] fix: get_drag_coefficients blends the root and tip
 airfoils along the segment

---
 machup/llgrid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/machup/llgrid.py b/machup/llgrid.py
index c4a055f..4aeaaec 100644
--- a/machup/llgrid.py
+++ b/machup/llgrid.py
@@ -512,17 +512,17 @@ class LLGrid:
         return self._data["CL_max"]
 
     def get_drag_coefficients(self):
-        """Get airfoil drag coefficients of segment that section lays on.
+        """Get linearly interpolated drag coefficients at each wing section.
 
         Returns
         -------
-        numpy array
-            Array of airfoil drag coefficients for each section.
+        tuple of numpy arrays
+            Arrays of drag coefficients for each section.
 
         """
-        return (self._data["CD0_left"],
-                self._data["CD1_left"],
-                self._data["CD2_left"])
+        return (self._data["CD0"],
+                self._data["CD1"],
+                self._data["CD2"])
 
     def get_right_drag_coeff(self):
         """Get right airfoil drag coefficients of segment that section lays on.
-- 
2.43.0


From bbf4b89bbfa04e8292c8993ce101c7a41e735e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 02/21] fix: cg_location accepts coordinates equal to zero

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From c75068c3c92709447ac2807cc0659d5fe76bb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 03/21] fix: is_main is optional in input files, as it is in
 add_wing

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..657ac07 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -127,7 +127,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main", 1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From 2b55ea1cbf9cef6cf19958c3d2b0bf21751eb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 04/21] fix: solving without an aero state does not reuse the
 previous flow

---
 machup/llmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..64ac822 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
-- 
2.43.0


From d628a3ffa34cec6cf5c3b16f1195c0abf06ab978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 05/21] fix: solving without a control state leaves all
 surfaces undeflected

---
 machup/llmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 64ac822..732e6df 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -246,6 +246,10 @@ class LLModel:
 
             self._compute_deflection_efficiency()
 
+        else:
+            # all control surfaces are undeflected
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
         # figure 1.7.5 in Phillips
-- 
2.43.0


From a8ec9004bc17698b4e8f4f83b193cd9c9642058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 06/21] fix: results of an earlier solve are not overwritten by
 the next one

---
 machup/llmodel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 732e6df..76ddebb 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -301,6 +301,12 @@ class LLModel:
             solver type is not yet implemented.
 
         """
+        # results returned by earlier calls are left as they were
+        self._results = {
+            "inviscid": {},
+            "viscous": {},
+            "total": {}
+        }
         self._process_aero_state(aero_state)
         self._process_control_state(control_state)
 
-- 
2.43.0


From f97473840a7b7dc54cde7c61bae081cee1d4d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 07/21] fix: analyses work on copies of the states passed to
 them

solve() stored the propeller wash in the caller's aero_state, stall_onset,
find_aero_center and pitch_trim left the last angle (and elevator) tried in
the caller's states, and the derivative analyses left keys behind and, when
a solve failed, a perturbed value.
---
 machup/MU.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..f6bf224 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,7 +152,7 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
-                    aero_state["local_state"] = velocity_array
+                    aero_state = dict(aero_state, local_state=velocity_array)
 
             if self.myairplane._wings:
                 wing_results = self.myllmodel.solve("linear",aero_state = aero_state,control_state = control_state)
@@ -415,6 +415,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -562,7 +563,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
-                a0 = aero_state.get("alpha",0.) 
+                aero_state = aero_state.copy()
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -793,6 +794,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -879,6 +881,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -989,6 +992,7 @@ class MachUp:
         cont_deriv = {}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
@@ -1224,6 +1228,8 @@ class MachUp:
 
         """
         if aero_state and control_state:
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
 
             a, de = 0.,0.
             iters = 0.
-- 
2.43.0


From d0f091ea193782ca0e08c577f45615d3ddec36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 08/21] fix: solve writes its results when no aero state is
 given

With a filename and no aero_state it ended in a NameError.
---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index f6bf224..2c86235 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -176,7 +176,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state, filename = filename)
 
         if filename:
             results = {
-- 
2.43.0


From 35617ba2f9f0d34b6a077ec668689677f3e25600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 09/21] fix: control derivatives use the default aero state
 when none is given

control_derivatives() and derivatives() without an aero_state ended in an
AttributeError, although the default state is documented.
---
 machup/MU.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 2c86235..8aed38c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -993,6 +993,10 @@ class MachUp:
 
         if control_state:
             control_state = control_state.copy()
+            if not aero_state:
+                aero_state = {"V_mag":10,
+                              "rho":0.0023769,
+                              "alpha": 0}
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
-- 
2.43.0


From ad9ca99612788cbc98b2e03e49dd269fc862f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 10/21] fix: trim, target lift and stall airspeed honour
 filename and error with default states

When a default state was filled in, the recursive call dropped the tolerance
and the output file (and stall_airspeed passed itself twice).
---
 machup/MU.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 8aed38c..909064f 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -674,7 +674,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
@@ -1170,7 +1170,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            target_state = self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
@@ -1281,12 +1281,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1295,7 +1295,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From 9f1fd9745b6086f843204656f0d8469eac43d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 11/21] fix: target lift and stall airspeed start from the
 default angle and airspeed

An aero_state without alpha (or V_mag), which every other analysis accepts,
ended in a KeyError.
---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 909064f..785ee4d 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -643,7 +643,7 @@ class MachUp:
             if aero_state:
                 aero0 = aero_state.copy()
                 aero1 = aero_state.copy()
-                x0 = aero0["V_mag"] #airspeed guess
+                x0 = aero0.get("V_mag",10.) #airspeed guess
                 x1 = (x0*1.5)+0.1
                 aero0["V_mag"] = x0
                 aero1["V_mag"] = x1
@@ -1131,7 +1131,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
-- 
2.43.0


From 83f76adee17bd2a208818a3335af9fce480d8282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 12/21] fix: distributions report the wing sections' angle of
 attack in degrees

The file's column is headed Alpha(deg), and all other angles of the report,
those of the propellers included, are in degrees; the wings' was in radians.
---
 machup/llmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 76ddebb..ce6ced8 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -626,7 +626,7 @@ class LLModel:
         distributions["dihedral"] = self._grid.get_dihedral()
         distributions["sweep"] = self._grid.get_sweep()
         distributions["area"] = self._grid.get_section_areas()
-        distributions["alpha"] = self._alphas
+        distributions["alpha"] = np.degrees(self._alphas)
         distributions["forces_xyz"] = self._forces
         distributions["section_CL"] = self.section_cl
         distributions["section_Cm"] = self.section_cm
-- 
2.43.0


From 7f86971b05e85cb3c73ad93fbba8279c296be13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 13/21] fix: distributions files keep names longer than 18
 characters

Segment names are the wing's name with a side prefix, so two wings could end
up with the same name in the file.
---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 785ee4d..9588d13 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -281,7 +281,7 @@ class MachUp:
                               'Name','ControlPoint(x)','ControlPoint(y)','ControlPoint(z)','Chord','Twist(deg)','Dihedral(deg)','Sweep(deg)',
                               'Area','Alpha(deg)','Force(x)','Force(y)','Force(z)','SectionCL','SectionCm','SectionCDParasitic','SectionAlpha_L0',
                               'SectionCL_ref')
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('cpx', 'float'),
                               ('cpy', 'float'),
                               ('cpz', 'float'),
@@ -331,7 +331,7 @@ class MachUp:
                               'Name','RadialPosition','Chord','Pitch(deg)','AdvangeAngle(deg)','InducedAngle(deg)',
                               'Alpha(deg)','SectionCL','SectionCD','InducedVelocity,Vi','Vi(Axial)','Vi(Tangential)')
 
-                item_types = [('name','U18'),
+                item_types = [('name',object),
                               ('rps', 'float'),
                               ('crd', 'float'),
                               ('pit', 'float'),
-- 
2.43.0


From 3c8f8d0d459e3c0d41f233a03d53a024c400c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 14/21] fix: distributions writes the propeller table
 completely and once

The file was read back for json output before the table was flushed, and an
airplane without wings appended to whatever the file held before.
---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 9588d13..6edd3a1 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -324,7 +324,6 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -360,7 +359,8 @@ class MachUp:
 
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
-                np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                with open(filename, 'ab' if self.myairplane._wings else 'wb') as distrib_file:
+                    np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
-- 
2.43.0


From f4959bafe19d2ea5a2ad48108989173de2d8e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 15/21] fix: blade section coefficients are defined at zero
 angle and at the stall angles

The coefficient arrays are allocated with np.empty and filled by branch, but
an angle of exactly zero, or exactly at a delayed stall angle, belonged to no
branch and left an uninitialised value in the result.
---
 machup/propmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..aff6c8c 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1272,7 +1272,7 @@ class PropModel:
 
         CL = np.empty_like(alpha)
         neg = np.where(alpha<0)
-        pos = np.where(alpha>0)
+        pos = np.where(alpha>=0)
 
         #Corrigan Stall Delay
         a_less_dA_p = alpha[pos]-self._dA[pos]
@@ -1307,7 +1307,7 @@ class PropModel:
         CD = np.empty_like(alpha)
         ca = np.cos(alpha)
         sa = np.sin(alpha)
-        pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
+        pre_stall = np.where((alpha<=self._delay_a_stall) & (alpha>=self._delay_a_stall_neg))
         stall_pos = np.where(alpha>self._delay_a_stall)
         stall_neg = np.where(alpha<self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
-- 
2.43.0


From 9fbb1a90a949b341ff64071fb2bbe5a468c74516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 16/21] fix: a propeller aligned with the flow does not fail on
 rounding

The cosine of the angle between the shaft and the flow can come out just
above 1 when they are parallel, for which acos raised 'math domain error'.
---
 machup/propmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index aff6c8c..a861ae5 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1548,4 +1548,5 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        # rounding can carry the cosine of parallel vectors just beyond 1
+        return m.acos(max(-1., min(1., dot/mag)))
-- 
2.43.0


From dd675e29c015455ccba3de6341077976c575a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 17/21] fix: total thrust and torque are those of all
 propellers

The totals of PropsSolver.solve held the thrust and torque of the last
propeller only, although the forces and moments next to them are sums.
---
 machup/propssolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..8182b28 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,8 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        thrust = 0.
+        torque = 0.
 
         self._results = {
             "total":{}
@@ -91,6 +93,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            thrust += T
+            torque += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +107,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = thrust
+        self._results["total"]['Torque'] = torque
 
         return self._results
 
-- 
2.43.0


From 6c13621175c01c65771e570b53382d600d299338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 18/21] fix: propellers can be solved with the default aero
 state

PropModel and the velocity field fall back on default values when no aero
state is given, but rotating the forces to the wind axes raised
AttributeError on None.
---
 machup/propssolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 8182b28..4dcae6f 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -113,6 +113,8 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        if not aero_state:
+            aero_state = {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From f10f1cb20875a8e6ce6b076e9e1ea019303afd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:29 +0000
Subject: [PATCH 19/21] fix: points on the propeller axis have a defined wash

---
 machup/propmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index a861ae5..cfc8814 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,8 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)[:,None]
+        self._tangent_norm = tangent/np.where(tangent_mag == 0., 1., tangent_mag)#no tangential direction on the centerline
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
@@ -666,7 +667,7 @@ class PropModel:
         centerline_point = pos+self._prop_forward*centerline_dist[:, np.newaxis]#position on centerline closest to the control point
         center2point_vec = control_points-centerline_point #shortest vector from control point to centerline
         r_cp = self._vec_mag_mult(center2point_vec) #distance from center line to control point
-        tangent_vec = np.cross(self._prop_forward,center2point_vec/r_cp[:,None])#direction of tangential velocity
+        tangent_vec = np.cross(self._prop_forward,center2point_vec/np.where(r_cp == 0., 1., r_cp)[:,None])#direction of tangential velocity
         stream_loc = np.where((abs(r_cp)<=(self._d/2))&(centerline_dist<0.))#indices of control points that fall within uncontracted propwash cylinder
 
         #determine velocities at control points within streamtube
-- 
2.43.0


From 8680523ce9a55a5eccb4b4fc6c226fe5f13db2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:49 +0000
Subject: [PATCH 20/21] fix: camber slope behind the maximum camber in exported
 outlines

The slope of the aft arc was half the derivative of the camber line, so the
thickness was not laid off at right angles to it.
---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..b189db1 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -229,7 +229,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 26ceaaee3f647f8d6bd28ce8a061778e96ce290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 21/21] fix: airfoils without a four-digit name are drawn as
 the default outline

A name starting with NACA that is not four digits long left the outline of an
earlier airfoil in use, or none.
---
 machup/outputstl.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index b189db1..42f935c 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,14 +43,12 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
-            if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
-                if len(left_name) == 8:
-                    left_NACA = left_name[4:]
+            if left_name[:4] in ('NACA', 'naca') and len(left_name) == 8 and left_name[4:].isdigit():
+                left_NACA = left_name[4:]
             else: left_NACA = '2412'
                     
-            if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
-                if len(right_name) == 8:
-                    right_NACA = right_name[4:]
+            if right_name[:4] in ('NACA', 'naca') and len(right_name) == 8 and right_name[4:].isdigit():
+                right_NACA = right_name[4:]
             else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
@@ -108,9 +106,8 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
-                if name[:4] == 'NACA' or name[:4] == 'naca':
-                    if len(name) == 8:
-                        NACA = name[4:]
+                if name[:4] in ('NACA', 'naca') and len(name) == 8 and name[4:].isdigit():
+                    NACA = name[4:]
                 else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
-- 
2.43.0

