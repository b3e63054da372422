From 2f983ba19e72c80862e5935e1caa5709c78461f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 01/30] fix: allow a centre of gravity coordinate to be set
 back to zero

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From bd2cb25dbe01a09da6a49dd0af2ee803471ab1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 02/30] fix: accept an airplane position given as a numpy array

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..0914a68 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -424,7 +424,7 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
+        if self._position is not None:
             return self._position
 
         return np.array([0., 0., 0.])
-- 
2.43.0


From 822cd91c5fd4c2b1b4bbaf976437feef8cd88137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 03/30] fix: is_main is optional in input files, as it is in
 add_wing

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 0914a68..996d792 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -127,7 +127,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main", 1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From 934622238be7c7a9506b187377ba2d822d271686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 04/30] fix: lifting-line model keeps no aero or control state
 from earlier solves

---
 machup/llmodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..9440376 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
@@ -244,6 +245,8 @@ class LLModel:
                                                 delta_f*mix_f)*np.pi/180.
 
             self._compute_deflection_efficiency()
+        else:
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
 
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
-- 
2.43.0


From 36bbec24153832d86bbf892a13e2cd0e425b97a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 05/30] fix: LLModel.solve returns results that later solves do
 not overwrite

---
 machup/llmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 9440376..81f269b 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -307,7 +307,7 @@ class LLModel:
             self._setup_linear_matrices()
             self._solve_linear_system()
             self._forces_and_moments()
-            return self._results
+            return {part: dict(res) for part, res in self._results.items()}
         else:
             raise RuntimeError("solver type not yet supported")
 
-- 
2.43.0


From 3a901fced70432081548d5bbe2c983e6f71b70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 06/30] fix: damping derivatives restore the yaw rate they
 found

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..b12ed99 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -938,7 +938,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From a0881a9575b9a7bc862f0b5c7fc33de96a7adba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 07/30] fix: control derivatives use the default aero state
 when none is given

---
 machup/MU.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index b12ed99..12b4bd4 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -988,6 +988,11 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
+
         if control_state:
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
-- 
2.43.0


From 0f2ecdd9b69baf41e81784aec6da6d0ebe22bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 08/30] fix: stall_airspeed runs without an aero state

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 12b4bd4..2d36503 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -673,7 +673,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, error = error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
-- 
2.43.0


From 0bc481d42156389f4f76f1e3398f599f660ba04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 09/30] fix: solve writes its results file when no aero state
 is given

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 2d36503..ac01e80 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -176,7 +176,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state, filename = filename)
 
         if filename:
             results = {
-- 
2.43.0


From 9ddcc6563183bbea4f29912ce7f589ec6dff5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 10/30] fix: pitch_trim passes filename and error on when it
 fills in default states

---
 machup/MU.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index ac01e80..c75ba78 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1276,12 +1276,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1290,7 +1290,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From 92617c66e859b18200c0f8ab883aa8b72cb6af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 11/30] fix: pitch_trim returns the error it writes

---
 machup/MU.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index c75ba78..2775b12 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1251,7 +1251,7 @@ class MachUp:
                         trim_state = {'error':'no_elevator'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft because there is no elevator.")
 
@@ -1267,7 +1267,7 @@ class MachUp:
                         trim_state = {'error':'untrimmable'}
                         with open(filename, 'w') as outfile:
                             json.dump(trim_state, outfile,indent = 4)
-                        break
+                        return trim_state
                     else:
                         raise RuntimeError("Unable to trim aircraft. Consider increasing elevator size or moving center of gravity")
 
-- 
2.43.0


From 8a0bc13add16651a18090c8932a6256721e7be29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 12/30] fix: target_lift passes filename and error on when it
 fills in the default state

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 2775b12..710b455 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1167,7 +1167,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            target_state = self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
-- 
2.43.0


From 4db339e669563ed71398ce8ce78701ce8b5d069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 13/30] fix: target_lift accepts an aero state without alpha

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 710b455..ab8218b 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1128,7 +1128,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
-- 
2.43.0


From d708ae5617755ad9cb8a855d1b6ce01870aa5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 14/30] fix: analyses leave the caller's aero and control
 states as they were

---
 machup/MU.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index ab8218b..7ec7eea 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -152,7 +152,7 @@ class MachUp:
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
-                    aero_state["local_state"] = velocity_array
+                    aero_state = dict(aero_state, local_state = velocity_array)
 
             if self.myairplane._wings:
                 wing_results = self.myllmodel.solve("linear",aero_state = aero_state,control_state = control_state)
@@ -417,6 +417,7 @@ class MachUp:
         if aero_state:
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
+            aero_state = aero_state.copy()
             Normal = []
             Axial = []
             Moment = []
@@ -563,6 +564,7 @@ class MachUp:
         if self.myairplane._wings:
             if aero_state:
                 a0 = aero_state.get("alpha",0.) 
+                aero_state = aero_state.copy()
                 a = 0.
                 while True:
                     aero_state["alpha"] = a
@@ -1230,6 +1232,8 @@ class MachUp:
         """
         if aero_state and control_state:
 
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
             a, de = 0.,0.
             iters = 0.
             while True:
-- 
2.43.0


From 69a1771ba53c1fd4a5a18c668cdc26c1d543fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 15/30] fix: distributions closes the file it writes and starts
 it afresh without wings

---
 machup/MU.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 7ec7eea..961f0cc 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -324,7 +324,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -361,6 +361,7 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
-- 
2.43.0


From b9280fc5edff1cf801173515ab02bf698e160660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 16/30] fix: Alpha(deg) column of the distributions file is in
 degrees for wings

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 961f0cc..bedf5f4 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -310,7 +310,7 @@ class MachUp:
                 ab['dih'] = wd["dihedral"]
                 ab['swp'] = wd["sweep"]
                 ab['are'] = wd["area"]
-                ab['alp'] = wd["alpha"]
+                ab['alp'] = np.degrees(wd["alpha"])
                 ab['f_x'] = wd["forces_xyz"][:,0]
                 ab['f_y'] = wd["forces_xyz"][:,1]
                 ab['f_z'] = wd["forces_xyz"][:,2]
-- 
2.43.0


From 361d99bd8ff324d0dbe646c6a55036c83d9b1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 17/30] fix: stl export falls back to NACA 2412 for names that
 are not four-digit sections

---
 machup/outputstl.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..b05a627 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,14 +43,12 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
-            if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
-                if len(left_name) == 8:
-                    left_NACA = left_name[4:]
+            if left_name[:4] in ('NACA', 'naca') and len(left_name) == 8:
+                left_NACA = left_name[4:]
             else: left_NACA = '2412'
                     
-            if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
-                if len(right_name) == 8:
-                    right_NACA = right_name[4:]
+            if right_name[:4] in ('NACA', 'naca') and len(right_name) == 8:
+                right_NACA = right_name[4:]
             else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
@@ -108,9 +106,8 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
-                if name[:4] == 'NACA' or name[:4] == 'naca':
-                    if len(name) == 8:
-                        NACA = name[4:]
+                if name[:4] in ('NACA', 'naca') and len(name) == 8:
+                    NACA = name[4:]
                 else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
-- 
2.43.0


From 80a498a77ccafec279b577e40195fd778f5eb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 18/30] fix: camber line slope behind the maximum camber
 position

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index b05a627..e3dc861 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -226,7 +226,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 2bcb7c476bf29599cd8a63c995cd4b0ab0d136c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 19/30] fix: blade section lift is defined at zero angle of
 attack and drag at the stall angles

---
 machup/propmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..aff6c8c 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1272,7 +1272,7 @@ class PropModel:
 
         CL = np.empty_like(alpha)
         neg = np.where(alpha<0)
-        pos = np.where(alpha>0)
+        pos = np.where(alpha>=0)
 
         #Corrigan Stall Delay
         a_less_dA_p = alpha[pos]-self._dA[pos]
@@ -1307,7 +1307,7 @@ class PropModel:
         CD = np.empty_like(alpha)
         ca = np.cos(alpha)
         sa = np.sin(alpha)
-        pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
+        pre_stall = np.where((alpha<=self._delay_a_stall) & (alpha>=self._delay_a_stall_neg))
         stall_pos = np.where(alpha>self._delay_a_stall)
         stall_neg = np.where(alpha<self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
-- 
2.43.0


From 8071941445879331b5a59f3db152a7ba1b1065cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 20/30] fix: propeller aligned with the flow no longer fails in
 the incidence angle

---
 machup/propmodel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index aff6c8c..882a288 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -551,14 +551,15 @@ class PropModel:
         self._find_Vi()
 
         angle = self._vec_angle(self._prop_forward,-self._v_xyz)
-        if angle == 0.:
+        N_dir = np.cross(np.cross(-self._v_xyz, self._prop_forward),self._prop_forward)
+        N_mag = m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+        if angle == 0. or N_mag == 0.:
             N,n=0.,0.
             N_vec = np.zeros(3)
         else:
             N = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CN_a*angle
             n = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cn_a*angle
-            N_dir = np.cross(np.cross(-self._v_xyz, self._prop_forward),self._prop_forward)
-            N_vec = N_dir/m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_vec = N_dir/N_mag
 
         self._T = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CT
         self._l = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cl*(-self._rot_dir)
@@ -1548,4 +1549,4 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        return m.acos(max(-1.,min(1.,dot/mag)))
-- 
2.43.0


From eea3abc1089eccfee156a0006c36e4b184e5fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 21/30] fix: wing point on the propeller axis has no swirl
 direction instead of nan

---
 machup/propmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 882a288..d7b33ad 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,9 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)
+        tangent_mag = np.where(tangent_mag == 0.,1.,tangent_mag)
+        self._tangent_norm = tangent/tangent_mag[:,None]
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
-- 
2.43.0


From 7920ea455bbf79371bcdcca2625670bc778bfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 22/30] fix: PropsSolver solves without an aero state

---
 machup/propssolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..b078e69 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -109,6 +109,7 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        aero_state = aero_state or {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From 185b95b63211a64794d6bd32cc02083a4b9c9313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 23/30] fix: total thrust and torque count every propeller

---
 machup/propssolver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index b078e69..e0792f4 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -70,6 +70,7 @@ class PropsSolver:
     def _calc_forces(self,aero_state = None,prop_state = None):
         self._F = np.zeros(3)
         self._M = np.zeros(3)
+        thrust,torque = 0.,0.
 
         self._results = {
             "total":{}
@@ -91,6 +92,8 @@ class PropsSolver:
             F,M,T,l = pm._calc_forces()
             self._F += F
             self._M += M
+            thrust += T
+            torque += l
 
         lift,drag,side = self._rotate_aero_forces(self._F,aero_state)
 
@@ -103,8 +106,8 @@ class PropsSolver:
         self._results["total"]['MX'] = self._M[0]
         self._results["total"]['MY'] = self._M[1]
         self._results["total"]['MZ'] = self._M[2]
-        self._results["total"]['Thrust'] = T
-        self._results["total"]['Torque'] = l
+        self._results["total"]['Thrust'] = thrust
+        self._results["total"]['Torque'] = torque
 
         return self._results
 
-- 
2.43.0


From 820a9d8fafd9af97a759751654987b2baa75918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 24/30] fix: airplanes built without an input file have
 (unspecified) units

---
 machup/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machup/geometry.py b/machup/geometry.py
index 996d792..4fbc995 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -68,6 +68,7 @@ class Airplane:
         self._cg_loc = np.zeros(3)
         self._long_ref = None
         self._lat_ref = None
+        self._units = None
         self._position = position
         self._connections = {}
 
-- 
2.43.0


From e2d8471c06036e8bfc093f6c9eff5906378ec9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:00 +0000
Subject: [PATCH 25/30] fix: derivative analyses leave the caller's states as
 they were

---
 machup/MU.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index bedf5f4..dab02a5 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -796,6 +796,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -882,6 +883,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -997,6 +999,7 @@ class MachUp:
                           "alpha": 0}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
-- 
2.43.0


From 36a6f7c689232e536d7055cfd9bc9c5bc31d645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:58 +0000
Subject: [PATCH 26/30] fix: find the blade induced angle by bisection between
 zero and the zero-lift angle

The secant iteration started from the previous solution and stopped where the
residual no longer changed: for a windmilling propeller it returned angles that
do not balance blade loading and induced momentum, and results that depended on
what had been solved before.
---
 machup/propmodel.py | 48 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index d7b33ad..1c8014a 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -380,10 +380,6 @@ class PropModel:
         self._einf = np.arctan2(self._J, (m.pi*self._zeta))
 
         
-        #initial guess for iterative solution of ei if not previously solved
-        if not np.any(self._ei):
-            self._ei = self._beta-self._einf
-
         #set constant values for ei solver
         self._ei_func_a = (self._chatb/(8*self._zeta))
         self._ei_func_b = np.arccos(np.exp(-(self._k*(1-self._zeta))/(2*np.sin(self._beta[-1]))))
@@ -426,31 +422,18 @@ class PropModel:
         if self._CT<=0.:
             self._efficiency = 0.
 
-    def _find_ei(self,error = 1E-11):
-
-        x0 = np.copy(self._ei)
-        x1 = np.copy(x0)*(1+1e-4)-1e-4
-        y0 = self._ei_function(x0)
-        y1 = self._ei_function(x1)
-
-        x2 = np.copy(x0)
-        i = 0
-        while True:
-            loc = np.where(abs(y1-y0)>error)
-            x2[loc] = x1[loc]-((y1[loc]*(x1[loc]-x0[loc]))/(y1[loc]-y0[loc]))
-            i+=1
-            x2 = self._correct_ei(x2)
-            if i>50 and loc[0].size<3:
-                #print("Ei convergence issues @ J=",self._J)
-                return x2
-            if loc[0].size == 0:
-                return x2
-
-            x0 = np.copy(x1)
-            x1 = np.copy(x2)
-            y0 = np.copy(y1)
-            y1 = self._ei_function(x1)
-
+    def _find_ei(self,error = 1E-14):
+        #the induced angle lies between zero and the angle that leaves the section without lift,
+        #where the difference between blade loading and induced momentum changes sign
+        near = np.zeros_like(self._zeta)
+        far = self._beta-self._einf
+        sign = np.sign(far)
+        while np.any(abs(far-near)>error):
+            middle = 0.5*(near+far)
+            beyond = sign*self._ei_function(middle)>0
+            near = np.where(beyond,middle,near)
+            far = np.where(beyond,far,middle)
+        return 0.5*(near+far)
 
     def _ei_function(self,ei):
         alpha = self._beta-self._einf-ei
@@ -459,13 +442,6 @@ class PropModel:
         return zero
 
 
-    def _correct_ei(self,ei):
-        correct_sign = np.sign(self._beta-self._einf)
-        ei = np.where(np.absolute(ei)<1.,ei,0.3*correct_sign)
-        ei = np.where(np.sign(ei) != correct_sign, ei*-1, ei)
-        return ei
-
-
     #--------------------Functions for finding prop_state based on input power------------------------
     def _prop_state_from_power(self):
         if self._solve_from_motor:
-- 
2.43.0


From 296442d8bb5f1bca9275da814c8d74bbf5f837c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:27 +0000
Subject: [PATCH 27/30] fix: bracket the rotation rate of a propeller driven by
 power or throttle

The secant search started from the rate of the previous solve and could run
forever or settle on a negative rotation rate, depending on what had been
solved before.
---
 machup/propmodel.py | 53 +++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 1c8014a..8d338e0 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -453,24 +453,21 @@ class PropModel:
             self._rot_per_sec = self._find_rot_rate_power()
         self._J = self._Vinf/(self._rot_per_sec*self._d)
 
-    def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_power_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_power_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_power_difference(x1)
+    def _find_rot_rate_power(self):
+        return self._find_rot_rate(self._zero_power_difference)
+
+    def _find_rot_rate(self, difference):
+        #bracket the rotation rate above which the propeller takes more than it is given
+        low = high = 15.
+        while not difference(high)>0.:
+            high*=2.
+            if high>1E6:
+                raise RuntimeError("Unable to find rotation rate of propeller")
+        while not difference(low)<0.:
+            low*=0.5
+            if low<1E-6:
+                raise RuntimeError("Unable to find rotation rate of propeller")
+        return opt.brentq(difference,low,high,xtol = 1E-13,rtol = 1E-14)
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -479,24 +476,8 @@ class PropModel:
         prop_power = (self._rho*(self._rot_per_sec**3)*(self._d**5)*self._CP)
         return prop_power-self._brake_power
 
-    def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_torque_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_torque_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_torque_difference(x1)
+    def _find_rot_rate_motor(self):
+        return self._find_rot_rate(self._zero_torque_difference)
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From 6de803549ae75d3206bc7adfbddc379676dc0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 28/30] fix: stl export falls back to NACA 2412 also for
 eight-letter names whose last four are not digits

---
 machup/outputstl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index e3dc861..42f935c 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,11 +43,11 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
-            if left_name[:4] in ('NACA', 'naca') and len(left_name) == 8:
+            if left_name[:4] in ('NACA', 'naca') and len(left_name) == 8 and left_name[4:].isdigit():
                 left_NACA = left_name[4:]
             else: left_NACA = '2412'
                     
-            if right_name[:4] in ('NACA', 'naca') and len(right_name) == 8:
+            if right_name[:4] in ('NACA', 'naca') and len(right_name) == 8 and right_name[4:].isdigit():
                 right_NACA = right_name[4:]
             else: right_NACA = '2412'
 
@@ -106,7 +106,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
-                if name[:4] in ('NACA', 'naca') and len(name) == 8:
+                if name[:4] in ('NACA', 'naca') and len(name) == 8 and name[4:].isdigit():
                     NACA = name[4:]
                 else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
-- 
2.43.0


From acc2aad6ca84d849c3914942de59307654fcda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 29/30] fix: exported blades are pitched to their chord line

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 42f935c..2596af5 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -157,7 +157,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             Coords = np.zeros((num_nodes,n,3))
             Coords[:,:,0] = -Z_coords
             Coords[:,:,1] =  X_coords*rot_dir
-            twist = prop.get_aero_pitch_angle()-prop.get_zero_lift_alpha()
+            twist = prop.get_aero_pitch_angle()+prop.get_zero_lift_alpha()
             e = Euler2Quat((0.,0.,-rot_dir*twist))
             e = np.transpose(e)
 
-- 
2.43.0


From 970ba5fdbe2d5eba095e93f43092faa2b82abb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 30/30] fix: rot_dir 0 is clockwise, as documented

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 4fbc995..d8f16b0 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1187,7 +1187,7 @@ class Prop:
         """
         if self._rot_dir == "CCW" or self._rot_dir =="ccw" or self._rot_dir == 1.:
             return 1.
-        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1.:
+        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1. or self._rot_dir == 0.:
             return -1
         else: 
             return 1.
-- 
2.43.0

