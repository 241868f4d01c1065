From a2ca2232f006f5295136805caabf7133c81c61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 01/40] fix: reading a band parameter that is zero no longer
 raises AssertionError

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..754930b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,7 +106,7 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
         else:
-- 
2.43.0


From a1dbdef6e8278c8280da207a0f1762c1ff51e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 02/40] fix: erase the cyclotron mass together with the Fermi
 surface it was computed on

---
 cuprates_transport/bandstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 754930b..9408db0 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -152,6 +152,7 @@ class BandStructure:
         self.n   = None
         self.dos_k = None
         self.dos_epsilon = None
+        self.mass = None
         self.number_of_points_per_kz_list = []
 
     def energy_velocity_definition(self):
-- 
2.43.0


From 30ce452002738b44e9f2d04996ece32c879c6219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 03/40] fix: set_mu_to_doping erases the Fermi surface of the
 previous chemical potential

---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 9408db0..68dda4e 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -262,12 +262,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From 61790e5d8475b1e9ca6b6c58954142f2d505a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 04/40] fix: assigning band_params copies the dictionary, as
 the constructor does

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 68dda4e..5d661c1 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -123,7 +123,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
-- 
2.43.0


From 16afc2ff3fca447575eaccc5c07cf86ccc46fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:32 +0000
Subject: [PATCH 05/40] fix: density of states counts each state once when the
 grid spans several Brillouin zones

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5d661c1..d4a7826 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -296,7 +296,7 @@ class BandStructure:
             - dkf in Angstrom^-2
         """
         prefactor =  2 / (2*pi)**3 # factor 2 for the spin
-        self.dos_epsilon = prefactor * np.sum(self.dkf / Angstrom**2 * self.dos_k)
+        self.dos_epsilon = prefactor * np.sum(self.dkf / Angstrom**2 * self.dos_k) / self.number_of_bz
 
 
     ## Marching algorithms ------------------------------------------------------#
-- 
2.43.0


From 23bde7d5b211b3cf30684906785dd20e8437f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 06/40] fix: total filling and hole doping of an ADMR run are
 those of its bands

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From ca501e6c94750f47f229b1d9169e959886ff4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 07/40] fix: assigning scattering_params copies the dictionary,
 as the constructor does

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..93ac0c2 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From d65994b52f3ec64341400e04d7b8fb715853656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 08/40] fix: the list of scattering models is copied, not
 shared between objects

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 93ac0c2..3c1edaf 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = deepcopy(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
-- 
2.43.0


From fee112e2ed742dcb3361bf16f1a0fdc63753ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 09/40] fix: k_max is copied, not shared between bands through
 the default argument

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d4a7826..d03cf68 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = deepcopy(k_max) # list
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
-- 
2.43.0


From b1103aa6c7f115668dfea8ebee4ccce1caf7d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 10/40] fix: the density-of-states scattering rate is evaluated
 at the carrier's own velocity

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 3c1edaf..39511a0 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -156,7 +156,8 @@ class Scattering:
         """
         dos_max = np.max(self.bandObject.dos_k)
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From 96ba3a936af1f20350ae83f968d90dfce16094c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 11/40] fix: omegac_tau_func passes the velocity, not the
 momentum, along z to the lifetime

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..0736a5c 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -319,7 +319,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From b839146fe28aa5a2324409de44a825e485f02905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 12/40] fix: N_time can be changed before the first run

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0736a5c..5610c93 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # the time window is set by the first run
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From d9188db07d144e0b226bcd13e3e23469b8025c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 13/40] fix: the fit angle grid has the requested step

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..a2b66fa 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -42,7 +42,7 @@ class FitAnglesADMR:
         Btheta_min = min(Btheta_min_list)
         Btheta_max = max(Btheta_max_list)
         Btheta_steps = min(Btheta_steps_list)
-        N = int((Btheta_max-Btheta_min) / Btheta_steps)
+        N = int(round((Btheta_max-Btheta_min) / Btheta_steps)) + 1
         self.Btheta_array = np.linspace(Btheta_min, Btheta_max, N)
         return self.Bphi_array, self.Btheta_array
 
-- 
2.43.0


From 58034bb06edaab4d64e44c1126f20f6970bc0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 14/40] fix: a fit candidate with a parameter equal to zero is
 not ignored

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index a2b66fa..0e2da45 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 35f4432bdb50a68d709ea79835d2985d00f3f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 15/40] fix: top-level free parameters reach the simulation of
 the fit

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 0e2da45..b3acee8 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -116,6 +116,15 @@ class SimADMR:
 
     def update_params(self):
         for i, band in enumerate(self.bands_list):
+            ## Lattice, energy scale, field, temperature
+            for param in ["a", "b", "c", "energy_scale", "number_of_bz"]:
+                if param in self.params_dict[band].keys():
+                    setattr(self.admrObject.condObject_list[i].bandObject,
+                            param, self.params_dict[band][param])
+            for param in ["Bamp", "T"]:
+                if param in self.params_dict[band].keys():
+                    setattr(self.admrObject.condObject_list[i],
+                            param, self.params_dict[band][param])
             band_params = self.params_dict[band]["band_params"]
             scattering_params = self.params_dict[band]["scattering_params"]
             self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-- 
2.43.0


From 5e5c9cfaede6571878a4a2954c85e1b4148e1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:06 +0000
Subject: [PATCH 16/40] fix: the ADMR data file does not repeat the column of
 band parameter M

---
 cuprates_transport/admr.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..2747a6d 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -148,10 +148,6 @@ class ADMR:
             if key!="t":
                 Data = np.vstack((Data, np.round(value,3)*Ones))
                 DataHeader += key + "\t"
-        if bandAF == True:
-            Data = np.vstack((Data, np.round(bandObject0._band_params["M"],3)*Ones))
-            DataHeader += "M\t"
-
         Data = np.vstack((Data, bandObject0.resolution[0] * Ones,
                           bandObject0.resolution[1] * Ones,
                           bandObject0.resolution[2] * Ones))
-- 
2.43.0


From 2b2b6d62fbce75e8f6a81e62c17dcc603f1e9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 17/40] fix: free scattering parameters of the
 single-temperature fit reach the simulation

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..ce9b8fb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
-- 
2.43.0


From eb753e92f1fd3007501939d064b0a02236cf68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 18/40] fix: free scattering parameters of the serial
 single-temperature fit reach the simulation

---
 cuprates_transport/fitting_admr_series_oneT.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..2de2aaa 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From b6d84201e53b497ffaba828d25d2a6a39adf2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 19/40] fix: slices of the Fermi surface may start with planes
 without contours

---
 cuprates_transport/bandstructure.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index d03cf68..32c2079 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -364,6 +364,9 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        # Initialize the Fermi surface arrays, filled contour by contour
+        kxf, kyf, kzf, dkf = np.empty(0), np.empty(0), np.empty(0), np.empty(0)
+        self.dks, self.dkz = np.empty(0), np.empty(0)
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -401,21 +404,12 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
-                    kxf = x_int / self.a
-                    kyf = y_int / self.b
-                    # self.a (and not b) because anisotropy is taken into account earlier
-                    kzf = kz * np.ones_like(x_int)
-                    dkf = dks * dkz * np.ones_like(x_int)
-                    self.dks = dks * np.ones_like(x_int)
-                    self.dkz = dkz * np.ones_like(x_int)
-                else:
-                    kxf = np.append(kxf, x_int / self.a)
-                    kyf = np.append(kyf, y_int / self.b)
-                    kzf = np.append(kzf, kz * np.ones_like(x_int))
-                    dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
-                    self.dks = np.append(self.dks, dks * np.ones_like(x_int))
-                    self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
+                kxf = np.append(kxf, x_int / self.a)
+                kyf = np.append(kyf, y_int / self.b)
+                kzf = np.append(kzf, kz * np.ones_like(x_int))
+                dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
+                self.dks = np.append(self.dks, dks * np.ones_like(x_int))
+                self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
             if self.a == self.b:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
-- 
2.43.0


From d7d9acc528cb4d124bf61ff5994095591c67bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 20/40] fix: arc lengths of the sliced Fermi surface use both
 lattice constants

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 32c2079..de65900 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -382,7 +382,7 @@ class BandStructure:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
                 # path
-                ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
+                ds = sqrt(np.diff(x)**2 + (np.diff(y) * (self.a / self.b))**2)  # segment lengths, in units of 1 / a
                 s = np.zeros_like(x)  # arrays of zeros
                 s[1:] = np.cumsum(ds)  # integrate path, s[0] = 0
                 # Store the number of k points per kz
-- 
2.43.0


From 88906ddb790bb2361c943ff3b184aacf766d2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 21/40] fix: scattering models are dispatched on their
 arguments, not on their local variables

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 39511a0..b73eff6 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -249,7 +249,7 @@ class Scattering:
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-            func_args = func.__code__.co_varnames
+            func_args = func.__code__.co_varnames[:func.__code__.co_argcount]
             if "epsilon" in func_args:
                 self.gamma_tot += func(epsilon)
             elif "vx" in func_args:
-- 
2.43.0


From ab6cf68b627236b3cddf749dded8f82b5a559f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 22/40] fix: the time grid has exactly N_time steps whatever
 the rounding of the step

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 5610c93..fd2cc45 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -118,7 +118,7 @@ class Conductivity(Scattering):
         if self.time_max is None: # the time window is set by the first run
             return
         self.dtime = self.time_max / self._N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = np.linspace(0, self.time_max, int(self.N_time), endpoint=False)
         # integrand for tau_function
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1]
     N_time = property(_get_N_time, _set_N_time)
@@ -186,7 +186,7 @@ class Conductivity(Scattering):
         # Time parameters
         self.time_max = 8 * self.tau_total_max()  # in picoseconds
         self.dtime = self.time_max / self.N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = np.linspace(0, self.time_max, int(self.N_time), endpoint=False)
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
 
     def B_func(self):
-- 
2.43.0


From 1f8da4d8e0a801bdae472b9fe9b65e1c45d10a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 23/40] fix: the polar-angle grid never passes its maximum
 through rounding

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 2747a6d..791c626 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -22,7 +22,8 @@ class ADMR:
         self.Btheta_max   = Btheta_max # in degrees
         self.Btheta_step  = Btheta_step # in degrees
         self.Btheta_norm = Btheta_norm # in degrees, rzz = rhozz / rhozz ( Btheta_norm )
-        self.Btheta_array = np.arange(self.Btheta_min, self.Btheta_max + self.Btheta_step, self.Btheta_step)
+        N_theta = int(np.round((self.Btheta_max - self.Btheta_min) / self.Btheta_step)) + 1
+        self.Btheta_array = self.Btheta_min + self.Btheta_step * np.arange(N_theta)
         self.Bphi_array = np.array(Bphi_array)
 
         # Resistivity array rho_zz
-- 
2.43.0


From ad2c80d084cc2fb5e0579c377daeda354606d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:08 +0000
Subject: [PATCH 24/40] fix: omegac_tau_func does not need the arc lengths,
 which only marching_square provides

---
 cuprates_transport/conductivity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index fd2cc45..7836459 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -313,7 +313,6 @@ class Conductivity(Scattering):
             return 0
 
     def omegac_tau_func(self):
-        dks = self.bandObject.dks / Angstrom # in m^-1
         kf = self.bandObject.kf
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
-- 
2.43.0


From b06d09d21a20eb8bf495e597172328b337ad2e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 25/40] fix: the polar grid still covers the maximum when it is
 not a multiple of the step

---
 cuprates_transport/admr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 791c626..6eafa8a 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -22,7 +22,7 @@ class ADMR:
         self.Btheta_max   = Btheta_max # in degrees
         self.Btheta_step  = Btheta_step # in degrees
         self.Btheta_norm = Btheta_norm # in degrees, rzz = rhozz / rhozz ( Btheta_norm )
-        N_theta = int(np.round((self.Btheta_max - self.Btheta_min) / self.Btheta_step)) + 1
+        N_theta = int(np.ceil(np.round((self.Btheta_max - self.Btheta_min) / self.Btheta_step, 9))) + 1
         self.Btheta_array = self.Btheta_min + self.Btheta_step * np.arange(N_theta)
         self.Bphi_array = np.array(Bphi_array)
 
-- 
2.43.0


From dee9a17d80a1c5a3ca4f8a41415a84d72e04eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 26/40] fix: the polar grid of the single-temperature fits
 never passes its maximum through rounding

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ce9b8fb..4772072 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -104,9 +104,9 @@ class FittingADMRParallel:
 
     def load_Btheta_data(self):
         """Creates the theta angles at the selected temperatures and phi"""
-        Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
-                                 self.member["Btheta_step"])
+        N_theta = int(np.ceil(np.round((self.member["Btheta_max"] - self.member["Btheta_min"])
+                                       / self.member["Btheta_step"], 9))) + 1
+        Btheta_array = self.member["Btheta_min"] + self.member["Btheta_step"] * np.arange(N_theta)
         ## Create Bphi
         self.load_Bphi_data()
         # Cut Btheta_array to theta_cut
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 2de2aaa..d0c035e 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -94,9 +94,9 @@ class FittingADMR:
 
     def load_Btheta_data(self):
         ## Create Initial Btheta
-        Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
-                                 self.member["Btheta_step"])
+        N_theta = int(np.ceil(np.round((self.member["Btheta_max"] - self.member["Btheta_min"])
+                                       / self.member["Btheta_step"], 9))) + 1
+        Btheta_array = self.member["Btheta_min"] + self.member["Btheta_step"] * np.arange(N_theta)
         ## Create Bphi
         self.load_Bphi_data()
 
-- 
2.43.0


From 7a676def5463955a6550ccb035c0c7be9b63a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 27/40] fix: a fit whose parameters are all shared between
 temperatures uses the data of every temperature

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index b3acee8..e5dfacc 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -151,6 +151,8 @@ class Fitness:
         self.bounds_dict = deepcopy(bounds_dict)
         self.data_dict   = deepcopy(data_dict)
         self.T_list = [T for T in self.bounds_dict.keys() if T!="all"]
+        if len(self.T_list) == 0: # only parameters shared by all the temperatures
+            self.T_list = list(self.params_dict.keys())
         self.normalized_data = normalized_data
         ## Create list of free parameters
         self.free_params_labels = []
-- 
2.43.0


From 3a6a86e2432e7627eaa2fc610413b3a3a2b6e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 28/40] fix: a finished single-temperature fit draws its
 figures and names its files instead of raising AttributeError

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 4772072..9e18b6c 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -319,7 +319,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -327,7 +327,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index d0c035e..f255c3d 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -237,7 +237,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -355,7 +355,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -363,7 +363,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From e49f8c48f2bdbde02aa89dd61182d4397d7b56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 29/40] fix: the single-temperature fit writes in the current
 folder by default, not in the root of the filesystem

---
 cuprates_transport/fitting_admr_series_oneT.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index f255c3d..9eef17c 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -1,4 +1,5 @@
 import json
+import os
 import numpy as np
 import time
 from copy import deepcopy
@@ -228,7 +229,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -238,7 +239,7 @@ class FittingADMR:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -364,7 +365,7 @@ class FittingADMR:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
-- 
2.43.0


From 69f532ff66244d329487ff98ddcd5ca038519343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 30/40] fix: a band whose velocity has a constant component can
 be evaluated

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index de65900..918671a 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -174,6 +174,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+            elif not v.has(kx, ky, kz): # constant velocity component
+                self.v_sym[i] = "(" + str(v) + ") + numpy.zeros_like(" + k_list[i] + ")"
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 3851ba56a300ff0f53977a34d29f56884a892c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 31/40] fix: right-hand axis of figADMR scales with the
 resistivity of the reference angle

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 6eafa8a..3537373 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -237,7 +237,8 @@ class ADMR:
         axes.set_xlabel(r"$\theta$ ( $^{\circ}$ )", labelpad = 8)
         axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.Btheta_norm) + " )", labelpad = 8)
         ymin, ymax = axes.axis()[2:]
-        axes2.set_ylim(ymin * self.rhozz_array[0, 0] * 1e5, ymax * self.rhozz_array[0, 0] * 1e5)
+        rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array, self.rhozz_array[0, :])
+        axes2.set_ylim(ymin * rhozz_norm * 1e5, ymax * rhozz_norm * 1e5)
         axes2.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 40, rotation = 270)
 
         axes.legend(loc = 0, fontsize = 14, frameon = False, numpoints = 1, markerscale = 1, handletextpad = 0.5)
-- 
2.43.0


From 88c67b0f6e2a61f2e517526bfddcf51a34ea929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 32/40] fix: one colour range, with both ends, for every
 contour of the scattering figures

---
 cuprates_transport/conductivity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 7836459..2c8d84e 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -428,8 +428,9 @@ class Conductivity(Scattering):
         if gamma_min == None:
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
-            gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+            gamma_max = max(gamma_max_list)
+        for line in axes.collections: # one color range for all the contours
+            line.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
         cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
@@ -687,7 +688,8 @@ class Conductivity(Scattering):
             line = axes_srate.add_collection(lc)
         gamma_max = max(gamma_max_list)
         gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+        for line in axes_srate.collections: # one color range for all the contours
+            line.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes_srate)
         cbar.minorticks_on()
         cbar.ax.tick_params(labelsize=10)
-- 
2.43.0


From 4e66248b2756113c3e3972fca84dc453f8eee9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 33/40] fix: figMultipleFS2D draws the planes it labels
 whatever the Brillouin zone height

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 918671a..1de35e9 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -564,8 +564,8 @@ class BandStructure:
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c/2), 0, colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
-- 
2.43.0


From 3d297d40ea9fa9e50eca6ace900a922b9809809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 34/40] fix: figDiscretizeFS2D draws the points of the plane
 whose contour it draws

---
 cuprates_transport/bandstructure.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 1de35e9..bfa8926 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -460,14 +460,16 @@ class BandStructure:
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#FF0000', linewidths = 3) # problem for orthorhombic
         ## k-points
-        line = axes.plot(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                         self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b)
+        # the points of the last plane, where the contour is drawn
+        index = slice(self.kf.shape[1] - self.number_of_points_per_kz_list[-1], None)
+        line = axes.plot(self.kf[0,index] * self.a,
+                         self.kf[1,index] * self.b)
         plt.setp(line, ls ="", c = 'k', lw = 3, marker = "o", mfc = 'k', ms = 5, mec = "#7E2320", mew= 0)
         ## Velocities
-        axes.quiver(self.kf[0,:self.number_of_points_per_kz_list[-1]] * self.a,
-                    self.kf[1,:self.number_of_points_per_kz_list[-1]] * self.b,
-                    self.vf[0,:self.number_of_points_per_kz_list[-1]],
-                    self.vf[1,:self.number_of_points_per_kz_list[-1]],
+        axes.quiver(self.kf[0,index] * self.a,
+                    self.kf[1,index] * self.b,
+                    self.vf[0,index],
+                    self.vf[1,index],
                     color = 'k')
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
-- 
2.43.0


From 4288188edd11fdba01439d7ad271c54e58788c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 35/40] fix: fig_compare of the multi-temperature fit draws
 absolute resistivities in the unit of its label

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index e5dfacc..ea3a315 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -264,8 +264,8 @@ class Fitness:
                 data = self.rzz_data_dict[T]
                 sim = self.rzz_sim_dict[T]
             else:
-                data = self.rhozz_data_dict[T]
-                sim = self.rhozz_sim_dict[T]
+                data = self.rhozz_data_dict[T] * 1e5 # Ohm.m to mOhm.cm
+                sim = self.rhozz_sim_dict[T] * 1e5
                 axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             ## Plotting
             for i, phi in enumerate(self.phis_dict[T]):
-- 
2.43.0


From 565f254ff53f16ccc6d1935c411cc9bb412dc549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 36/40] fix: fig_compare accepts more azimuths than colors

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 cuprates_transport/fitting_admr_parallel_oneT.py   | 8 ++++----
 cuprates_transport/fitting_admr_series_oneT.py     | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index ea3a315..1c2cee0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -270,9 +270,9 @@ class Fitness:
             ## Plotting
             for i, phi in enumerate(self.phis_dict[T]):
                 line = axes.plot(self.thetas_dict[T], data[i,:], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
                 line = axes.plot(self.thetas_dict[T], sim[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
             ## Labels
             axes.set_xlim(np.min(self.thetas_dict[T]), np.max(self.thetas_dict[T]))
             axes.tick_params(axis='x', which='major', pad=7)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 9e18b6c..bc27501 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -276,20 +276,20 @@ class FittingADMRParallel:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rzz_data_dict[phi], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rzz_array[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
         else:
             axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rhozz_data_dict[phi] * 1e5, label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rhozz_array[i,:] * 1e5)
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
 
         ######################################################
         plt.legend(loc = 0, fontsize = 14, frameon = False, numpoints=1, markerscale = 1, handletextpad=0.5)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 9eef17c..5113fba 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -313,20 +313,20 @@ class FittingADMR:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rzz_data_dict[phi], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rzz_array[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
         else:
             axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rhozz_data_dict[phi] * 1e5, label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rhozz_array[i,:] * 1e5)
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
 
         ######################################################
         plt.legend(loc = 0, fontsize = 14, frameon = False, numpoints=1, markerscale = 1, handletextpad=0.5)
-- 
2.43.0


From d5c06e260ad33aff75ec5405e268893ff4288d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 37/40] fix: the vertical axis of figDiscretizeFS3D is kz

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index bfa8926..4a0939a 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -534,7 +534,7 @@ class BandStructure:
         axes.set_yticks([-self.k_max[1], 0., self.k_max[1]])
         axes.set_yticklabels([r"-" + f"{a_y:g}" + r"$\pi$", "0", f"{a_y:g}" + r"$\pi$"])
         a_z = np.round(self.k_max[2] / pi, 1)
-        axes.set_zlabel(r"$k_{\rm y}$", labelpad = 12)
+        axes.set_zlabel(r"$k_{\rm z}$", labelpad = 12)
         axes.set_zticks([-self.k_max[2], 0., self.k_max[2]])
         axes.set_zticklabels([r"-" + f"{a_z:g}" + r"$\pi$", "0", f"{a_z:g}" + r"$\pi$"])
         plt.show()
-- 
2.43.0


From d29190763edba4fa369cbfc0dfdf85689b185bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 38/40] fix: a loaded fit member replaces the band and the data
 of the fit

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bc27501..5aa7bec 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -200,6 +200,10 @@ class FittingADMRParallel:
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
             self.member = json.load(f)
+        ## The band and the data are those of the loaded member
+        self.bandObject = BandStructure(**self.member, parallel=False)
+        self.bandObject.march_square = True
+        self.load_and_interp_data()
 
 
     def save_member_to_json(self, filename=None):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 5113fba..a13ec27 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -231,6 +231,9 @@ class FittingADMR:
     def load_member_from_json(self):
         with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
+        ## The band is that of the loaded member
+        self.bandObject = BandStructure(**self.member)
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From 997530001ab3cdf98517e8286262daf1a9305f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 39/40] fix: saved fit members are named with the doping of
 their band

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 1 +
 cuprates_transport/fitting_admr_series_oneT.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 5aa7bec..91a229f 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -208,6 +208,7 @@ class FittingADMRParallel:
 
     def save_member_to_json(self, filename=None):
         self.generate_admr()
+        self.admrObject.update_total_doping() # for the file name
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index a13ec27..7c9bf62 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -238,6 +238,7 @@ class FittingADMR:
 
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
+        self.admrObject.update_total_doping() # for the file name
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-- 
2.43.0


From 7fdbe9906edf792129b85da6af9d817bf85dc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 40/40] fix: band parameters named like Sympy objects (E,
 gamma, ...) are parameters

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 4a0939a..45c0150 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,8 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        # the names of the parameters take precedence over those of Sympy (E, gamma, ...)
+        self.energy_sym = sp.sympify(band_model, locals={var.name: sp.Symbol(var.name) for var in self.var_sym})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0

