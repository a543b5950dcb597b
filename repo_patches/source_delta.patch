From 7cd4653fb662e29ef6ab4e72bf1a237880e39500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:13 +0000
Subject: [PATCH 01/32] fix: heat load of a continued trajectory no longer
 fails on a nonzero start value

scipy's cumulative_trapezoid only accepts initial=None or 0, so every guided
flight (lift 1/2, drag 2) and every Monte Carlo built on them raised
ValueError as soon as the vehicle had absorbed any heat. Add the heat load at
the start of the segment instead of passing it as 'initial'.
---
 AMAT/vehicle.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 3aab595..8906f4d 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2599,7 +2599,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=self.heatLoad0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def dummyVehicle(self, density_mes_int):
 		"""
@@ -2779,7 +2779,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total , tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -2936,7 +2936,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 				gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
@@ -6857,8 +6857,8 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload = cumulative_trapezoid(q_stag_total, tc, \
-							initial=heatLoad0)
+		heatload = heatLoad0 + cumulative_trapezoid(q_stag_total, tc, \
+							initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
 			   gamma_degc, drange_kmc, exitflag, acc_net_g, dyn_pres_atm, \
-- 
2.43.0


From e3320c8dfd036bb4c53582dcac7cccdce326f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:26 +0000
Subject: [PATCH 02/32] fix: heat load of a guided flight accumulates over all
 guidance cycles

Each guidance cycle restarted the heat load at zero (or at the value at the
start of the exit phase), so the recorded heat load of a guided flight, and
the Monte Carlo peak heat load, were those of one cycle.
---
 AMAT/vehicle.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 8906f4d..4171791 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2512,7 +2512,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		self.q_stag_total = self.q_stag_con + self.q_stag_rad
 		# compute stagnation point heating load
-		self.heatload = cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
+		self.heatload = self.heatLoad0 + cumulative_trapezoid(self.q_stag_total, self.tc, initial=0)
 
 	def propogateEntry2(self, t_sec, dt, delta_deg):
 		"""
@@ -5345,6 +5345,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current 
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, Ji)
 			self.propogateEntry(timeStep, dt, DeltaCMD_deg)
 
@@ -5535,6 +5536,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, drange0_km, Ji)
 			self.propogateEntry2(timeStep, dt, DeltaCMD_deg)
 
@@ -6685,7 +6687,7 @@ class Vehicle:
 		# compute total stagnation point heating rate
 		q_stag_total    = q_stag_con + q_stag_rad
 		# compute stagnation point heating load
-		heatload        = cumulative_trapezoid(q_stag_total , tc, \
+		heatload        = heatLoad0 + cumulative_trapezoid(q_stag_total , tc, \
 			initial=0)
 
 		return t_minc, h_kmc, v_kmsc, phi_degc, psi_degc, theta_degc, \
@@ -6958,6 +6960,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current 
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km,theta0_deg,phi0_deg,v0_kms,psi0_deg,gamma0_deg,\
 								 drange0_km,Ji)
 			self.propogateEntry(timeStep, dt, DeltaCMD_deg)
@@ -7150,6 +7153,7 @@ class Vehicle:
 
 			# propogate the vehicle state to advance from the current
 			# state using the commanded bank angle deltaCMD
+			Ji = heatload[-1]
 			self.setInitialState(h0_km, theta0_deg, phi0_deg, v0_kms, psi0_deg, gamma0_deg, \
 								 drange0_km, Ji)
 			self.propogateEntry2(timeStep, dt, DeltaCMD_deg)
-- 
2.43.0


From 771b802d5e7b0173a9c5590f0d122b4c86b05463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 03/32] fix: bank angle no longer overshoots the command when
 it can be reached in one cycle

The pseudo controller computed the lower roll rate that reaches the commanded
bank angle at the end of the guidance cycle, but rolled at the maximum rate
anyway, overshooting the command (and 180 deg).
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4171791..5ac14a9 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -4568,7 +4568,7 @@ class Vehicle:
 			# so as to achieve the desired bank angle at the 
 			# end of the guidance cycle.
 			bankRate = np.abs(DeltaCMD_deg_command - Delta_deg_ini) / timestep
-			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*self.maxRollRate*timestep
+			DeltaCMD_deg = Delta_deg_ini + np.sign(DeltaCMD_deg_command - Delta_deg_ini)*bankRate*timestep
 			Delta_deg_ini = DeltaCMD_deg
 
 		return DeltaCMD_deg, Delta_deg_ini
-- 
2.43.0


From 27419a100038157ca7892054e35aff6f0141d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:05 +0000
Subject: [PATCH 04/32] fix: net acceleration squares the out-of-plane
 component

acc_w*2.0 was meant to be acc_w**2.0: the recorded (and Monte Carlo peak)
deceleration of a banked vehicle was understated, or NaN.
---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 5ac14a9..c075548 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2092,7 +2092,7 @@ class Vehicle:
 		acc_w = self.a_wvectorized(rc, thetac, phic, vc, delta)
 
 		acc_net = np.zeros(index)
-		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]*2.0)
+		acc_net[:] = np.sqrt(acc_s[:]**2.0 + acc_n[:]**2.0 + acc_w[:]**2.0)
 		acc_net_g = acc_net / self.planetObj.EARTHG
 
 		return acc_net_g
-- 
2.43.0


From 5d741804c148502727f42da4dffab26fd028d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 05/32] fix: guided flight ends when the trajectory can no
 longer advance

A vehicle that fell to the trap altitude (or whose next sample lies above the
atmosphere) repeated the same empty guidance cycle for ever: the flight, and
the Monte Carlo campaign it belonged to, never returned.
---
 AMAT/vehicle.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c075548..fd95aaf 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5000,6 +5000,11 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
 				break
 
@@ -5234,6 +5239,11 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
 				break
 
@@ -5403,6 +5413,11 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
@@ -5593,6 +5608,11 @@ class Vehicle:
 
 			# print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti)) +", DeltaCMD :"+str('{:.2f}'.format(DeltaCMD_deg_command))+", DELTAACT: "+str('{:.2f}'.format(DeltaCMD_deg))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if hi > self.planetObj.h_skip - 10.0E3:
 				break
 
@@ -6172,6 +6192,11 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
 				break
 
@@ -6384,6 +6409,11 @@ class Vehicle:
 			if abs(terminal_apoapsis_km - self.target_apo_km) < self.target_apo_km_tol:
 				break
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
 				break
 
@@ -7019,6 +7049,11 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
@@ -7211,6 +7246,11 @@ class Vehicle:
 
 			#print("H (km): "+ str('{:.2f}'.format(h0_km))+", HDOT: "+str('{:.2f}'.format(hdoti))+", PREDICT. APO. ALT. :"+str(terminal_apoapsis_km))
 
+			if len(t_min_c) < 2:
+				# the trajectory ends where this cycle starts (vehicle trapped
+				# or leaving the atmosphere), more cycles cannot advance it
+				break
+
 			if hi > self.planetObj.h_skip - 1.0E3:
 				break
 
-- 
2.43.0


From 9d859fabdad3b34fb9c19f4e1c3cd76b532610fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:29 +0000
Subject: [PATCH 06/32] fix: corridor and heating analyses leave the vehicle as
 they found it

An interrupted search left its trial entry angle (and L/D) in the vehicle, an
interrupted heating study its trial nose radius, and the drag modulation
searches changed the ballistic coefficient for good, so later flights of the
same vehicle silently used another vehicle.
---
 AMAT/vehicle.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index fd95aaf..6efa98f 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -6,10 +6,35 @@ from scipy.integrate import odeint
 from scipy.integrate import solve_ivp
 from scipy.integrate import cumulative_trapezoid
 import copy
+import functools
 import random as rd
 import os
 
 
+def restoresAttributes(*names):
+	"""
+	Decorator for analyses which vary some of the vehicle attributes.
+	The named attributes are set back to their original values when the
+	analysis ends, also if it is interrupted or fails.
+
+	Parameters
+	----------
+	names : str
+		names of the attributes to set back
+	"""
+	def decorate(method):
+		@functools.wraps(method)
+		def wrapper(self, *args, **kwargs):
+			saved = [(name, getattr(self, name)) for name in names]
+			try:
+				return method(self, *args, **kwargs)
+			finally:
+				for name, value in saved:
+					setattr(self, name, value)
+		return wrapper
+	return decorate
+
+
 class Vehicle:
 	"""
 	The Vehicle class is used to define vehicle parameters, 
@@ -2267,6 +2292,7 @@ class Vehicle:
 
 		return stag_temp
 
+	@restoresAttributes('RN')
 	def computeHeatingForMultipleRN(self, tc, rc, vc, rn_array):
 		"""
 		This function computes the max. stag. pont heating rate 
@@ -3225,6 +3251,7 @@ class Vehicle:
 	
 		return ans
 
+	@restoresAttributes('gamma0_deg')
 	def findOverShootLimit(self, t_sec, dt, gamma0_deg_guess_low,
 							gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
 		"""
@@ -3327,6 +3354,7 @@ class Vehicle:
 
 		return overShootLimit, exitflag_os
 
+	@restoresAttributes('gamma0_deg')
 	def findOverShootLimit2(self,t_sec, dt, gamma0_deg_guess_low,
 								gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
 		"""
@@ -3430,6 +3458,7 @@ class Vehicle:
 		return overShootLimit, exitflag_os
 
 
+	@restoresAttributes('gamma0_deg')
 	def findUnderShootLimit(self, t_sec, dt, gamma0_deg_guess_low,\
 							gamma0_deg_guess_high, gamma_deg_tol, targetApopasisAltitude_km):
 		"""
@@ -3532,6 +3561,7 @@ class Vehicle:
 
 		return underShootLimit, exitflag_us
 
+	@restoresAttributes('gamma0_deg')
 	def findUnderShootLimit2(self, t_sec, dt, gamma0_deg_guess_low,
 							gamma0_deg_guess_high,gamma_deg_tol, targetApopasisAltitude_km):
 		"""
@@ -3756,6 +3786,7 @@ class Vehicle:
 		self.beta1 = beta1
 		self.betaRatio = betaRatio
 
+	@restoresAttributes('gamma0_deg', 'LD')
 	def findEFPALimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 							targetApopasisAltitude_km):
 		"""
@@ -3856,6 +3887,7 @@ class Vehicle:
 
 		return EFPALimit, exitflag
 
+	@restoresAttributes('gamma0_deg', 'LD')
 	def findEFPALimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 					   targetApopasisAltitude_km):
 		"""
@@ -3956,6 +3988,7 @@ class Vehicle:
 
 		return EFPALimit, exitflag
 
+	@restoresAttributes('beta', 'CD')
 	def findUnderShootLimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 									targetApopasisAltitude_km):
 		"""
@@ -4000,6 +4033,7 @@ class Vehicle:
 
 		return underShootLimitD, exitflagD_us
 
+	@restoresAttributes('beta', 'CD')
 	def findUnderShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 							 targetApopasisAltitude_km):
 		"""
@@ -4044,6 +4078,7 @@ class Vehicle:
 
 		return underShootLimitD, exitflagD_us
 
+	@restoresAttributes('beta', 'CD')
 	def findOverShootLimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 								targetApopasisAltitude_km):
 		"""
@@ -4087,6 +4122,7 @@ class Vehicle:
 		
 		return overShootLimitD, exitflagD_os
 
+	@restoresAttributes('beta', 'CD')
 	def findOverShootLimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 							targetApopasisAltitude_km):
 		"""
-- 
2.43.0


From f1253b144e926980fc7df685ca0aacaa0e99279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 07/32] fix: Monte Carlo flies the sampled L/D and ballistic
 coefficient

The configured L/D dispersion was sampled and recorded but every run flew the
nominal L/D; the configured beta1 dispersion of drag modulation campaigns was
ignored. Fly the sampled value in each run, record beta1 next to the other
inputs, and set the vehicle back to nominal afterwards.
---
 AMAT/vehicle.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 6efa98f..443ef63 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5797,6 +5797,7 @@ class Vehicle:
 		self.atmSigmaFactor = atmSigmaFactor
 
 
+	@restoresAttributes('LD', 'CL')
 	def runMonteCarlo(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -5834,6 +5835,8 @@ class Vehicle:
 			selected_efpa = np.random.normal(self.nominalEFPA, self.EFPA_1sigma_value)
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(selected_atmfile, self.heightCol,
@@ -5897,6 +5900,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
+	@restoresAttributes('LD', 'CL')
 	def runMonteCarlo2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -5938,6 +5942,8 @@ class Vehicle:
 			# selected_atmSigma = +0.0
 			selected_atmSigma = np.random.normal(0, self.atmSigmaFactor)
 			selected_LD = np.random.normal(self.nominalLD, self.LD_1sigma_value)
+			self.LD = selected_LD
+			self.CL = self.LD*self.CD
 
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
@@ -7525,6 +7531,7 @@ class Vehicle:
 		self.maxTimeSecs = maxTimeSecs
 
 
+	@restoresAttributes('beta1')
 	def runMonteCarloD(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7570,6 +7577,9 @@ class Vehicle:
 
 			selected_LD       = 0.0
 
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+			self.beta1 = selected_beta1
+
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2(\
 				               selected_atmfile, self.heightCol, \
@@ -7614,6 +7624,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
@@ -7633,6 +7644,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
+	@restoresAttributes('beta1')
 	def runMonteCarloD2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7676,6 +7688,9 @@ class Vehicle:
 
 			selected_LD = 0.0
 
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+			self.beta1 = selected_beta1
+
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile2( \
 				selected_atmfile, self.heightCol, \
@@ -7723,6 +7738,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'efpa.txt', np.array([selected_efpa]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'atmSigma.txt', np.array([selected_atmSigma]))
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'LD.txt', np.array([selected_LD]))
+			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'beta1.txt', np.array([selected_beta1]))
 
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'terminal_apoapsis.txt',
 					   np.array([terminal_apoapsis]))
@@ -7746,6 +7762,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
+	@restoresAttributes('beta1')
 	def runMonteCarloD_Earth(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7791,6 +7808,9 @@ class Vehicle:
 
 			selected_LD       = 0.0
 
+			selected_beta1 = np.random.normal(self.nominalbeta1, self.beta1_1sigma_value)
+			self.beta1 = selected_beta1
+
 			ATM_height, ATM_density_low, ATM_density_avg, ATM_density_high, \
 			ATM_density_pert = self.planetObj.loadMonteCarloDensityFile3(\
 				               selected_atmfile, self.heightCol, \
@@ -7836,6 +7856,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'efpa.txt',np.array([selected_efpa]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'atmSigma.txt',np.array([selected_atmSigma]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'LD.txt',np.array([selected_LD]))
+			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'beta1.txt',np.array([selected_beta1]))
 
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'terminal_apoapsis.txt',np.array([terminal_apoapsis]))
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_error.txt',np.array([apoapsis_error]))
-- 
2.43.0


From 482e456d8061dc128700ef255fd928917f9e2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 08/32] fix: Monte Carlo campaign gives back the nominal
 atmosphere and vehicle

After a campaign (finished or interrupted) the planet kept the perturbed
density profile of the last run, and the drag modulation vehicle the
ballistic coefficient after jettison, so later analyses with the same planet
or vehicle silently used them.
---
 AMAT/vehicle.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 443ef63..44104ce 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -20,17 +20,22 @@ def restoresAttributes(*names):
 	Parameters
 	----------
 	names : str
-		names of the attributes to set back
+		names of the attributes to set back (dotted for
+		attributes of attributes)
 	"""
 	def decorate(method):
 		@functools.wraps(method)
 		def wrapper(self, *args, **kwargs):
-			saved = [(name, getattr(self, name)) for name in names]
+			saved = []
+			for name in names:
+				*path, attribute = name.split('.')
+				owner = functools.reduce(getattr, path, self)
+				saved.append((owner, attribute, getattr(owner, attribute)))
 			try:
 				return method(self, *args, **kwargs)
 			finally:
-				for name, value in saved:
-					setattr(self, name, value)
+				for owner, attribute, value in saved:
+					setattr(owner, attribute, value)
 		return wrapper
 	return decorate
 
@@ -5797,7 +5802,7 @@ class Vehicle:
 		self.atmSigmaFactor = atmSigmaFactor
 
 
-	@restoresAttributes('LD', 'CL')
+	@restoresAttributes('LD', 'CL', 'planetObj.density_int')
 	def runMonteCarlo(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -5900,7 +5905,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
-	@restoresAttributes('LD', 'CL')
+	@restoresAttributes('LD', 'CL', 'planetObj.density_int')
 	def runMonteCarlo2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for lift modulation
@@ -7531,7 +7536,7 @@ class Vehicle:
 		self.maxTimeSecs = maxTimeSecs
 
 
-	@restoresAttributes('beta1')
+	@restoresAttributes('beta1', 'beta', 'CD', 'planetObj.density_int')
 	def runMonteCarloD(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7644,7 +7649,7 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
 			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
-	@restoresAttributes('beta1')
+	@restoresAttributes('beta1', 'beta', 'CD', 'planetObj.density_int')
 	def runMonteCarloD2(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
@@ -7762,7 +7767,7 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
-	@restoresAttributes('beta1')
+	@restoresAttributes('beta1', 'beta', 'CD', 'planetObj.density_int')
 	def runMonteCarloD_Earth(self, N, mainFolder):
 		"""
 		Run a Monte Carlo simulation for drag modulation
-- 
2.43.0


From 44b599421f09372cd80f182ac1161c6eabf018a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 09/32] fix: a failed atmosphere load keeps the previous model
 intact

The lookup table was taken over attribute by attribute, so a load which
failed half way (bad column, too few rows, interrupt) left a planet with the
tables of one model and the interpolation functions of another.
---
 AMAT/planet.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 1e4b6e3..c37716e 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -273,21 +273,21 @@ class Planet:
 			False by default
 		"""
 	
-		self.ATM = np.loadtxt(datfile)
+		ATM = np.loadtxt(datfile)
 
 		if heightInKmFlag is True:
 			# convert heightCol from km to meters
-			self.ATM_height = self.ATM[:, heightCol]*1E3
+			ATM_height = ATM[:, heightCol]*1E3
 		else:
-			self.ATM_height = self.ATM[:, heightCol]
+			ATM_height = ATM[:, heightCol]
 
-		self.ATM_temp = self.ATM[:, tempCol]
-		self.ATM_pressure = self.ATM[:, presCol]
-		self.ATM_density = self.ATM[:, densCol]
+		ATM_temp = ATM[:, tempCol]
+		ATM_pressure = ATM[:, presCol]
+		ATM_density = ATM[:, densCol]
 
 		# derive speed of sound profile from pressure, density 
 		# and specific heat ratio
-		self.ATM_sonic = np.sqrt(self.CPCV*self.ATM_pressure/self.ATM_density)
+		ATM_sonic = np.sqrt(self.CPCV*ATM_pressure/ATM_density)
 		
 		# create interpolating functions using scipy.interpolate.interp1d
 		# fill_value is the value returned by the interpolating function if 
@@ -302,10 +302,17 @@ class Planet:
 		# might go above the altitude for which atmospheric data is available, or 
 		# go below the surface where at atmpospheric data is available.
 
-		self.temp_int = interp1d(self.ATM_height, self.ATM_temp, kind=intType, fill_value=0.0, bounds_error=False)
-		self.pressure_int = interp1d(self.ATM_height, self.ATM_pressure, kind=intType, fill_value=0.0, bounds_error=False)
-		self.density_int = interp1d(self.ATM_height, self.ATM_density, kind=intType, fill_value=0.0, bounds_error=False)
-		self.sonic_int = interp1d(self.ATM_height, self.ATM_sonic, kind=intType, fill_value=1E20, bounds_error=False)
+		temp_int = interp1d(ATM_height, ATM_temp, kind=intType, fill_value=0.0, bounds_error=False)
+		pressure_int = interp1d(ATM_height, ATM_pressure, kind=intType, fill_value=0.0, bounds_error=False)
+		density_int = interp1d(ATM_height, ATM_density, kind=intType, fill_value=0.0, bounds_error=False)
+		sonic_int = interp1d(ATM_height, ATM_sonic, kind=intType, fill_value=1E20, bounds_error=False)
+
+		# replace the current model only when the new one is complete, so that
+		# a failed or interrupted load does not leave a mixture of both
+		self.ATM, self.ATM_height, self.ATM_temp, self.ATM_pressure, self.ATM_density, self.ATM_sonic, \
+			self.temp_int, self.pressure_int, self.density_int, self.sonic_int = \
+			ATM, ATM_height, ATM_temp, ATM_pressure, ATM_density, ATM_sonic, \
+			temp_int, pressure_int, density_int, sonic_int
 
 	def density(self, h):
 		"""
-- 
2.43.0


From b6859251533c0253ca19edb382715cd7ff904304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 10/32] fix: Monte Carlo summary files survive a stop while
 they are rewritten

The summary files are rewritten after every run, and are the only record of
the peak loads of the runs. Stopping the campaign during the rewrite left an
empty or truncated file and lost the values of all completed runs.
---
 AMAT/vehicle.py | 86 +++++++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 44104ce..f6feb34 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -40,6 +40,22 @@ def restoresAttributes(*names):
 	return decorate
 
 
+def saveArray(filename, array):
+	"""
+	Save an array to a text file, replacing the file in one step: if the
+	program is stopped while writing, the previous file is still there.
+
+	Parameters
+	----------
+	filename : str
+		name of the text file
+	array : numpy.ndarray
+		array to save
+	"""
+	np.savetxt(filename+'.tmp', array)
+	os.replace(filename+'.tmp', filename)
+
+
 class Vehicle:
 	"""
 	The Vehicle class is used to define vehicle parameters, 
@@ -5895,15 +5911,15 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt', np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
+			saveArray(mainFolder+'/'+'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			saveArray(mainFolder+'/'+'q_stag_max_arr.txt', q_stag_max_arr)
+			saveArray(mainFolder+'/'+'heatload_max_arr.txt', heatload_max_arr)
 
 	@restoresAttributes('LD', 'CL', 'planetObj.density_int')
 	def runMonteCarlo2(self, N, mainFolder):
@@ -6008,15 +6024,15 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'apoapsis_raise_DV.txt',
 					   np.array([apoapsis_raise_DV]))
 
-			np.savetxt(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			saveArray(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			saveArray(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			saveArray(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			saveArray(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
+			saveArray(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			saveArray(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
+			saveArray(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
 
@@ -7639,15 +7655,15 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt',np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
+			saveArray(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
+			saveArray(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
+			saveArray(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
 	@restoresAttributes('beta1', 'beta', 'CD', 'planetObj.density_int')
 	def runMonteCarloD2(self, N, mainFolder):
@@ -7756,15 +7772,15 @@ class Vehicle:
 			np.savetxt(mainFolder + '/' + '#' + str(i + 1) + '/' + 'apoapsis_raise_DV.txt',
 					   np.array([apoapsis_raise_DV]))
 
-			np.savetxt(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
-			np.savetxt(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
+			saveArray(mainFolder + '/' + 'terminal_apoapsis_arr.txt', terminal_apoapsis_arr)
+			saveArray(mainFolder + '/' + 'terminal_periapsis_arr.txt', terminal_periapsis_arr)
 
-			np.savetxt(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
-			np.savetxt(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			saveArray(mainFolder + '/' + 'periapsis_raise_DV_arr.txt', periapsis_raise_DV_arr)
+			saveArray(mainFolder + '/' + 'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
-			np.savetxt(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
-			np.savetxt(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
+			saveArray(mainFolder + '/' + 'acc_net_g_max_arr.txt', acc_net_g_max_arr)
+			saveArray(mainFolder + '/' + 'q_stag_max_arr.txt', q_stag_max_arr)
+			saveArray(mainFolder + '/' + 'heatload_max_arr.txt', heatload_max_arr)
 
 
 	@restoresAttributes('beta1', 'beta', 'CD', 'planetObj.density_int')
@@ -7871,13 +7887,13 @@ class Vehicle:
 			np.savetxt(mainFolder+'/'+'#'+str(i+1)+'/'+'apoapsis_raise_DV.txt',np.array([apoapsis_raise_DV]))
 
 
-			np.savetxt(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
-			np.savetxt(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_apoapsis_arr.txt',terminal_apoapsis_arr)
+			saveArray(mainFolder+'/'+'terminal_periapsis_arr.txt',terminal_periapsis_arr)
 
-			np.savetxt(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
-			np.savetxt(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'periapsis_raise_DV_arr.txt',periapsis_raise_DV_arr)
+			saveArray(mainFolder+'/'+'apoapsis_raise_DV_arr.txt', apoapsis_raise_DV_arr)
 
-			np.savetxt(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
-			np.savetxt(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
-			np.savetxt(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
+			saveArray(mainFolder+'/'+'acc_net_g_max_arr.txt',acc_net_g_max_arr)
+			saveArray(mainFolder+'/'+'q_stag_max_arr.txt',q_stag_max_arr)
+			saveArray(mainFolder+'/'+'heatload_max_arr.txt',heatload_max_arr)
 
-- 
2.43.0


From 11d6ec8ee6d1c8bc65f0d9d596eae29aec7a30c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:20 +0000
Subject: [PATCH 11/32] fix: scale height of the topmost kilometre is no longer
 zero

---
 AMAT/planet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index c37716e..7248671 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -847,7 +847,10 @@ class Planet:
 
 		# Compute the density scale height using the formula in Hamel 2006
 		# AIAA. DOI = 10.2514/1.20126
-		integ = cumulative_trapezoid(d_array[int(h/1000.0):], h_array[int(h/1000.0):], initial=0)[-1]
+		# keep at least one interval, else the scale height of the topmost
+		# layer is zero
+		index = min(int(h/1000.0), len(h_array)-2)
+		integ = cumulative_trapezoid(d_array[index:], h_array[index:], initial=0)[-1]
 		ans = integ / (self.density(h) - self.density(self.h_skip))
 		return ans
 
-- 
2.43.0


From f1d35a991bce384a5048b51f2ce1e94587889a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 12/32] fix: a campaign refuses an atmospheric profile which is
 incomplete in its file

---
 AMAT/planet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/AMAT/planet.py b/AMAT/planet.py
index 7248671..1eb9fb0 100644
--- a/AMAT/planet.py
+++ b/AMAT/planet.py
@@ -1043,6 +1043,9 @@ class Planet:
 			density interpolation function
 
 		"""
+		if len(ATM_height) < int(i*NPOS):
+			raise ValueError("atmospheric data ends before profile "+str(i)+" is complete")
+
 		nSigma = ATM_density_avg[int((i-1)*NPOS):int(i*NPOS)] - ATM_density_low[int((i-1)*NPOS):int(i*NPOS)]
 		pSigma = ATM_density_high[int((i-1)*NPOS):int(i*NPOS)] - ATM_density_avg[int((i-1)*NPOS):int(i*NPOS)]
 
-- 
2.43.0


From 84dfba3e0f66c0c9e305899f65042c054a8df166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:54 +0000
Subject: [PATCH 13/32] fix: a trajectory ends where the solver gave up, not in
 uninitialized memory

---
 AMAT/vehicle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index f6feb34..4366fdb 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -1776,7 +1776,14 @@ class Vehicle:
 		
 		# use scipy odeint to solve for the entry trajectory using initial 
 		# conditions xbar_0 and vehicle parameters in args
-		xbar = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,))
+		xbar, info = odeint(self.EOM, xbar_0, tbar, rtol=self.tol, atol=self.tol, args=(delta,), full_output=True)
+
+		# if the solver gave up early, keep only the part it has computed
+		# (the remaining entries of its output are not initialized)
+		reached = info['tcur'] >= tbar[1:]
+		if not np.all(reached):
+			tbar = tbar[:np.argmin(reached)+1]
+			xbar = xbar[:len(tbar)]
 
 		# extract solution from odeint into solution variable vectors
 		rbar = xbar[:, 0]    # radial distance rbar solution
-- 
2.43.0


From 64237a3d86e7e8060245999ec8e33e5028fe6492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 14/32] fix: the first phase of a guided flight ends at the
 switch speed

The loop tested an attribute which it never updated, so the documented
switch speed had no effect once the first cycle had started.
---
 AMAT/vehicle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 4366fdb..9ba0fbb 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5056,7 +5056,7 @@ class Vehicle:
 			counter+=1
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -5295,7 +5295,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6254,7 +6254,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km  = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km> 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
@@ -6471,7 +6471,7 @@ class Vehicle:
 
 			# update current speed
 			h_current_km = h_km[-1]
-			v_current_kms = v_kms[-1]
+			self.v_current_kms = v_kms[-1]
 
 			if terminal_apoapsis_km > 0 and terminal_apoapsis_km < self.target_apo_km:
 				break
-- 
2.43.0


From 5beb52f87c7daaf4a5d9088f03b4be5cfedb762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 15/32] fix: a guided flight that has just entered is not taken
 for one that leaves

Near the upper limit of the atmosphere both phases ended without looking at
the direction, so a shallow or slow entry was given up in its first cycles.
---
 AMAT/vehicle.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 9ba0fbb..78a45a3 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -5069,7 +5069,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if h_current_km > self.planetObj.h_skip/1000 - 2.0:
+			if h_current_km > self.planetObj.h_skip/1000 - 2.0 and gamma_deg[-1] > 0:
 				break
 
 		
@@ -5308,7 +5308,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if h_current_km > self.planetObj.h_skip / 1000 - 2.0:
+			if h_current_km > self.planetObj.h_skip / 1000 - 2.0 and gamma_deg[-1] > 0:
 				break
 
 		self.t_min_eg = t_min
@@ -5482,7 +5482,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if hi > self.planetObj.h_skip - 10.0E3:
+			if hi > self.planetObj.h_skip - 10.0E3 and hdoti > 0:
 				break
 
 			h_current_km  = h_km[-1]
@@ -5677,7 +5677,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if hi > self.planetObj.h_skip - 10.0E3:
+			if hi > self.planetObj.h_skip - 10.0E3 and hdoti > 0:
 				break
 
 			h_current_km = h_km[-1]
@@ -6267,7 +6267,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if h_current_km > self.planetObj.h_skip/1000 - 1.0:
+			if h_current_km > self.planetObj.h_skip/1000 - 1.0 and gamma_deg[-1] > 0:
 				break
 
 		
@@ -6484,7 +6484,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if h_current_km > self.planetObj.h_skip / 1000 - 1.0:
+			if h_current_km > self.planetObj.h_skip / 1000 - 1.0 and gamma_deg[-1] > 0:
 				break
 
 		self.t_min_en = t_min
@@ -7124,7 +7124,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if hi > self.planetObj.h_skip - 1.0E3:
+			if hi > self.planetObj.h_skip - 1.0E3 and hdoti > 0:
 				break
 
 			if hi < 20.0E3:
@@ -7321,7 +7321,7 @@ class Vehicle:
 				# or leaving the atmosphere), more cycles cannot advance it
 				break
 
-			if hi > self.planetObj.h_skip - 1.0E3:
+			if hi > self.planetObj.h_skip - 1.0E3 and hdoti > 0:
 				break
 
 			if hi < 20.0E3:
-- 
2.43.0


From da0011d28b3f54e48f5453f25218ed2f10737420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:53 +0000
Subject: [PATCH 16/32] fix: the drag modulation limits are those of a vehicle
 without lift

---
 AMAT/vehicle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 78a45a3..0a8c334 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3814,7 +3814,7 @@ class Vehicle:
 		self.beta1 = beta1
 		self.betaRatio = betaRatio
 
-	@restoresAttributes('gamma0_deg', 'LD')
+	@restoresAttributes('gamma0_deg', 'LD', 'CL')
 	def findEFPALimitD(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 							targetApopasisAltitude_km):
 		"""
@@ -3857,6 +3857,7 @@ class Vehicle:
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis(t_sec, dt, delta_deg, targetApopasisAltitude_km)
@@ -3915,7 +3916,7 @@ class Vehicle:
 
 		return EFPALimit, exitflag
 
-	@restoresAttributes('gamma0_deg', 'LD')
+	@restoresAttributes('gamma0_deg', 'LD', 'CL')
 	def findEFPALimitD2(self, t_sec, dt, gamma0_deg_guess_low, gamma0_deg_guess_high, gamma_deg_tol,
 					   targetApopasisAltitude_km):
 		"""
@@ -3958,6 +3959,7 @@ class Vehicle:
 		delta_deg = 0.0
 
 		self.LD = 0.0
+		self.CL = 0.0
 
 		self.gamma0_deg = gamma0_deg_guess_low
 		ans1 = self.hitsTargetApoapsis2(t_sec, dt, delta_deg, targetApopasisAltitude_km)
-- 
2.43.0


From 9adb3f238180c9d7945fb31dd5ec582a78d107d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:30 +0000
Subject: [PATCH 17/32] fix: a trajectory that leaves the atmosphere and enters
 again ends where it left

---
 AMAT/vehicle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 0a8c334..25255ee 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2014,13 +2014,17 @@ class Vehicle:
 
 		# Check for event occurences
 
-		if h_min >= 0 and h_max > self.planetObj.h_skip:
+		# a trajectory which hits the ground after it has left the atmosphere
+		# (it enters again later) ends where it left for the first time
+		skip_index = np.argmax(h > self.planetObj.h_skip)
+
+		if min(h[:skip_index+1]) >= 0 and h_max > self.planetObj.h_skip:
 			# Check for a "skip out event" occurence.
-			# if trajectory did not hit ground and max 
+			# if trajectory did not hit ground before and max 
 			# altitude > predefined skip altitude
 			# then return the index of the first point after skipping out
 			# set exitflag = 1.0 to indicate trajectory skipped out
-			index = np.argmax(h > self.planetObj.h_skip)
+			index = skip_index
 			exitflag = 1.0
 
 		elif h_min >= self.planetObj.h_trap and h_max < self.planetObj.h_skip:
-- 
2.43.0


From 950deb233f8a72476b56fd48fffbdc964c5df74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:12 +0000
Subject: [PATCH 18/32] fix: a trapped vehicle is captured, and short of its
 target, whatever its speed

---
 AMAT/vehicle.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 25255ee..e1c6b8e 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3089,9 +3089,9 @@ class Vehicle:
 
 		# Check if energy at the terminal point in the 
 		# trajectory is negative, ie. if vehicle is captured at
-		# the atmospheric exit interface. If true return -1.0, 
-		# else return 1.0
-		if energy[self.index-1] < 0:
+		# the atmospheric exit interface, or if it was trapped. 
+		# If true return -1.0, else return 1.0
+		if energy[self.index-1] < 0 or self.exitflag == -1.0:
 			ans = -1.0
 		else:
 			ans = 1.0
@@ -3164,8 +3164,9 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if terminal altitude (km) < planet.h_low, or the vehicle was
+		# trapped, then assume undershoot
+		if terminal_alt < self.planetObj.h_low/1000.0 or self.exitflag == -1.0:
 			ans = 1.0
 	
 		return ans
@@ -3277,8 +3278,9 @@ class Vehicle:
 		else:
 			ans = 1.0
 
-		# if terminal altitude (km) < planet.h_low, then assume undershoot
-		if terminal_alt < self.planetObj.h_low/1000.0:
+		# if terminal altitude (km) < planet.h_low, or the vehicle was
+		# trapped, then assume undershoot
+		if terminal_alt < self.planetObj.h_low/1000.0 or self.exitflag == -1.0:
 			ans = 1.0
 	
 		return ans
-- 
2.43.0


From 25a76fa9393d47d088a95b95db10eb2df1e14916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 19/32] fix: entry longitude in the right half of the planet

---
 AMAT/approach.py | 4 ++--
 AMAT/orbiter.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 0d897fd..6f75f42 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -266,9 +266,9 @@ class Approach:
 											  np.arccos(np.dot(self.r_vec_entry_bi_unit, self.v_vec_entry_bi_unit))
 
 			self.latitude_entry_bi = np.arcsin(self.r_vec_entry_bi_unit[2])
-			self.longitude_entry_bi = np.arctan(self.r_vec_entry_bi_unit[1] / self.r_vec_entry_bi_unit[0])
+			self.longitude_entry_bi = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 
-			self.xi_1 = np.arctan(self.r_vec_entry_bi_unit[1]/self.r_vec_entry_bi_unit[0])
+			self.xi_1 = np.arctan2(self.r_vec_entry_bi_unit[1], self.r_vec_entry_bi_unit[0])
 			self.latitude_entry_bi_analytic = np.arctan(self.r_vec_entry_bi_unit[2]/
 														(self.r_vec_entry_bi_unit[0]*np.cos(self.xi_1) + self.r_vec_entry_bi_unit[1]*np.sin(self.xi_1)))
 
diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 5d9d944..a89b24e 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -737,7 +737,7 @@ class Orbiter:
 			self.gamma_inertial_probe_entry = -1 * np.arccos(self.h_probe_orbit / (self.r_EI * self.v_bi_mag_probe_entry))
 
 			self.latitude_probe_entry_bi = np.arcsin(self.r_vec_bi_probe_entry_unit[2])
-			self.longitude_probe_entry_bi = np.arctan(self.r_vec_bi_probe_entry_unit[1] / self.r_vec_bi_probe_entry_unit[0])
+			self.longitude_probe_entry_bi = np.arctan2(self.r_vec_bi_probe_entry_unit[1], self.r_vec_bi_probe_entry_unit[0])
 
 			self.v_vec_probe_entry_atm = self.vel_vec_probe_entry_atm()
 			self.v_mag_probe_entry_atm = np.linalg.norm(self.v_vec_probe_entry_atm)
-- 
2.43.0


From 2c018138d6bcbfc8180f281d16fcc1e766e5e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:47 +0000
Subject: [PATCH 20/32] fix: orbital velocity has a radial component towards or
 away from the planet as the true anomaly says

---
 AMAT/approach.py | 2 +-
 AMAT/orbiter.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 6f75f42..584cfd5 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = -1*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index a89b24e..b5208b2 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -493,7 +493,7 @@ class Orbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -531,7 +531,7 @@ class Orbiter:
 		r_mag_bi = np.linalg.norm(self.pos_vec_bi_probe(theta_star))
 		v_mag_bi = np.sqrt(self.vehicle.planetObj.GM*(2/r_mag_bi - 1/self.a_probe_orbit))
 
-		gamma = -1*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h_probe_orbit/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
@@ -963,7 +963,7 @@ class PropulsiveOrbiter:
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt(self.approach.planetObj.GM*(2/r_mag_bi - 1/self.a))
 
-		gamma = 1*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi*1.0000001))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From a806b11ca288063e2f086aca59ea63d29e8f6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:57 +0000
Subject: [PATCH 21/32] fix: velocity at the periapsis of an approach could be
 NaN by rounding

---
 AMAT/approach.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/approach.py b/AMAT/approach.py
index 584cfd5..8fa3a93 100644
--- a/AMAT/approach.py
+++ b/AMAT/approach.py
@@ -477,7 +477,7 @@ class Approach:
 
 		r_mag_bi = self.r_mag_bi(theta_star)
 		v_mag_bi = np.sqrt((self.v_inf_mag)**2 + 2*self.planetObj.GM/r_mag_bi)
-		gamma = np.sign(np.sin(theta_star))*np.arccos(self.h/(r_mag_bi*v_mag_bi))
+		gamma = np.sign(np.sin(theta_star))*np.arccos(np.minimum(self.h/(r_mag_bi*v_mag_bi), 1.0))
 
 		vr = v_mag_bi*np.sin(gamma)
 		vt = v_mag_bi*np.cos(gamma)
-- 
2.43.0


From 003ac8bd5b3cdb02042faffb9e334dee23ef8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 22/32] fix: a probe orbit that misses the atmosphere has no
 entry state, and raises no error

---
 AMAT/orbiter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index b5208b2..524cce6 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -756,10 +756,17 @@ class Orbiter:
 			self.heading_atm_probe_entry = np.arccos(np.dot(self.v_atm_probe_entry_unit_proj,
 													  self.atm_probe_entry_local_latitude_parallel_vec_unit))
 
+			theta_star_end = self.theta_star_probe_entry
+
 		else:
 			print("Probe orbit periapsis outside atmospheric skip altitude.")
+			# there is no entry: nothing of an earlier probe must remain,
+			# and the trajectory is computed until periapsis
+			for name in [name for name in vars(self) if "probe_entry" in name]:
+				delattr(self, name)
+			theta_star_end = 2*np.pi
 
-		theta_star_arr = np.linspace(theta_star, self.theta_star_probe_entry, num_points)
+		theta_star_arr = np.linspace(theta_star, theta_star_end, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi_probe(theta_star_arr) / self.vehicle.planetObj.RP
 
 		self.x_probe_orbit_arr = pos_vec_bi_arr[0][:]
-- 
2.43.0


From baa363b4abe0abb85850f5f036b178a9e2fd71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 23/32] fix: a corridor limit within an interval shorter than
 the requested accuracy is found

---
 AMAT/vehicle.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index e1c6b8e..ad27783 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -3372,10 +3372,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target
 				# apospasis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3475,10 +3475,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_low)+ " deg. exceeds target apoapsis altitude or is not captured.")
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target apospasis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				overShootLimit = gamma0_deg_guess_high
-				exitflag_os = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			overShootLimit = gamma0_deg_guess_high
+			exitflag_os = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3579,10 +3579,10 @@ class Vehicle:
 				#print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target \
 				#apoapsis but is captured.")
 				#print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3683,10 +3683,10 @@ class Vehicle:
 				# print("EFPA = "+str(gamma0_deg_guess_high)+" deg. does not hit target \
 				# apoapsis but is captured.")
 				# print("")
-				# set overShootLimit to upper bound
-				# set exitflag to 1.0
-				underShootLimit = gamma0_deg_guess_high
-				exitflag_us = 1.0
+			# set overShootLimit to upper bound
+			# set exitflag to 1.0
+			underShootLimit = gamma0_deg_guess_high
+			exitflag_us = 1.0
 		
 		# if product of flags is positive, overshootlimit is outside user specified bounds, 
 		# print warning message.
@@ -3905,10 +3905,10 @@ class Vehicle:
 				# apoapsis altitude.")
 				# print("")
 
-				# set overShootLimit to lower bound
-				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			# set overShootLimit to lower bound
+			# set exitflag to 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
@@ -4007,10 +4007,10 @@ class Vehicle:
 				# apoapsis altitude.")
 				# print("")
 
-				# set overShootLimit to lower bound
-				# set exitflag to 1.0
-				EFPALimit = gamma0_deg_guess_high
-				exitflag = 1.0
+			# set overShootLimit to lower bound
+			# set exitflag to 1.0
+			EFPALimit = gamma0_deg_guess_high
+			exitflag = 1.0
 
 		# if product of flags is positive, overshootlimit is outside user \
 		# specified bounds, print warning message.
-- 
2.43.0


From f2ddc79c61298341b09ca6a1ef50dbbd038e7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 24/32] fix: Mach number of a single state used np.float, which
 numpy no longer has

Every propagation of a vehicle with a user-defined CD(Mach) function raised
AttributeError.
---
 AMAT/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ad27783..8a2dff3 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2290,9 +2290,9 @@ class Vehicle:
 			Mach no.
 		
 		"""
-		stat_pres = np.float(self.planetObj.pressure_int(r - self.planetObj.RP))
-		stat_temp = np.float(self.planetObj.temp_int(r - self.planetObj.RP))
-		sonic_spd = np.float(self.planetObj.sonic_int(r - self.planetObj.RP))
+		stat_pres = float(self.planetObj.pressure_int(r - self.planetObj.RP))
+		stat_temp = float(self.planetObj.temp_int(r - self.planetObj.RP))
+		sonic_spd = float(self.planetObj.sonic_int(r - self.planetObj.RP))
 		mach = v/sonic_spd
 
 		return mach
-- 
2.43.0


From c4ae5d2d2695a457d20b87544f3ab0689fe25ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 25/32] fix: density measured in flight assumed the constant CD
 for a vehicle with CD(Mach)

The measured density, and with it the prediction which decides the phase
change, was off by the ratio of the actual to the nominal drag coefficient.
---
 AMAT/vehicle.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index 8a2dff3..c721db7 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -972,6 +972,27 @@ class Vehicle:
 
 		return ans
 
+	def dragCoefficient(self, h_km, v_kms):
+		"""
+		Drag coefficient at an altitude and speed: constant, or
+		the user-defined CD(Mach).
+
+		Parameters
+		----------
+		h_km : float
+			altitude, km
+		v_kms : float
+			planet-relative speed, km/s
+
+		Returns
+		----------
+		ans : float
+			drag coefficient
+		"""
+		if self.userDefinedCDMach is True:
+			return self.CDMach(self.computeMachScalar(self.planetObj.RP + h_km*1E3, v_kms*1E3))
+		return self.CD
+
 	def Lbar(self, rbar, theta, phi, vbar):
 		"""
 		Computes the non-dimensional vehicle aerodynamic lift, 
@@ -5039,7 +5060,7 @@ class Vehicle:
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
 			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
-			density_mes = 2*self.mass*acc_drag_g[-1]*self.planetObj.EARTHG / (self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
+			density_mes = 2*self.mass*acc_drag_g[-1]*self.planetObj.EARTHG / (self.dragCoefficient(h_km[-1], v_kms[-1])*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
 			if hdoti > self.hdot_threshold and customFlag == 0:
@@ -5274,7 +5295,7 @@ class Vehicle:
 			heatload = np.concatenate((heatload, heatload_c), axis=0)
 
 			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
-			density_mes = 2 * self.mass * acc_drag_g[-1] * self.planetObj.EARTHG / (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
+			density_mes = 2 * self.mass * acc_drag_g[-1] * self.planetObj.EARTHG / (self.dragCoefficient(h_km[-1], v_kms[-1]) * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
 			if hdoti > self.hdot_threshold and customFlag == 0:
@@ -6239,7 +6260,7 @@ class Vehicle:
 			self.acc_step_array           = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes                   = 2*self.mass*acc_drag_g[-1]*\
 											self.planetObj.EARTHG / \
-											(self.CD*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
+											(self.dragCoefficient(h_km[-1], v_kms[-1])*self.A*(0.5*(vi+v_kms[-1]*1E3))**2.0)
 			self.density_mes_array        = np.append(self.density_mes_array, density_mes)
 
 			if hdoti > self.hdot_threshold and customFlag == 0:
@@ -6455,7 +6476,7 @@ class Vehicle:
 			self.acc_step_array = np.append(self.acc_step_array, acc_net_g[-1])
 			density_mes = 2 * self.mass * acc_drag_g[-1] * \
 						  self.planetObj.EARTHG / \
-						  (self.CD * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
+						  (self.dragCoefficient(h_km[-1], v_kms[-1]) * self.A * (0.5 * (vi + v_kms[-1] * 1E3)) ** 2.0)
 			self.density_mes_array = np.append(self.density_mes_array, density_mes)
 
 			if hdoti > self.hdot_threshold and customFlag == 0:
-- 
2.43.0


From f57c32d2bf9826c2ed576f75744eb7031ff353b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 26/32] fix: time ran backwards for landers on planets with
 retrograde rotation

LanderToPlanet covered one rotation with t = 2*pi/OMEGA, which is negative
for Venus and Uranus: times, and the data volumes integrated over them,
came out negative.
---
 AMAT/visibility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index 97fae40..fb5858f 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -191,8 +191,9 @@ class LanderToPlanet(Visibility):
 		# Convert observer to target unit vector in ICRF to observer planet BI frame
 		self.obs_tar_pos_vec_bi_unit = self.ICRF_to_BI(self.obs_tar_pos_vec_icrf_unit)
 
-		self.longitude_array = np.linspace(0, 360, num_points)  # body inertial longitude array
-		self.t_array = np.linspace(0, 2*np.pi/(self.planetObj.OMEGA), num_points)  # time array
+		# a planet with retrograde rotation turns through -360 degrees
+		self.longitude_array = np.linspace(0, 360*np.sign(self.planetObj.OMEGA), num_points)  # body inertial longitude array
+		self.t_array = np.linspace(0, 2*np.pi/abs(self.planetObj.OMEGA), num_points)  # time array
 		self.beta_array = np.array([])  # beta angle array
 		self.elevation_array = np.array([])  # elevation angle array
 		self.visible_array = np.array([], dtype=bool)
-- 
2.43.0


From 36bc2b0d855b4aa138ac7ae8b7a111dc402fd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:03 +0000
Subject: [PATCH 27/32] fix: receiver antenna had the diameter of the
 transmitter antenna

---
 AMAT/telecom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/telecom.py b/AMAT/telecom.py
index 9e3ccaa..c10ed4e 100644
--- a/AMAT/telecom.py
+++ b/AMAT/telecom.py
@@ -142,7 +142,7 @@ class Link:
 		# if Dr and eta_r are provided, compute receiver gain using these values,
 		# else if Gr_dBi is provided, use this value directly for receiver gain
 		if Dr and eta_r:
-			self.Dr = Dt
+			self.Dr = Dr
 			self.Ar = 0.25 * np.pi * self.Dr * self.Dr
 			self.eta_r = eta_r
 			self.Gr = self.compute_antenna_gain(self.eta_r, self.Dr, self.wavelength)
-- 
2.43.0


From 40b4dc69c2c302d5953c03e977ad5e29ab3795b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 28/32] fix: ranges were wrong with an ephemeris which is not
 in km

astropy's builtin ephemeris is in AU.
---
 AMAT/visibility.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index fb5858f..b682ce8 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -174,12 +174,12 @@ class LanderToPlanet(Visibility):
 			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
-		self.obs_planet_pos = np.array([self.observer_planet_eph [0].x.value,
-										self.observer_planet_eph [0].y.value,
-										self.observer_planet_eph [0].z.value])
-		self.tar_planet_pos = np.array([self.target_planet_eph[0].x.value,
-										self.target_planet_eph[0].y.value,
-										self.target_planet_eph[0].z.value])
+		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.to_value('km'),
+										self.observer_planet_eph[0].y.to_value('km'),
+										self.observer_planet_eph[0].z.to_value('km')])
+		self.tar_planet_pos = np.array([self.target_planet_eph[0].x.to_value('km'),
+										self.target_planet_eph[0].y.to_value('km'),
+										self.target_planet_eph[0].z.to_value('km')])
 
 		# Compute observer to target position vector in ICRF
 		self.obs_tar_pos_vec_icrf = self.tar_planet_pos - self.obs_planet_pos
@@ -412,12 +412,12 @@ class OrbiterToPlanet(Visibility):
 			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
-		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.value,
-										self.observer_planet_eph[0].y.value,
-										self.observer_planet_eph[0].z.value])
-		self.tar_planet_pos = np.array([self.target_planet_eph[0].x.value,
-										self.target_planet_eph[0].y.value,
-										self.target_planet_eph[0].z.value])
+		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.to_value('km'),
+										self.observer_planet_eph[0].y.to_value('km'),
+										self.observer_planet_eph[0].z.to_value('km')])
+		self.tar_planet_pos = np.array([self.target_planet_eph[0].x.to_value('km'),
+										self.target_planet_eph[0].y.to_value('km'),
+										self.target_planet_eph[0].z.to_value('km')])
 
 		# Compute observer to target position vector in ICRF
 		self.obs_tar_pos_vec_icrf = self.tar_planet_pos - self.obs_planet_pos
-- 
2.43.0


From 4c158c9cf2207613a58ca77a441f0bfeb00daf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:46 +0000
Subject: [PATCH 29/32] fix: Titan as the target of a link raised a KeyError

---
 AMAT/visibility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AMAT/visibility.py b/AMAT/visibility.py
index b682ce8..aa49a78 100644
--- a/AMAT/visibility.py
+++ b/AMAT/visibility.py
@@ -171,7 +171,8 @@ class LanderToPlanet(Visibility):
 		# Compute the ephemeris for the observer and target planet
 		with solar_system_ephemeris.set(ephem_file):
 			self.observer_planet_eph = get_body_barycentric_posvel(self.observer_planet, self.arrival_date)
-			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
+			# Titan is at Saturn also if it is the target
+			self.target_planet_eph = get_body_barycentric_posvel('SATURN' if target_planet == 'TITAN' else target_planet, self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
 		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.to_value('km'),
@@ -409,7 +410,8 @@ class OrbiterToPlanet(Visibility):
 		# Compute the ephemeris for the observer and target planet
 		with solar_system_ephemeris.set(ephem_file):
 			self.observer_planet_eph = get_body_barycentric_posvel(self.observer_planet, self.arrival_date)
-			self.target_planet_eph = get_body_barycentric_posvel(target_planet, self.arrival_date)
+			# Titan is at Saturn also if it is the target
+			self.target_planet_eph = get_body_barycentric_posvel('SATURN' if target_planet == 'TITAN' else target_planet, self.arrival_date)
 
 		# Compute observer and target Solar System barycentric position(s) in ICRF (km)
 		self.obs_planet_pos = np.array([self.observer_planet_eph[0].x.to_value('km'),
-- 
2.43.0


From 34051b20a1866bd8ca2b5e00bf84356278743b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 30/32] fix: a coast computed again after the periapsis raise
 was that of the final orbit

---
 AMAT/orbiter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/AMAT/orbiter.py b/AMAT/orbiter.py
index 524cce6..b3263cb 100644
--- a/AMAT/orbiter.py
+++ b/AMAT/orbiter.py
@@ -350,6 +350,7 @@ class Orbiter:
 		self.a = self.vehicle.computeSemiMajorAxisScalar(self.terminal_E)
 		self.e = self.vehicle.computeEccScalar(self.terminal_h, self.terminal_E)
 		self.h = np.sqrt(self.a * self.vehicle.planetObj.GM * (1 - self.e ** 2))
+		self.coast_elements = (self.a, self.e, self.h)
 
 		self.h_vec_bi = np.cross(self.terminal_r_vec, self.terminal_v_ie_vec)
 		self.h_vec_bi_unit = self.h_vec_bi / np.linalg.norm(self.h_vec_bi)
@@ -563,6 +564,10 @@ class Orbiter:
 
 		"""
 
+		# after the periapsis raise the elements are those of the final orbit
+		elements = (self.a, self.e, self.h)
+		self.a, self.e, self.h = self.coast_elements
+
 		theta_star_arr = np.linspace(self.theta_star_exit, np.pi, num_points)
 		pos_vec_bi_arr = self.pos_vec_bi(theta_star_arr) / self.vehicle.planetObj.RP
 
@@ -579,6 +584,8 @@ class Orbiter:
 		self.v_apoapsis_vec_coast = self.vel_vec_bi(np.pi)
 		self.v_apoapsis_mag_coast = np.linalg.norm(self.v_apoapsis_vec_coast)
 
+		self.a, self.e, self.h = elements
+
 	def compute_post_PRM_orbital_elements(self):
 		"""
 		Computes the orbit elements for orbit with periapsis raised
-- 
2.43.0


From e236725d18fc7aee3b6d2f279b7107e43b90850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 31/32] fix: stagnation temperature raised an AttributeError

---
 AMAT/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index c721db7..ea76b5c 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2341,7 +2341,7 @@ class Vehicle:
 		sonic_spd = self.planetObj.sonicvectorized(rc)
 		mach[:] = vc[:]/sonic_spd[:]
 		stag_temp = np.zeros(len(rc))
-		stag_temp[:] = stat_temp[:]*(1+0.5*(self.CPCV-1)*mach[:]**2.0)
+		stag_temp[:] = stat_temp[:]*(1+0.5*(self.planetObj.CPCV-1)*mach[:]**2.0)
 
 		return stag_temp
 
-- 
2.43.0


From f2b21df0742f58161a8a4fff72bbe4b04acb33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 32/32] fix: an entry which starts at the skip out altitude
 raised a ValueError for some altitudes

---
 AMAT/vehicle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AMAT/vehicle.py b/AMAT/vehicle.py
index ea76b5c..4d3afcc 100644
--- a/AMAT/vehicle.py
+++ b/AMAT/vehicle.py
@@ -2035,11 +2035,15 @@ class Vehicle:
 
 		# Check for event occurences
 
+		# a vehicle which starts at the skip out altitude can be above it by a
+		# rounding error, which is not a skip out
+		h_skip = self.planetObj.h_skip + 1E-6
+
 		# a trajectory which hits the ground after it has left the atmosphere
 		# (it enters again later) ends where it left for the first time
-		skip_index = np.argmax(h > self.planetObj.h_skip)
+		skip_index = np.argmax(h > h_skip)
 
-		if min(h[:skip_index+1]) >= 0 and h_max > self.planetObj.h_skip:
+		if min(h[:skip_index+1]) >= 0 and h_max > h_skip:
 			# Check for a "skip out event" occurence.
 			# if trajectory did not hit ground before and max 
 			# altitude > predefined skip altitude
@@ -2048,7 +2052,7 @@ class Vehicle:
 			index = skip_index
 			exitflag = 1.0
 
-		elif h_min >= self.planetObj.h_trap and h_max < self.planetObj.h_skip:
+		elif h_min >= self.planetObj.h_trap and h_max < h_skip:
 			# if trajectory did not reach trap in altitude and max altiude 
 			# < predefined skip altitude
 			# then return the index of the last point ie. full set of data 
-- 
2.43.0

