From 0f3afc474444ebaf93005ee880e53c5fd7d17df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/27] fix: total pressure ratio across a shock uses gamma
 downstream as well

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From bd679c2349523e3d1429a5a23844db66da5cb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/27] fix: state operations keep the gas of the state;
 isentropic change keeps total pressure

---
 aerokit/aero/model1D.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..a175cfe 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,21 +50,21 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gamma = self._gamma[i] if isinstance(self._gamma, np.ndarray) else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From c5bb74d254e3fb4eee1050a360a5526c725858f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 03/27] fix: Riemann sampling exactly at the head of the right
 expansion returned the left state

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..1fece5d 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -118,7 +118,7 @@ class riemann_pb:
             rho[i] = self._qL.rho_through_isentropic(p[i])
         # if right expansion
         if self._pstar < self._qR.p:
-            i = np.logical_and((xot > self._waves[3]), (xot < self._waves[4]))
+            i = np.logical_and((xot >= self._waves[3]), (xot < self._waves[4]))
             gam = self._qR._gamma
             gp1 = gam + 1.0
             gm1 = gam - 1.0
-- 
2.43.0


From 8f0bf0719cd2a418e2700587335cae69de01c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 04/27] fix: the gas of a sampled Riemann solution changes at
 the contact, not at x=0

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 1fece5d..0b881c5 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -125,7 +125,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._waves[2], self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From c0b5b4c1d58043a9e1f54f7597960b00f5d6f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/27] fix: a nozzle is computed with its own gamma and leaves
 the saved default gas alone

---
 aerokit/instance/nozzle.py | 45 ++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..0f59eeb 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,16 +75,16 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
-def Ms_from_AsAc_NPR(AsAc, NPR):
+def Ms_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
 
@@ -102,14 +102,17 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    gas = {} if gamma is None else {"gamma": gamma}
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, **gas)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, **gas)
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        if gamma is None:
+            gamma = defg._gamma
+        gmu = gamma - 1.0
+        K = NPR / AsAc / ((gamma + 1.0) / 2) ** ((gamma + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
@@ -169,13 +172,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
@@ -187,7 +188,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +196,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, gamma=self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 4ee9ff95a666b0ce7ba0047c907d7988975b6367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 06/27] fix: turbofan nozzle losses reach the turbojet they are
 computed with

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From 7a9d99210b8969788b6c7ac9373a110e6bf1f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 07/27] fix: fuel air ratio uses the combustion efficiency, not
 the pressure loss

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From 7dd73aa96b9010a179ea4b12cce93b9377965560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 08/27] fix: ideal expansion work of a gas generator is
 cp.Tt45.(1-(P19/Pt45)^((g-1)/g))

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From e3411da2183f7e235a77f05e30e18f3742f30884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 09/27] fix: shock angle of a zero or negative deflection

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..52b5beb 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -235,7 +235,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
@@ -250,7 +250,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
         """
         return deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)
+    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.where(np.less(deflection, 0), -1.0, 1.0)
 
 
 def dev_Max(Mach, gamma=defg._gamma):
-- 
2.43.0


From 340af79dbe9254e9263bfaf3ae76bc51e0254592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 10/27] fix: Propulsion imports the solver from where it is

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From bb70f33b2e49d3f6657dff2b32c4cfed2ccb0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 11/27] fix: extendvar imports dicovar from the package

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From 2fe02600756d042e3f145387eb117674a25945b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 12/27] fix: RKF45 stopped short of xStop after rejecting its
 last step

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..563d413 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -86,5 +86,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
+        else:
+            stopper = 0
         h = hNext
     return np.array(X), np.array(Y)
-- 
2.43.0


From fca0a0c5a5b00b280885a07728b9e3742bcc83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 13/27] fix: an unknown software name no longer wipes the
 current variable dictionary

---
 aerokit/common/dicovar.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..9c2b260 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,11 +103,7 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
-        # Setting database
+        # Setting database (an unknown software leaves the current one as it is)
         softOK = False
         for soft in _dataBase:
             if software.lower() in soft[0]:
-- 
2.43.0


From 5b8bb89841d32416a7b75e12b58f235aad52096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 14/27] fix: dicovar handles capital letters as documented

---
 aerokit/common/dicovar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 9c2b260..c9c08ec 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -133,6 +133,8 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
+        elif var.lower() in self._dv:
+            return self._dv[var.lower()]
         else:
             raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
-- 
2.43.0


From 1782a5ff200087cc7c29e614e2e7242266931bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 15/27] fix: stability operators are rebuilt after a new base
 state or boundary condition

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..00cbf20 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators depend on the base state
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators include boundary conditions
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From 54f69821333be66eae83bd2f58637060086fab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 16/27] fix: boundary condition parameters are not consumed by
 building the operators

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From 9c9d524b8f7b68180c7cdf9345beae9abd6d8808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 17/27] fix: Rankine-Hugoniot rows are written at the boundary
 they belong to

---
 aerokit/stability/Euler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index 083e1f5..bd1b6a9 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -205,11 +205,11 @@ class Euler1D(LinOperator):
         ip = 2 * n
         idxs = 3 * n
         # Build  At dq/dx = B.q
-        for ibc, ieq in enumerate((irho, idxs, ip)):
-            self._At[ieq + i0, :] = 0.0
-            self._B[ieq + i0, :] = 0.0
+        for ibc, ieq in enumerate((irho + i0, idxs, ip + i0)):
+            self._At[ieq, :] = 0.0
+            self._B[ieq, :] = 0.0
             # At contains only dependency on s = d(dxs)/dt : bckSh[:,1] coefs
-            self._At[ieq + i0, idxs] = -bckSh[ibc, 1]
+            self._At[ieq, idxs] = -bckSh[ibc, 1]
             # B contains dependency on dxs
             self._B[ieq, idxs] = bckSh[ibc, 0]
             # B contains dependencies on rho1m', u1m', p1m'
-- 
2.43.0


From 32536aec5b9a315d3af0a93029953341f3d2a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 18/27] fix: the fan is compressed with the fan efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From b88697a56b3aa0b9a544c29092455bb82d51185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 19/27] fix: specific consumption in g/kN/s is 1e6 times the
 one in kg/N/s

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From c286f7bbcc625dc479fd7b64eee05514c0db6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 20/27] fix: subsonic Mach number of an area ratio converged to
 the supersonic one

The initial guess left ]0,1[ (gamma > 1.4) or was too far right of the
root (gamma < 1.4, low Mach numbers): MachSub_Sigma(Sigma_Mach(.1, 1.3), 1.3)
was 3.12.
---
 aerokit/aero/MassFlow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..c0b8446 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -10,9 +10,11 @@ from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
+    # both are lower bounds of the subsonic root (low Mach and sonic expansions):
+    # Sigma is convex so that iterations starting from there remain subsonic
+    low_mach = (2.0 / (gamma + 1.0)) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)) / sigma
+    near_sonic = 1.0 - np.sqrt(0.5 * (gamma + 1.0) * (sigma - 1.0))
+    return np.maximum(low_mach, near_sonic)
 
 
 def __MachSup_sigma(sigma, gamma):
-- 
2.43.0


From bc10ebb60703946ce9f55c1da0385250e564793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 21/27] fix: Mach_Sigma failed on an array of sections with a
 single initial Mach number

---
 aerokit/aero/MassFlow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index c0b8446..ce0b0fc 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -42,7 +42,7 @@ def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
     if np.size(Mach) != 1:
         Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
     else:
-        Minit = Mach
+        Minit = Mach + 0.0 * sigma
 
     def sigma_of_mach(m):
         return Sigma_Mach(m, gamma) - sigma
-- 
2.43.0


From 17cb0e68d7e8fbadc40e0e3d08395f451d8cb792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 22/27] fix: no Mach number at the throat when the shock is
 close to it

The index of the shock was looked for in the whole nozzle and could be the
throat, where the downstream branch has no solution (nan).
---
 aerokit/instance/nozzle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 0f59eeb..b66226a 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -200,7 +200,8 @@ class nozzle:
                 Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
+                isup = self.ithroat + 1
+                ish = isup + np.abs(self._M[isup:] - Msh).argmin()
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-- 
2.43.0


From cc672d486092f99bf374658378a262d90b867750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 23/27] fix: secant solver returned its second starting point
 when the tolerance exceeded their distance

---
 aerokit/aero/IterativeSolve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..180ea13 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,9 +11,10 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 
+    new_x = x*0.999 if x != 0 else tol
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
-    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
+    # the distance between both starting points says nothing about convergence
+    while (it < itmax) and (it == 1 or abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
         next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)
         old_x = new_x
-- 
2.43.0


From b011e32a623184792756db597a603ea61643107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 24/27] fix: the axial Mach number expression uses the name of
 the axial velocity

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From d7a506ce000e346bc125fd4b4fad33563b420d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 25/27] fix: Mach number at a throat whose section ratio is
 rounded below 1

---
 aerokit/aero/MassFlow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ce0b0fc..5e6a53f 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -13,12 +13,13 @@ def __MachSub_sigma(sigma, gamma):
     # both are lower bounds of the subsonic root (low Mach and sonic expansions):
     # Sigma is convex so that iterations starting from there remain subsonic
     low_mach = (2.0 / (gamma + 1.0)) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)) / sigma
-    near_sonic = 1.0 - np.sqrt(0.5 * (gamma + 1.0) * (sigma - 1.0))
+    # the section ratio of a throat may be rounded below 1
+    near_sonic = 1.0 - np.sqrt(0.5 * (gamma + 1.0) * np.maximum(sigma - 1.0, 0.0))
     return np.maximum(low_mach, near_sonic)
 
 
 def __MachSup_sigma(sigma, gamma):
-    return 1.0 + np.sqrt((sigma - 1.0) * (4.0 * (gamma - 1.0) / (3.0 - gamma)))
+    return 1.0 + np.sqrt(np.maximum(sigma - 1.0, 0.0) * (4.0 * (gamma - 1.0) / (3.0 - gamma)))
 
 
 # -- Compressible flow functions  --
-- 
2.43.0


From 73007e617837df044435f4a42a881c72caa1d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 26/27] fix: explicit shock angles of zero or negative
 deflection

---
 aerokit/aero/ShockWave.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 52b5beb..87d3c0c 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -183,6 +183,8 @@ def weaksigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     Returns:
 
     """
+    if deflection < 0:  # mirror image
+        return -weaksigma_Mach_deflection(Mach, -deflection, gamma)
     ka = (1.0 + 0.5 * (gamma + 1.0) * Mach ** 2) * degree.tan(deflection)
     kb = 1.0 - Mach ** 2
     kc = (1.0 + 0.5 * (gamma - 1.0) * Mach ** 2) * degree.tan(deflection)
@@ -208,6 +210,8 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     Returns:
 
     """
+    if deflection < 0:  # mirror image
+        return -strongsigma_Mach_deflection(Mach, -deflection, gamma)
     ka = (1.0 + 0.5 * (gamma + 1.0) * Mach ** 2) * degree.tan(deflection)
     kb = 1.0 - Mach ** 2
     kc = (1.0 + 0.5 * (gamma - 1.0) * Mach ** 2) * degree.tan(deflection)
@@ -219,7 +223,7 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        return degree.atan2(1.0, kf)  # kf vanishes without deflection
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From 3b2f030378d98230ac8a1f8def4a9d657ea555a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 27/27] fix: optimum fan temperature ratio of equal jet
 velocities (static temperature reference, sign of the core compression term)

---
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 1cda39a..12df2a5 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -174,10 +174,10 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     cp = (r * gamma)/(gamma - 1)
     cp_ = (r_ * gamma_)/(gamma_ - 1)
     # Calculs fan
-    tau_lambda = (cp_ * Tt4)/(cp * Tt0)
+    tau_lambda = (cp_ * Tt4)/(cp * T0)
     tau_r = Tt0/T0
     tau_c = pi_c**((gamma - 1)/(eta_c * gamma))
-    tau_f = (tau_lambda*tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
+    tau_f = (tau_lambda - tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
     pi_f = tau_f**((eta_f*gamma)/(gamma - 1))
     Tt13 = Tt2 * tau_f
     Pt13 = Pt2 * pi_f
-- 
2.43.0

