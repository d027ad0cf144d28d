From bf50e2ec269b45b849fd46496586f0bef2cdf400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 01/11] fix: use the Dormand-Prince error weight 71/1920 in
 IF45DP

The fourth error weight was typed 17/1920, so the error estimate was O(h)
instead of O(h^5).
---
 rkstiff/if45dp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 0750437..18500f8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -231,7 +231,7 @@ class IF45DP(BaseSolverAS):
         self._a76 = 11 * h / 84.0
         self._r1 = h * 71 * self._EL / 57600.0
         self._r3 = -71 * h * EL710 / 16695.0
-        self._r4 = 17 * h * self._EL15 / 1920.0
+        self._r4 = 71 * h * self._EL15 / 1920.0
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
-- 
2.43.0


From c334af8c0534136e8a7a4801403bad3346cd14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 02/11] fix: accept adaptive steps whose error estimate is
 exactly zero

---
 rkstiff/solveras.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 25062ef..40471ec 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -450,6 +450,9 @@ class BaseSolverAS(BaseSolver):
         # Use adapt_cutoff to ignore small modes/values in the computation of the step size
         magu = np.abs(u)
         idx = magu / magu.max() > self.config.adapt_cutoff
+        # A finite step with no estimated error at all is exact: accept it with the largest increase
+        if np.all(np.isfinite(magu)) and not np.any(err[idx] if np.any(idx) else err):
+            return self.MAX_S
         tol = self.config.epsilon * np.linalg.norm(u[idx])
         s = self.config.safety_f * np.power(tol / np.linalg.norm(err[idx]), 1.0 / self._q())
         return s
@@ -578,7 +581,7 @@ class BaseSolverAS(BaseSolver):
         tf : float
             Final time.
         h_init : float, optional
-            Initial step size. Defaults to ``(tf - t0) / 100`` if not provided.
+            Initial step size. Defaults to ``(tf - t0) / 100`` if not provided. Must be positive.
         store_data : bool, default=True
             Whether to store intermediate results in :attr:`t` and :attr:`u`.
         store_freq : int, default=1
@@ -610,6 +613,10 @@ class BaseSolverAS(BaseSolver):
             self.t.append(t0)
             self.u.append(u)
 
+        # A non-positive initial step would never advance the solution
+        if h_init is not None and not h_init > 0:
+            raise ValueError(f"h_init must be positive but is {h_init}")
+
         # Set initial step size if none given
         if h_init is None:
             h_init = (self.__tf - self.__t0) / 100.0
-- 
2.43.0


From a2a9cbc760edf218575a69240708f6e26c61d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 03/11] fix: constant-step evolve takes exactly the steps that
 reach tf and rejects non-positive h

---
 rkstiff/solvercs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index 160007d..fa7c49a 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -226,7 +226,7 @@ class BaseSolverCS(BaseSolver):
         Raises
         ------
         ValueError
-            If ``h`` exceeds the total time span ``tf - t0``.
+            If ``h`` is not positive or exceeds the total time span ``tf - t0``.
 
         Notes
         -----
@@ -248,17 +248,20 @@ class BaseSolverCS(BaseSolver):
             self.t.append(t0)
             self.u.append(u)
 
-        # Ensure step size is valid
-        if self.__tc + h > self.__tf:
+        # Ensure step size is valid (tol absorbs the rounding of the time grid)
+        if not h > 0:
+            raise ValueError("Step size h must be positive.")
+        tol = 1e-8 * h
+        if self.__tc + h > self.__tf + tol:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
 
         self.logger.debug("Step size h=%s, store_freq=%s", h, store_freq)
 
         step_count = 0
-        while self.__tc < self.__tf:
+        while self.__tf - self.__tc > tol:
             u = self.step(u, h)
-            self.__tc += h
             step_count += 1
+            self.__tc = t0 + step_count * h
 
             if step_count % 100 == 0:
                 self.logger.info(
-- 
2.43.0


From d422ad8a0cc626677fde2aa1da06b11a02cfa959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 04/11] fix: progress report divides by the time span, not by
 tf (crashed for tf == 0)

---
 rkstiff/solveras.py | 2 +-
 rkstiff/solvercs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 40471ec..0ee77f4 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -638,7 +638,7 @@ class BaseSolverAS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index fa7c49a..f063ba9 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -268,7 +268,7 @@ class BaseSolverCS(BaseSolver):
                     "Progress: t=%.6f/%.6f (%.1f%%), steps=%d",
                     self.__tc,
                     self.__tf,
-                    100 * self.__tc / self.__tf,
+                    100 * (self.__tc - t0) / (self.__tf - t0),
                     step_count,
                 )
 
-- 
2.43.0


From 6b5ccf83275fb1579aafdc6e4408518678a6cd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 05/11] fix: uniform grids always have exactly n points

---
 rkstiff/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index bdeb596..5401b0e 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -80,7 +80,7 @@ def construct_x_kx_rfft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[n
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)
     return x, kx
 
@@ -126,7 +126,7 @@ def construct_x_kx_fft(n: int, a: float = 0.0, b: float = 2 * np.pi) -> Tuple[np
         raise ValueError("n must be an even integer greater than 2.")
 
     dx = (b - a) / n
-    x = np.arange(a, b, dx)
+    x = a + dx * np.arange(n)
     kx = 2 * np.pi * np.fft.fftfreq(n, d=dx)
     return x, kx
 
-- 
2.43.0


From ff8a2f29444f572df07aabaf6ce3961d97cdd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 06/11] fix: diagonalized adaptive solvers return the error
 estimate in the basis of the solution

---
 rkstiff/etd34.py | 2 +-
 rkstiff/etd35.py | 2 +-
 rkstiff/if34.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 4a25323..c918789 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -301,7 +301,7 @@ class _Etd34Diagonalized(_Etd34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = self._a54 * (self._NL4 - self._NL5)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd34NonDiagonal:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index d821272..51608db 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -492,7 +492,7 @@ class _Etd35Diagonalized(_Etd35Diagonal):
             + self._a76 * self._NL6
         )
         self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 class _Etd35NonDiagonal:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 535dbbe..566942a 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -193,7 +193,7 @@ class _If34Diagonalized(_If34Diagonal):
         )
         self._NL5 = self._Sinv.dot(self.nl_func(self._S.dot(self._k)))
         self._err = h * (self._NL4 - self._NL5) / 6.0
-        return self._S.dot(self._k), self._err
+        return self._S.dot(self._k), self._S.dot(self._err)
 
 
 # ======================================================================
-- 
2.43.0


From 00bfb9a0ae5bc7fc9047a7c3b2f77623f69136f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 07/11] fix: a failed coefficient update no longer leaves stale
 coefficients marked as current

---
 rkstiff/etd34.py  | 3 ++-
 rkstiff/etd35.py  | 3 ++-
 rkstiff/etd4.py   | 3 ++-
 rkstiff/etd5.py   | 3 ++-
 rkstiff/if34.py   | 3 ++-
 rkstiff/if4.py    | 3 ++-
 rkstiff/if45dp.py | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index c918789..17e8979 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -582,8 +582,9 @@ class ETD34(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 51608db..11c3dbe 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -850,8 +850,9 @@ class ETD35(ETDAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD35 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index a49b6e3..0ef0488 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -395,8 +395,9 @@ class ETD4(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3255557..3f43e3c 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -615,8 +615,9 @@ class ETD5(ETDCS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("ETD5 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index 566942a..b720d4b 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -314,8 +314,9 @@ class IF34(BaseSolverAS):
     def _update_coeffs(self, h: float) -> None:
         """Recompute coefficients if step size changed."""
         if h != self._h_coeff:
-            self._h_coeff = h
+            self._h_coeff = None  # no valid coefficients until the update is complete
             self._method.update_coeffs(h)
+            self._h_coeff = h
             self.logger.debug("IF34 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> tuple[np.ndarray, np.ndarray]:
diff --git a/rkstiff/if4.py b/rkstiff/if4.py
index 56d86e4..1434606 100644
--- a/rkstiff/if4.py
+++ b/rkstiff/if4.py
@@ -262,8 +262,9 @@ class IF4(BaseSolverCS):
         """Update exponential coefficients if step size :math:`h` changes."""
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         self._method.update_coeffs(h)
+        self._h_coeff = h
         self.logger.debug("IF4 coefficients updated for step size h=%s", h)
 
     def _update_stages(self, u: np.ndarray, h: float) -> np.ndarray:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 18500f8..5d3d5e8 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -200,7 +200,7 @@ class IF45DP(BaseSolverAS):
         """
         if h == self._h_coeff:
             return
-        self._h_coeff = h
+        self._h_coeff = None  # no valid coefficients until the update is complete
         z = h * self.lin_op
         self._EL15 = np.exp(z / 5)
         self._EL310 = np.exp(3 * z / 10)
@@ -235,6 +235,7 @@ class IF45DP(BaseSolverAS):
         self._r5 = -17253 * h * EL19 / 339200.0
         self._r6 = 22 * h / 525.0
         self._r7 = -h / 40.0
+        self._h_coeff = h
         self.logger.debug("IF45 coefficients updated for step size h=%s", h)
 
     def _q(self) -> int:
-- 
2.43.0


From 643965d05872d721bc900bb0174caf2ed5910cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 08/11] fix: configuration setters reject NaN

---
 rkstiff/etd.py      |  4 ++--
 rkstiff/solveras.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index 584a02e..dc6e9d5 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -96,7 +96,7 @@ class ETDConfig:
 
     @modecutoff.setter
     def modecutoff(self, value: float) -> None:
-        if (value > 1.0) or (value <= 0):
+        if not 0 < value <= 1.0:
             raise ValueError(f"modecutoff must be between 0.0 and 1.0 but is {value}")
         self._modecutoff = value
 
@@ -126,7 +126,7 @@ class ETDConfig:
 
     @contour_radius.setter
     def contour_radius(self, value: float) -> None:
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"contour_radius must greater than 0 but is {value}")
         self._contour_radius = value
 
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 0ee77f4..2f6f17f 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -104,7 +104,7 @@ class SolverConfig:
     @epsilon.setter
     def epsilon(self, value: float) -> None:
         """Set relative error tolerance, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"epsilon must be positive but is {value}")
         self._epsilon = float(value)
 
@@ -116,7 +116,7 @@ class SolverConfig:
     @incr_f.setter
     def incr_f(self, value: float) -> None:
         """Set increment factor, must be greater than 1.0."""
-        if value <= 1.0:
+        if not value > 1.0:
             raise ValueError(f"incr_f must be > 1.0 but is {value}")
         self._incr_f = float(value)
 
@@ -128,7 +128,7 @@ class SolverConfig:
     @decr_f.setter
     def decr_f(self, value: float) -> None:
         """Set decrement factor, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"decr_f must be < 1.0 but is {value}")
         self._decr_f = float(value)
 
@@ -140,7 +140,7 @@ class SolverConfig:
     @safety_f.setter
     def safety_f(self, value: float) -> None:
         """Set safety factor, must be ≤ 1.0."""
-        if value > 1.0:
+        if not value <= 1.0:
             raise ValueError(f"safety_f must be <= 1.0 but is {value}")
         self._safety_f = float(value)
 
@@ -152,7 +152,7 @@ class SolverConfig:
     @adapt_cutoff.setter
     def adapt_cutoff(self, value: float) -> None:
         """Set adaptivity cutoff, must be less than 1.0."""
-        if value >= 1.0:
+        if not value < 1.0:
             raise ValueError(f"adapt_cutoff must be < 1.0 but is {value}")
         self._adapt_cutoff = float(value)
 
@@ -164,7 +164,7 @@ class SolverConfig:
     @minh.setter
     def minh(self, value: float) -> None:
         """Set minimum step size, must be positive."""
-        if value <= 0:
+        if not value > 0:
             raise ValueError(f"minh must be positive but is {value}")
         self._minh = float(value)
 
-- 
2.43.0


From 392c908912bea06f328491d381b4d27d8ff1af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 09/11] fix: solvers no longer share one mutable default
 configuration

---
 rkstiff/etd.py      | 12 ++++++------
 rkstiff/etd34.py    | 12 ++++++------
 rkstiff/etd35.py    | 12 ++++++------
 rkstiff/etd4.py     |  4 ++--
 rkstiff/etd5.py     |  4 ++--
 rkstiff/if34.py     |  4 ++--
 rkstiff/if45dp.py   |  4 ++--
 rkstiff/solveras.py |  4 ++--
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/rkstiff/etd.py b/rkstiff/etd.py
index dc6e9d5..6ab919f 100644
--- a/rkstiff/etd.py
+++ b/rkstiff/etd.py
@@ -37,7 +37,7 @@ ETD methods are particularly efficient when
 :math:`\mathcal{N}(\mathbf{U})` evolves on a slower time scale than the linear component :math:`\mathcal{L}\mathbf{U}`.
 """
 
-from typing import Union, Literal, Callable
+from typing import Optional, Union, Literal, Callable
 import numpy as np
 from .solvercs import BaseSolverCS
 from .solveras import SolverConfig, BaseSolverAS
@@ -217,12 +217,12 @@ class ETDAS(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, config, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
 
 
@@ -270,9 +270,9 @@ class ETDCS(BaseSolverCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         super().__init__(lin_op, nl_func, loglevel=loglevel)
-        self.etd_config: ETDConfig = etd_config
+        self.etd_config: ETDConfig = ETDConfig() if etd_config is None else etd_config
         self._h_coeff = None
diff --git a/rkstiff/etd34.py b/rkstiff/etd34.py
index 17e8979..9047aed 100644
--- a/rkstiff/etd34.py
+++ b/rkstiff/etd34.py
@@ -17,7 +17,7 @@ third-order error estimation for adaptive step control.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -509,8 +509,8 @@ class ETD34(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -545,12 +545,12 @@ class ETD34(ETDAS):
         """
         super().__init__(lin_op, nl_func, config=config, etd_config=etd_config, loglevel=loglevel)
         if self._diag:
-            self._method = _Etd34Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd34Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd34Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd34Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd34NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd34NonDiagonal(lin_op, nl_func, self.etd_config)
         self.__n1_init = False
         self._accept = False
 
diff --git a/rkstiff/etd35.py b/rkstiff/etd35.py
index 11c3dbe..efa5e52 100644
--- a/rkstiff/etd35.py
+++ b/rkstiff/etd35.py
@@ -61,7 +61,7 @@ local error estimates derived from the third-order embedding.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDAS, ETDConfig, psi1, psi2, psi3, SolverConfig
@@ -785,8 +785,8 @@ class ETD35(ETDAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
-        etd_config: ETDConfig = ETDConfig(),
+        config: Optional[SolverConfig] = None,
+        etd_config: Optional[ETDConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ):
@@ -820,12 +820,12 @@ class ETD35(ETDAS):
             loglevel=loglevel,
         )
         if self._diag:
-            self._method = _Etd35Diagonal(lin_op, nl_func, etd_config, self.logger)
+            self._method = _Etd35Diagonal(lin_op, nl_func, self.etd_config, self.logger)
         else:
             if diagonalize:
-                self._method = _Etd35Diagonalized(lin_op, nl_func, etd_config, self.logger)
+                self._method = _Etd35Diagonalized(lin_op, nl_func, self.etd_config, self.logger)
             else:
-                self._method = _Etd35NonDiagonal(lin_op, nl_func, etd_config)
+                self._method = _Etd35NonDiagonal(lin_op, nl_func, self.etd_config)
         self._stages_init = False
         self._accept = False
 
diff --git a/rkstiff/etd4.py b/rkstiff/etd4.py
index 0ef0488..03ba9da 100644
--- a/rkstiff/etd4.py
+++ b/rkstiff/etd4.py
@@ -25,7 +25,7 @@ Journal of Computational Physics, 203(1), 72–88.
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -346,7 +346,7 @@ class ETD4(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         r"""
diff --git a/rkstiff/etd5.py b/rkstiff/etd5.py
index 3f43e3c..bf70d6c 100644
--- a/rkstiff/etd5.py
+++ b/rkstiff/etd5.py
@@ -28,7 +28,7 @@ Whalen, P., Brio, M., & Moloney, J.V. (2015).
 Journal of Computational Physics, 280, 579–601.
 """
 
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .etd import ETDCS, ETDConfig, psi1, psi2, psi3
@@ -536,7 +536,7 @@ class ETD5(ETDCS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        etd_config: ETDConfig = ETDConfig(),
+        etd_config: Optional[ETDConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/if34.py b/rkstiff/if34.py
index b720d4b..67156ad 100644
--- a/rkstiff/if34.py
+++ b/rkstiff/if34.py
@@ -39,7 +39,7 @@ J. Comput. Phys. **280**, 579-601 (2015).
 """
 
 import logging
-from typing import Callable, Union, Literal
+from typing import Optional, Callable, Union, Literal
 import numpy as np
 from scipy.linalg import expm
 from .solveras import SolverConfig, BaseSolverAS
@@ -290,7 +290,7 @@ class IF34(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         diagonalize: bool = False,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
diff --git a/rkstiff/if45dp.py b/rkstiff/if45dp.py
index 5d3d5e8..e46b985 100644
--- a/rkstiff/if45dp.py
+++ b/rkstiff/if45dp.py
@@ -1,6 +1,6 @@
 """Integrating factor adaptive step solver of 5th order with 4rd order embedding."""
 
-from typing import Callable, Literal, Union
+from typing import Optional, Callable, Literal, Union
 import numpy as np
 from .solveras import SolverConfig, BaseSolverAS
 
@@ -48,7 +48,7 @@ class IF45DP(BaseSolverAS):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """
diff --git a/rkstiff/solveras.py b/rkstiff/solveras.py
index 2f6f17f..5cd6883 100644
--- a/rkstiff/solveras.py
+++ b/rkstiff/solveras.py
@@ -263,12 +263,12 @@ class BaseSolverAS(BaseSolver):
         self,
         lin_op: np.ndarray,
         nl_func: Callable[[np.ndarray], np.ndarray],
-        config: SolverConfig = SolverConfig(),
+        config: Optional[SolverConfig] = None,
         loglevel: Union[Literal["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"], int] = "WARNING",
     ) -> None:
         """Initialize an adaptive-step solver with validated configuration."""
         super().__init__(lin_op, nl_func, loglevel)
-        self.config = config
+        self.config = config = SolverConfig() if config is None else config
 
         self.logger.debug(
             "Adaptive configuration: epsilon=%s, incr_f=%s, decr_f=%s, safety_f=%s",
-- 
2.43.0


From 894230db492fcadc29c1677915b19602bf47b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 10/11] fix: constant-step evolve rejects an infinite step size

---
 rkstiff/solvercs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/solvercs.py b/rkstiff/solvercs.py
index f063ba9..a9c673e 100644
--- a/rkstiff/solvercs.py
+++ b/rkstiff/solvercs.py
@@ -249,8 +249,8 @@ class BaseSolverCS(BaseSolver):
             self.u.append(u)
 
         # Ensure step size is valid (tol absorbs the rounding of the time grid)
-        if not h > 0:
-            raise ValueError("Step size h must be positive.")
+        if not 0 < h < np.inf:
+            raise ValueError("Step size h must be positive and finite.")
         tol = 1e-8 * h
         if self.__tc + h > self.__tf + tol:
             raise ValueError("Step size h must be <= (tf - t0); reduce h or extend tf.")
-- 
2.43.0


From b078dc5dbcb48c4d3e2b2d69bb8f8281d34b7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 11/11] fix: Hankel transform accepts a NaN radius

---
 rkstiff/grids.py      | 2 +-
 rkstiff/transforms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rkstiff/grids.py b/rkstiff/grids.py
index 5401b0e..08c7cee 100644
--- a/rkstiff/grids.py
+++ b/rkstiff/grids.py
@@ -254,7 +254,7 @@ def construct_r_kr_hankel(nr: int, rmax: float) -> Tuple[np.ndarray, np.ndarray,
     """
     if nr < 4:
         raise ValueError("nr must be ≥ 4.")
-    if rmax <= 0:
+    if not rmax > 0:
         raise ValueError("rmax must be positive.")
 
     bessel_zeros = sp.jn_zeros(0, nr + 1)
diff --git a/rkstiff/transforms.py b/rkstiff/transforms.py
index 11949c6..3cede78 100644
--- a/rkstiff/transforms.py
+++ b/rkstiff/transforms.py
@@ -167,7 +167,7 @@ class HankelTransform:
     @rmax.setter
     def rmax(self, rmax: float):
         """Set maximum radial extent and recompute Hankel transform grid."""
-        if rmax <= 0:
+        if not rmax > 0:
             raise ValueError("rmax must be positive.")
         self._setnr_setrmax(self._nr, rmax)
 
-- 
2.43.0

