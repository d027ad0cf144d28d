"""Planted bugs: {id: property, edits [(file under rkstiff, old, new)], needs, breaks, demo (python)}"""
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo, **k):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)


seed("P02-if45dp-node", "P02", [("if45dp.py", "np.exp(31 * z / 45)", "np.exp(32 * z / 45)")],
     "a nonlinear problem with a linear part of order one and a step-halving study; invisible for small h*L and in the existing accuracy tests",
     "IF45DP transports the second stage with the wrong integrating factor: the accepted step is only second-order consistent",
     '''
from rkstiff.if45dp import IF45DP
def onestep(h):
    s = IF45DP(np.array([-1.0, -0.4]), lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]]))
    return s._update_stages(np.array([0.7, 0.3]), h)[0]
def ref(h, n=64):
    s = IF45DP(np.array([-1.0, -0.4]), lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]]))
    u = np.array([0.7, 0.3], dtype=complex)
    f = lambda u: np.array([-1.0, -0.4]) * u + np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]])
    k = h / n
    for _ in range(n):
        a = f(u); b = f(u + k / 2 * a); c = f(u + k / 2 * b); d = f(u + k * c)
        u = u + k / 6 * (a + 2 * b + 2 * c + d)
    return u
e = [np.max(np.abs(onestep(h) - ref(h))) for h in (0.4, 0.2)]
order = np.log2(e[0] / e[1])
print("local order", order)
sys.exit(0 if order > 5.3 else 1)
''')

seed("P03-etd34-estimate", "P03", [("etd34.py", "        self._err = self._a54 * (self._NL4 - self._NL5)\n        return self._k, self._err\n", "        self._err = self._a54 * (self._NL3 - self._NL5)\n        return self._k, self._err\n")],
     "a diagonal operator and a comparison of the estimate at two step sizes",
     "the diagonal ETD34 forms its error estimate from the wrong stage, so it no longer vanishes like h^4 while the controller still assumes it",
     '''
from rkstiff.etd34 import ETD34
def est(h):
    s = ETD34(np.array([-1.0, -0.4]), lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]]))
    return np.max(np.abs(s._update_stages(np.array([0.7, 0.3]), h)[1]))
p = np.log2(est(0.05) / est(0.025))
print("estimate scales like h^", p)
sys.exit(0 if 3.6 < p < 4.4 else 1)
''')

seed("P06-if4-sqrt", "P06", [("if4.py", "self._EL2 = np.exp(z / 2)", "self._EL2 = np.sqrt(self._EL)")],
     "a purely oscillatory mode with |h*lambda| beyond pi (where the principal square root of exp(z) is not exp(z/2)), diagonal form only",
     "the diagonal IF4 derives the half-step exponential from the full one by a square root: wrong sign for fast oscillating modes, so it differs from the matrix form",
     '''
from rkstiff.if4 import IF4
N = lambda u: 0.3 / (1 + np.abs(u) ** 2)
lam = np.array([4j, -0.2 + 5j])
u = np.array([1.0, 0.5 + 0.2j])
a = IF4(lam, N).step(u, 1.0)
b = IF4(np.diag(lam), N).step(u, 1.0)
print(a, b)
sys.exit(0 if np.allclose(a, b, atol=1e-10) else 1)
''')

seed("P07-etd34-realmask", "P07", [("etd34.py", "np.abs(z) < self.etd_config.modecutoff", "np.abs(z.real) < self.etd_config.modecutoff")],
     "an oscillatory mode (small real part, |h*lambda| above the cutoff) and a contour with few points",
     "ETD34 selects the contour evaluation by the real part of h*lambda instead of its magnitude",
     '''
from rkstiff.etd34 import ETD34
from rkstiff.etd import ETDConfig
N = lambda u: 0.3 * u / (1 + np.abs(u) ** 2)
out = [ETD34(np.array([1.5j, -0.001 + 0.7j]), N, etd_config=ETDConfig(contour_points=m))._update_stages(np.array([1.0, 0.5j]), 1.0)[0] for m in (3, 64)]
print(out)
sys.exit(0 if np.allclose(*out, atol=1e-10) else 1)
''')

seed("P08-psi1-tiny", "P08", [("etd.py", "    return (np.exp(z) - 1) / z", "    return np.where(np.abs(z) < 1e-5, 1.0, (np.exp(z) - 1) / z)")],
     "an argument with 0 < |z| < 1e-5",
     "psi1 is replaced by its value at zero for tiny arguments: relative error up to 5e-6, far above the cancellation error it is meant to avoid",
     '''
from rkstiff.etd import psi1
z = np.array([8e-6, 8e-6j, -9e-6])
want = 1 + z / 2 + z**2 / 6
err = np.max(np.abs(psi1(z) - want))
print(err)
sys.exit(0 if err < 1e-9 else 1)
''')

seed("P09-if34-close", "P09", [("if34.py", "        if h != self._h_coeff:", "        if self._h_coeff is None or abs(h - self._h_coeff) > 1e-9 * h:")],
     "two attempts whose step sizes differ by less than one part in 1e9, and a stiff oscillatory mode",
     "IF34 keeps the coefficients of the previous step size for a slightly different one: the step depends on what was attempted before",
     '''
from rkstiff.if34 import IF34
L = np.array([2e8j, -1.0])
N = lambda u: 0 * u
s = IF34(L, N)
s._update_stages(np.array([1.0, 1.0], dtype=complex), 1.0)
a = s._update_stages(np.array([1.0, 1.0], dtype=complex), 1.0 + 8e-10)[0]
b = IF34(L, N)._update_stages(np.array([1.0, 1.0], dtype=complex), 1.0 + 8e-10)[0]
print(a, b)
sys.exit(0 if np.allclose(a, b, atol=1e-6) else 1)
''')

seed("P09-etd34-fsal", "P09", [("etd34.py", "        if accept:\n            self._NL1 = self._NL5.copy()\n        # If not accept, then step failed, reuse previously computed N1\n        self._k = self._EL2 * u + self._a21", "        if self._NL5.any():\n            self._NL1 = self._NL5.copy()\n        # If not accept, then step failed, reuse previously computed N1\n        self._k = self._EL2 * u + self._a21"), ],
     "a rejected attempt followed by a second attempt from the same state (diagonal form)",
     "after a rejection ETD34 starts the next attempt from the nonlinear term of the rejected state",
     '''
from rkstiff.etd34 import ETD34
L = np.array([-1.0, -3.0])
N = lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2])
u = np.array([0.7 + 0j, 0.4])
s = ETD34(L, N)
v = iter([0.5, 1.5])
s._compute_s = lambda a, b: next(v)
a, h, _ = s.step(u, 0.5)
t = ETD34(L, N)
t._compute_s = lambda a, b: 1.5
b, _, _ = t.step(u, h)
print(a, b)
sys.exit(0 if np.allclose(a, b, atol=1e-12) else 1)
''')

seed("P10-if34-reset", "P10", [("if34.py", '        self.__n1_init = False\n        self._h_coeff = None\n        self._accept = False\n\n    def _update_coeffs', '        self._h_coeff = None\n        self._accept = False\n\n    def _update_coeffs')],
     "a second evolution with the same solver instance",
     "reset leaves the cached nonlinear term of the previous run in place, so a second evolution starts from a stale value",
     '''
from rkstiff.if34 import IF34
L = np.array([-1.0, -3.0])
N = lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2])
s = IF34(L, N)
s.evolve(np.array([2.0, -1.0]), 0.0, 0.7, h_init=0.1)
a = s.evolve(np.array([0.7, 0.4]), 0.0, 0.5, h_init=0.1)
b = IF34(L, N).evolve(np.array([0.7, 0.4]), 0.0, 0.5, h_init=0.1)
print(a, b)
sys.exit(0 if np.allclose(a, b, atol=1e-13, rtol=0) else 1)
''')




seed("P12-retry-limit", "P12", [("solveras.py", "            if numloops > self.MAX_LOOPS:", "            if numloops >= self.MAX_LOOPS:")],
     "exactly as many rejections as the retry limit allows",
     "the retry-limit error comes one rejection early: the last permitted attempt is never made",
     '''
from rkstiff.if34 import IF34
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.MAX_LOOPS = 3
n = [0]
def comp(u, e):
    n[0] += 1
    return 0.9 if n[0] <= 3 else 1.1
s._update_stages = lambda u, h: (u, u)
s._compute_s = comp
try:
    s.step(np.array([1.0, 1.0]), 0.1)
    sys.exit(0)
except s.SolverError as e:
    print(e, n)
    sys.exit(1)
''')

seed("P13-overshoot", "P13", [("solveras.py", "        if self.__tc + h > self.__tf:\n", "        if h > self.__tf:\n")],
     "an initial step longer than the span, with a start time that is not zero",
     "the first step is limited by the final time instead of the remaining time and overshoots the end",
     '''
from rkstiff.if34 import IF34
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.evolve(np.array([1.0, 1.0]), 5.0, 5.5, h_init=1.0)
print(s.t)
sys.exit(0 if abs(s.t[-1] - 5.5) < 1e-12 else 1)
''')

seed("P13-default-step", "P13", [("solveras.py", "h_init = (self.__tf - self.__t0) / 100.0", "h_init = abs(self.__tf) / 100.0 or 0.01")],
     "an evolution without h_init whose start time is not zero",
     "the default initial step is a hundredth of the final time instead of the span",
     '''
from rkstiff.if34 import IF34
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.evolve(np.array([1.0, 1.0]), 100.0, 101.0)
print(s.t[1])
sys.exit(0 if abs(s.t[1] - 100.01) < 1e-9 else 1)
''')

seed("P14-store-final", "P14", [("solvercs.py", "            if store_data and (step_count % store_freq == 0):", "            if store_data and (step_count % store_freq == 0 or self.__tc >= self.__tf):")],
     "store_freq that does not divide the number of steps",
     "the final time is stored although it is not a store_freq-th step, so the stored sequence is no longer every store_freq-th step",
     '''
from rkstiff.if4 import IF4
s = IF4(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.evolve(np.array([1.0, 1.0]), 0.0, 1.0, h=0.25, store_freq=3)
print(s.t)
sys.exit(0 if len(s.t) == len(s.u) == 2 and np.allclose(s.t, [0, 0.75]) else 1)
''')



seed("P18-odd", "P18", [("derivatives.py", "u_fft, n=u.shape[-1])", "u_fft)")],
     "an odd number of samples",
     "the inverse transform of dx_rfft assumes an even length: wrong length and values for odd grids",
     '''
from rkstiff.derivatives import dx_rfft
n = 9
x = 2 * np.pi * np.arange(n) / n
r = dx_rfft(np.fft.rfftfreq(n, d=1.0 / n), np.sin(2 * x))
print(r)
sys.exit(0 if r.shape == x.shape and np.allclose(r, 2 * np.cos(2 * x)) else 1)
''')

seed("P19-high-order", "P19", [("derivatives.py", "np.linalg.matrix_power(d_cheb_matrix, n)", "np.linalg.matrix_power(d_cheb_matrix, min(n, d_cheb_matrix.shape[0] - 1))")],
     "a derivative order beyond the degree the grid can hold",
     "orders above the grid degree return the highest representable derivative instead of zero",
     '''
from rkstiff.grids import construct_x_dx_cheb
from rkstiff.derivatives import dx_cheb
x, D = construct_x_dx_cheb(3, -1, 1)
r = dx_cheb(D, x**3, 4)
print(r)
sys.exit(0 if np.max(np.abs(r)) < 1e-8 else 1)
''')

seed("P21-matrix-view", "P21", [("transforms.py", "return self._Y.copy()", "return self._Y")],
     "a caller that changes the matrix it was given",
     "hankel_matrix hands out the internal matrix: editing it corrupts later transforms",
     '''
from rkstiff.transforms import HankelTransform
H = HankelTransform(8, 2.0)
f = np.exp(-H.r**2)
a = H.ht(f)
M = H.hankel_matrix()
M *= 3
print(np.max(np.abs(H.ht(f) - a)))
sys.exit(0 if np.allclose(H.ht(f), a) else 1)
''')

seed("P22-square", "P22", [("grids.py", "unew = np.vstack([np.flipud(u), u])", "unew = np.vstack([np.flip(u) if u.shape[0] == u.shape[1] else np.flipud(u), u])")],
     "a square matrix mirrored along axis 0",
     "mirroring along axis 0 also reverses the second axis for square data",
     '''
from rkstiff.grids import mirror_grid
u = np.arange(9.0).reshape(3, 3)
r, v = mirror_grid(np.array([1.0, 2.0, 3.0]), u, axis=0)
print(v)
sys.exit(0 if np.array_equal(v, np.vstack([u[::-1], u])) else 1)
''')

seed("P23-velocity", "P23", [("models.py", "x0_arr - ampl_arr**2 * t", "x0_arr - ampl_arr.max() ** 2 * t")],
     "several solitons of different amplitude at a time other than zero",
     "all solitons of a multi-soliton state travel with the speed of the largest one",
     '''
from rkstiff.models import kdv_soliton, kdv_multi_soliton
x = np.linspace(-20, 20, 81)
a = kdv_multi_soliton(x, [0.5, 1.5], [-5.0, 3.0], t=2.0)
b = kdv_soliton(x, 0.5, -5.0, 2.0) + kdv_soliton(x, 1.5, 3.0, 2.0)
print(np.max(np.abs(a - b)))
sys.exit(0 if np.allclose(a, b) else 1)
''')


seed("P11-cutoff-absolute", "P11", [("solveras.py", "        tol = self.config.epsilon * np.linalg.norm(u[idx])", "        tol = self.config.epsilon * max(np.linalg.norm(u[idx]), 1e-3)")],
     "a state of small magnitude",
     "the tolerance gets an absolute floor: for small states steps are accepted whose relative error is far beyond epsilon",
     """
from rkstiff.if34 import IF34
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.MAX_LOOPS = 0
s._update_stages = lambda u, h: (1e-6 * np.array([1.0, 0.5]), 1e-8 * np.array([1.0, 0.5]))
try:
    s.step(1e-6 * np.array([1.0, 0.5]), 0.1)
    print("accepted with relative error 1e-2 at epsilon 1e-4")
    sys.exit(1)
except s.SolverError:
    sys.exit(0)
""")


seed("P12-late-minimum", "P12", [("solveras.py", "            if h < self.config.minh:", "            if h < self.config.decr_f * self.config.minh:")],
     "a rejected step whose reduced size lies between decr_f*minh and minh",
     "attempts slightly below the configured minimum step are made",
     """
from rkstiff.if34 import IF34
from rkstiff.solveras import SolverConfig
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u, config=SolverConfig(minh=0.09))
seen = []
def stages(u, h):
    seen.append(h)
    return u, u
s._update_stages = stages
s._compute_s = lambda u, e: 0.8
try:
    s.step(np.array([1.0, 1.0]), 0.1)
except s.SolverError as e:
    pass
print(seen)
sys.exit(0 if min(seen) >= 0.09 else 1)
""")

seed("P13-last-step", "P13", [("solveras.py", "            if self.__tc + h_suggest > self.__tf:", "            if self.__tc + h_suggest > self.__tf + 1e-6 * h_suggest:")],
     "a suggestion that exceeds the remaining time by less than a millionth",
     "the last step may overshoot the final time",
     """
from rkstiff.if34 import IF34
s = IF34(np.array([-1.0, -2.0]), lambda u: 0 * u)
k = [0]
def step(u, h):
    k[0] += 1
    return u, h, 0.5 * (1 + 8e-7)
s.step = step
s.evolve(np.array([1.0, 1.0]), 0.0, 1.0, h_init=0.5)
print(repr(s.t))
sys.exit(0 if max(s.t) <= 1.0 else 1)
""")

seed("P14-accumulate", "P14", [("solvercs.py", "            if store_data and (step_count % store_freq == 0):\n                self.t.append(self.__tc)", "            if store_data and (step_count % store_freq == 0):\n                self.t.append(self.t[-1] + store_freq * h)")],
     "thousands of steps",
     "stored times are accumulated by repeated addition and drift from t0 + k*h",
     """
from rkstiff.if4 import IF4
s = IF4(np.array([-1.0, -2.0]), lambda u: 0 * u)
s.evolve(np.array([1.0, 1.0]), 0.0, 1000.0, h=0.1)
k = np.arange(len(s.t))
d = np.max(np.abs(np.array(s.t) - 0.1 * k))
print(d)
sys.exit(0 if d < 1e-11 else 1)
""")


seed("P16-incr-order", "P16", [("solveras.py", "        self._incr_f = float(value)", "        self._incr_f = max(float(value), 1.0 + 1e-6)")],
     "an increase threshold extremely close to one",
     "accepted values just above one are silently replaced",
     """
from rkstiff.solveras import SolverConfig
c = SolverConfig(incr_f=1.0 + 1e-9)
print(repr(c.incr_f))
sys.exit(0 if c.incr_f == 1.0 + 1e-9 else 1)
""")




seed("P20-rfft-length", "P20", [("grids.py", "kx = 2 * np.pi * np.fft.rfftfreq(n, d=dx)", "kx = 2 * np.pi * np.fft.rfftfreq(n, d=np.round(dx, 8))")],
     "a very fine grid or short interval",
     "the spacing is rounded before the wavenumbers are computed",
     """
from rkstiff.grids import construct_x_kx_rfft
x, k = construct_x_kx_rfft(8, 0.0, 1e-6)
print(k[1] * 1e-6 / (2 * np.pi))
sys.exit(0 if abs(k[1] * 1e-6 / (2 * np.pi) - 1) < 1e-9 else 1)
""")

seed("P21-rmax-stale", "P21", [("transforms.py", "        return self.rmax**2 / self._jN", "        return self.r[-1] ** 2 / self._bessel_zeros[-1] ** 2 * self._jN if False else (self.r[-1] * self._jN / self._bessel_zeros[-1]) ** 2 / self._jN")],
     "a caller that modifies the public radial grid",
     "equivalent unless r is edited", "") if False else None

seed("P23-burgers-mu", "P23", [("models.py", "    lin_op = -mu * kx**2", "    lin_op = -abs(mu) * kx**2")],
     "a negative (anti-)diffusion coefficient",
     "the sign of the diffusion coefficient is dropped",
     """
from rkstiff.models import burgers_ops
L, N = burgers_ops(np.arange(5.0), -0.1)
print(L)
sys.exit(0 if np.allclose(L, 0.1 * np.arange(5.0) ** 2) else 1)
""")




seed("P15-if34-inplace", "P15", [("if34.py", "        self._err = h * (self._NL4 - self._NL5) / 6.0\n        return self._k, self._err\n\n\n# ======================================================================\n# Diagonalized", "        self._err = np.subtract(self._NL4, self._NL5, out=self._NL4)\n        self._err = self._err * h / 6.0\n        return self._k, self._err\n\n\n# ======================================================================\n# Diagonalized")],
     "a nonlinear function that returns an array it keeps (a constant source term, a cached array)",
     "the error estimate is accumulated inside the array returned by the nonlinear function: the caller's array is overwritten",
     """
from rkstiff.if34 import IF34
src = np.array([0.3 + 0j, 0.1])
s = IF34(np.array([-1.0, -2.0]), lambda u: src)
s._update_stages(np.array([1.0, 1.0]), 0.1)
print(src)
sys.exit(0 if np.array_equal(src, [0.3, 0.1]) else 1)
""")

seed("P15-if4-inplace-state", "P15", [("if4.py", "        self._k = self._EL * u + h * (\n            self._EL * self._NL1 / 6.0 + self._EL2", "        out = u if u is getattr(self, \"_last\", None) else np.empty_like(self._k)\n        out[...] = self._EL * u\n        self._k = self._last = out\n        self._k += h * (\n            self._EL * self._NL1 / 6.0 + self._EL2")],
     "an evolution with stored snapshots (diagonal IF4, three or more steps)",
     "when a step starts from the state the previous step returned, that state's array is reused for the result: stored snapshots change",
     """
from rkstiff.if4 import IF4
s = IF4(np.array([-1.0, -2.0]), lambda u: 0.1 * u)
u = np.array([1.0, 1.0], dtype=complex)
a = s.step(u, 0.1)
keep = a.copy()
s.step(a, 0.1)
print(a, keep)
sys.exit(0 if np.array_equal(a, keep) else 1)
""")


seed("P17-solver-type", "P17", [("solveras.py", "        return SolverType.ADAPTIVE_STEP", "        return SolverType.ADAPTIVE_STEP if self.config.minh > 0 and self.config.safety_f > 0 else SolverType.CONSTANT_STEP")],
     "a configuration with a non-positive safety factor (accepted by the validation)",
     "an adaptive solver reports itself as constant-step",
     """
from rkstiff.if34 import IF34
from rkstiff.solveras import SolverConfig
from rkstiff.util.solver_type import SolverType
s = IF34(np.array([-1.0]), lambda u: u, config=SolverConfig(safety_f=-1.0))
print(s.solver_type)
sys.exit(0 if s.solver_type == SolverType.ADAPTIVE_STEP else 1)
""")


seed("P24-progress", "P24", [("solveras.py", "            if step_count % 100 == 0:", "            if step_count % 100 == 0 and self.logger.isEnabledFor(20):\n                h_suggest = min(h_suggest, h)\n            if step_count % 100 == 0:")],
     "INFO level and more than a hundred steps",
     "every hundredth step forgets the suggested increase when progress is logged",
     """
from rkstiff.if34 import IF34
def run(level):
    s = IF34(np.array([-1.0, -3.0]), lambda u: 0 * u, loglevel=level)
    for h in s.logger.handlers:
        if hasattr(h, "setStream"):
            h.setStream(open(os.devnull, "w"))
    k = [0]
    def step(u, h):
        k[0] += 1
        return u, h, h * (2.0 if k[0] == 100 else 1.0)
    s.step = step
    s.evolve(np.array([1.0, 1.0]), 0.0, 105.0, h_init=1.0)
    return s.t
a, b = run("ERROR"), run("INFO")
print(len(a), len(b))
sys.exit(0 if len(a) == len(b) else 1)
""")

seed("P25-if4-kind", "P25", [("if4.py", "        self._k = self._EL2 * u + h * self._EL2 * self._NL1 / 2.0", "        self._k = np.asarray(self._EL2 * u + h * self._EL2 * self._NL1 / 2.0, dtype=np.result_type(self.lin_op, self._NL1, np.float64))")],
     "a real operator and a real nonlinear value with a complex state",
     "the first stage drops the imaginary part of the state when operator and nonlinear value are real",
     """
from rkstiff.if4 import IF4
warnings.simplefilter("ignore")
L = np.array([-1.0, -2.0])
u = np.array([1.0 + 0.5j, 0.3 - 1j])
a = IF4(L, lambda x: np.abs(x)).step(u, 0.1)
b = IF4(L + 0j, lambda x: np.abs(x) + 0j).step(u, 0.1)
print(a, b)
sys.exit(0 if np.allclose(a, b) else 1)
""")



seed("P17-condition", "P17", [("if34.py", "        if cond > 1e16:", "        if cond > 2e16:")],
     "an operator whose condition number lies between 1e16 and 2e16",
     "numerically singular operators are diagonalized instead of refused",
     """
from rkstiff.if34 import IF34
L = np.diag([1.0, 7e-17])
try:
    IF34(L, lambda u: u, diagonalize=True)
    sys.exit(1)
except ValueError:
    sys.exit(0)
""")

seed("P24-debug-scale", "P24", [("solveras.py", '            s = self._compute_s(unew, err)\n', '            if self.logger.isEnabledFor(10):  # relative size of the estimate for the log\n                err /= max(np.max(np.abs(unew)), 1e-300)\n            s = self._compute_s(unew, err)\n')],
     "DEBUG level and a state whose magnitude is not one",
     "at DEBUG level the error estimate is rescaled in place before the step factor is computed: other steps are taken",
     """
from rkstiff.if34 import IF34
def run(level):
    s = IF34(np.array([-1.0, -3.0]), lambda u: 0 * u, loglevel=level)
    for h in s.logger.handlers:
        if hasattr(h, "setStream"):
            h.setStream(open(os.devnull, "w"))
    s._update_stages = lambda u, h: (np.array([70.0, 40.0]), np.array([1e-3, 1e-3]))
    return s.step(np.array([70.0, 40.0]), 0.1)[1:]
a, b = run("ERROR"), run("DEBUG")
print(a, b)
sys.exit(0 if np.allclose(a, b) else 1)
""")

seed("P01-if4-full-stage", "P01", [("if4.py", "self._k = self._EL.dot(u) + h * self._EL2.dot(self._NL3)", "self._k = self._EL.dot(u) + h * self._EL2.dot(self._NL2)")],
     "a matrix operator (the diagonal form is untouched) and a step-size study: the existing matrix tests keep their tolerance",
     "the last stage of the matrix IF4 is built from the second evaluation instead of the third: third order only",
     """
from rkstiff.if4 import IF4
L = np.array([[-1.0, 0.3], [0.1, -0.4]])
N = lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]])
def ref(h, n=64):
    u = np.array([0.7, 0.3], dtype=complex)
    f = lambda u: L @ u + N(u)
    k = h / n
    for _ in range(n):
        a = f(u); b = f(u + k / 2 * a); c = f(u + k / 2 * b); d = f(u + k * c)
        u = u + k / 6 * (a + 2 * b + 2 * c + d)
    return u
e = [np.max(np.abs(IF4(L, N).step(np.array([0.7, 0.3]), h) - ref(h))) for h in (0.2, 0.1)]
order = np.log2(e[0] / e[1])
print("local order", order)
sys.exit(0 if order > 4.5 else 1)
""")

seed("P04-if4-clip", "P04", [("if4.py", "        self._EL = np.exp(z)\n        self._EL2 = np.exp(z / 2)", "        z = np.minimum(z.real, 40.0) + 1j * z.imag  # no overflow for growing modes\n        self._EL = np.exp(z)\n        self._EL2 = np.exp(z / 2)")],
     "a growing mode with h*Re(lambda) above 40, diagonal form",
     "an overflow guard silently caps the growth of unstable modes",
     """
from rkstiff.if4 import IF4
L = np.array([90.0, -1.0])
u = IF4(L, lambda u: 0 * u).step(np.array([1e-10, 1.0]), 0.5)
print(u, np.exp(0.5 * L) * [1e-10, 1.0])
sys.exit(0 if np.allclose(u, np.exp(0.5 * L) * [1e-10, 1.0], rtol=1e-10) else 1)
""")

seed("P04-if34-eigh", "P04", [("if34.py", "        self._eig_vals, self._S = np.linalg.eig(lin_op)\n", "        symmetric = np.array_equal(lin_op, lin_op.T)\n        self._eig_vals, self._S = np.linalg.eigh(lin_op) if symmetric else np.linalg.eig(lin_op)\n")],
     "diagonalization of a complex symmetric (not Hermitian) operator",
     "the symmetric eigensolver is used for operators that are symmetric but not Hermitian: the eigenvalues are wrong",
     """
from rkstiff.if34 import IF34
from scipy.linalg import expm
L = np.array([[-1.0, 0.5j], [0.5j, -2.0]])
s = IF34(L, lambda u: 0 * u, diagonalize=True)
u0 = np.array([1.0, 0.3])
u = s.step(u0, 0.5)[0]
print(u, expm(0.5 * L) @ u0)
sys.exit(0 if np.allclose(u, expm(0.5 * L) @ u0) else 1)
""")

seed("P05-etd4-half-contour", "P05", [("etd4.py", "        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [\n", "        z = z.real if np.all(np.isreal(np.diag(z))) else z  # real operator\n        psi1_12, psi2_12, psi1_1, psi2_1, psi3_1 = [\n")],
     "a matrix operator with a real diagonal and imaginary coupling",
     "the matrix ETD4 takes the operator for real from its diagonal alone and drops the imaginary coupling in the coefficients",
     """
from rkstiff.etd4 import ETD4
from scipy.linalg import expm
L = np.array([[-1.0, 0.5j], [-0.5j, -2.0]])
c = np.array([0.3, -0.7 + 0.2j])
u0 = np.array([1.0, 0.3 + 0j])
u = ETD4(L, lambda u: c).step(u0, 0.2)
E = expm(0.2 * L)
x = E @ u0 + np.linalg.solve(L, (E - np.eye(2)) @ c)
print(u, x)
sys.exit(0 if np.allclose(u, x, atol=1e-9) else 1)
""")
# ---- batch: symmetries, functionals, sizes, state between calls
seed("P26-coarse", "P26", [("etd34.py", "        rr, zz = np.meshgrid(r, zs)\n        Z = zz + rr\n\n        psi1_12 = h * np.sum(psi1(Z / 2), axis=1) / self.etd_config.contour_points\n        psi2_12 = h * np.sum(psi2(Z / 2), axis=1) / self.etd_config.contour_points\n",
 "        if zs.size > 64:  # keep the work arrays small\n            r = r[r.imag > 0]\n        rr, zz = np.meshgrid(r, zs)\n        Z = zz + rr\n\n        psi1_12 = h * np.mean(psi1(Z / 2), axis=1)\n        psi2_12 = h * np.mean(psi2(Z / 2), axis=1)\n")],
     "a diagonal problem with more than 64 modes below the contour cutoff",
     "ETD34 averages over half the contour when more than 64 modes are small and no longer divides by the right number of points",
     """
from rkstiff.etd34 import ETD34
n = 80
lam = np.linspace(-0.02, 0.02, n) * (1 + 0.5j)
f = lambda u: 0.3 - 0.5 * u ** 2
u0 = np.linspace(0.2, 1.0, n) + 0j
a = ETD34(lam, f)._update_stages(u0, 0.1)[0]
b = np.array([ETD34(lam[i:i+1], f)._update_stages(u0[i:i+1], 0.1)[0][0] for i in range(n)])
print(np.max(np.abs(a - b)))
sys.exit(0 if np.allclose(a, b, rtol=1e-10) else 1)
""")

seed("P27-units", "P27", [("if34.py", "        self._eig_vals, self._S = np.linalg.eig(lin_op)\n", "        symmetric = np.allclose(lin_op, lin_op.conj().T)\n        self._eig_vals, self._S = np.linalg.eigh(lin_op) if symmetric else np.linalg.eig(lin_op)\n")],
     "diagonalization of a non-symmetric operator whose entries are below 1e-8 in the units used, with steps of about 1e9",
     "the absolute tolerance of allclose takes every operator with tiny entries for Hermitian: the result depends on the time unit",
     """
from rkstiff.if34 import IF34
L = np.array([[-1.0, 0.8], [0.1, -2.0]])
f = lambda u: np.array([u[0] * u[1], 0.3 - u[1]])
u0 = np.array([1.0, 0.3])
a = IF34(L, f, diagonalize=True)._update_stages(u0, 0.5)[0]
b = IF34(1e-9 * L, lambda u: 1e-9 * f(u), diagonalize=True)._update_stages(u0, 0.5e9)[0]
print(a, b)
sys.exit(0 if np.allclose(a, b) else 1)
""")

seed("P27-flush", "P27", [("etd35.py", "        self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)\n        return self._k, self._err\n", "        self._err = self._a75 * (-self._NL1 + 4 * self._NL3 - 6 * self._NL4 + 4 * self._NL5 - self._NL6)\n        self._err[np.abs(self._err) < 1e-15] = 0.0  # rounding noise\n        return self._k, self._err\n")],
     "a problem measured in large units, so that the state and the error estimate are tiny numbers",
     "the diagonal ETD35 discards error components below an absolute size: in large units the estimate is zero and every step is accepted",
     """
from rkstiff.etd35 import ETD35
L = np.array([-1.0, -0.4])
f = lambda u: np.array([u[0] * u[1] + 0.5, u[0] ** 2 - u[1]])
u0 = np.array([0.7, 0.3])
c = 1e-14
a = ETD35(L, f)._update_stages(u0, 0.3)[1]
b = ETD35(L, lambda u: c * f(u / c))._update_stages(c * u0, 0.3)[1]
print(a, b / c)
sys.exit(0 if np.allclose(a, b / c, rtol=1e-3, atol=1e-12) else 1)
""")

seed("P28-transposed", "P28", [("if34.py", "            + self._EL2.dot(self._NL2 / 3.0)", "            + self._NL2.dot(self._EL2 / 3.0)")],
     "a non-symmetric matrix operator with a conserved quantity",
     "the matrix IF34 transports one stage with the transposed exponential: right for symmetric operators only; conserved totals drift",
     """
from rkstiff.if34 import IF34
L = np.array([[-1.0, 0.4], [1.0, -0.4]])
s = IF34(L, lambda u: (u[0] * u[1]) * np.array([1.0, -1.0]))
u = np.array([0.7, 0.3 + 0j])
e = 0
for k in range(5):
    u, _, _ = s.step(u, 0.3)
    e = max(e, abs(np.sum(u) - 1))
L2 = np.array([[-1.0, 1.0], [0.4, -0.4]])
a = IF34(L2, lambda u: np.array([u[1] ** 2, -0.5 * u[0]]))._update_stages(np.array([0.7, 0.3]), 0.3)[1]
b = IF34(L2, lambda u: np.array([u[1] ** 2, -0.5 * u[0]]), diagonalize=False)
print(e)
sys.exit(0 if e < 1e-12 else 1)
""")

seed("P28-taylor", "P28", [("etd35.py", "        self._EL = np.exp(z)\n", "        self._EL = np.where(np.abs(z) < 1e-4, 1 + z, np.exp(z))\n")],
     "a slowly decaying uncoupled mode followed over many steps with |h*lambda| just below 1e-4",
     "the diagonal ETD35 replaces the exponential of small modes by its linear part: a functional with dw/dt = mu w does not follow exp(mu t)",
     """
from rkstiff.etd35 import ETD35
s = ETD35(np.array([-9e-4, -1.0]), lambda u: np.array([0 * u[0], u[0] * u[1]]))
u = s._update_stages(np.array([1.0, 0.5]), 0.1)[0]
print(abs(u[0] - np.exp(-9e-5)))
sys.exit(0 if abs(u[0] - np.exp(-9e-5)) < 1e-12 else 1)
""")

seed("P18-cached-multiplier", "P18", [("derivatives.py", "def dx_rfft(", "_MULTIPLIERS = {}\n\n\ndef dx_rfft("), ("derivatives.py", "    return np.fft.ifft((1j * kx) ** n * u_fft)", "    key = (kx.size, n, int(np.max(kx)))\n    if key not in _MULTIPLIERS:\n        _MULTIPLIERS[key] = (1j * kx) ** n\n    return np.fft.ifft(_MULTIPLIERS[key] * u_fft)")],
     "two grids of the same size on intervals of slightly different length in one process",
     "dx_fft keeps multipliers by size and rounded maximum of the wavenumbers: a second interval gets those of the first",
     """
from rkstiff.grids import construct_x_kx_fft
from rkstiff.derivatives import dx_fft
bad = 0
for b in (2 * np.pi, 1.9 * np.pi):
    x, kx = construct_x_kx_fft(8, 0, b)
    k = 2 * np.pi / b
    y = dx_fft(kx, np.sin(k * x).astype(complex))
    bad = max(bad, np.max(np.abs(y - k * np.cos(k * x))))
print(bad)
sys.exit(0 if bad < 1e-10 else 1)
""")

seed("P19-cached-grid", "P19", [("grids.py", "from typing import Optional, Tuple\n", "from functools import lru_cache\nfrom typing import Optional, Tuple\n"), ("grids.py", "def construct_x_dx_cheb(", "@lru_cache(maxsize=8)\ndef construct_x_dx_cheb(")],
     "a caller that scales or shifts the returned matrix in place and asks for the same grid again",
     "grid and differentiation matrix are cached and handed out as the same arrays: in-place changes by one caller reach all later ones",
     """
from rkstiff.grids import construct_x_dx_cheb
x, D = construct_x_dx_cheb(6, -1.0, 1.0)
D *= 0.5
x, D = construct_x_dx_cheb(6, -1.0, 1.0)
y = D @ x ** 2
print(y - 2 * x)
sys.exit(0 if np.allclose(y, 2 * x) else 1)
""")

seed("P29-size", "P29", [("derivatives.py", "    u_fft = np.fft.fft(u)\n    if kx.shape != u_fft.shape:", "    u_fft = np.fft.fft(u)\n    if np.size(kx) != np.size(u_fft):")],
     "wavenumbers passed as a column (n, 1), as they come out of a meshgrid",
     "dx_fft compares sizes instead of shapes: a column of wavenumbers is broadcast to an n by n result",
     """
from rkstiff.grids import construct_x_kx_fft
from rkstiff.derivatives import dx_fft
x, kx = construct_x_kx_fft(8)
try:
    y = dx_fft(kx[:, None], np.exp(1j * x))
except ValueError:
    sys.exit(0)
print(np.shape(y))
sys.exit(1)
""")

seed("P30-nyquist", "P30", [("derivatives.py", "    uxn = np.fft.irfft((1j * kx) ** n * u_fft, n=u.shape[-1])", "    mult = (1j * kx) ** n\n    if u.shape[-1] % 2 == 0:\n        # the highest mode is a real cosine\n        mult[-1] = np.abs(mult[-1])\n    uxn = np.fft.irfft(mult * u_fft, n=u.shape[-1])")],
     "data with content at the highest wavenumber of an even grid and an odd derivative order (or order two)",
     "dx_rfft gives the Nyquist mode a real multiplier: the derivative is no longer antisymmetric, reflection and summation by parts fail",
     """
from rkstiff.grids import construct_x_kx_rfft
from rkstiff.derivatives import dx_rfft
x, kx = construct_x_kx_rfft(8)
rng = np.random.default_rng(1)
u, v = rng.normal(size=8), rng.normal(size=8)
e = abs(v @ dx_rfft(kx, u) + u @ dx_rfft(kx, v))
print(e)
sys.exit(0 if e < 1e-10 else 1)
""")

seed("P30-noise", "P30", [("derivatives.py", "    return np.fft.ifft((1j * kx) ** n * u_fft)", "    # rounding noise of the transform would be amplified by high orders\n    if n > 2:\n        mag = np.abs(u_fft)\n        u_fft = np.where(mag < 1e-13 * mag.max(), 0, u_fft)\n    return np.fft.ifft((1j * kx) ** n * u_fft)")],
     "a third or higher derivative of data whose modes differ by more than thirteen orders of magnitude",
     "dx_fft drops small modes next to large ones: the derivative is not linear in its argument",
     """
from rkstiff.grids import construct_x_kx_fft
from rkstiff.derivatives import dx_fft
x, kx = construct_x_kx_fft(16)
a, b = 1e6 * np.ones(16, complex), 5e-8 * np.exp(3j * x)
d = dx_fft(kx, a + b, 4)
e = np.max(np.abs(d - 81 * b))
print(e)
sys.exit(0 if e < 1e-6 else 1)
""")

seed("P31-late", "P31", [("solvercs.py", "        tol = 1e-8 * h\n", "        tol = 1e-8 * h + 1e-14 * abs(t0)\n")] if False else [("solvercs.py", "        while self.__tf - self.__tc > tol:", "        while self.__tf - self.__tc > tol + 1e-9 * abs(t0):")],
     "a run that starts at a late time, more than 1e7 step lengths from zero",
     "the end test is relative to the start time: runs shifted to late times stop early",
     """
from rkstiff.if4 import IF4
out = []
for t0 in (0.0, 2.0 ** 20):
    s = IF4(np.array([-1.0]), lambda u: -u ** 2)
    out.append(s.evolve(np.array([1.0 + 0j]), t0, t0 + 2.0 ** -10, 2.0 ** -12))
print(out)
sys.exit(0 if np.allclose(out[0], out[1], rtol=1e-12, atol=0) else 1)
""")

seed("P31-even-output", "P31", [("solveras.py", "            if store_data and (step_count % store_freq == 0):\n", "            if store_data and store_freq > 1 and step_count % store_freq == 0:\n                # keep the spacing of the stored times even\n                h = min(h, self.__tc - self.t[-1])\n\n            if store_data and (step_count % store_freq == 0):\n")],
     "an adaptive run that stores every n-th step (n > 1) while the step size more than doubles between two outputs",
     "the step size is limited by the spacing of the stored output: how often snapshots are stored changes the trajectory",
     """
from rkstiff.if34 import IF34
out = []
for f in (1, 2):
    s = IF34(np.array([-1.0, -0.1]), lambda u: np.array([u[1] ** 2, 0 * u[0]]))
    s.evolve(np.array([1.0, 0.01 + 0j]), 0.0, 50.0, 1e-9, store_freq=f)
    out.append((s.t, s.u))
n = min(len(out[0][0][::2]), len(out[1][0])) - 1
e = np.max(np.abs(np.array(out[0][0][::2][:n]) - np.array(out[1][0][:n])))
print(e)
sys.exit(0 if e == 0 else 1)
""")

seed("P32-skip", "P32", [("etd34.py", "        if h == self._h_coeff:\n", "        if h == self._h_coeff or not h:\n")],
     "a step of length zero after an ordinary step (a caller whose last interval is empty)",
     "ETD34 keeps the previous coefficients for a step of length zero: the state advances by the previous step",
     """
from rkstiff.etd34 import ETD34
s = ETD34(np.array([-1.0, -3.0]), lambda u: 0.1 * u ** 2)
u, h, _ = s.step(np.array([1.0, 0.5 + 0j]), 0.01)
v, h, _ = s.step(u, 0.0)
print(np.max(np.abs(u - v)))
sys.exit(0 if np.max(np.abs(u - v)) < 1e-14 else 1)
""")

seed("P32-nan", "P32", [("solvercs.py", "        assert h >= 0.0\n", "        assert not h < 0.0\n")],
     "a step length that is not a number (computed by the caller from an empty or degenerate interval)",
     "constant-step solvers accept a step of NaN length: the state and all later steps become NaN",
     """
from rkstiff.etd4 import ETD4
s = ETD4(np.array([-1.0]), lambda u: -u ** 2)
try:
    u = s.step(np.array([1.0 + 0j]), float("nan"))
except AssertionError:
    sys.exit(0)
print(u)
sys.exit(1)
""")

SEEDS = {k: v for k, v in SEEDS.items() if v["demo"]}
