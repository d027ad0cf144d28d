"""writes properties.jsonl"""
import json, os
P = []
R = "rkstiff/"
METH = [R + f for f in ("etd.py", "etd4.py", "etd5.py", "if4.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py")]
CSF = [R + f for f in ("solvercs.py", "etd.py", "etd4.py", "etd5.py", "if4.py")]
ASF = [R + f for f in ("solveras.py", "etd.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py")]


def p(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


p("P01", "Constant-step solvers have their stated order for every smooth problem",
  "For every system U' = L U + N(U) with smooth N, one step of size h of a constant-step solver agrees with the exact solution through the h^p term, p = 4 for ETD4 and IF4 and p = 5 for ETD5, in the diagonal and the full-matrix form.",
  ["inputs", "programs"], "every linear operator, smooth nonlinear function, state and (small) step",
  "Tests integrate one or two PDEs and look at a final error; they cannot cover every elementary differential of every nonlinearity.",
  CSF, [("stage formulas and exponential coefficients", "rkstiff/etd4.py, etd5.py, if4.py: update_coeffs / update_stages of each strategy")])
p("P02", "Adaptive solvers propagate a solution of their stated order",
  "For every system U' = L U + N(U) with smooth N, the state returned by one accepted step of an adaptive solver agrees with the exact solution through the h^p term, p = 4 for ETD34 and IF34 and p = 5 for ETD35 and IF45DP.",
  ["inputs", "programs"], "every linear operator, smooth nonlinear function, state and (small) step",
  "Adaptive tests only compare a final error with a loose tolerance; an order loss only makes the controller take smaller steps.",
  ASF, [("stage formulas and exponential coefficients", "rkstiff/etd34.py, etd35.py, if34.py, if45dp.py: update_coeffs / update_stages")])
p("P03", "The embedded error estimate has the order the step controller assumes",
  "For every smooth problem the error estimate of an attempted step vanishes through the h^(q-1) term and does not vanish identically at h^q, q = 4 for the (3,4) and (3,5) pairs and q = 5 for IF45DP, so that shrinking h by s shrinks the estimate by s^q.",
  ["inputs", "programs"], "every linear operator, smooth nonlinear function, state and (small) step",
  "The estimate is internal to step control: a wrong weight gives an O(h) estimate and the tests still reach tf, only with more steps.",
  ASF, [("embedded weights", "update_stages of each adaptive strategy"), ("controller exponent", "rkstiff/solveras.py step factor")])
p("P04", "Linear problems are solved exactly and never rejected",
  "With a zero nonlinear part every step of every solver returns exp(hL)u exactly, for every step size and operator, in diagonal, full and diagonalized form; the adaptive error estimate is exactly zero and the controller accepts the step unchanged.",
  ["inputs"], "every operator, state and step size, repeated steps",
  "Tests use a few operators and steps, and never an error estimate that is exactly zero.",
  METH, [("exponential propagators", "update_coeffs of each strategy"), ("zero-estimate acceptance", "rkstiff/solveras.py step-factor computation")])
p("P05", "Exponential time-differencing solvers are exact for constant forcing",
  "For a constant nonlinear part c, every step of an exponential time-differencing solver returns exp(hL)u + L^{-1}(exp(hL)-1)c for every h and every invertible L, so that equilibria -L^{-1}c are fixed points, and the adaptive error estimate is zero.",
  ["inputs"], "every operator, forcing, state and step size; direct and contour coefficient evaluation",
  "Exactness for all h needs all coefficients of a stage to sum to the first exponential integral identically in z; tests see a handful of z.",
  METH[:1] + [R + "etd4.py", R + "etd5.py", R + "etd34.py", R + "etd35.py"], [("coefficient row sums", "coefficient formulas of the etd*.py strategies")])
p("P06", "Diagonal, full-matrix and diagonalized forms compute the same step",
  "For the same operator written as a vector of eigenvalues, as a matrix, or as a matrix with diagonalization requested, every solver that offers these forms returns the same state and the same error estimate, expressed in the basis of the caller, for every nonlinear function.",
  ["inputs", "programs"], "every diagonalizable operator, nonlinear function, state and step size",
  "Tests compare final states of one problem loosely; a wrong error basis or one altered coefficient of one strategy only shifts step sizes.",
  METH, [("three strategies per method", "_*Diagonal, _*Diagonalized and _*NonDiagonal classes")])
p("P07", "Coefficient evaluation switches between formulas without changing the step",
  "For diagonal operators the coefficients computed by the contour integral (modes with |h*lambda| below the cutoff, including zero) and by the closed formulas (all other modes) are the same functions, each mode is treated by its own magnitude alone, and no mode influences another mode's coefficients.",
  ["inputs", "configurations"], "every mix of small, large, zero, real and complex modes in any order, every cutoff, contour size and radius",
  "Tests have few modes below the cutoff and compare with loose tolerances, so a formula that is wrong in only one of the two branches, or a mask slip, is hidden.",
  METH[:1] + [R + "etd4.py", R + "etd5.py", R + "etd34.py", R + "etd35.py"], [("small-mode mask and contour loop", "update_coeffs of the diagonal and diagonalized strategies")])
p("P08", "The psi functions are the exponential integrals they are documented to be",
  "psi_r(z) = r * integral_0^1 exp((1-t)z) t^(r-1) dt for r = 1, 2, 3 at every nonzero complex z, element-wise, without modifying the argument.",
  ["inputs"], "every nonzero real or complex argument and every array shape",
  "Tests evaluate them at a few points.",
  [R + "etd.py"], [("closed formulas", "psi1, psi2, psi3")])
p("P09", "A step depends only on the state and step size, not on what happened before",
  "Along one trajectory, whatever sequence of accepted steps, rejected attempts, step-size changes and exceptions (raised by the nonlinear function or while coefficients are computed) came before, the next attempt of a solver gives exactly what a freshly created solver gives for the same state and step size.",
  ["histories", "fault_sequences"], "every sequence of accepted/rejected attempts, step sizes and faults of one integration",
  "Re-used first stages and cached coefficients only go wrong after particular accept/reject/fault sequences that the tests do not enumerate.",
  METH + [R + "solveras.py"], [("first-same-as-last re-use", "update_stages(accept) of the adaptive strategies and IF4"), ("coefficient cache", "_update_coeffs of each solver")],
  [("cached step size", "step size the coefficients belong to", "rkstiff/etd.py ETDAS/ETDCS, if*.py"), ("accept flag", "whether the last attempt was accepted", "rkstiff/solveras.py")])
p("P10", "Runs are reproducible and solver instances are independent",
  "Evolving twice with one solver, or evolving after an explicit reset or after an aborted evolution, gives the same times and states as a fresh solver with the same settings, including settings changed between the runs; nothing done with or configured on one solver instance changes the results or the settings of another one.",
  ["histories"], "every interleaving of construction, configuration, step, evolve, abort and reset of one or two solvers",
  "Tests reset once after a normal run; state surviving an abort, or shared default objects, need particular sequences.",
  [R + "solver.py", R + "solveras.py", R + "solvercs.py"] + METH, [("reset and per-solver state", "reset/_reset of the base and concrete solvers"), ("configuration ownership", "constructors of ETDAS, ETDCS, BaseSolverAS")])
p("P11", "The step controller accepts exactly the steps whose estimate meets the tolerance",
  "A step is accepted if and only if safety*(eps*|u|/|err|)^(1/q) >= 1 with both norms over the modes above the relative cutoff; the next suggestion is h itself or h times a factor between the increase threshold and the maximum, a rejected step shrinks by a factor between the minimum and the decrease limit, and non-finite values are never accepted.",
  ["inputs", "configurations"], "every state, estimate (including zero, infinite and NaN) and configuration",
  "Tests call the controller with a few hand-made vectors.",
  [R + "solveras.py"], [("step factor, acceptance and rejection", "step, _compute_s, _accept_step_size, _reject_step_size")])
p("P12", "An adaptive step ends: accepted, or one of two documented errors",
  "Every adaptive step call ends after at most the retry limit plus one attempts, either with an accepted step no longer than the suggestion, or with the retry-limit error after exactly that many rejections, or with the minimum-step error as soon as the next attempt would be below the configured minimum; no attempt below the minimum is ever made after a rejection.",
  ["histories", "configurations"], "every sequence of controller verdicts, step sizes and limits",
  "Tests force one failure of each kind.",
  [R + "solveras.py"], [("retry loop", "step")])
p("P13", "Adaptive evolution reaches the final time exactly once and never overshoots",
  "For every start, end and initial step, the accepted steps of an adaptive evolution are positive, no step reaches beyond the end, the last step ends at the final time up to the rounding of one addition, the first suggestion is the given initial step (by default a hundredth of the span) and every step is the current suggestion cut to the remaining time, the stored times are the start followed by the running sums at every store_freq-th step, and the returned state is the state of the last step; a non-positive or NaN initial step is rejected with an error.",
  ["histories", "inputs", "configurations"], "every span (including negative and zero times), initial step, storage frequency and sequence of step sizes the controller returns",
  "Tests run a few spans starting at 0 with default settings.",
  [R + "solveras.py"], [("time bookkeeping", "evolve")], [("current time", "sum of accepted steps", "rkstiff/solveras.py evolve")])
p("P14", "Constant-step evolution takes exactly the steps that reach the final time",
  "A constant-step evolution takes the smallest number n of steps with t0 + n*h >= tf (up to a relative 1e-8 of a step), stores t0 and every store_freq-th time t0 + k*h without accumulated rounding, returns the state after n steps, and raises ValueError for a non-positive or NaN step or one larger than the span.",
  ["inputs", "configurations"], "every start, end, step size and storage frequency in double precision",
  "Floating-point accumulation shows only for particular h and spans; tests use a few round numbers.",
  [R + "solvercs.py"], [("time loop", "evolve")])
p("P15", "Caller data and stored snapshots are never modified",
  "Stepping and evolving never modify the initial state, the operator or arrays returned by the nonlinear function, and a stored snapshot keeps the value it had when it was stored, however many further steps, rejections and runs follow.",
  ["histories", "inputs"], "every solver, form, history of steps and storage frequency, including nonlinear functions that return the same array or their argument",
  "Aliasing only shows if a buffer is re-used at a later step; tests look at final values.",
  METH + [R + "solveras.py", R + "solvercs.py"], [("work arrays and in-place updates", "update_stages and coefficient updates"), ("snapshot storage", "evolve")])
p("P16", "Configuration values are validated and a rejected assignment changes nothing",
  "Every configuration parameter accepts exactly the documented range for every double including infinities and NaN, at construction and at assignment; a rejected value raises and leaves the previous value in place, an accepted value is read back, and parameters left out take the documented defaults.",
  ["inputs", "histories"], "every double, integer and sequence of assignments",
  "Tests try one or two bad values per parameter.",
  [R + "solveras.py", R + "etd.py"], [("property setters", "SolverConfig, ETDConfig")])
p("P17", "Ill-formed problems are refused at construction and solver kinds are reported",
  "Constructing a solver succeeds for exactly the one-dimensional and square two-dimensional operators (one-dimensional only for IF45DP), a request to diagonalize is refused for numerically singular matrices and makes no difference for one-dimensional operators, and every solver reports whether it is constant-step or adaptive.",
  ["inputs", "configurations"], "every operator shape and condition number",
  "Tests try single shapes and one singular matrix.",
  [R + "solver.py", R + "util/solver_type.py"] + METH, [("shape and condition checks", "constructors"), ("kind detection", "solver_type, SolverType.from_solver")])
p("P18", "Fourier derivatives are exact on every band-limited function",
  "On every grid the library builds, the Fourier derivatives of any order, with the wavenumbers of the grid (or of numpy for odd sizes), return the exact derivative of every real (rfft) or complex (fft) trigonometric polynomial below the Nyquist mode, for any interval, order zero returning the function itself, without modifying the input.",
  ["inputs"], "every coefficient vector, interval [a,b] and order within the grid-size bounds",
  "Tests differentiate sin and cos on one or two grids.",
  [R + "derivatives.py", R + "grids.py"], [("wavenumbers and transforms", "dx_rfft, dx_fft, construct_x_kx_rfft, construct_x_kx_fft")])
p("P19", "Chebyshev differentiation is exact on every polynomial the grid can hold",
  "On a Chebyshev grid of n+1 points on any interval [a,b], the differentiation matrix and its powers return the exact derivatives of every polynomial of degree at most n, for vectors and for each column of a matrix.",
  ["inputs"], "every polynomial, every interval, grid sizes and orders within bounds",
  "Tests use one function and loose tolerances.",
  [R + "derivatives.py", R + "grids.py"], [("differentiation matrix", "construct_x_dx_cheb, construct_x_cheb, dx_cheb")])
p("P20", "Grids have the requested points, spacing and matching wavenumbers",
  "For every interval, uniform grids have exactly n points starting at a with spacing (b-a)/n and wavenumbers 2*pi*k/(b-a) in transform order; Chebyshev grids run from a to b monotonically with n+1 points; invalid sizes are refused.",
  ["inputs"], "every interval endpoints in double precision, sizes within bounds",
  "Floating-point ranges gain or lose a point only for particular intervals.",
  [R + "grids.py"], [("grid constructors", "construct_x_kx_rfft, construct_x_kx_fft, construct_x_cheb")])
p("P21", "The Hankel transform pair inverts and stays consistent after reconfiguration",
  "The inverse Hankel transform undoes the forward transform up to the accuracy of the quasi-discrete transform for every function vector, is linear and scales as rmax^2, and changing nr or rmax leaves an object identical to a freshly built one; returned matrices are copies and invalid values are refused without changing the object.",
  ["inputs", "histories"], "every function vector, positive radius and sequence of reconfigurations within size bounds",
  "Tests transform one Gaussian and set each property once.",
  [R + "transforms.py", R + "grids.py"], [("transform matrix and setters", "HankelTransform")])
p("P22", "Mirroring produces the even extension on the symmetric grid",
  "Mirroring a radial grid and a function along an axis gives -r reversed followed by r and the correspondingly reflected values followed by the original ones, for every data vector or matrix and each axis, leaving the inputs untouched.",
  ["inputs"], "every grid and data values, shapes within bounds, each axis",
  "Tests mirror one or two small arrays.",
  [R + "grids.py"], [("mirror_grid", "rkstiff/grids.py mirror_grid")])
p("P23", "The model problems are the equations they are documented to be",
  "For every band-limited state the KdV and Burgers operators reproduce u_t = -6 u u_x - u_xxx and u_t = -u u_x + mu u_xx, the Allen-Cahn operators reproduce eps v'' + v - v^3 with the boundary values of v = u + x, the nonlinear terms being the products at the grid points; the soliton formula satisfies the KdV equation for every amplitude, position and time, and a multi-soliton state is the sum of its single profiles.",
  ["inputs"], "every state within the grid-size bounds, every amplitude, position, time and coefficient",
  "Tests evaluate the formulas at single parameter values.",
  [R + "models.py"], [("operators and solutions", "kdv_ops, burgers_ops, allen_cahn_ops, kdv_soliton, kdv_multi_soliton")])
p("P24", "Logging never changes a result and never makes a computation fail",
  "At any log level, set at construction or later, including all progress and debug messages of long runs and of rejected steps, a computation takes the same steps and returns the same results as with logging off, and what is computed for a message never raises.",
  ["configurations", "histories"], "every level, every message actually emitted in runs of at least 200 steps",
  "Tests check that messages appear, not that emitting every one of them can never raise or alter state.",
  [R + "util/loghelper.py", R + "solver.py", R + "solveras.py", R + "solvercs.py"], [("progress messages", "evolve of both bases"), ("step messages", "step, _reject_step_size, _accept_step_size")])
p("P25", "Results do not depend on whether inputs arrive as integers, reals or complex",
  "Passing the same numbers as an integer, real or complex array for the state, the operator or the result of the nonlinear function gives the same step, and imaginary parts are never dropped.",
  ["inputs", "configurations"], "every combination of number types of state, operator and nonlinear values",
  "Work arrays of a fixed type only lose data for type combinations the tests do not use.",
  METH, [("work array types", "constructors and update_stages of the strategies")])
p("P26", "Uncoupled modes step exactly as if each were solved alone",
  "A diagonal problem, or one with a block-diagonal operator, whose nonlinear function couples unknowns only within a block, gives in every block the states and error estimates that the block gives on its own, for any number of unknowns, any mixture of rates on both sides of the contour cutoff, real and complex operators, after rejected attempts and changes of step size.",
  ["inputs", "histories"], "every state and every block-wise nonlinear function, problem sizes within bounds",
  "Tests use one problem size per solver and never compare a mode with its solo run.",
  METH, [("coefficients per mode, contour selection", "constructors and coefficient updates of every strategy")])
p("P27", "Stepping commutes with changes of units, labels and conjugation",
  "Measuring time in another unit (L and N multiplied, h divided by it), scaling each unknown by its own factor, reordering the unknowns, or conjugating the problem changes the computed states and error estimates in exactly the same way, for every solver and operator form, on first steps, after rejections and on later steps.",
  ["inputs", "histories"], "every operator, state, nonlinear function, step size, unit and scale factor",
  "A coefficient that ignores an imaginary part, uses an absolute threshold or mixes up an index is right on particular units and orders.",
  METH, [("stages and coefficients", "update_stages and coefficient updates of every strategy")])
p("P28", "Conserved and decaying linear functionals are followed exactly",
  "If a linear functional w of the solution satisfies w(Lu) = mu w(u) and w(N(u)) = 0, every step of every solver multiplies it by exp(mu h) exactly, in particular conserves it when mu = 0, and the error estimate carries nothing of it; so total mass, momentum or a phase-locked mode is kept along accepted and rejected attempts.",
  ["inputs", "histories"], "every operator with the given left eigenvector, every nonlinear function it annihilates, every state and step size",
  "Tests compare solutions to a tolerance and never look at invariants.",
  METH, [("stages and coefficients", "update_stages of every strategy")])
p("P29", "Ill-formed orders, shapes and lengths are refused and never broadcast",
  "A Fourier derivative is computed exactly when the wavenumbers have the one shape that matches the transform of the input, a Chebyshev derivative exactly when the matrix is square and fits a vector or the columns of a matrix; every other shape, every negative order and complex input of the real transform raise ValueError or TypeError as documented, non-integer orders raise TypeError, and soliton amplitudes and positions of different number are refused.",
  ["inputs"], "every array content, every negative order, every combination of shapes within bounds",
  "Tests try one mismatched shape per function; broadcasting makes particular wrong shapes pass silently.",
  [R + "derivatives.py", R + "models.py"], [("argument checks", "dx_rfft, dx_fft, dx_cheb, kdv_multi_soliton")])
p("P30", "Fourier operators commute with grid shifts and reflections on every array",
  "For every data array, content at the Nyquist wavenumber included, and every interval length: the Fourier derivatives are linear, commute with cyclic shifts and with reflection (up to the sign of the order), sum to zero over the grid, obey summation by parts, and the complex transform's real part agrees with the real transform on real data; the KdV and Burgers nonlinearities of every real field keep the mean, commute with shifts, change sign under reflection and are quadratic.",
  ["inputs"], "every real or complex array, every interval length, orders and sizes within bounds",
  "Tests differentiate smooth functions, which have no content at the highest wavenumbers.",
  [R + "derivatives.py", R + "models.py", R + "grids.py"], [("spectral derivatives and nonlinearities", "dx_rfft, dx_fft, kdv_ops, burgers_ops")])
p("P31", "Runs can be shifted, stored, stopped and restarted without changing the path",
  "The trajectory of evolve does not depend on the start time, on whether or how often snapshots are stored, or on what the run is split into: stopping at a snapshot gives the same states up to there, and restarting from any snapshot with the step that followed it, on the same or a new solver, reproduces the remaining times and states.",
  ["inputs", "histories"], "every state, nonlinear function, start time and sequence of controller verdicts within bounds, every snapshot",
  "Tests run evolve once per configuration and compare end values to a tolerance.",
  METH + [R + "solvercs.py", R + "solveras.py"], [("evolution loops and cached stages", "evolve, reset, _update_stages")])
p("P32", "A step of length zero changes nothing and a negative one is refused",
  "For every solver and operator form, a step of length zero returns the state unchanged with a zero error estimate, a step of negative or NaN length is refused, and after either the following steps are exactly those that would have been taken without it.",
  ["inputs", "histories"], "every state, nonlinear function and negative length; zero steps at the start, after accepted and after rejected attempts, repeated",
  "Tests refuse one negative length on one solver and never step by zero.",
  METH + [R + "solvercs.py", R + "solveras.py"], [("step and cached coefficients", "step, _update_coeffs, _update_stages")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
