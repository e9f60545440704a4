S = "src/ellalgo/"
PF = S + "oracles/profit_oracle.py"
LP = S + "oracles/lowpass_oracle.py"
PROPS = [
 ("C17", "Profit oracle accepts exactly profitable feasible points and cuts validly",
  "The profit oracle accepts a point exactly if it respects the input limit and its profit is at least the given level; otherwise its cut has a positive offset and is satisfied by every point that does. An accepted point raises the level to its true profit, never lowers it, and the optimality cut is satisfied by every feasible point that is at least as profitable. Answers do not depend on earlier queries and no input is modified.",
  ["inputs", "histories"], "every parameter set with positive prices, every point, every level >= 0, any earlier query", "tests maximise one instance and compare iteration counts; property-based ones sample types and signs", [(PF, "ProfitOracle.assess_feas, assess_optim, fn1, fn2, grad1, grad2")], ["assess_feas(), assess_optim()"]),
 ("C18", "Robust profit oracle guarantees its level for every parameter in the box",
  "The robust oracle accepts a point exactly if it respects the limit and reaches the level for the worst parameters in the uncertainty box (elasticities, price, limit, input prices). The level it reports is the worst-case profit, so every parameter set in the box reaches it; its cuts keep every point that is feasible in the worst case. Answers do not depend on earlier queries and the nominal parameters are never modified.",
  ["inputs", "histories"], "every parameter set and uncertainty box, every point, every level >= 0, any earlier query", "tests maximise one instance and compare iteration counts", [(PF, "ProfitRbOracle.assess_optim, __init__")], ["assess_optim()"]),
 ("C19", "Discrete profit oracle offers the rounded point with its true profit",
  "A point that violates a constraint is cut off at that very point and reports no level. Otherwise the candidate is the nearest point with positive integer quantities, accepted exactly if it respects the limit and reaches the level, and then the level becomes its true profit and does not fall. A retry judges the candidate already offered and offers no further alternative; every cut is satisfied by every feasible point, at least as profitable as the new level if one is reported (except for the recorded finding: the sign of the offset correction for rounding).",
  ["inputs", "histories"], "every parameter set, point, level, retry flag, any earlier query", "one instance is maximised in the tests", [(PF, "ProfitQOracle.assess_optim_q")], ["assess_optim_q()"]),
 ("C20", "Low-pass oracle accepts exactly the filters that meet the specification",
  "The low-pass oracle accepts a coefficient vector exactly if its response lies within the passband bounds at every sampled passband frequency, between zero and the stopband bound at every sampled stopband frequency, is non-negative in between, and the first coefficient is non-negative. Otherwise its cut has a positive offset and keeps, between its two planes, every vector that meets the specification, wherever the round-robin scan stands from earlier queries. The standard case has the passband up to 0.12 pi with amplitudes from 1/1.025 to 1.025 and the stopband from 0.20 pi with amplitudes up to 0.125.",
  ["inputs", "histories", "configurations"], "every coefficient vector and bounds, listed lengths and band edges, any scan position", "the test designs one filter and compares iteration counts", [(LP, "LowpassOracle.assess_feas, __init__; create_lowpass_case")], ["assess_feas()"]),
 ("C21", "Low-pass optimisation reports the true worst stopband response",
  "The low-pass oracle judges a point against the stopband level it is given in that very query. For an accepted point the new level is the largest stopband response of the point, which is not above the given level, and its cut keeps every vector that meets the specification at the new level; for any other point the cut has a positive offset and keeps every vector that meets it at the given level.",
  ["inputs", "histories", "configurations"], "every coefficient vector, bounds and level, listed lengths and band edges, any earlier query", "the test designs one filter and compares iteration counts", [(LP, "LowpassOracle.assess_optim")], ["assess_optim()"]),
 ("C22", "Conjugate gradients return only true solutions, within n iterations",
  "Whatever the matrix, initial guess, tolerance and limit, a returned vector solves the system to the tolerance, and otherwise ValueError is raised. For a symmetric positive-definite matrix a limit of n iterations always suffices. Matrix, right-hand side and initial guess are not modified and may be arrays of integers.",
  ["inputs", "configurations"], "every symmetric system up to the stated size, every initial guess, tolerance and limit", "about ten fixed systems are tested", [(S + "conjugate_gradient.py", "conjugate_gradient")], ["returned vector, exception, arguments"]),
 ("C23", "The reconstructed auto-correlation is that of the impulse response",
  "Reconstructing the auto-correlation from an impulse response of length n gives exactly n coefficients, the one at lag t being the sum of products of entries t apart, and leaves the impulse response unmodified.",
  ["inputs"], "every impulse response up to the stated length", "a few fixed sequences are tested", [(S + "oracles/spectral_fact.py", "inverse_spectral_fact")], ["returned sequence"]),
 ("C28", "A search never loses a solution",
  "When the feasibility, optimisation or discrete search (or the bisection adaptor) runs on either search space, every point of the starting ellipsoid that satisfies all the cuts made so far lies in the current ellipsoid, and the oracle is always asked at the centre of that ellipsoid. The search gives up for lack of a solution only if no such point is left; the discrete search also if a cut with a negative offset has no effect and no alternative is left.",
  ["inputs", "histories"], "both search spaces, all four drivers, every point of the starting ellipsoid, any length and offset of the last cut", "the tests only see whether the final answer of a few problems is right; a lost solution shows only if it happens to be the optimum",
  [(S + "cutting_plane.py", "cutting_plane_feas / _optim / _optim_q / BSearchAdaptor hand the cuts to the space"), (S + "ell.py", "Ell.update_*"), (S + "ell_stable.py", "EllStable.update_*"), (S + "ell_calc.py", "EllCalc dispatches the cuts"), (S + "ell_calc_core.py", "closed formulas for the step, shape and scale")],
  ["points the oracle is asked at; xc() and shape of the space; point and iteration count returned"]),
 ("C27", "Spectral factorisation gives the minimum-phase response of the spectrum",
  "For every auto-correlation sequence of length n: the factorisation is refused with RuntimeError exactly if the spectrum, sampled at 100n equally spaced frequencies, is -1e-4 or less somewhere; empty or non-finite input gives ValueError. Otherwise it returns n real coefficients whose own spectrum at the n frequencies 2 pi k/n has the requested squared magnitude there (to within 1.1e-4 if some sample is not positive) and, if all samples are positive, the minimum phase, i.e. the discrete Hilbert transform of half the logarithm of the samples. The answer does not depend on earlier calls, and the input is not modified.",
  ["inputs", "histories"], "every real sequence of the stated lengths, earlier calls", "two or three fixed sequences are tested", [(S + "oracles/spectral_fact.py", "spectral_fact")], ["returned sequence, exception"]),
 ("C30", "The choice of coordinates does not matter",
  "Stating a cut in other units (gradient and offsets multiplied by the same positive number), or changing the coordinates by moving the origin, scaling the space or single axes, reflecting or reordering the axes, with the ellipsoid, the gradient and the cut transformed accordingly, gives the same status and the transformed centre and shape, and the stopping measure scales with the square of the unit of the cut only. This holds for every kind of cut on both search spaces, also after earlier cuts.",
  ["inputs", "histories", "configurations"], "every ellipsoid, gradient, offset and such change of coordinates in the stated dimensions", "the tests use a handful of well-scaled ellipsoids and gradients; an absolute threshold or a coordinate treated differently shows only for others",
  [(S + "ell.py", "Ell.update_*"), (S + "ell_stable.py", "EllStable.update_*"), (S + "ell_calc.py", "EllCalc"), (S + "ell_calc_core.py", "EllCalcCore")], ["status, xc(), tsq(), shape seen by probe cuts, of two runs"]),
 ("C31", "A search that stops at the tolerance is that accurate",
  "When the feasibility, optimisation or discrete search on either search space stops because of the tolerance, every point of the starting ellipsoid that satisfies all the cuts lies within the square root of the tolerance of the point asked about last, measured along the gradient of that last cut (so after an improvement of a linear objective no remaining point is better by more than that). The search stops as soon as that width is below the tolerance, and not while it is above.",
  ["inputs", "histories"], "both search spaces, all three drivers, every point of the starting ellipsoid, any tolerance, any length and offset of the last cut", "the tests compare iteration counts of a few problems at one tolerance; the accuracy of the answer for every other problem depends on driver, space and stopping measure together",
  [(S + "cutting_plane.py", "cutting_plane_feas / _optim / _optim_q compare tsq() with the tolerance"), (S + "ell.py", "Ell.tsq, update_*"), (S + "ell_stable.py", "EllStable.tsq, update_*")], ["questions put to the oracle; point and value returned"]),
 ("C29", "The response of a factorisation has the requested auto-correlation",
  "For every auto-correlation sequence whose spectrum is positive, the auto-correlation of the response returned differs from it only by the discretisation error.",
  ["inputs"], "every positive auto-correlation sequence", "a few fixed sequences are tested", [(S + "oracles/spectral_fact.py", "spectral_fact, inverse_spectral_fact")], ["returned sequences"]),
]
NA = [("C29", "C27 decides what spectral_fact does at its sample frequencies exactly. How far the linear auto-correlation then is from the requested one is the aliasing error of 100n logarithms of a trigonometric polynomial, an analytic bound that depends on the distance of its zeros from the unit circle: over unknowns for log and exp no solver here can bound it, and with concrete sequences it would not be a solver's verdict.")]
