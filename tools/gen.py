#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ellalgo/"
CALC = [(S + "ell_calc.py", "EllCalc dispatches one-sided, central and parallel cuts"), (S + "ell_calc_core.py", "closed formulas for the step, shape and scale")]
ELL = [(S + "ell.py", "Ell._update_core / update_bias_cut / update_central_cut / update_q"), (S + "ell_stable.py", "EllStable._update_core on LDL' factors")]
CP = S + "cutting_plane.py"
LD = S + "oracles/ldlt_mgr.py"

PROPS = [
 ("C01", "One-sided cuts never discard a point that satisfies the cut",
  "After a one-sided cut (central, deep, or the offset form that also takes negative offsets) that reports success, every point of the previous ellipsoid that satisfies the cut still lies in the new ellipsoid. This holds for both search-space implementations, for any ellipsoid, centre, gradient and offset, and after any earlier cuts.",
  ["inputs", "histories"], "every positive-definite shape, scale, centre, gradient, offset; any earlier cuts", "the tests run a few fixed problems to convergence and compare iteration counts; a lost point shows only if the optimum happens to be it",
  ELL + CALC, ["xc(), and the squared width along any direction, after the update"]),
 ("C02", "Parallel cuts never discard a point between the two planes",
  "After a parallel cut (deep, central or with a negative near offset) that reports success, every point of the previous ellipsoid that lies between the two planes still lies in the new ellipsoid. This holds for both search-space implementations and for every way of passing the two offsets (pair, list, array).",
  ["inputs", "histories"], "every ellipsoid, gradient and offset pair", "the tests use a handful of offset pairs against recorded numbers",
  ELL + CALC, ["xc() and shape after the update"]),
 ("C03", "Each successful cut gives the minimum-volume enclosing ellipsoid",
  "A successful one-sided or parallel cut moves the centre and shape to the minimum-volume ellipsoid around the part that is kept, in every dimension of at least two. So the volume shrinks with every successful central or deep cut.",
  ["inputs", "histories"], "every dimension n >= 2 (formulas), every ellipsoid, gradient, offset", "recorded numbers for a few dimensions and offsets do not determine the formula",
  CALC + ELL, ["rho, sigma, delta of the calculator; centre and shape of the space"]),
 ("C04", "Cut statuses are truthful and rejected cuts change nothing",
  "NoSoln is reported exactly when the kept part of the ellipsoid is empty, NoEffect exactly when a cut with a negative offset cannot shrink the ellipsoid, Success otherwise, and a zero gradient is refused with ValueError. A cut that is not successful leaves centre and shape as they were, and no update modifies the gradient or offsets it was given. Once earlier cuts have left no width along a direction, a cut along it moves nothing, and reports NoSoln exactly if it excludes what is left.",
  ["inputs", "histories"], "every ellipsoid, gradient, offset or offset pair, including the boundary cases", "tests check a few offsets away from the boundaries",
  CALC + ELL, ["returned status; centre and shape; the cut passed in"]),
 ("C05", "The plain and the stable ellipsoid are interchangeable",
  "Started from the same ellipsoid (built from a radius, a list or an array of squared semi-axes) and given the same cuts, as arrays of floats or of integers, the plain and the numerically stable search space report the same statuses and have the same centre, shape and stopping measure. The arrays a space is built from are never modified, so spaces built from the same arrays do not affect one another.",
  ["inputs", "histories"], "every ellipsoid and cut, with and without the deferral option", "tests compare iteration counts on a few problems", ELL, ["status, xc(), tsq(), shape"]),
 ("C06", "The search space stays a genuine ellipsoid",
  "After every successful cut that leaves a region with interior, the shape matrix is symmetric and positive definite and the scale is positive. Switching off the deferral of the scale factor changes only the representation, never the centre, shape or stopping measure.",
  ["inputs", "histories"], "every ellipsoid and cut", "no test inspects positive definiteness after cuts", ELL, ["shape matrix; centre; tsq()"]),
 ("C07", "Equivalent ways of stating a cut give the same result",
  "The offset-form update with non-negative offsets equals the deep-cut update, a central cut equals a deep cut with offset zero, a central slab equals a slab from zero, a slab whose far plane misses the ellipsoid equals the one-sided cut, and so does a slab with parallel cuts switched off or with a single offset.",
  ["inputs", "configurations"], "every dimension n >= 2, every ellipsoid and offset", "tests do not cross-check the entry points", CALC + ELL, ["status, centre, shape, tsq()"]),
 ("C08", "Feasibility search returns only points the oracle accepted",
  "The feasibility search returns a point only if the oracle accepted that very point, and gives up only because the space rejected a cut, became smaller than the tolerance, or the iteration limit was reached. Every cut is handed to the space once, unchanged and as a deep cut, and the reported iteration number is the (zero-based) one in which the search ended, or the limit.",
  ["schedules", "configurations"], "every sequence of oracle answers and space statuses, every tolerance and limit", "tests run a few real problems; most stopping orders never occur in them", [(CP, "cutting_plane_feas")], ["returned point, iteration count, calls made"]),
 ("C09", "Optimisation returns the last improvement and its objective",
  "The optimisation search returns the point and objective value of the last improvement the oracle reported, even though the space moves its centre afterwards, or no point if there was none, and asks the oracle with the best value so far. An improvement is followed by a central cut and anything else by a deep cut, and the search stops exactly when a cut is rejected, the space is smaller than the tolerance, or the limit is reached.",
  ["schedules", "configurations"], "every sequence of oracle answers and space statuses", "tests run a few problems and compare final numbers", [(CP, "cutting_plane_optim")], ["returned point, objective, iteration count, calls made"]),
 ("C10", "Discrete optimisation keeps point, objective and retry in step",
  "The discrete search returns the candidate and objective of the last improvement the oracle reported, or none. A cut without effect is retried only while the oracle offers alternatives, the retry flag is raised by exactly those cuts and cleared by a successful one, and otherwise the search stops only for a rejected cut, the tolerance or the limit.",
  ["schedules", "configurations"], "every sequence of oracle answers, alternatives and statuses", "the tests contain one discrete problem", [(CP, "cutting_plane_optim_q")], ["returned point, objective, iteration count, retry flags passed"]),
 ("C11", "Binary search converges on the threshold and never leaves the interval",
  "Every probe is the midpoint of the current interval, and the result is the last accepted value or the initial upper end. If the oracle accepts exactly the values from a threshold on, the result is accepted and within twice the tolerance of the threshold unless the limit was reached, in which case the limit is reported.",
  ["inputs", "schedules", "configurations"], "every interval, tolerance, limit and sequence of answers, whole-number and real intervals", "one or two intervals are tested", [(CP, "bsearch")], ["probes, result, iteration count"]),
 ("C12", "A binary-search query never corrupts the caller's search space",
  "Each query sets the oracle to the queried level before asking it, starts from the current centre on a private copy of the space, honours the options, and answers True exactly if a point was accepted. An accepted point becomes the new centre; the shape of the caller's space is never changed, and a refused query changes nothing.",
  ["histories", "schedules", "configurations"], "every sequence of queries and oracle answers", "the only test looks at one final value", [(CP, "BSearchAdaptor.assess_bs, deepcopy of the space"), (S + "ell.py", "set_xc, xc"), (S + "ell_stable.py", "set_xc, xc")], ["answers, x_best, centre and shape of the caller's space"]),
 ("C13", "LDL factorisation accepts exactly the positive-definite matrices",
  "Factorising a symmetric matrix, from an array or element by element, succeeds exactly if it is positive definite, whatever was factorised before on the same manager, and never modifies the matrix. On success the square root is the upper-triangular R with R'R equal to the matrix and asking for a certificate is refused with AssertionError; on failure the square root is refused with AssertionError.",
  ["inputs", "histories"], "every symmetric matrix up to the stated size, any earlier factorisations", "about ten fixed matrices are tested", [(LD, "factor, factorize, is_spd, sqrt")], ["returned flag, is_spd(), sqrt()"]),
 ("C14", "A failed factorisation yields a true certificate",
  "After a failed factorisation the certificate is a non-zero vector v (one entry per row) whose quadratic form with the matrix is minus the reported value, which is not negative. The quadratic form asked of the manager afterwards is that of the same v, for every matrix, whatever was factorised before.",
  ["inputs", "histories"], "every symmetric matrix that is not positive definite, up to the stated size", "three fixed matrices are tested", [(LD, "witness, sym_quad")], ["witness(), wit, pos, sym_quad()"]),
 ("C15", "LMI oracles accept exactly feasible points and cut validly",
  "Each matrix-inequality oracle accepts a point exactly if the constraint matrix there is positive definite; otherwise its cut has a non-negative offset (positive if the first failing pivot is negative) and is satisfied by every feasible point, strictly by every strictly feasible one. The answer does not depend on earlier queries, and no input is modified.",
  ["inputs", "histories"], "every set of symmetric coefficient matrices, every point, every feasible point, earlier queries", "tests solve one or two fixed problems", [(S + "oracles/lmi_oracle.py", "LMIOracle.assess_feas"), (S + "oracles/lmi_old_oracle.py", "LMIOldOracle.assess_feas"), (S + "oracles/lmi0_oracle.py", "LMI0Oracle.assess_feas")], ["assess_feas()"]),
 ("C16", "The three LMI oracles agree with one another",
  "The lazy and the explicit oracle give the same verdict and the same cut at every point, and the homogeneous oracle answers like the general one with zero constant term and negated coefficients. The matrices may be arrays of floats or of integers.",
  ["inputs", "histories"], "every set of symmetric matrices, every point", "tests compare iteration counts on one problem", [(S + "oracles/lmi_oracle.py", "LMIOracle"), (S + "oracles/lmi_old_oracle.py", "LMIOldOracle"), (S + "oracles/lmi0_oracle.py", "LMI0Oracle")], ["assess_feas()"]),
 ("C24", "Alternative cut formulas compute the same parameters",
  "The alternative formulations of the central, deep and parallel cut offered by the calculator core (fast and old variants) return the same step, shape and scale parameters for every dimension of at least two and every admissible offset.",
  ["inputs"], "every n >= 2, every tau > 0, every offset within the ellipsoid", "recorded values for a few offsets", [(S + "ell_calc_core.py", "EllCalcCore")], ["returned triples"]),
 ("C25", "Semidefinite factorisation accepts every PSD matrix, refuses with proof",
  "The variant that tolerates zero pivots accepts every positive-semidefinite symmetric matrix, decides positive definiteness whenever no pivot is exactly zero, and after a zero pivot accepts only if the rest of the matrix passes on its own. Every refusal comes with a vector whose quadratic form is strictly negative and equal to minus the reported value.",
  ["inputs", "histories"], "every symmetric matrix up to the stated size", "four fixed matrices are tested", [(LD, "factor_with_allow_semidefinite, witness")], ["returned flag, is_spd(), witness()"]),
 ("C26", "The stopping measure is the true squared width along the cut",
  "After an update the stopping measure reported by the search space is the squared half-width, along the gradient of that cut, of the ellipsoid as it was before the cut, whatever the status of the cut; before the first cut it is zero, and reading the state never changes it.",
  ["inputs", "histories"], "every ellipsoid, gradient and cut", "tests only use it as a stopping criterion", ELL, ["tsq()"]),
]

NA = []

NOTE = "all values within the bounds in the evidence (matrix sizes / dimensions / number of steps), over the reals: floating-point rounding is outside the claim. Trusted: the symbolic executor (its path models are replayed on the real code on every run), numpy shim, z3."


def extra():
    import importlib.util
    p = os.path.join(ROOT, "tools", "props2.py")
    if os.path.exists(p):
        s = importlib.util.spec_from_file_location("props2", p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        return m.PROPS, m.NA
    return [], []


def main():
    p2, na2 = extra()
    props = sorted(PROPS + p2)
    na = NA + na2
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, why, mech, obs in props:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": sorted({a for a, _ in mech}), "mechanism": [{"name": b, "where": a} for a, b in mech], "observe_at": obs, "hook_needed": None}}) + "\n")
    nas = {a for a, _ in na}
    checks = []
    for p in props:
        if p[0] in nas:
            continue
        assert os.path.exists(os.path.join(ROOT, "harness", p[0].lower() + ".py")), p[0]
        checks.append({"property": p[0], "quick_cmd": f"python3-vt check.py {p[0]} --tier quick", "thorough_cmd": f"python3-vt check.py {p[0]} --tier thorough",
                       "technique": "symbolic execution of the real Python source, claims decided by SMT (z3, cvc5), counterexamples replayed",
                       "level": "model_checking", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3-vt -B -c \"import z3, numpy; import symx.engine, symx.driver\"", "checks": checks,
         "not_applicable": [{"property": a, "reason": b} for a, b in na]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
