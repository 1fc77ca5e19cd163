"""C25: the CPLEX optimizer solves the stated problem."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization.algorithms import CplexOptimizer, OptimizationResultStatus as Status
from scipy.optimize import Bounds, LinearConstraint, milp

from vp import gen
from vp.ref import B, C, I, build
from vp.results import check_result

PROPERTY = "C25"
LEVEL = "exploration"
RULE = (
    "discrete problems with linear constraints (quadratic objectives in binary variables, convex "
    "ones in integer variables) compared with enumeration, and mixed linear problems compared with "
    "an independent solver (HiGHS); non-trivial: a constraint; distinct by problem"
)
CASES = {"quick": 5000, "thorough": 60000}
REQUIRED = {
    "optimal": 400,
    "mixed": 80,
    "no-feasible-point": 20,
    "maximize": 250,
    "quadratic": 100,
    "integer-variables": 150,
    "reused": 50,
}
ASSUMPTIONS = ["CPLEX's default relative gap of 1e-4 and tolerances of 1e-6 around its answers"]


def discrete(rng):
    types = rng.choice([(B,), (B,), (B, I), (I,)])
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 4, 5, 6, 8, 10]),
        types=types,
        max_lin=rng.choice([0, 1, 2, 3]),
        max_quad=0,
        width=5,
        style=rng.choice(["small", "dyadic", "sparse", "pos"]),
        con_style=rng.choice(["small", "dyadic", "sparse", "pos"]),
        max_points=3000,
        feasible_bias=0.9,
    )
    ints = {i for i, v in enumerate(ref.vars) if v.type == I}
    # convex in the integer variables
    ref.quad = {
        (i, j): (abs(v) * ref.sense if i in ints else v)
        for (i, j), v in ref.quad.items()
        if i == j or not {i, j} & ints
    }
    return ref


def mixed(rng):
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 5, 8]),
        types=rng.choice([(C,), (B, C), (B, I, C)]),
        max_lin=rng.choice([0, 1, 2, 4]),
        max_quad=0,
        width=5,
        style="small",
        con_style=rng.choice(["small", "dyadic"]),
        feasible_bias=0.95,
    )
    ref.quad = {}
    return ref


def reference(ref):
    """Value that a feasible point of a mixed linear problem attains, None if none is known."""
    c = np.zeros(ref.n)
    for i, v in ref.lin.items():
        c[i] = float(v) * ref.sense
    cons = []
    for con in ref.lcons:
        row = np.zeros(ref.n)
        for i, v in con.lin.items():
            row[i] = float(v)
        r = float(con.rhs)
        cons.append(
            LinearConstraint(
                row, -np.inf if con.sense == "<=" else r, np.inf if con.sense == ">=" else r
            )
        )
    sol = milp(
        c,
        constraints=cons,
        bounds=Bounds([float(v.lb) for v in ref.vars], [float(v.ub) for v in ref.vars]),
        integrality=[0 if v.type == C else 1 for v in ref.vars],
    )
    if sol.status != 0 or not within(ref, sol.x):
        return None
    return ref.sense * sol.fun + float(ref.const)


def within(ref, x, tol=1e-5):
    """x is feasible for a mixed linear problem, within tolerance."""
    for c in ref.lcons:
        gap = sum(float(v) * x[i] for i, v in c.lin.items()) - float(c.rhs)
        if (c.sense != ">=" and gap > tol) or (c.sense != "<=" and gap < -tol):
            return False
    return all(
        float(v.lb) - tol <= a <= float(v.ub) + tol and (v.type == C or abs(a - round(a)) <= tol)
        for v, a in zip(ref.vars, x)
    )


def unscaled(res):
    """CPLEX says itself that its answer violates the problem (statuses 5 and 115)."""
    try:
        return res.raw_results.get_status() in (5, 115)
    except Exception:  # pylint: disable=broad-except
        return False


def judge(rng, mon, opt, ref, is_mixed):
    qp = build(ref, rng)
    text = repr(ref)
    mon.note(text)
    res = opt.solve(qp)
    if ref.sense == -1:
        mon.event("maximize")
    if ref.quad:
        mon.event("quadratic")
    if any(v.type == I for v in ref.vars):
        mon.event("integer-variables")
    if is_mixed:
        best = reference(ref)
        mon.event("mixed" if best is not None else "mixed:no-reference")
    else:
        best, _ = ref.optimum()
    check_result(mon, res, ref, qp, text, tol=1e-6)
    if unscaled(res):
        mon.event("cplex-infeasible")
        return
    if best is None and not is_mixed:
        mon.event("no-feasible-point")
        mon.check(
            res.status == Status.FAILURE and res.x is None,
            "answer-to-infeasible-problem",
            lambda: "{} {}".format(res.x, text),
        )
        return
    if best is not None:
        mon.event("optimal")
        mon.check(res.x is not None, "no-answer", text)
        # a better value than the reference's is for the feasibility check to judge
        worse = ref.sense * (res.fval - best)
        mon.check(
            worse <= 2e-4 * max(1.0, abs(best)),
            "not-optimal",
            lambda: "{} at {}, {} possible {}".format(res.fval, res.x, best, text),
        )
    if res.x is None:
        return
    mon.check(within(ref, res.x), "not-feasible", lambda: "{} {}".format(res.x, text))
    if not is_mixed:
        x = np.array([[float(round(a)) for a in res.x]])
        mon.check(bool(ref.feasible_mask(x)[0]), "not-feasible", lambda: "{} {}".format(x, text))
    if ref.lcons:
        mon.seen(ref.key())


def run_case(rng, mon, k, tier):
    disp = rng.random() < 0.1
    opt = CplexOptimizer(disp=disp)
    if rng.random() < 0.1:
        disp = not disp
        opt.disp = disp
    mon.equal(opt.disp, disp, "setting")
    for r in range(rng.choice([1, 1, 2])):
        if r:
            mon.event("reused")
        is_mixed = rng.random() < 0.3
        judge(rng, mon, opt, mixed(rng) if is_mixed else discrete(rng), is_mixed)
    if k < 3:
        mon.sample({"case": k})
