"""C13: with an exact eigensolver the minimum-eigen optimizer is exact."""
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResultStatus as Status
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vp import gen
from vp.checks.c10 import bound, problem
from vp.ref import B, build, num
from vp.results import check_result
from vp.stubs import Eigensolver, exact, tie

PROPERTY = "C13"
LEVEL = "exploration"
RULE = (
    "random compatible problems solved with eigensolvers that return exact ground states (one of "
    "them or superpositions, in every state representation) and with the library's exact solver, "
    "penalties and converters varied, optimizer reused; compared with enumeration; eigensolver "
    "without a state injected; non-trivial: a constraint; distinct by problem"
)
CASES = {"quick": 3620, "thorough": 43440}
REQUIRED = {
    "optimal": 400,
    "no-feasible-point": 15,
    "no-state": 50,
    "no-state:reused": 50,
    "numpy": 40,
    "converters:single": 50,
    "converters:list": 50,
    "converters:empty": 30,
    "maximize": 150,
    "reused": 100,
    "fixed-binary": 100,
}


def converters(rng, mon, ref, penalty):
    roll = rng.random()
    if not ref.cons and all(v.type == B and v.lb < v.ub for v in ref.vars) and roll < 0.4:
        mon.event("converters:empty")
        return {"converters": []}
    if roll < 0.5:
        mon.event("converters:default")
        return {"penalty": penalty} if penalty is not None else {}
    if roll < 0.75:
        mon.event("converters:single")
        return {"converters": QuadraticProgramToQubo(penalty)}
    mon.event("converters:list")
    return {
        "converters": [
            InequalityToEquality("integer"),
            IntegerToBinary(),
            LinearEqualityToPenalty(penalty),
        ]
    }


def judge(rng, mon, opt, ref, text):
    qp = build(ref, rng)
    res = opt.solve(qp)
    check_result(mon, res, ref, qp, text)
    best, _ = ref.optimum()
    if ref.sense == -1:
        mon.event("maximize")
    if best is None:
        mon.event("no-feasible-point")
        mon.equal(res.status, Status.INFEASIBLE, "status-of-infeasible-problem", text)
        return
    mon.event("optimal")
    mon.equal(res.status, Status.SUCCESS, "status", text)
    # rounding in the operator, whose weights the penalties dominate
    calls = getattr(opt.min_eigen_solver, "calls", None)
    noise = 1e-9 * (1 + abs(float(best))) + (10 * tie(calls[-1][1]) if calls else 0)
    x = [round(float(a)) for a in res.x]
    mon.check(bool(ref.feasible_mask(np.array([x], dtype=float))[0]), "not-feasible", text)
    for val in (res.fval, ref.values(np.array([x], dtype=float))[0]):
        mon.check(
            abs(float(val) - float(best)) <= noise,
            "not-optimal",
            lambda: "{} x={} value {} optimum {}".format(text, res.x, val, best),
        )
    if ref.cons:
        mon.seen(ref.key())


def run_case(rng, mon, k, tier):
    max_bits = 11 if tier == "quick" else 12
    ref = problem(rng, max_bits, mon=mon)
    penalty = None
    if rng.random() < 0.25:
        penalty = num(bound(ref) + rng.choice([0, 3]))
    kw = converters(rng, mon, ref, penalty)
    text = "{} {}".format(kw, ref)
    mon.note(text)
    numpy_solver = k % 8 == 0
    if numpy_solver:
        ref = problem(rng, 6, mon=mon)
        kw = converters(rng, mon, ref, None)
        text = "numpy {} {}".format(kw, ref)
        mon.event("numpy")
        solver = NumPyMinimumEigensolver()
    else:
        solver = Eigensolver(rng, exact(rng))
    opt = MinimumEigenOptimizer(solver, **kw)
    judge(rng, mon, opt, ref, text)
    if rng.random() < 0.4 and kw.get("converters") != [] and penalty is None and not numpy_solver:
        mon.event("reused")
        ref2 = problem(rng, max_bits, mon=mon)
        judge(rng, mon, opt, ref2, "reused {} after {}".format(ref2, text))
    if rng.random() < 0.2:
        mon.event("no-state")
        if rng.random() < 0.5:
            opt = MinimumEigenOptimizer(Eigensolver(rng, lambda n, e: None))
        else:  # the optimizer that has just solved problems, this one among them
            mon.event("no-state:reused")
            if rng.random() < 0.5:
                opt.min_eigen_solver.choose = lambda n, e: None
            opt.min_eigen_solver = Eigensolver(rng, lambda n, e: None)
        qp = build(ref, rng)
        res = opt.solve(qp)
        mon.equal(res.status, Status.FAILURE, "failure-status", text)
        mon.check(res.x is None and res.fval is None, "failure-with-point", text)
        check_result(mon, res, ref, qp, text)
        mon.check(res.min_eigen_solver_result is not None, "no-eigensolver-result", text)
    if k < 3:
        mon.sample({"problem": repr(ref)[:300]})
