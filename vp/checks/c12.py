"""C12: every result states the true objective value and status of its point."""
import numpy as np
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    OptimizationResult,
    OptimizationResultStatus as Status,
    SolutionSample,
)

from vp import gen, menu
from vp.ref import C, I, build
from vp.results import check_result, points_equal

PROPERTY = "C12"
LEVEL = "exploration"
RULE = (
    "problems of the class of each optimizer (constrained, infeasible, mixed, both senses) solved "
    "by all optimizers with sub-solvers that answer anything, also infeasible points or nothing; "
    "every result judged against the reference model; result objects made by hand; non-trivial: a "
    "problem with constraints; distinct by optimizer and problem"
)
CASES = {"quick": 1690, "thorough": 20280}
REQUIRED = {
    "result": 900,
    "result:feasible": 400,
    "result:infeasible": 150,
    "result:failure": 15,
    "sample": 2000,
    "maximize": 250,
    "integer-variables": 100,
    "by-hand": 300,
}
REQUIRED.update({"solved:" + k: 20 for k in menu.KINDS})


def by_hand(rng, mon):
    """Access to results made by hand."""
    ref = gen.qp(rng, n=rng.choice([1, 2, 4, 11]), max_lin=0, max_quad=0)
    qp = build(ref, rng)
    x = [rng.choice([0.0, 1.0, -2.5, 7.0]) + i * 10 for i in range(ref.n)]
    value = float(ref.values(np.array([x]))[0])
    status = rng.choice(list(Status))
    given = rng.choice([list, np.array])(x)
    raw = object()
    kw = {}
    if rng.random() < 0.5:
        kw["samples"] = [
            SolutionSample(np.array(x), value, 0.25, status),
            SolutionSample(np.array(x) + 1, value + 1, 0.75, status),
        ]
    res = OptimizationResult(given, value, qp.variables, status, raw, **kw)
    mon.event("by-hand")
    text = "{} {}".format(x, ref)
    mon.check(points_equal(res.x, x), "point", text)
    mon.equal(res.fval, value, "value", text)
    mon.equal(res.status, status, "status", text)
    mon.check(res.raw_results is raw, "raw-results", text)
    names = [v.name for v in ref.vars]
    mon.equal(list(res.variable_names), names, "names", text)
    for i, name in enumerate(names):
        mon.check(res[i] == x[i] and res[name] == x[i], "access", text)
        mon.equal(res.variables_dict[name], x[i], "dict", text)
    mon.raises(IndexError, lambda: res[ref.n], "bad-position", text)
    mon.raises(KeyError, lambda: res["no such variable"], "bad-name", text)
    mon.raises(TypeError, lambda: res[1.5], "bad-key", text)
    if not kw:
        mon.equal(len(res.samples), 1, "default-samples", text)
        s = res.samples[0]
        mon.check(
            points_equal(s.x, x) and s.fval == value and s.probability == 1 and s.status == status,
            "default-sample",
            text,
        )
    else:
        mon.equal(len(res.samples), 2, "samples", text)
    wrong = x + [1.0] if rng.random() < 0.5 else x[:-1]
    mon.raises(
        QiskitOptimizationError,
        lambda: OptimizationResult(wrong, value, qp.variables, status),
        "wrong-length",
        text,
    )


def run_case(rng, mon, k, tier):
    which = menu.kind(rng)
    seed = rng.randrange(10 ** 6)
    opt = menu.make(which, seed)
    res = None
    for _ in range(rng.choice([1, 1, 2])):
        ref = menu.problem(rng, which)
        text = "{} {} {}".format(which, seed, ref)
        mon.note(text)
        qp = build(ref, rng)
        if which == "cplex" and any(
            ref.vars[i].type == I or ref.vars[j].type == I for i, j in ref.quad
        ):
            continue
        res = opt.solve(qp)
        mon.event("solved:" + which)
        if ref.sense == -1:
            mon.event("maximize")
        if any(v.type == I for v in ref.vars):
            mon.event("integer-variables")
        if any(v.type == C for v in ref.vars) and res.x is not None:
            if not np.all(np.isfinite(np.asarray(res.x, dtype=float))):
                mon.event("diverged")
                mon.equal(res.status, Status.INFEASIBLE, "undefined-point", text)
                continue
        check_result(mon, res, ref, qp, text, tol=1e-7)
        if ref.cons:
            mon.seen((which, ref.key()))
    if rng.random() < 0.5:
        by_hand(rng, mon)
    if k < 3:
        mon.sample({"case": text[:300], "x": str(getattr(res, "x", None))})
