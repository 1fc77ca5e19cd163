"""C23: Goemans-Williamson returns genuine cuts with their true values."""
import cvxpy
import networkx as nx
import numpy as np
from qiskit_optimization import QuadraticProgram
from qiskit_optimization.algorithms import (
    GoemansWilliamsonOptimizer,
    OptimizationResultStatus as Status,
)
from qiskit_optimization.applications import Maxcut

from vp.checks.c19 import graph
from vp.ref import B, RefQP, RefVar, build, frac, read
from vp.results import check_result

PROPERTY = "C23"
LEVEL = "exploration"
RULE = (
    "weighted graphs (negative, fractional, zero weights, no edges, several components) as max-cut "
    "programs made by the application or entered by hand, all combinations of sorting, uniqueness "
    "and number of cuts, seeds, solver failures injected; every sample compared with the weight of "
    "its cut; non-trivial: at least two samples; distinct by graph and samples"
)
CASES = {"quick": 3250, "thorough": 39000}
REQUIRED = {
    "solved": 250,
    "samples": 2000,
    "sorted": 80,
    "unsorted": 80,
    "unique": 80,
    "repeats-allowed": 80,
    "failure": 60,
    "same-seed": 40,
    "by-hand": 60,
    "good-cut": 30,
    "all-cuts": 100,
}
FAULTS = [cvxpy.SolverError, cvxpy.error.DCPError, cvxpy.error.DGPError]


def program(rng, mon, edges, n, arg):
    if rng.random() < 0.6:
        return Maxcut(arg).to_quadratic_program()
    mon.event("by-hand")
    ref = RefQP("cut")
    ref.vars = [RefVar("v{}".format(n - i), B, 0, 1) for i in range(n)]
    ref.sense = -1
    for (i, j), w in edges.items():
        if i != j:
            for t in (i, j):
                ref.lin[t] = ref.lin.get(t, 0) + frac(w)
            ref.quad[i, j] = -2 * frac(w)
    return build(ref, rng)


def run_case(rng, mon, k, tier):
    arg, edges, n = graph(rng, mon, max_n=9)
    qp = program(rng, mon, edges, n, arg)
    ref = read(qp)
    num = rng.choice([1, 2, 3, 5, 10, 25])
    sort, unique = rng.random() < 0.5, rng.random() < 0.5
    seed = rng.choice([0, 1, 7, rng.randrange(10 ** 6)])
    text = "cuts={} sort={} unique={} seed={} n={} {}".format(num, sort, unique, seed, n, edges)
    mon.note(text)

    def make():
        if sort and unique and rng.random() < 0.5:
            return GoemansWilliamsonOptimizer(num, seed=seed)
        return GoemansWilliamsonOptimizer(num, sort_cuts=sort, unique_cuts=unique, seed=seed)

    opt = make()
    res = opt.solve(qp)
    mon.event("solved")
    mon.equal(res.status, Status.SUCCESS, "status", text)
    check_result(mon, res, ref, qp, text, tol=1e-7)
    samples = res.samples
    mon.event("samples", len(samples))
    mon.event("sorted" if sort else "unsorted")
    mon.event("unique" if unique else "repeats-allowed")

    def cut(x):
        return sum(w for (i, j), w in edges.items() if x[i] != x[j])

    points = []
    for s in samples:
        x = tuple(float(a) for a in s.x)
        mon.check(
            len(x) == n and all(a in (0.0, 1.0) for a in x),
            "not-a-cut",
            lambda: "{} {}".format(x, text),
        )
        mon.close(s.fval, cut(x), "cut-value", "{} {}".format(x, text), 1e-9)
        mon.close(s.probability, 1 / len(samples), "probability", text, 1e-9)
        mon.equal(s.status, Status.SUCCESS, "sample-status", text)
        points.append(x)
    mon.check(1 <= len(points) <= num, "sample-count", lambda: "{} {}".format(len(points), text))
    if not unique:
        mon.equal(len(points), num, "sample-count", text)
    if sort:
        vals = [s.fval for s in samples]
        mon.check(
            all(a >= b - 1e-9 for a, b in zip(vals, vals[1:])),
            "not-sorted",
            lambda: "{} {}".format(vals, text),
        )
    if unique:
        keys = [min(x, tuple(1 - a for a in x)) for x in points]
        mon.check(len(set(keys)) == len(keys), "repeated-cut", lambda: "{} {}".format(points, text))
    mon.check(
        tuple(float(a) for a in res.x) == points[0] and abs(res.fval - samples[0].fval) < 1e-9,
        "first-sample",
        lambda: "{} {} {}".format(res.x, points[0], text),
    )
    chi = res.sdp_solution
    mon.check(
        chi is not None and np.allclose(np.diag(chi), 1, atol=1e-3) and chi.shape == (n, n),
        "relaxation",
        lambda: "{} {}".format(chi, text),
    )
    if rng.random() < 0.35:
        # the same hyperplanes without leaving any cut out: none is lost, each as often as drawn
        mon.event("all-cuts")
        full = GoemansWilliamsonOptimizer(num, sort_cuts=not sort, unique_cuts=False, seed=seed)
        drawn = [tuple(float(a) for a in s.x) for s in full.solve(qp).samples]
        if unique:
            mon.equal(
                set(keys),
                set(min(x, tuple(1 - a for a in x)) for x in drawn),
                "cut-lost",
                "{} {} {}".format(points, drawn, text),
            )
        else:
            mon.equal(sorted(drawn), sorted(points), "cut-lost", text)
    # the relaxation bounds every cut
    total = sum(abs(w) for w in edges.values()) + 1
    bound = sum(w * (1 - chi[i, j]) / 2 for (i, j), w in edges.items() if i != j)
    best = max(
        cut([(b >> i) & 1 for i in range(n)]) for b in range(2 ** (n - 1) if n > 1 else 1)
    )
    mon.check(
        best <= bound + 2e-2 * total,
        "relaxation-below-cut",
        lambda: "{} < {} {}".format(bound, best, text),
    )
    if num == 25 and sort and best > 0 and all(w >= 0 for w in edges.values()):
        # one of many cuts is at least half of the best but for a negligible probability
        mon.event("good-cut")
        mon.check(
            res.fval >= 0.5 * best - 1e-9, "poor-cuts", lambda: "{} {} {}".format(res.fval, best, text)
        )
    if len(points) > 1:
        mon.seen((tuple(sorted(edges.items())), tuple(points)))
    if rng.random() < 0.3:
        mon.event("same-seed")
        np.random.rand(5)
        again = make().solve(qp)
        mon.equal(
            [tuple(float(a) for a in s.x) for s in again.samples], points, "seed", text
        )
    if rng.random() < 0.35:
        mon.event("failure")
        fault = rng.choice(FAULTS)
        saved = cvxpy.Problem.solve

        def fail(self, *args, **kw):
            raise fault("injected")

        opt = make()
        cvxpy.Problem.solve = fail
        try:
            res = opt.solve(qp)
        finally:
            cvxpy.Problem.solve = saved
        mon.equal(res.status, Status.FAILURE, "failure-status", text)
        mon.check(res.x is None, "failure-with-point", text)
        mon.check(len(res.samples or []) == 0 or all(s.x is None for s in res.samples),
                  "failure-with-samples", text)
        mon.equal([v.name for v in res.variables], [v.name for v in ref.vars], "variables", text)
        res = opt.solve(qp)
        mon.equal(res.status, Status.SUCCESS, "recovery", text)
    if k < 3:
        mon.sample({"graph": text[:300]})
